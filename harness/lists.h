// Well-formedness of the shared tables: every unit in exactly one list, no cycles, links inside the mapping.
#pragma once
#include "h.h"
template<class T> static inline T* habs(T*p){ return p?(T*)((char*)FlShm::pShmBase+(size_t)p):nullptr; }
struct Tally { int nf,no,nl,nm,nc,nw; int uf,uo,ul,um,uc,uw; };   // free / used units
static bool wf_ok; 
template<class T> static inline int wf_len(T*head,int max){ int n=0; for(T*p=habs(head);p;p=habs(p->next)){ if(!vp_mapped(p,sizeof(T))){ wf_ok=false; break; } if(++n>max){ wf_ok=false; break; } } return n; }
static inline Tally wf_tally(int max){ wf_ok=true; Tally t={}; auto*h=FlShm::pFlHead; t.nf=wf_len(h->file_lock_free,max); t.no=wf_len(h->offset_lock_free,max); t.nl=wf_len(h->locker_free,max); t.nm=wf_len(h->named_mutex_free,max); t.nc=wf_len(h->named_cond_free,max); t.nw=wf_len(h->waiter_free,max);
  t.uf=wf_len(h->file_lock_list,max); if(wf_ok) for(auto*f=habs(h->file_lock_list);f;f=habs(f->next)){ t.uo+=wf_len(f->offset_lock_list,max); if(!wf_ok) break; for(auto*o=habs(f->offset_lock_list);o;o=habs(o->next)){ t.ul+=wf_len(o->reader_list,max)+wf_len(o->writer_list,max); if(!wf_ok) break; } if(!wf_ok) break; }
  t.um=wf_len(h->named_mutex_list,max); t.uc=wf_len(h->named_cond_list,max); if(wf_ok) for(auto*c=habs(h->named_cond_list);c;c=habs(c->next)){ t.uw+=wf_len(c->waiter_list,max); if(!wf_ok) break; } return t; }
// lost: how many units of each kind a crash may have cost
static inline void wf_check(Sizes s,int lost,const char*bad,const char*cons){ Tally t=wf_tally(64); vp_assert(wf_ok,bad); 
  vp_assert(t.nf+t.uf<=s.file&&t.no+t.uo<=s.off&&t.nl+t.ul<=s.locker&&t.nm+t.um<=s.mtx&&t.nc+t.uc<=s.cond&&t.nw+t.uw<=s.waiter,bad);
  vp_assert(t.nf+t.uf>=s.file-lost&&t.no+t.uo>=s.off-lost&&t.nl+t.ul>=s.locker-lost&&t.nm+t.um>=s.mtx-lost&&t.nc+t.uc>=s.cond-lost&&t.nw+t.uw>=s.waiter-lost,cons); }

// Did the caller die inside one of the two windows in which a range's lock word and the locked mark of its locker disagree: right after changing the lock word?
static uint64_t crash_lv[8]; static int crash_nlv; static void*crash_base;
static inline void crash_watch(){ crash_base=FlShm::pShmBase; for(auto*o=habs(FlShm::pFlHead->offset_lock_free);o&&crash_nlv<8;o=habs(o->next)) crash_lv[crash_nlv++]=(char*)&o->lockval-(char*)crash_base; }
static inline bool crash_in_window(int tid){ uint64_t w=vp_lastw(tid,crash_base); for(int i=0;i<crash_nlv;i++) if(w==crash_lv[i]) return true; return false; }
