#include "lists.h"
// Reader/writer locks on file ranges under every interleaving: T callers each do R critical sections.
GHOST int nrd[2], nwr[2]; static int R, OPS, NR; GHOST int fdof[6]; static int first_,RO;
static Sizes SZ; static const off_t OFF[2]={0,10}; static const size_t LEN[2]={10,5};
static void crit(Api&s,int fd,int r,bool w){
  vp_assert(nwr[r]==0,"P04: somebody gets a lock on a range while a writer holds it"); if(w) vp_assert(nrd[r]==0,"P04: a writer gets the lock on a range while a reader holds it");
  if(w) nwr[r]++; else nrd[r]++; vp_visible(1); if(w){ vp_assert(nwr[r]==1&&nrd[r]==0,"P04: a writer is not alone on its range"); nwr[r]--; } else { vp_assert(nwr[r]==0,"P04: a writer gets the lock on a range while a reader holds it"); nrd[r]--; }
  int g=s.Unlock(fd,OFF[r],LEN[r]); vp_assert(g==0,"P04: the holder's unlock fails"); }
static int call(Api&s,int op,int fd,off_t o,size_t l){ switch(op){ case 0: return s.ReadLock(fd,o,l); case 1: return s.WriteLock(fd,o,l); case 2: return s.TryReadLock(fd,o,l); case 3: return s.TryWriteLock(fd,o,l); case 4: return s.TimeoutReadLock(fd,o,l,5); default: return s.TimeoutWriteLock(fd,o,l,5); } }
static void worker(void*a){ Api s; int me=(int)(long)a; int fd=fdof[me];
  for(int i=0;i<R;i++){ int r=NR>1?(int)vp_conc(vp_sym("range",1)):0; int op=RO?2*(int)vp_conc(symr("op",3)):first_+(int)vp_conc(symr("op",OPS)); int g=call(s,op,fd,OFF[r],LEN[r]); if(RO) vp_assert(g==0||g==ETIMEDOUT,"P04: a read lock is refused although nobody writes");
    if(op<2) vp_assert(g==0,"P04: a blocking range lock returns an error"); else if(op<4) vp_assert(g==0||g==EBUSY,"P04: a try range lock returns something other than success or busy"); else vp_assert(g==0||g==ETIMEDOUT,"P04: a timed range lock returns something other than success or timeout");
    if(g==0){ vp_reach("acquired"); crit(s,fd,r,op&1); } else vp_reach("refused"); } }
// one caller keeps the lock while the others make attempts that are refused, or race with its unlock
static void holder(void*a){ Api s; int fd=fdof[(int)(long)a]; int g=s.Unlock(fd,OFF[0],LEN[0]); vp_assert(g==0,"P06: the holder's unlock fails next to refused attempts"); }
static void refused(void*a){ Api s; int me=(int)(long)a; int op=2+(int)vp_conc(symr("op",4)); int g=call(s,op,fdof[me],OFF[0],LEN[0]); if(op<4) vp_assert(g==0||g==EBUSY,"P06: a try range lock returns something other than success or busy"); else vp_assert(g==0||g==ETIMEDOUT,"P06: a timed range lock returns something other than success or timeout");
  if(g==0){ vp_reach("acquired"); g=s.Unlock(fdof[me],OFF[0],LEN[0]); vp_assert(g==0,"P06: the holder's unlock fails next to refused attempts"); } else vp_reach("refused"); }
static void setup(int T){ int rb=P("robust",0),fm=P("free",1); bool one=P("oneproc",0); h_callers(T,one); SZ={P("nfile",2),P("noff",4),P("nlocker",4),1,1,4}; h_env(rb==2?"HIGH":rb==1?"LOW":"NO",SZ); os_setenv("FLCKROBUSTCHKCNT","0"); os_setenv("FLCKFREEUNITMODE",fm==0?"NO":fm==1?"FD":fm==2?"OFFSET":"ALWAYS"); K.clkmode=2; K.clklimit=2; K.quietlive=1;
  h_up(); if(!one) for(int c=1;c<=T;c++) os_clone_fds(0,c); for(int c=0;c<=T;c++){ fdof[c]=one&&c&&P("samefd",0)?fdof[0]:os_open_dev(one?0:c,5,50); } h_guards(); }
static void after(int held){ int fm=P("free",1); Tally t=wf_tally(64); vp_assert(wf_ok,"P06: a list of units is malformed after the calls"); vp_assert(t.nl+t.ul==SZ.locker&&t.no+t.uo==SZ.off&&t.nf+t.uf==SZ.file,"P06: a unit is lost after the calls"); vp_assert(t.ul==held,"P06: refused or released locks keep holder units"); if(!held&&(fm==1||fm==3)) vp_assert(t.uf==0&&t.uo==0,"P06: units are not freed although nothing is locked");
  Api s; K.cur=0; for(int r=0;r<NR;r++){ int g=s.TryWriteLock(fdof[0],OFF[r],LEN[r]); vp_assert(g==(held?EBUSY:0),"P04: a range everybody released cannot be write locked"); } }
ENTRY file_mc(){ os_init(); int T=P("threads",2); R=P("rounds",1); NR=P("ranges",1); OPS=P("ops",6); first_=P("first",0); RO=P("readers",0); setup(T); K.sched=1; for(int c=1;c<=T;c++) vp_spawn(worker,(void*)(long)c);
  int r=vp_run(); vp_assert(r==0,"P04: the callers deadlock although every holder releases"); vp_reach("finished"); after(0); }
ENTRY file_refused(){ os_init(); int T=P("threads",2); NR=1; bool rel=P("release",1); setup(T); Api s; K.cur=1; (void)get_threadid(); int w=(int)vp_conc(vp_sym("holder_writes",1)); int g=w?s.WriteLock(fdof[1],OFF[0],LEN[0]):s.ReadLock(fdof[1],OFF[0],LEN[0]); vp_assert(g==0,"harness: first lock"); K.cur=-1; K.sched=1; if(rel) vp_spawn(holder,(void*)1L); else vp_spawn(refused,(void*)0L); for(int c=2;c<=T;c++) vp_spawn(refused,(void*)(long)c);
  int r=vp_run(); vp_assert(r==0,"P06: refused attempts wait for ever"); vp_reach("finished"); after(rel?0:1); }
