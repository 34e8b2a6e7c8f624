#include "lists.h"
// A caller dies at any instruction of locking, holding or unlocking a file range; survivors go on.
GHOST int nrd, nwr, wowner, rowner[8]; static int OPS; GHOST int fdof[8]; static Sizes SZ; static const off_t O=0; static const size_t L=10;
static bool liveW(){ return nwr&&vp_status(wowner)!=2; } static bool liveR(){ bool x=false; for(int t=0;t<8;t++) if(rowner[t]&&vp_status(t)!=2) x=true; return x; }
static int call(FlShm&s,int op,int fd){ switch(op){ case 0: return s.ReadLock(fd,O,L); case 1: return s.WriteLock(fd,O,L); case 2: return s.TryReadLock(fd,O,L); case 3: return s.TryWriteLock(fd,O,L); case 4: return s.TimeoutReadLock(fd,O,L,5); default: return s.TimeoutWriteLock(fd,O,L,5); } }
static void crit(bool w){ int me=vp_self(); vp_assert(!liveW(),"P10: a lock is taken from a live writer"); if(w) vp_assert(!liveR(),"P10: a lock is taken from a live reader"); if(w){ nwr=1; wowner=me; } else rowner[me]=1; vp_visible(1); if(w){ vp_assert(nwr==1&&wowner==me&&!liveR(),"P10: a lock is taken from a live writer"); nwr=0; } else { vp_assert(!liveW(),"P10: a lock is taken from a live reader"); rowner[me]=0; } }
static void doit(FlShm&s,int op,const char*bad){ int fd=fdof[vp_self()]; int g=call(s,op,fd); if(op<2) vp_assert(g==0,bad); if(g==0){ crit(op&1); g=s.Unlock(fd,O,L); vp_assert(g==0,"P10: a live holder cannot unlock"); } }
static void victim(void*){ FlShm s; doit(s,(int)vp_conc(symr("vop",OPS)),"P10: a blocking range lock returns an error"); vp_visible(1); }
static void survivor(void*){ FlShm s; doit(s,P("held",0)?0:(int)vp_conc(symr("sop",2)),"P10: a blocking lock on a range of a dead holder returns an error"); vp_reach("recovered"); }
static void bystander(void*){ FlShm s; doit(s,(int)vp_conc(symr("bop",OPS)),"P10: a blocking range lock returns an error"); }
static void sweeper(void*){ FlShm s; FlShm::CheckProcessDead(); }
ENTRY file_crash(){ os_init(); int T=P("threads",2); OPS=P("ops",2); int rb=P("robust",2),fm=P("free",1); bool one=P("oneproc",0); int mode=P("mode",0); // 0 waiter recovers, 1 sweep after the fact, 2 concurrent sweep
  h_callers(T,one); SZ={2,4,4,1,1,4}; h_env(rb==2?"HIGH":rb==1?"LOW":"NO",SZ); os_setenv("FLCKROBUSTCHKCNT","0"); os_setenv("FLCKFREEUNITMODE",fm==0?"NO":fm==1?"FD":fm==2?"OFFSET":"ALWAYS"); K.clkmode=2; K.clklimit=2; K.quietlive=P("quiet",1);
  h_up(); if(!one) for(int c=1;c<=T;c++) os_clone_fds(0,c); for(int c=0;c<=T;c++) fdof[c]=os_open_dev(one?0:c,5,50); h_guards(); crash_watch(); FlShm s;
  if(P("held",0)){ K.cur=0; vp_assert(0==s.ReadLock(fdof[0],O,L),"harness: reader"); }
  K.sched=1; K.cur=-1; vp_spawn(victim,nullptr); vp_crashable(1,1); if(mode==0) vp_spawn(survivor,nullptr); else if(mode==2) vp_spawn(sweeper,nullptr); for(int c=3;c<=T;c++) vp_spawn(bystander,nullptr);
  int r=vp_run(); bool dead=vp_status(1)==2; bool win=dead&&crash_in_window(1); if(P("window",0)) vp_assume(win); else vp_assume(!win);
  vp_assert(r==0,"P10: a survivor waits for ever for a range whose holder died"); vp_reach("finished"); if(dead) vp_reach("crashed");
  K.sched=0; K.cur=0; if(mode||dead) FlShm::CheckProcessDead();
  if(P("held",0)){ int g; K.cur=2; g=s.TryWriteLock(fdof[2],O,L); vp_assert(g==EBUSY,"P10: recovery releases the lock of a live reader"); g=s.TryReadLock(fdof[2],O,L); vp_assert(g==0,"P10: readers are shut out after recovery"); g=s.Unlock(fdof[2],O,L); vp_assert(g==0,"P10: a lock taken after recovery cannot be released"); K.cur=0; g=s.Unlock(fdof[0],O,L); vp_assert(g==0,"P10: a live reader cannot unlock after recovery"); }
  for(int k=0;k<2;k++){ K.cur=0; int g=s.TryWriteLock(fdof[0],O,L); vp_assert(g==0,"P10: the range of a dead holder is not usable after recovery"); K.cur=2; g=s.TryReadLock(fdof[2],O,L); vp_assert(g==EBUSY,"P10: a recovered range is not exclusive"); K.cur=0; g=s.Unlock(fdof[0],O,L); vp_assert(g==0,"P10: a recovered range cannot be unlocked"); g=s.TryReadLock(fdof[0],O,L); K.cur=2; vp_assert(g==0,"P10: a recovered range cannot be read locked"); g=s.TryReadLock(fdof[2],O,L); vp_assert(g==0,"P10: a recovered range cannot be read locked"); g=s.Unlock(fdof[2],O,L); K.cur=0; g=s.Unlock(fdof[0],O,L); vp_assert(g==0,"P10: a recovered range cannot be unlocked"); }
  wf_check(SZ,1,"P11: a list of units is corrupted by the crash","P11: more units are lost than the dead caller was using"); }
