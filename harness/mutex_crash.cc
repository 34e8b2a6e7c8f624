#include "lists.h"
// A caller dies at any instruction of locking, holding or unlocking a named mutex; survivors go on.
GHOST int inside, owner; static int OPS, MODE; static Sizes SZ; static const char*N="m";
static void enter(){ vp_assert(!(inside&&vp_status(owner)!=2),"P09: a mutex is taken from an owner that is alive"); inside=1; owner=vp_self(); vp_visible(1); vp_assert(inside==1&&owner==vp_self(),"P09: a mutex is taken from an owner that is alive"); inside=0; }
static int lk(FlShm&s,int op){ return op==0?s.Lock(N):op==1?s.TryLock(N):s.TimeoutLock(N,5); }
static void victim(void*){ FlShm s; int rec=P("recursive",0)?(int)vp_conc(vp_sym("recursive",1)):0; int r=lk(s,OPS?(int)vp_conc(symr("op",OPS)):0); if(r==0){ if(rec){ r=s.Lock(N); vp_assert(r==0,"P09: the owner cannot lock again"); } enter(); if(rec) s.Unlock(N); s.Unlock(N); } vp_visible(1); }
static void bystander(void*){ FlShm s; int r=lk(s,OPS?(int)vp_conc(symr("bop",OPS)):0); if(r==0){ enter(); r=s.Unlock(N); vp_assert(r==0,"P09: a live holder cannot unlock"); vp_reach("bystander got it"); } }
static void survivor(void*){ FlShm s; int r=s.Lock(N); vp_assert(r==0,"P09: a blocking lock on a mutex of a dead owner returns an error"); vp_reach("recovered"); enter(); r=s.Unlock(N); vp_assert(r==0,"P09: a live holder cannot unlock"); }
static void sweeper(void*){ FlShm s; FlShm::CheckProcessDead(); }
ENTRY mutex_crash(){ os_init(); int T=P("threads",2); OPS=P("ops",0); int rb=P("robust",2); bool one=P("oneproc",0); int mode=P("mode",0); // 0 waiter recovers, 1 sweep after the fact, 2 concurrent sweep
  h_callers(T,one); SZ={1,4,4,2,1,4}; h_env(rb==2?"HIGH":rb==1?"LOW":"NO",SZ); os_setenv("FLCKROBUSTCHKCNT","0"); K.clkmode=2; K.clklimit=2; K.quietlive=P("quiet",0);
  h_up(); if(!one) for(int c=1;c<=T;c++) os_clone_fds(0,c); h_guards(); 
  if(P("known",1)){ FlShm s; s.Lock(N); s.Unlock(N); }
  K.sched=1; vp_spawn(victim,nullptr); vp_crashable(1,1); if(mode==0) vp_spawn(survivor,nullptr); else if(mode==2) vp_spawn(sweeper,nullptr); for(int c=3;c<=T;c++) vp_spawn(bystander,nullptr);
  int r=vp_run(); vp_assert(r==0,"P09: a survivor waits for ever for a mutex whose owner died"); vp_reach("finished"); if(vp_status(1)==2) vp_reach("crashed");
  FlShm s; K.cur=0; if(mode) { K.sched=0; FlShm::CheckProcessDead(); }
  else if(vp_status(1)==2){ FlShm::CheckMutexDeadLock(nullptr,FLCK_INVALID_ID,FLCK_INVALID_ID); }
  for(int k=0;k<2;k++){ r=s.TryLock(N); vp_assert(r==0,"P09: the mutex of a dead owner is not usable after recovery"); } K.cur=2; r=s.TryLock(N); vp_assert(r==EBUSY,"P09: a recovered mutex is not exclusive"); K.cur=0; for(int k=0;k<2;k++){ r=s.Unlock(N); vp_assert(r==0,"P09: a recovered mutex cannot be unlocked"); } K.cur=2; r=s.TryLock(N); vp_assert(r==0,"P09: the recursion count of a recovered mutex is not reset");
  wf_check(SZ,1,"P11: a list of units is corrupted by the crash","P11: more units are lost than the dead caller was using"); }
