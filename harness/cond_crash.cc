#include "lists.h"
// A caller dies at any instruction of waiting on or signalling a condition; the others go on.
GHOST int holder; static int OPS; static Sizes SZ;
static void enter(){ vp_assert(!(holder&&vp_status(holder)!=2),"P09: a mutex is taken from an owner that is alive"); holder=vp_self(); vp_visible(1); vp_assert(holder==vp_self(),"P09: a mutex is taken from an owner that is alive"); }
static void drop(FlShm&s){ holder=0; int r=s.Unlock("m"); vp_assert(r==0,"P11: a live holder cannot unlock"); }
static int cop(FlShm&s,int op){ return op==0?s.Signal("c"):op==1?s.Broadcast("c"):s.TimeoutWait("c","m",5); }
static void victim(void*){ FlShm s; int op=P("vop",9)<3?P("vop",9):(int)vp_conc(symr("op",3)); int r=s.Lock("m"); vp_assert(r==0,"harness: lock"); enter(); if(op==2) holder=0; r=cop(s,op); if(op==2) enter(); drop(s); vp_visible(1); }
static void survivor(void*){ FlShm s; int op=P("sop",9)<3?P("sop",9):(int)vp_conc(symr("sop",3)); int r=s.Lock("m"); vp_assert(r==0,"P11: a survivor cannot lock the mutex"); enter(); if(op==2) holder=0; r=cop(s,op); if(op==2){ enter(); vp_assert(r==0||r==ETIMEDOUT,"P11: a survivor's wait fails"); } else vp_assert(r==0||(!P("known",1)&&r==EINVAL),"P11: a survivor's signal fails"); drop(s); vp_reach("survived"); }
static void bystander(void*){ FlShm s; int r=s.TryLock("m"); if(r==0){ enter(); drop(s); } }
static void sweeper(void*){ FlShm s; (void)s; FlShm::CheckProcessDead(); }
ENTRY cond_crash(){ os_init(); int T=P("threads",2); int rb=P("robust",2); bool one=P("oneproc",0); int mode=P("mode",0); h_callers(T+1,one); SZ={1,4,4,2,2,4}; h_env(rb==2?"HIGH":rb==1?"LOW":"NO",SZ); os_setenv("FLCKROBUSTCHKCNT","0"); K.clkmode=2; K.clklimit=1;
  h_up(); if(!one) for(int c=1;c<=T+1;c++) os_clone_fds(0,c); h_guards(); FlShm s; s.Lock("m"); if(P("known",1)){ K.clkmode=0; K.tick=1L<<40; K.cur=0; s.TimeoutWait("c","m",1); K.tick=1; K.clkmode=2; K.cur=-1; } s.Unlock("m");
  K.sched=1; vp_spawn(victim,nullptr); vp_crashable(1,1); if(mode==0) vp_spawn(survivor,nullptr); else vp_spawn(sweeper,nullptr); for(int c=3;c<=T;c++) vp_spawn(bystander,nullptr);
  int r=vp_run(); vp_assert(r==0,"P11: a survivor waits for ever after a crash inside a wait or signal"); vp_reach("finished"); if(vp_status(1)==2) vp_reach("crashed"); K.cur=0; K.sched=0;
  FlShm::CheckProcessDead(); r=s.TryLock("m"); vp_assert(r==0,"P11: the mutex is unusable after a crash inside a wait"); r=s.Unlock("m"); r=s.Signal("c"); vp_assert(r==0||(!P("known",1)&&r==EINVAL),"P11: the condition is unusable after a crash inside a wait");
  wf_check(SZ,1,"P11: a list of units is corrupted by the crash","P11: more units are lost than the dead caller was using"); Tally t=wf_tally(16); vp_assert(t.uw==0,"P11: the sweep leaves the waiter of a dead caller"); }
