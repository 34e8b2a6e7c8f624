#include "h.h"
// Histories of named-mutex calls by three callers (two threads of one process, one of another) against a reference model.
static const char *NAMES[]={"a","b","ab"};
struct Ref { int known, owner, cnt; }; static Ref R[3]; static int nknown;
ENTRY mutex_seq(){ os_init(); int steps=P("steps",3), names=P("names",2), cap=P("mtx",2), rb=P("robust",0), nc=P("callers",3), free_=P("free",1), ops=P("ops",4);
  os_caller(0,0,100,100); os_caller(1,0,100,101); os_caller(2,1,200,200); K.cur=0;
  h_env(rb==2?"HIGH":rb==1?"LOW":"NO",{1,4,4,cap,1,4}); os_setenv("FLCKROBUSTCHKCNT","0"); os_setenv("FLCKFREEUNITMODE",free_==0?"NO":free_==1?"FD":"ALWAYS");
  K.clkmode=2; K.clklimit=1; h_up(); os_clone_fds(0,1); for(int m=0;m<3;m++) R[m].owner=-1; Api s; K.cur=1; (void)get_threadid(); K.cur=2; (void)get_threadid(); K.cur=0;
  for(int i=0;i<steps;i++){
    int c=(int)vp_conc(symr("caller",nc)), op=(int)vp_conc(symr("op",ops)), m=(int)vp_conc(symr("name",names)); K.cur=c; for(int q=0;q<3;q++){ K.nclk[q]=0; }
    Ref&r=R[m]; int want; bool fresh=false;
    if(op<3){ if(!r.known){ if(nknown==cap) want=ENOLCK; else { want=0; fresh=true; } } else if(r.owner<0||r.owner==c) want=0; else want= op==1?EBUSY:ETIMEDOUT;
      if(op==0&&want==ETIMEDOUT) vp_assume(0); } // a blocking call on a mutex held by somebody who does nothing never returns
    else want= !r.known?EINVAL: r.owner<0?0: r.owner==c?0:EPERM;
    int got= op==0?s.Lock(NAMES[m]): op==1?s.TryLock(NAMES[m]): op==2?s.TimeoutLock(NAMES[m],3): s.Unlock(NAMES[m]);
    if(op==0) vp_assert(got==want,"P02: lock does not answer as the ownership rules say"); else if(op==1) vp_assert(got==want,"P02: trylock does not answer as the ownership rules say"); else if(op==2) vp_assert(got==want,"P02: timed lock does not answer as the ownership rules say"); else vp_assert(got==want,"P02: unlock does not answer as the ownership rules say");
    if(op<3&&want==0){ if(fresh){ r.known=1; nknown++; } r.owner=c; r.cnt++; if(r.cnt>1) vp_reach("recursive"); else vp_reach("taken"); }
    else if(op==3&&want==0&&r.owner==c){ if(--r.cnt==0){ r.owner=-1; vp_reach("freed"); } } else if(want) { if(want==EPERM) vp_reach("not owner"); else if(want==EBUSY) vp_reach("busy"); else if(want==ETIMEDOUT) vp_reach("expired"); else if(want==ENOLCK) vp_reach("exhausted"); else vp_reach("unknown"); } else vp_reach("already free");
    vp_merge();
  }
  // the state at the end is what the history says: free for anybody, or held until the owner has unlocked as often as it locked
  int m=(int)vp_conc(symr("probe",names)); int c=(int)vp_conc(symr("prober",nc)); Ref&r=R[m]; auto tl=[&](int who){ K.cur=who; for(int q=0;q<3;q++) K.nclk[q]=0; return s.TryLock(NAMES[m]); };
  if(!r.known||r.owner<0){ int got=tl(c); vp_assert(got==(!r.known&&nknown==cap?ENOLCK:0),"P02: after the history the mutex is not in the state the history says"); return; }
  if(c==r.owner){ int got=tl(c); vp_assert(got==0,"P02: after the history the mutex is not in the state the history says"); r.cnt++; c=(c+1)%nc; if(c==r.owner) return; }
  for(;r.cnt>0;r.cnt--){ int got=tl(c); vp_assert(got==EBUSY,"P02: a mutex is released before its owner has unlocked it as often as it locked it"); K.cur=r.owner; got=s.Unlock(NAMES[m]); vp_assert(got==0,"P02: the owner cannot unlock as often as it locked"); }
  int got=tl(c); vp_assert(got==0,"P02: a mutex is still held after its owner has unlocked it as often as it locked it"); vp_reach("drained"); }
// Arguments that name nothing are rejected without effect.
ENTRY mutex_null(){ os_init(); os_caller(0,0,100,100); K.cur=0; h_env(P("robust",0)?"HIGH":"NO",{1,4,4,2,2,4}); h_up(); Api s; 
  int r=s.Lock((const char*)nullptr); vp_assert(r==EINVAL,"P03: a missing mutex name is not rejected by lock"); r=s.TryLock((const char*)nullptr); vp_assert(r==EINVAL,"P03: a missing mutex name is not rejected by trylock"); r=s.TimeoutLock((const char*)nullptr,5); vp_assert(r==EINVAL,"P03: a missing mutex name is not rejected by timed lock"); r=s.Unlock((const char*)nullptr); vp_assert(r==EINVAL,"P03: a missing mutex name is not rejected by unlock");
  r=s.Lock("x"); vp_assert(r==0,"P03: the first name cannot be locked after rejected calls"); 
  r=s.Wait(nullptr,"x"); vp_assert(r==EINVAL,"P03: a missing condition name is not rejected by wait"); r=s.Wait("c",nullptr); vp_assert(r==EINVAL,"P03: a missing mutex name is not rejected by wait"); r=s.TimeoutWait(nullptr,"x",5); vp_assert(r==EINVAL,"P03: a missing condition name is not rejected by timed wait"); r=s.Signal(nullptr); vp_assert(r==EINVAL,"P03: a missing condition name is not rejected by signal"); r=s.Broadcast(nullptr); vp_assert(r==EINVAL,"P03: a missing condition name is not rejected by broadcast");
  r=s.Unlock("x"); vp_assert(r==0,"P03: rejected calls change the mutex held"); r=s.Lock("y"); vp_assert(r==0,"P03: rejected calls use up units"); vp_reach("done"); }
