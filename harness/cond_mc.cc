#include "lists.h"
// Waiters and a waker on condition variables under every interleaving. The mutex protects the ghost state, so the waker knows exactly who waits and since when.
GHOST int holder, entered[8], waiting[8], woken[8], cnd[8], seq_, tokens[2], issued[2]; static Sizes SZ; static int TIMED, W, BC, NC, RAW, DONE; static const char*CN[]={"c","d"};
static void got(){ vp_assert(holder==0,"P08: a waiter reports success or timeout without holding the mutex exclusively"); holder=vp_self(); vp_visible(1); vp_assert(holder==vp_self(),"P08: a waiter reports success or timeout without holding the mutex exclusively"); }
static void drop(Api&s){ holder=0; int r=s.Unlock("m"); vp_assert(r==0,"P08: the mutex cannot be unlocked after a wait"); }
// called with the mutex held: wake the oldest waiter of condition k, or leave a token for one that is still to come
static void wake1(Api&s,int k,bool quiet){ int best=0; for(int w=1;w<=W;w++) if(waiting[w]&&!woken[w]&&cnd[w]==k&&(!best||entered[w]<entered[best])) best=w; bool any=false; for(int w=1;w<=W;w++) if(entered[w]&&cnd[w]==k) any=true; if(best) woken[best]=1; else if(!quiet) tokens[k]++; int r=s.Signal(CN[k]); if(any) vp_assert(r==0,"P08: signalling a known condition fails"); else vp_assert(r==0||r==EINVAL,"P08: signalling an unknown condition does not answer invalid argument"); }
static void waiter(void*){ Api s; int me=vp_self(); int k=NC>1?me-1:0; int r=s.Lock("m"); vp_assert(r==0,"harness: lock"); got(); 
  if(tokens[k]){ tokens[k]--; vp_reach("no need to wait"); }
  else { entered[me]=++seq_; waiting[me]=1; cnd[me]=k; holder=0; r=TIMED?s.TimeoutWait(CN[k],"m",5):s.Wait(CN[k],"m"); got(); waiting[me]=0;
    if(TIMED) vp_assert(r==0||r==ETIMEDOUT,"P08: a timed wait answers something other than success or timeout"); else vp_assert(r==0,"P08: a wait answers an error");
    if(r==0){ vp_assert(woken[me],"P08: a waiter reports success although it was not woken, or another waiter should have been"); vp_reach("woken"); }
    else { vp_reach("expired"); if(woken[me]) { waiting[me]=0; woken[me]=0; wake1(s,k,false); } } }
  drop(s); }
static void waker(void*){ Api s; int rounds=BC?1:W; for(int i=0;i<rounds;i++){ int k=NC>1?i:0; int r=s.Lock("m"); vp_assert(r==0,"harness: lock"); got();
    if(BC){ for(int w=1;w<=W;w++){ if(waiting[w]&&cnd[w]==k) woken[w]=1; else if(!entered[w]) tokens[k]++; } r=s.Broadcast(CN[k]); vp_assert(r==0||(seq_==0&&r==EINVAL),"P08: broadcasting fails"); } else wake1(s,k,false);
    drop(s); } }
// a waker that does not hold the mutex: each success needs a signal that was not over before the wait began, and each signal makes one success at most
GHOST int begun, over, nsucc;
static void rwaiter(void*){ Api s; int r=s.Lock("m"); vp_assert(r==0,"harness: lock"); got(); int o=over; holder=0; r=s.TimeoutWait("c","m",5); got(); vp_assert(r==0||r==ETIMEDOUT,"P08: a timed wait answers something other than success or timeout"); if(r==0){ vp_assert(begun>o,"P08: a waiter reports success without a signal issued while it waited"); nsucc++; vp_assert(BC||nsucc<=begun,"P08: one signal wakes more than one waiter"); vp_reach("woken"); } else vp_reach("expired"); drop(s); }
static void rwaker(void*){ Api s; for(int i=0;i<P("signals",1);i++){ begun++; int r=BC?s.Broadcast("c"):s.Signal("c"); vp_assert(r==0,"P08: signalling a known condition fails"); over++; vp_visible(1); } }
static void sweeper(void*){ Api s; (void)s; FlShm::CheckProcessDead(); }
ENTRY cond_mc(){ os_init(); W=P("waiters",1); TIMED=P("timed",0); BC=P("broadcast",0); NC=P("conds",1); int rb=P("robust",0); h_callers(W+2,P("oneproc",0)); SZ={1,4,4,2,2,4}; h_env(rb==2?"HIGH":rb==1?"LOW":"NO",SZ); os_setenv("FLCKROBUSTCHKCNT","0"); K.clkmode=2; K.clklimit=2;
  h_up(); for(int c=1;c<=W+2;c++) os_clone_fds(0,c); h_guards(); Api s; s.Lock("m"); s.Unlock("m"); if(P("known",1)){ K.cur=0; s.Lock("m"); K.clkmode=0; K.tick=1L<<40; for(int k=0;k<NC;k++){ int r=s.TimeoutWait(CN[k],"m",1); vp_assert(r==ETIMEDOUT,"harness: known"); } s.Unlock("m"); K.tick=1; K.clkmode=2; K.cur=-1; }
  K.sched=1; bool raw=P("raw",0); for(int w=0;w<W;w++) vp_spawn(raw?rwaiter:waiter,nullptr); vp_spawn(raw?rwaker:waker,nullptr); if(P("sweep",0)) vp_spawn(sweeper,nullptr);
  int r=vp_run(); vp_assert(r==0,"P08: a waiter is never woken although it was signalled"); vp_reach("finished"); K.cur=0; K.sched=0; 
  r=s.TryLock("m"); vp_assert(r==0,"P08: the mutex is still held when everybody is done"); wf_check(SZ,0,"P08: the tables of waiters are corrupted","P08: waiter units are lost"); Tally t=wf_tally(16); vp_assert(t.nw==SZ.waiter,"P08: a wait that has ended is still counted as waiting"); }
