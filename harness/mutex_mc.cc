#include "h.h"
// Named mutexes under every interleaving: T callers each do R critical sections.
GHOST int inside[2], owner[2]; static int R, NM, OPS;
static const char *nm[2]={"m0","m1"};
static void crit(Api&s,int m){ int me=vp_self();
  vp_assert(inside[m]==0,"P01: two callers hold the same named mutex at once"); inside[m]=1; owner[m]=me; vp_visible(1); vp_assert(inside[m]==1&&owner[m]==me,"P01: two callers hold the same named mutex at once"); inside[m]=0;
  int r=s.Unlock(nm[m]); vp_assert(r==0,"P01: the holder's unlock fails"); (void)r; }
static void worker(void*){ Api s; 
  for(int i=0;i<R;i++){ int m=NM>1?(int)vp_conc(vp_sym("mutex",1)):0; int kind=OPS?(int)vp_conc(symr("op",OPS)):0; int r;
    if(kind==0) r=s.Lock(nm[m]); else if(kind==1) r=s.TryLock(nm[m]); else r=s.TimeoutLock(nm[m],5);
    if(kind==0) vp_assert(r==0,"P01: a blocking lock on a named mutex returns an error");
    else if(kind==1) vp_assert(r==0||r==EBUSY,"P01: trylock returns something other than success or busy"); else vp_assert(r==0||r==ETIMEDOUT,"P01: timed lock returns something other than success or timeout");
    if(r==0){ vp_reach("acquired"); crit(s,m); } else vp_reach("refused"); } }
ENTRY mutex_mc(){ os_init(); int T=P("threads",2); R=P("rounds",1); NM=P("names",1); OPS=P("ops",0); int rb=P("robust",0);
  h_callers(T,P("oneproc",0)); h_env(rb==2?"HIGH":rb==1?"LOW":"NO",{1,4,4,P("mtx",2),1,4}); os_setenv("FLCKROBUSTCHKCNT","0"); K.clkmode=2; K.clklimit=2;
  h_up(); for(int c=1;c<=T;c++) os_clone_fds(0,c); h_guards(); K.sched=1;
  for(int c=0;c<T;c++) vp_spawn(worker,nullptr);
  int r=vp_run(); vp_assert(r==0,"P01: the callers deadlock although every holder releases"); vp_reach("finished");
  Api s; K.cur=0; for(int m=0;m<NM;m++){ int r=s.TryLock(nm[m]); vp_assert(r==0,"P01: a mutex released by everyone cannot be acquired afterwards"); } }
