#include "h.h"
// Two arbitrary names (a common prefix of `pre` characters, then up to k arbitrary characters each): same object or not.
#ifndef FLCK_NAMED_MUTEX_MAXLENGTH
#define FLCK_NAMED_MUTEX_MAXLENGTH 63
#endif
#ifndef FLCK_NAMED_COND_MAXLENGTH
#define FLCK_NAMED_COND_MAXLENGTH 63
#endif
static char A[96], B[96];
#ifdef COLLIDE
extern "C" __attribute__((used)) flck_hash_t vpo__Z13flck_fnv_hashPKvm(const void*,size_t){ return 7; }  // every name hashes alike
#endif
static void mk(char*s,int pre,int k){ int i=0; for(;i<pre;i++) s[i]='x'; for(int j=0;j<k;j++,i++){ s[i]=(char)vp_sym("char",8); if(s[i]==0) break; } s[i<pre+k?i:pre+k]=0; }
static bool same(int max){ for(int i=0;i<max;i++){ if(A[i]!=B[i]) return false; if(!A[i]) return true; } return true; }
ENTRY names_mutex(){ os_init(); os_caller(0,0,100,100); os_caller(1,1,200,200); K.cur=0; h_env(P("robust",0)==2?"HIGH":"NO",{1,4,4,3,1,4}); os_setenv("FLCKROBUSTCHKCNT","0"); h_up(); os_clone_fds(0,1); K.cur=1; (void)get_threadid(); K.cur=0; FlShm s;
  int pre=P("pre",0),k=P("chars",2); mk(A,pre,k); mk(B,pre,k); bool eq=same(FLCK_NAMED_MUTEX_MAXLENGTH); eq=(bool)vp_conc(eq); if(eq) vp_reach("same name"); else vp_reach("different names");
  int r=s.Lock("anchor"); vp_assert(r==0,"P03: a first mutex cannot be locked"); 
  r=s.Lock(A); vp_assume(A[0]!='a'||A[1]!='n'||A[2]!='c'); vp_assume(B[0]!='a'||B[1]!='n'||B[2]!='c'); vp_assert(r==0,"P03: a mutex nobody uses cannot be locked");
  K.cur=1; r=s.TryLock(B); vp_assert(r==(eq?EBUSY:0),"P03: two names are not treated as the same mutex exactly when they agree"); 
  r=s.TryLock("anchor"); vp_assert(r==EBUSY,"P03: locking another name releases or loses a held mutex");
  if(!eq){ r=s.Unlock(A); vp_assert(r==EPERM,"P03: a mutex can be released through another one's holder"); r=s.Unlock(B); vp_assert(r==0,"P03: the holder of a mutex cannot release it because of another name"); K.cur=0; r=s.TryLock(B); vp_assert(r==0,"P03: a released mutex stays taken"); r=s.Unlock(B); vp_assert(r==0,"P03: the holder of a mutex cannot release it because of another name"); }
  K.cur=0; r=s.Unlock(B); if(eq) vp_assert(r==0,"P03: the same name given again does not release the mutex"); else vp_assert(r==0,"P03: unlocking a free mutex fails");
  K.cur=1; r=s.TryLock(A); vp_assert(r==(eq?0:EBUSY),"P03: unlocking one name changes another mutex"); vp_reach("done"); }
ENTRY names_cond(){ os_init(); os_caller(0,0,100,100); K.cur=0; h_env("NO",{1,4,4,2,2,4}); K.clkmode=2; K.clklimit=1; h_up(); FlShm s; int pre=P("pre",0),k=P("chars",2); mk(A,pre,k); mk(B,pre,k); bool eq=same(FLCK_NAMED_COND_MAXLENGTH); eq=(bool)vp_conc(eq); if(eq) vp_reach("same name"); else vp_reach("different names");
  int r=s.Lock("m"); r=s.TimeoutWait(A,"m",5); vp_assert(r==ETIMEDOUT,"P03: a timed wait nobody signals does not time out"); 
  int b=s.Signal(B); vp_assert(b==(eq?0:EINVAL),"P03: two names are not treated as the same condition exactly when they agree"); b=s.Broadcast(B); vp_assert(b==(eq?0:EINVAL),"P03: two names are not treated as the same condition exactly when they agree"); r=s.Signal(A); vp_assert(r==0,"P03: a condition that was waited on is unknown"); vp_reach("done"); }
