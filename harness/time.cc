#include "h.h"
#include "flckbaselist.tcc"
using namespace fullock;
// P07: the arithmetic of deadlines for every pair of readings, and every timed call end to end with a symbolic monotonic clock.
static inline bool geq(int64_t s,int64_t n,int64_t s2,int64_t n2){ return (s>s2)|((s==s2)&(n>=n2)); }
ENTRY time_arith(){ os_init(); int b=P("bits",40); timespec a,e,l; a.tv_sec=vp_sym("start_sec",b); a.tv_nsec=vp_sym("start_nsec",30); e.tv_sec=vp_sym("end_sec",b); e.tv_nsec=vp_sym("end_nsec",30); l.tv_sec=vp_sym("limit_sec",b); l.tv_nsec=vp_sym("limit_nsec",30);
  vp_assume(a.tv_nsec<1000000000&e.tv_nsec<1000000000&l.tv_nsec<1000000000); vp_assume(geq(e.tv_sec,e.tv_nsec,a.tv_sec,a.tv_nsec));
  int64_t ds=e.tv_sec-a.tv_sec,dn=e.tv_nsec-a.tv_nsec; if(dn<0){ ds-=1; dn+=1000000000; }
  timespec r; SUB_TIMESPEC(&a,&e,&r); vp_assert(r.tv_sec==ds&r.tv_nsec==dn,"P07: the elapsed time between two clock readings is wrong");
  bool over=IS_OVER_TIMESPEC(&a,&e,&l); vp_assert(over==geq(ds,dn,l.tv_sec,l.tv_nsec),"P07: a deadline is judged passed too early or too late"); if(over) vp_reach("over"); else vp_reach("not over"); }
static int call(Api&s,int what,int fd,time_t d){ switch(what){ case 0: return s.TimeoutLock("m",d); case 1: return s.TimeoutReadLock(fd,0,4,d); case 2: return s.TimeoutWriteLock(fd,0,4,d); default: return s.TimeoutWait("c","n",d); } }
// what: 0 mutex 1 read 2 write 3 condition
static int what; static int fd0,fd1; static FlShm*S;
static void up(){ os_init(); Sizes z={1,4,4,4,4,4}; h_env(P("robust",0)==2?"HIGH":P("robust",0)?"LOW":"NO",z); h_callers(3,false); for(int c=0;c<4;c++) K.cbound[c]=0; K.cur=1; h_up(); fd0=os_open_dev(1,7,55); fd1=os_open_dev(2,7,55); what=P("what",0)<4?P("what",0):(int)vp_conc(symr("call",4)); }
static void hold(Api&s){ int r=0; K.cur=1; if(what==0) r=s.Lock("m"); else if(what!=3) r=what==1||vp_conc(vp_sym("held_write",1))?s.WriteLock(fd0,0,4):s.ReadLock(fd0,0,4); vp_assert(r==0,"harness: hold"); if(what==3){ K.cur=2; vp_assert(s.Lock("n")==0,"harness: hold"); } }
// any legal duration; only the low part is fully symbolic together with whole seconds
static time_t dur(int64_t&ds,int64_t&dn){ if(P("pick",0)){ static const long ps[]={1,999,1000,1001,250000,999999,1000000,1000001,1999999,3600000001L,86400000000L}; long d=ps[vp_conc(symr("duration",11))]; ds=d/1000000; dn=d%1000000*1000; return d; } ds=vp_sym("duration_sec",P("secbits",16)); int64_t u=(int64_t)vp_sym("duration_usec",19)+(vp_sym("second_half",1)?475712:0); dn=u*1000; return (time_t)(ds*1000000+u); }
ENTRY time_expires(){ up(); Api s; hold(s); K.cur=2; int64_t ds,dn; time_t d=dur(ds,dn); vp_assume(d>0); K.clkmode=3; K.clklimit=P("readings",3); K.nclk[2]=0; int r=call(s,what,fd1,d); K.clkmode=0;
  if(r==EBUSY&&what==3) return; vp_assert(r==ETIMEDOUT,"P07: a timed call that cannot succeed does not report the timeout"); int n=K.nclk[2]; int last=n-1; if(what==3){ /* the relock of the mutex reads the clock again */ if(P("relock",0)) last--; }
  vp_assert(n>=2,"P07: a timed call times out without looking at the monotonic clock"); if(n<2) return; 
  for(int i=1;i<n;i++){ int64_t es=K.clks[2][i]-K.clks[2][0],en=K.clkn[2][i]-K.clkn[2][0]; if(en<0){ es-=1; en+=1000000000; } bool ov=geq(es,en,ds,dn); if(i==last) vp_assert(ov,"P07: a timed call returns before the requested time has passed"); else if(i<last) vp_assert(!ov,"P07: a timed call goes on waiting after the requested time has passed"); }
  K.cur=2; if(what==3){ vp_assert(s.Unlock("n")==0,"P07: a timed wait that expired does not hold its mutex"); } vp_reach("expired"); }
ENTRY time_free(){ up(); Api s; K.cur=2; int64_t ds,dn; time_t d=dur(ds,dn); vp_assume(d>0); K.clkmode=3; K.clklimit=3; what=what==3?0:what; int r=call(s,what,fd1,d); vp_assert(r==0,"P07: a timed call that can succeed at once does not"); K.clkmode=0; K.cur=1; r=what==0?s.TryLock("m"):s.TryWriteLock(fd0,0,4); vp_assert(r==EBUSY,"P07: a timed call reports success without holding the lock"); vp_reach("granted"); }
// a clock that fails at any reading: an error, and nothing acquired
ENTRY time_fails(){ up(); Api s; bool held=vp_conc(vp_sym("held",1)); if(held) hold(s); else if(what==3){ K.cur=2; s.Lock("n"); } K.cur=2; int64_t ds,dn; time_t d=dur(ds,dn); vp_assume(d>0); K.clkmode=0; int f=1+(int)vp_conc(symr("reading",3)); K.nclk[2]=0; K.clkfail=f; K.tick=1+vp_sym("tick",40); int r=call(s,what,fd1,d); bool hit=K.nclk[2]>=f; K.clkfail=0;
  if(!hit) return; vp_assert(r!=0,"P07: a failing clock is not reported as an error"); vp_assert(r!=ETIMEDOUT||what==3,"P07: a failing clock is reported as a timeout");
  if(what==3) { vp_reach("clock failed"); return; } K.cur=1; if(held) vp_assert((what==0?s.Unlock("m"):s.Unlock(fd0,0,4))==0,"P07: a failed timed call disturbs the holder"); r=what==0?s.TryLock("m"):s.TryWriteLock(fd0,0,4); vp_assert(r==0,"P07: a timed call that failed on the clock still acquired the lock"); vp_reach("clock failed"); }
