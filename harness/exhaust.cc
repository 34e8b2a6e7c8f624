#include "lists.h"
#include "flcklistwaiter.h"
// Lock tables of the smallest permitted size, filled up: the answers and the units in use against a reference model of the units.
enum { XF=2, XR=5, XC=2 }; static Sizes SZ; static int MODE; static int fu[XF], ou[XF][XR], rdn[XC][XF][XR], wrn[XC][XF][XR]; static int fdx[XC][XF];
static int lockersUsed(){ int n=0; for(int c=0;c<XC;c++) for(int f=0;f<XF;f++) for(int r=0;r<XR;r++) n+=rdn[c][f][r]+wrn[c][f][r]; return n; }
static int heldR(int f,int r){ int n=0; for(int c=0;c<XC;c++) n+=rdn[c][f][r]+wrn[c][f][r]; return n; }
static int heldF(int f){ int n=0; for(int r=0;r<XR;r++) n+=heldR(f,r); return n; }
static void settle(){ for(int f=0;f<XF;f++){ if(MODE>0) for(int r=0;r<XR;r++) if(!heldR(f,r)) ou[f][r]=0; if(MODE==1||MODE==3) if(!heldF(f)) fu[f]=0; } }
static int nfu(){ return fu[0]+fu[1]; } static int nou(){ int n=0; for(int f=0;f<XF;f++) for(int r=0;r<XR;r++) n+=ou[f][r]; return n; }
static int want(int c,int f,int r,bool w,int busy){ bool newf=!fu[f]; if(newf&&nfu()==SZ.file) return ENOLCK; fu[f]=1; if(!ou[f][r]){ if(nou()==SZ.off){ settle(); return ENOLCK; } ou[f][r]=1; } if(lockersUsed()==SZ.locker){ settle(); return ENOLCK; } bool x=false; for(int k=0;k<XC;k++){ if(wrn[k][f][r]) x=true; if(w&&rdn[k][f][r]) x=true; } if(x){ settle(); return busy; } (w?wrn:rdn)[c][f][r]++; return 0; }
static void tally(const char*m){ Tally t=wf_tally(32); vp_assert(wf_ok,"P12: a list of units is malformed"); vp_assert(t.nf+t.uf==SZ.file&&t.no+t.uo==SZ.off&&t.nl+t.ul==SZ.locker,"P12: a unit is in no list or in two"); vp_assert(t.ul==lockersUsed()&&t.uo==nou()&&t.uf==nfu(),m); }
static off_t OFF[XR]={0,10,20,30,40};
static void op(FlShm&s,int kind,int c,int f,int r){ K.cur=c; for(int q=0;q<3;q++) K.nclk[q]=0; off_t o=OFF[r]; int fd=fdx[c][f];
  if(kind==4){ int h=wrn[c][f][r]+rdn[c][f][r]; int g=s.Unlock(fd,o,10); if(h){ vp_assert(g==0,"P12: a holder cannot unlock while a table is exhausted"); if(wrn[c][f][r]) wrn[c][f][r]--; else rdn[c][f][r]--; settle(); } else vp_assert(g==EINVAL,"P12: unlocking what is not held is not rejected"); return; }
  bool w=kind&1; int e=want(c,f,r,w,kind<2?EBUSY:ETIMEDOUT); int g=kind==0?s.TryReadLock(fd,o,10):kind==1?s.TryWriteLock(fd,o,10):kind==2?s.TimeoutReadLock(fd,o,10,5):s.TimeoutWriteLock(fd,o,10,5);
  if(e==ENOLCK){ vp_assert(g==ENOLCK,"P12: an exhausted table is not reported as no locks"); vp_reach("exhausted"); } else vp_assert(g==e,"P12: a request that the tables have room for is not answered as it should be"); if(e==0) vp_reach("granted"); }
ENTRY exhaust_file(){ os_init(); MODE=P("free",1); int rb=P("robust",0); os_caller(0,0,100,100); os_caller(1,1,200,200); K.cur=0; SZ={P("nfile",2),4,P("nlocker",6),1,1,4}; h_env(rb==2?"HIGH":rb==1?"LOW":"NO",SZ); os_setenv("FLCKFREEUNITMODE",MODE==0?"NO":MODE==1?"FD":MODE==2?"OFFSET":"ALWAYS"); os_setenv("FLCKROBUSTCHKCNT","0"); K.clkmode=2; K.clklimit=1; h_up(); os_clone_fds(0,1); K.cur=1; (void)get_threadid(); K.cur=0; for(int c=0;c<XC;c++) for(int f=0;f<XF;f++) fdx[c][f]=os_open_dev(c,5,70+f);
  if(P("symoff",1)){ for(int i=1;i<XR;i++){ OFF[i]=(off_t)vp_sym("offset",62); vp_assume(OFF[i]>=OFF[i-1]+10); } }
  FlShm s; int pat=(int)vp_conc(symr("pattern",3)); static const int P0[3][4]={{0,1,2,3},{0,0,0,0},{0,0,1,1}}; for(int i=0;i<4;i++) op(s,0,0,0,P0[pat][i]); tally("P12: units are not used as the locks held require");
  int steps=P("steps",2); for(int i=0;i<steps;i++){ int k=(int)vp_conc(symr("op",5)); int c=(int)vp_conc(vp_sym("caller",1)); int f=(int)vp_conc(vp_sym("file",1)); int r=vp_conc(vp_sym("other_range",1))?4:0; op(s,k,c,f,r); tally("P12: a refused or exhausted request keeps units"); for(int f=0;f<XF;f++){ bool g=s.IsLocked(fdx[c][f],0,10); vp_assert(g==(heldF(f)>0),"P12: a request that found a table exhausted leaves the file locked"); } vp_merge(); }
  for(int c=0;c<XC;c++) for(int f=0;f<XF;f++) for(int r=0;r<XR;r++) while(vp_conc(wrn[c][f][r]+rdn[c][f][r])) op(s,4,c,f,r); tally("P12: units do not return to the free lists when everything is released"); if(MODE==1||MODE==3) vp_assert(nfu()==0&&nou()==0,"harness: model");
  // what was refused can be had now
  int f=(int)vp_conc(vp_sym("again_file",1)); for(int i=0;i<4;i++) op(s,1,1,f,i); tally("P12: units are not used as the locks held require"); vp_reach("done"); }
// Named tables: names are never given back, everything else is.
ENTRY exhaust_named(){ os_init(); int rb=P("robust",0); os_caller(0,0,100,100); os_caller(1,1,200,200); K.cur=0; SZ={1,4,4,2,1,4}; h_env(rb==2?"HIGH":rb==1?"LOW":"NO",SZ); os_setenv("FLCKROBUSTCHKCNT","0"); h_up(); os_clone_fds(0,1); K.cur=1; (void)get_threadid(); K.cur=0; FlShm s; static const char*N[]={"a","b","x"};
  int r=s.Lock("a"); vp_assert(r==0,"harness: a"); r=s.Lock("b"); vp_assert(r==0,"harness: b"); K.cur=(int)vp_conc(vp_sym("caller",1)); int k=(int)vp_conc(symr("op",3)); r=k==0?s.Lock("x"):k==1?s.TryLock("x"):s.TimeoutLock("x",5); vp_assert(r==ENOLCK,"P12: an exhausted table of mutexes is not reported as no locks"); vp_assert(s.Unlock("x")==EINVAL,"P12: a mutex that could not be created is known"); 
  K.cur=1; for(int i=0;i<2;i++) vp_assert(s.TryLock(N[i])==EBUSY,"P12: an exhausted table disturbs the mutexes held"); 
  K.cur=0; int own=(int)vp_conc(symr("waiters_in_use",5)); FlListWaiter u[4]; for(int i=0;i<own;i++) vp_assert(u[i].retrieve_list(FlShm::pFlHead->waiter_free),"harness: waiter"); // waiters of other callers
  K.tick=1L<<40; r=s.TimeoutWait("c","a",1); vp_assert(r==(own==4?ENOLCK:ETIMEDOUT),"P12: an exhausted table of waiters is not reported as no locks"); if(own==4) vp_reach("exhausted"); K.cur=1; vp_assert(s.TryLock("a")==EBUSY,"P12: a wait that found a table exhausted loses its mutex"); K.cur=0;
  r=s.TimeoutWait("d","a",1); vp_assert(r==ENOLCK,"P12: an exhausted table of conditions is not reported as no locks"); K.cur=1; vp_assert(s.TryLock("a")==EBUSY,"P12: a wait that found a table exhausted loses its mutex"); vp_assert(s.Signal("d")==EINVAL,"P12: a condition that could not be created is known"); K.cur=0;
  for(int i=0;i<own;i++) u[i].insert_list(FlShm::pFlHead->waiter_free); for(int q=0;q<2;q++){ r=s.TimeoutWait("c","a",1); vp_assert(r==ETIMEDOUT,"P12: a wait fails although units have been returned"); } wf_check(SZ,0,"P12: a list of units is malformed","P12: a unit is in no list or in two"); Tally t=wf_tally(16); vp_assert(t.nw==4&&t.um==2&&t.uc==1,"P12: a refused or exhausted request keeps units"); vp_assert(s.Unlock("a")==0&&s.Unlock("b")==0,"P12: a holder cannot unlock while a table is exhausted"); K.cur=1; vp_assert(s.TryLock("a")==0,"P12: an exhausted table disturbs the mutexes held"); vp_reach("done"); }
