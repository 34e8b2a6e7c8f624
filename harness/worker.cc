#include "lists.h"
#include <sys/inotify.h>
#include "flckthread.h"
// The worker thread: a script of what it is told by the system, and all interleavings with the requests of its controller.
GHOST int sweeps; static int nEv; static unsigned char evb[256];
extern "C" { __attribute__((used)) bool st_sweep(){ sweeps++; return true; } }
static FlckThread T;
static void put32(int at,uint32_t v){ for(int i=0;i<4;i++) evb[at+i]=(unsigned char)(v>>(8*i)); }
// Records of any size: header of 16 bytes (wd, mask, cookie, length) and the name.
static bool truth(int len,int wd){ bool any=false; int p=0; while(p+16<=len){ uint32_t w=0,m=0,l=0; for(int i=3;i>=0;i--){ w=w<<8|evb[p+i]; m=m<<8|evb[p+4+i]; l=l<<8|evb[p+12+i]; } if(w==(uint32_t)wd&&(m&(IN_CLOSE_WRITE|IN_CLOSE_NOWRITE))) any=true; p+=16+l; } return any; }
ENTRY worker_events(){ os_init(); os_caller(0,0,100,100); K.cur=0; int f=inotify_init1(0); int n=P("records",3); int at=0; int full=0; for(int r=0;r<n;r++){ uint32_t wd=vp_sym("watch",32), m=vp_sym("mask",32); int l=4*(int)vp_conc(symr("name",P("names",4))); put32(at,wd); put32(at+4,m); put32(at+8,(uint32_t)vp_sym("cookie",32)); put32(at+12,l); for(int i=0;i<l;i++) evb[at+16+i]=(unsigned char)vp_sym("namechar",8); at+=16+l; } int cut=(int)vp_conc(symr("cut",2)); int len=at; if(cut){ len=(int)vp_conc(symr("bytes",at+1)); } K.rdbuf=evb; K.rdlen=len; K.rdeagain=(int)vp_conc(vp_sym("would_block",1)); K.shortio=P("shorts",0); K.intronly=1;
  int wd=(int)vp_sym("own_watch",31); bool g=FlckThread::CheckEvent(f,wd); vp_assert(g==truth(len,wd),"P21: the closing of the watched file is not recognised exactly when it is reported"); vp_reach(g?"closed":"other"); }
// A script: each poll of the worker is answered by the solver's choice; a sweep has to follow every closing of the file, and now and then polls without an event.
static int script, polls, idle, last, owed, step_; static uint64_t snap[sizeof(FlckThread)/8];
static const char*MISS="P21: the worker does not sweep after the closing of the shared file", *SELDOM="P21: the worker does not sweep now and then";
static void keep(){ for(unsigned i=0;i<sizeof(T)/8;i++) snap[i]=((uint64_t*)&T)[i]; }
static bool told(){ bool d=K.cancelled[1]; for(unsigned i=0;i<sizeof(T)/8;i++) d|=snap[i]!=((uint64_t*)&T)[i]; return d; }   // the controller has done something
static void checksweeps(){ if(sweeps>last){ idle=0; owed=0; } vp_assert(!owed,MISS); vp_assert(idle<128,SELDOM); last=sweeps; }
static int ep_script(){ checksweeps(); if(polls<P("timeouts",0)){ polls++; idle++; return 0; } if(step_++>=script){ K.cancelled[1]=1; return 0; }
  int k=(int)vp_conc(symr("poll",6)); K.of[K.fd[0][FlckThread::InotifyFd]].pos=0; K.ep_events=1; K.ep_fd=FlckThread::InotifyFd; K.rdlen=0; K.rdeagain=1; static unsigned char one[32]; for(int i=0;i<32;i++) one[i]=0; K.rdbuf=one;
  switch(k){ case 0: idle++; return 0; case 1: one[0]=FlckThread::WatchFd; one[4]=IN_CLOSE_WRITE; K.rdlen=16; owed=1; vp_reach("close"); return 1; case 2: one[0]=FlckThread::WatchFd; one[4]=IN_CLOSE_NOWRITE; K.rdlen=16; owed=1; return 1; case 3: one[0]=FlckThread::WatchFd; one[4]=IN_MODIFY; K.rdlen=16; return 1; case 4: K.ep_fd=FlckThread::EventFd; return 1; default: vp_reach("interrupted"); return -1; } }
static void wrk(void*){ K.cfn[0](K.carg[0]); }
static void start(){ os_init(); os_caller(0,0,100,100); os_caller(1,0,100,101); K.cur=0; h_env("NO",{1,4,4,1,1,4}); h_up(); vp_assert(T.InitializeThread("/d/f",10),"P21: the worker cannot be started"); vp_assert(K.ncreate==1,"P21: the worker cannot be started"); K.thcaller[0]=1; K.stillsleep=1; K.cbound[1]=1; }
static int openfds(){ int n=0; for(int f=0;f<OS_FDS;f++) if(K.fd[0][f]>=0) n++; return n; }
static void gone(int fds){ vp_assert(vp_status(1)!=0,"P21: the worker is still running after the request to exit returned"); vp_assert(openfds()==fds,"P21: the worker leaves descriptors open"); vp_assert(K.nwatch==0,"P21: the worker leaves its watch"); }
ENTRY worker_script(){ start(); int fds=openfds(); script=P("polls",3); K.ephook=ep_script; vp_assert(T.Run(),"P21: the worker cannot be told to run"); K.cur=-1; vp_shared(&T); vp_spawn(wrk,nullptr); int r=vp_run(); vp_assert(r==0,"P21: the worker does not end when told to"); checksweeps(); if(P("timeouts",0)>=128) vp_assert(sweeps>0,SELDOM); vp_assert((K.watchmask&(IN_CLOSE_WRITE|IN_CLOSE_NOWRITE))==(IN_CLOSE_WRITE|IN_CLOSE_NOWRITE)&&!__builtin_strcmp(K.watch,"/d/f"),"P21: the worker does not watch the closing of the shared file"); gone(fds); vp_reach("ended"); }
// All interleavings of the worker with a controller that makes any requests and then asks it to exit. Polls without an event are waited through.
GHOST int running, extra, pend, nev, begun_;
static int ep_mc(){ if(pend){ vp_assert(sweeps>last,MISS); pend=0; } last=sweeps; vp_visible(0); keep(); if(nev<P("events",2)&&vp_conc(vp_sym("event",1))){ nev++; K.of[K.fd[0][FlckThread::InotifyFd]].pos=0; static unsigned char one[32]; one[0]=FlckThread::WatchFd; one[4]=IN_CLOSE_WRITE; K.rdlen=16; K.rdeagain=1; K.rdbuf=one; K.ep_events=1; K.ep_fd=FlckThread::InotifyFd; if(running) vp_reach("event"); return 1; } while(!told()) vp_visible(0); return 0; }
static void ctl2(void*){ bool run=false; for(int i=0;i<P("requests",3);i++){ int op=(int)vp_conc(symr("request",2)); bool g; if(op==0){ g=T.Run(); vp_assert(g==!run,"P21: a request to run is not answered as the state of the worker says"); run=true; } else { g=T.Stop(); vp_assert(g==run,"P21: a request to stop is not answered as the state of the worker says"); if(run){ int s0=sweeps; run=false; vp_visible(0); vp_visible(0); vp_assert(sweeps<=s0+1,"P21: the worker goes on sweeping after the request to stop"); vp_reach("stopped"); } } } running=run;
  bool del=P("destroy",1)&&vp_conc(vp_sym("destroy",1)); if(del){ T.~FlckThread(); vp_reach("destroyed"); } else vp_assert(T.Exit(),"P21: the request to exit fails"); vp_assert(vp_status(1)!=0,del?"P21: the worker is still running after its controller is gone":"P21: the worker is still running after the request to exit returned"); if(!del) (void)T.Exit(); }
ENTRY worker_mc(){ start(); int fds=openfds(); K.ephook=ep_mc; K.cur=-1; vp_shared(&T); vp_spawn(wrk,nullptr); vp_spawn(ctl2,nullptr); K.sched=P("sched",1); int r=vp_run(); vp_assert(r==0,"P21: the worker does not end when told to"); gone(fds); vp_reach("ended"); }
// Any of the system calls of the start of the worker fails: it ends, leaves nothing behind, and the request to exit still returns.
ENTRY worker_fail(){ os_init(); os_caller(0,0,100,100); os_caller(1,0,100,101); K.cur=0; h_env("NO",{1,4,4,1,1,4}); h_up(); K.stillsleep=1; K.cbound[1]=1; int fds=openfds(); K.faultat=(int)vp_conc(symr("fault",6)); bool g=T.InitializeThread("/d/f",10); if(K.faults){ vp_assert(!g,"P21: a worker that could not be started counts as started"); vp_assert(!T.Exit(),"P21: a worker that could not be started counts as started"); g=T.InitializeThread("/d/f",10); vp_reach("no thread"); } vp_assert(g,"P21: the worker cannot be started"); K.thcaller[K.ncreate-1]=1; if(vp_conc(vp_sym("run",1))) vp_assert(T.Run(),"P21: the worker cannot be told to run"); script=0; K.ephook=ep_script; int f=K.ncreate-1; K.cfn[0]=K.cfn[f]; K.carg[0]=K.carg[f]; int late=(int)vp_conc(vp_sym("late",1)); K.cur=-1; vp_shared(&T); K.sched=1; vp_spawn(wrk,nullptr); if(!late) vp_spawn(ctl2,nullptr); int r=vp_run(); K.sched=0; K.cur=0; if(late){ if(vp_status(1)==0) vp_assume(0); vp_assert(T.Exit(),"P21: the request to exit fails"); } else vp_assert(r==0,"P21: the worker does not end when told to"); gone(fds); vp_reach(K.faults?"failed":"worked"); }
