#include "lists.h"
#include <sys/stat.h>
// Several processes starting and leaving at once, interleaved at every system call. Each process has its own image of the library; the kernel model is common.
GHOST int started[8], left_[8], dead_n, holder; static int ROUNDS, FIRST; static Sizes SZ={1,4,4,2,1,4};
static bool d1(){ return vp_status(1)==2; }
static bool formed(){ auto*h=FlShm::pFlHead; if(!vp_mapped(h,sizeof(*h))||!vp_mapped(h,h->flength)) return false; Tally t=wf_tally(16); int lost=d1(); auto in=[&](int u,int n){ return u<=n&&u>=n-lost; }; return wf_ok&&in(t.nf+t.uf,SZ.file)&&in(t.no+t.uo,SZ.off)&&in(t.nl+t.ul,SZ.locker)&&in(t.nm+t.um,SZ.mtx)&&in(t.nc+t.uc,SZ.cond)&&in(t.nw+t.uw,SZ.waiter); }
static void body(void*){ int me=vp_self(); int p=K.cproc[me]; bool up=false; for(int k=0;k<ROUNDS;k++){
    K.csleep[me]=0; if(!k&&!FIRST){ FlShm s; up=FlShm::pFlHead!=nullptr; } else up=FlShm::InitializeShm();
    vp_assert(up,"P15: a start-up beside another one fails"); vp_assert(FlShm::pFlHead!=nullptr&&FlShm::ShmFd>=0,"P15: a start-up succeeds without shared memory"); K.att[p]=1; started[me]++; vp_reach("started");
    vp_assert(formed(),"P15: a process is attached to shared memory that is not initialised");
    { FlShm s; vp_visible(1); int r=s.TryLock("x"); vp_assert(r==0||r==EBUSY,"P15: an attached process cannot use its shared memory"); if(r==0){ vp_assert(!holder||(holder==2&&d1()),"P15: two attached processes do not share their locks"); holder=1+me; vp_visible(1); vp_assert(holder==1+me,"P15: two attached processes do not share their locks"); holder=0; r=s.Unlock("x"); vp_assert(r==0,"P15: an attached process cannot use its shared memory"); vp_reach("used"); } else { vp_assert(holder!=0||d1(),"P15: a fresh shared memory is not free"); vp_reach("busy"); } }
    vp_assert(formed(),"P15: the shared memory of an attached process is not well formed");
    K.att[p]=0; vp_visible(1); vp_assert(FlShm::Destroy()&&!FlShm::pFlHead&&FlShm::ShmFd<0,"P15: leaving fails"); } left_[me]=1; }
ENTRY startup(){ os_init(); int n=P("procs",2); ROUNDS=P("rounds",1); int rb=P("robust",0); h_env(rb==2?"HIGH":rb==1?"LOW":"NO",SZ); os_caller(0,0,100,100); FIRST=P("exists",0)==1; K.sleepcut=P("retries",3); os_setenv("FLCKDIRPATH","/d"); os_setenv("FLCKFILENAME","f");
  if(P("exists",0)==2){ K.cur=0; mkdir("/d",0777); int f=open("/d/f",O_RDWR|O_CREAT,0666); vp_assert(f>=0,"harness: file"); K.fsize=8192; for(int i=0;i<20;i++){ uint64_t v=vp_sym("left_behind",64); memcpy(vps_file+8*i,&v,8); } close(f); K.cur=-1; }
  if(FIRST){ h_up(); { FlShm s; int r=s.Lock("x"); vp_assert(r==0,"harness: lock"); } os_kill_proc(0); FlShm::ShmFd=FLCK_INVALID_HANDLE; FlShm::pShmBase=nullptr; FlShm::pFlHead=nullptr; os_caller(0,OS_PROCS-1,99,99); }
  for(int c=1;c<=n;c++){ os_caller(c,c,1000+c,1000+c); K.cbound[c]=1; } K.sched=1;
  for(int c=1;c<=n;c++) vp_spawn_proc(body,nullptr); if(P("crash",0)) vp_crashable(1,1);
  int r=vp_run(); vp_assert(r==0,"P15: start-ups beside each other never end"); vp_reach("finished"); int dead=vp_status(1)==2; if(dead) vp_reach("died"); for(int c=1+dead;c<=n;c++) vp_assert(left_[c],"P15: start-ups beside each other never end"); }
