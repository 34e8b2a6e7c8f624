#include "lists.h"
#include "flckutil.h"
#include "flckpidcache.h"
// What is alive and open, against every sequence of questions with and without the cache of a sweep.
struct Th { int pid, tid; }; static const Th TH[4]={{1000,1000},{1001,1001},{1001,1002},{1002,1003}}; static const int PR[4]={0,1,1,2};
static int tdead[4], pdead_[3], deny[3], isopen[3][2]; static uint64_t dv[3][2], in_[3][2]; static int FD[2];
static int procOf(int pid){ return pid>=1000&&pid<=1002?pid-1000:-1; }
static int procGone(int p){ int all=1; for(int i=0;i<4;i++) if(PR[i]==p) all&=tdead[i]; return all|pdead_[p]; }
static int alive(int pid,int tid){ for(int i=0;i<4;i++) if(TH[i].pid==pid&&TH[i].tid==tid) return (tdead[i]|pdead_[PR[i]])^1; return 0; }
static const char*LIVE="P19: a process or thread is not reported alive exactly when it exists", *DEV="P19: a descriptor is not matched to the file it is open on", *DENY="P19: a descriptor that may not be inspected is not answered by whether its thread exists", *CACHE="P19: a cached answer differs from the answer of the probe";
static void truth(int pid,int tid,int fd,bool g,uint64_t d,uint64_t n,const char*c){ int p=procOf(pid); int a=alive(pid,tid);
  if(IS_FLCK_RWLOCK_NO_FD(fd)){ vp_assert(g==a,c?c:LIVE); if(g) vp_assert((d==(uint64_t)FLCK_EACCESS_ID)&(n==(uint64_t)FLCK_EACCESS_ID),c?c:LIVE); vp_reach(g?"alive":"not alive"); return; }
  int k=fd==FD[0]?0:fd==FD[1]?1:-1; int D=p<0?0:deny[p]&(procGone(p)^1), o=p<0||k<0?0:isopen[p][k]&(procGone(p)^1);
  vp_assert(g==((D&a)|((D^1)&o)),c?c:D?DENY:DEV); uint64_t wd=g?(D?(uint64_t)FLCK_EACCESS_ID:k<0||p<0?0:dv[p][k]):(uint64_t)FLCK_INVALID_ID, wn=g?(D?(uint64_t)FLCK_EACCESS_ID:k<0||p<0?0:in_[p][k]):(uint64_t)FLCK_INVALID_ID;
  vp_assert((d==wd)&(n==wn),c?c:DEV); vp_reach(g?(D?"not inspected":"open"):"not open"); }
ENTRY probe(){ os_init(); for(int i=0;i<4;i++){ os_caller(1+i,TH[i].pid-1000,TH[i].pid,TH[i].tid); } os_caller(5,4,2000,2000); K.cur=5; (void)get_threadid(); FD[0]=4; FD[1]=7;
  for(int i=0;i<4;i++){ K.cdead[1+i]=tdead[i]=(int)vp_sym("thread_ended",1); } for(int p=0;p<3;p++){ K.pdead[p]=pdead_[p]=(int)vp_sym("process_died",1); K.pfdeny[p]=deny[p]=(int)vp_sym("may_not_inspect",1); }
  for(int p=0;p<3;p++) for(int k=0;k<2;k++){ isopen[p][k]=(int)vp_sym("open",1); dv[p][k]=vp_sym("device",63); in_[p][k]=vp_sym("inode",63); vp_assume((dv[p][k]!=0)&(in_[p][k]!=0)); int f=os_open_dev(p,dv[p][k],in_[p][k]), o=K.fd[p][f]; K.fd[p][f]=-1; K.fd[p][FD[k]]=(o+1)*isopen[p][k]-1; }
  fl_pid_cache_map_t cache; int n=P("questions",2); for(int i=0;i<n;i++){ int few=P("few",0), pid=1000+few+(int)vp_conc(symr("pid",few?2:4)), tid=1000+few+(int)vp_conc(symr("tid",few?2:4)); if(vp_conc(vp_sym("about_descriptor",1))){ int q=(int)vp_conc(symr("descriptor",few?3:5)); int fd=q==0?-1:q==1?FD[0]:q==2?FD[1]:q==3?5:(int)(1u<<31); dev_t d=99; ino_t o=99; bool g=GetFileDevNode(pid,tid,fd,d,o,&cache); truth(pid,tid,fd,g,d,o,i?CACHE:nullptr); if(!P("both",1)) continue; d=o=98; g=GetFileDevNode(pid,tid,fd,d,o,nullptr); truth(pid,tid,fd,g,d,o,nullptr); }
    else { bool g=FindThreadProcess(pid,tid,&cache); vp_assert(g==alive(pid,tid),i?CACHE:LIVE); if(P("both",1)){ g=FindThreadProcess(pid,tid,nullptr); vp_assert(g==alive(pid,tid),LIVE); } vp_reach(g?"alive":"not alive"); } } }
// One sweep: everything a caller held that is gone by then is released, whatever else it held; the locks of the living stay.
ENTRY probe_sweep(){ os_init(); int rb=P("robust",1); Sizes SZ={4,6,6,3,1,4}; h_callers(3,false); for(int c=1;c<=3;c++) K.cbound[c]=0; if(P("same",0)) os_caller(2,1,1001,1002); h_env(rb==2?"HIGH":"LOW",SZ); os_setenv("FLCKROBUSTCHKCNT","0"); K.clkmode=2; K.clklimit=2; K.quietlive=1; h_up(); for(int p=1;p<=3;p++) os_clone_fds(0,p); int f1=os_open_dev(1,5,50); (void)os_open_dev(P("same",0)?1:2,5,60); int f3=os_open_dev(3,5,50); FlShm s;
  int held[2]; for(int h=0;h<2;h++){ K.cur=1+h; int m=held[h]=(int)vp_conc(vp_sym("held",3)); int g=0; if(m&1) g|=s.WriteLock(-1,10*h,10); if((m&2)&&!h) g|=s.WriteLock(f1,0,10); if(m&4) g|=s.Lock(h?"b":"a"); vp_assert(g==0,"harness: locks"); }
  int dies=(int)vp_conc(symr("event",4)); bool gone[2]={dies==1||dies==3,dies==2||dies==3}; if(P("same",0)){ K.cdead[1]=gone[0]; K.cdead[2]=gone[1]; if(gone[0]&&gone[1]) os_kill_proc(1); } else { for(int h=0;h<2;h++) if(gone[h]) os_kill_proc(1+h); }
  if(vp_conc(vp_sym("may_not_inspect",1))) K.pfdeny[1]=K.pfdeny[2]=1; bool fdgone=K.pdead[1]||(gone[0]&&K.pfdeny[1]);
  K.cur=0; FlShm::CheckProcessDead(); K.cur=3; const char*KEPT="P19: the lock of a live caller is released by a sweep",*LEFT="P19: a lock of a caller that is gone is left after a sweep";
  for(int h=0;h<2;h++){ int m=held[h], g; if(m&1){ g=s.TryWriteLock(-1,10*h,10); vp_assert(gone[h]?g==0:g==EBUSY,gone[h]?LEFT:KEPT); } if((m&2)&&!h){ g=s.TryWriteLock(f3,0,10); vp_assert(fdgone?g==0:g==EBUSY,fdgone?LEFT:KEPT); } if(m&4){ g=s.TryLock(h?"b":"a"); vp_assert(gone[h]?g==0:g==EBUSY,gone[h]?LEFT:KEPT); } if(m) vp_reach(gone[h]?"released":"kept"); } }
