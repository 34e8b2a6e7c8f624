#include "lists.h"
// Layout of the shared file. layout_arith: the real sizing code with all six counts symbolic; the list builders, the zero filling and the mapping are stand-ins that record what they are asked to do.
struct Rec { uint64_t at, n; int seen; }; static Rec rec[6]; static uint64_t filled, mapped_, fillat; static int nfill, nmap_; alignas(4096) static char head[4096];
static uint64_t rc(int k,char*p,uint64_t n){ rec[k].at=(uint64_t)p-(uint64_t)head; rec[k].n=n; rec[k].seen++; return rec[k].at; }
extern "C" { __attribute__((used)) uint64_t st_file(char*p,uint64_t n){ return rc(0,p,n); } __attribute__((used)) uint64_t st_off(char*p,uint64_t n){ return rc(1,p,n); } __attribute__((used)) uint64_t st_locker(char*p,uint64_t n){ return rc(2,p,n); } __attribute__((used)) uint64_t st_mtx(char*p,uint64_t n){ return rc(3,p,n); } __attribute__((used)) uint64_t st_cond(char*p,uint64_t n){ return rc(4,p,n); } __attribute__((used)) uint64_t st_waiter(char*p,uint64_t n){ return rc(5,p,n); }
  __attribute__((used)) bool st_fill(int,uint64_t n,long at){ filled=n; fillat=at; nfill++; return true; } __attribute__((used)) void*st_map(int,uint64_t n,long){ mapped_=n; nmap_++; return head; } }
static const char*OUT="P13: a table does not fit into the shared file"; static const char*OVL="P13: two tables of the shared file overlap"; static const char*CNT="P13: a table is not built with the configured number of units";
ENTRY layout_arith(){ os_init(); os_caller(0,0,100,100); static const uint64_t lo[6]={1,4,4,1,1,4},hi[6]={2048,16384,16384,8192,8192,16384}; static const char*nm[6]={"files","ranges","lockers","mutexes","conds","waiters"}; uint64_t n[6]; for(int i=0;i<6;i++){ n[i]=vp_sym(nm[i],15); vp_assume((n[i]>=lo[i])&(n[i]<=hi[i])); }
  FlShm::FileLockAreaCount=n[0]; FlShm::OffLockAreaCount=n[1]; FlShm::LockerAreaCount=n[2]; FlShm::NMtxAreaCount=n[3]; FlShm::NCondAreaCount=n[4]; FlShm::WaiterAreaCount=n[5];
  K.cur=0; FlShm::ShmFd=open("/f",O_RDWR|O_CREAT,0666); bool ok=FlShm::InitializeShmFile(); vp_assert(ok,"P13: building the shared file fails"); for(int i=0;i<6;i++) if(rec[i].seen!=1) return; if(nmap_!=1||!nfill||(char*)FlShm::pFlHead!=head) return; vp_reach("built");
  uint64_t sz[6]={sizeof(FLFILELOCK),sizeof(FLOFFLOCK),sizeof(FLLOCKER),sizeof(FLNAMEDMUTEX),sizeof(FLNAMEDCOND),sizeof(FLWAITER)}; uint64_t len=FlShm::pFlHead->flength;
  vp_assert(len%4096==0,"P13: the file is not a whole number of pages"); vp_assert(fillat==0&&filled>=len,"P13: the shared file is shorter than its tables"); vp_assert(mapped_>=len,"P13: the mapping is shorter than the tables");
  int ord[6]; for(int i=0;i<6;i++){ vp_assert(rec[i].n==n[i],CNT); vp_assert(rec[i].at%8==0,"P13: a table is not aligned"); int k=i; for(;k>0&&rec[ord[k-1]].at>rec[i].at;k--) ord[k]=ord[k-1]; ord[k]=i; }
  uint64_t end=sizeof(FLHEAD); for(int k=0;k<6;k++){ int i=ord[k]; vp_assert(rec[i].at>=end,OVL); end=rec[i].at+n[i]*sz[i]; } vp_assert(end<=len,OUT);
  auto*h=FlShm::pFlHead; vp_assert((uint64_t)h->file_lock_free==rec[0].at&&(uint64_t)h->offset_lock_free==rec[1].at&&(uint64_t)h->locker_free==rec[2].at&&(uint64_t)h->named_mutex_free==rec[3].at&&(uint64_t)h->named_cond_free==rec[4].at&&(uint64_t)h->waiter_free==rec[5].at,"P13: a free list does not start at its table"); vp_reach("checked"); }
// layout_build: the real construction; every unit of every free list lies in the file and shares no byte with another one.
static unsigned char used_[OS_FCAP];
template<class T> static int walk(T*rel,int max){ int n=0; for(T*p=habs(rel);p;p=habs(p->next)){ if(++n>max) return -1; uint64_t o=(char*)p-(char*)FlShm::pShmBase; vp_assert(o>=sizeof(FLHEAD)&&o+sizeof(T)<=FlShm::pFlHead->flength&&vp_mapped(p,sizeof(T)),OUT); for(uint64_t i=0;i<sizeof(T);i+=8){ vp_assert(!used_[o+i],OVL); used_[o+i]=1; } } return n; }
ENTRY layout_build(){ os_init(); int big=P("big",0); Sizes z={1,4,4,1,1,4}; int*f[6]={&z.file,&z.off,&z.locker,&z.mtx,&z.cond,&z.waiter}; if(big){ for(int i=0;i<6;i++) *f[i]=big+7*i; } else { int t=(int)vp_conc(symr("table",6)); *f[t]+=(int)vp_conc(symr("more",6)); int u=(int)vp_conc(symr("table",6)); *f[u]+=(int)vp_conc(symr("more",4)); }
  h_env("NO",z); os_caller(0,0,100,100); h_up(); auto*h=FlShm::pFlHead; int m=400;
  vp_assert(walk(h->file_lock_free,m)==z.file&&walk(h->offset_lock_free,m)==z.off&&walk(h->locker_free,m)==z.locker&&walk(h->named_mutex_free,m)==z.mtx&&walk(h->named_cond_free,m)==z.cond&&walk(h->waiter_free,m)==z.waiter,CNT);
  vp_assert(!h->file_lock_list&&!h->named_mutex_list&&!h->named_cond_list,"P13: a new shared file has units in use"); vp_assert(K.fsize>=(long)h->flength&&vp_mapped(h,h->flength),OUT); vp_reach("built"); }
// layout_two: two processes with the file at different addresses, the solver choosing whose call is next; both see the same locks and the lists stay whole.
GHOST int turn, own[3], dep[3], rown[2], wfail; static int STEPS; static Sizes SZ={2,4,5,3,1,4};
static void step(int me,FlShm&s,int fd){ static const char*N[3]={"a","b","c"}; int op=(int)vp_conc(symr("op",4));  if(op<2){ int k=(int)vp_conc(symr("name",P("names",3))); if(op==0){ int r=s.TryLock(N[k]); vp_assert(own[k]&&own[k]!=me?r==EBUSY:r==0,"P13: processes with different mapping addresses disagree about a mutex"); if(r==0){ own[k]=me; dep[k]++; } vp_reach(r?"busy":"locked"); } else { vp_assume(own[k]==me); int r=s.Unlock(N[k]); vp_assert(r==0,"P13: a process cannot unlock what it locked"); if(--dep[k]==0) own[k]=0; vp_reach("unlocked"); } }
  else { int k=(int)vp_conc(symr("range",2)); if(op==2){ int r=s.TryWriteLock(fd,100*k,10); vp_assert(rown[k]?r==EBUSY:r==0,"P13: processes with different mapping addresses disagree about a range"); if(r==0) rown[k]=me; vp_reach(r?"range busy":"range locked"); } else { vp_assume(rown[k]==me); int r=s.Unlock(fd,100*k,10); vp_assert(r==0,"P13: a process cannot unlock what it locked"); rown[k]=0; vp_reach("range unlocked"); } }
  wf_check(SZ,0,"P13: a list is damaged by processes with different mapping addresses","P13: units are lost by processes with different mapping addresses"); }
static void pick(){ vp_only(turn<STEPS?1+(int)vp_conc(vp_sym("who",1)):0); }
static void two(void*){ int me=vp_self(); { FlShm s; vp_assert(FlShm::pFlHead!=nullptr,"harness: attached"); vp_note("address",(uint64_t)FlShm::pShmBase); int fd=os_open_dev(K.cproc[me],9,9); if(me==1) vp_only(2); else pick(); vp_visible(1); while(turn<STEPS){ step(me,s,fd); turn++; pick(); vp_visible(1); } } }
ENTRY layout_two(){ os_init(); STEPS=P("steps",4); int rb=P("robust",0); h_env(rb==2?"HIGH":rb==1?"LOW":"NO",SZ); if(P("free",1)!=1) os_setenv("FLCKFREEUNITMODE",P("free",1)==0?"NO":P("free",1)==2?"OFFSET":"ALWAYS"); os_caller(0,0,100,100); for(int c=1;c<=2;c++){ os_caller(c,c,1000+c,1000+c); K.cbound[c]=1; }
  vp_only(1); for(int c=1;c<=2;c++) vp_spawn_proc(two,nullptr); int r=vp_run(); vp_assert(r==0,"P13: a call never returns"); vp_reach("finished"); }
