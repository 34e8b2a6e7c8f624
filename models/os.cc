#include "os.h"
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/epoll.h>
#include <sys/inotify.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/syscall.h>
#define VPK __attribute__((section("vpk"),used,aligned(4096)))
VPK os_kernel K; 
VPK unsigned char vps_file[OS_FCAP];
static int slen(const char*s){ int n=0; while(s[n]) n++; return n; }
static bool seq(const char*a,const char*b){ int i=0; for(;a[i]&&a[i]==b[i];i++); return a[i]==b[i]; }
extern "C" {
static void cancelpt();
int os_me(){ return K.cur>=0?K.cur:vp_self(); }
static inline void point(int w){ if(K.sched) vp_visible(w); }
void os_init(){ K.cur=-1; K.fbase=vps_file; K.fcap=OS_FCAP; K.nextino=100; K.dataino=-1; K.clklimit=4; K.tick=1; K.clkmax=0; K.maxsleep=1000; for(int c=0;c<OS_CALLERS;c++){ K.cproc[c]=0; K.ctid[c]=0; K.now[c]=1000000000L; } for(int p=0;p<OS_PROCS;p++) for(int f=0;f<OS_FDS;f++) K.fd[p][f]=-1; K.nextfd_ev=0; }
int os_caller(int c,int proc,int pid,int tid){ K.cproc[c]=proc; K.ppid[proc]=pid; K.ctid[c]=tid; return c; }
void os_setenv(const char*n,const char*v){ K.envn[K.nenv]=n; K.envv[K.nenv++]=v; }
static int newof(){ for(int i=0;i<OS_OF;i++) if(!K.of[i].used){ K.of[i].used=1; K.of[i].refs=1; K.of[i].pos=0; K.of[i].kind=0; K.of[i].flags=0; return i; } vp_cap("os: open files"); return -1; }
static int newfd(int p,int of){ for(int f=3;f<OS_FDS;f++) if(K.fd[p][f]<0){ K.fd[p][f]=of; return f; } vp_cap("os: fds"); return -1; }
int os_open_dev(int proc,long dev,long ino){ int o=newof(); K.of[o].dev=dev; K.of[o].ino=ino; return newfd(proc,o); }
static void droplocks(int p,long ino){ for(int i=0;i<OS_LOCKS;i++) if(K.lk[i].used&&K.lk[i].proc==p&&(ino<0||K.lk[i].ino==ino)) K.lk[i].used=0; }
void os_close_fd(int p,int f){ int o=K.fd[p][f]; if(o<0) return; K.fd[p][f]=-1; droplocks(p,K.of[o].ino); if(--K.of[o].refs==0) K.of[o].used=0; }
void os_clone_fds(int a,int b){ for(int f=0;f<OS_FDS;f++){ K.fd[b][f]=K.fd[a][f]; if(K.fd[b][f]>=0) K.of[K.fd[b][f]].refs++; } }
void os_kill_proc(int p){ K.pdead[p]=1; droplocks(p,-1); for(int f=0;f<OS_FDS;f++) if(K.fd[p][f]>=0){ int o=K.fd[p][f]; K.fd[p][f]=-1; if(--K.of[o].refs==0) K.of[o].used=0; } }
static int procOfPid(long pid){ for(int p=0;p<OS_PROCS;p++) if(K.ppid[p]==pid&&pid) return p; return -1; }
static bool callerDead(int c){ if(K.cdead[c]||K.pdead[K.cproc[c]]) return true; if(K.cbound[c]&&vp_status(c)==2) return true; return false; }
static bool procDead(int p){ if(K.pdead[p]) return true; bool any=false; for(int c=0;c<OS_CALLERS;c++) if(K.ctid[c]&&K.cproc[c]==p){ if(!callerDead(c)) return false; any=true; } return any; }
static int err(int e){ K.cerrno[os_me()]=e; return -1; }
static bool flt(){ if(K.faultat<=0||--K.faultat) return false; K.faults++; return true; }
int *vpm___errno_location(){ return &K.cerrno[os_me()]; }
int vpm_getpid(){ return K.ppid[K.cproc[os_me()]]; }
long vpm_syscall(long n,long){ if(n==SYS_gettid) return K.ctid[os_me()]; vp_cap("os: syscall"); return -1; }
int vpm_gettid(){ return K.ctid[os_me()]; }
unsigned long vpm_pthread_self(){ return 0x1000+os_me(); }
int vpm_sched_yield(){ return 0; }
int vpm_usleep(unsigned us){ K.now[os_me()]+=1000L*us; point(0); return 0; }
int vpm_nanosleep(const timespec*t,timespec*){ int c=os_me(); cancelpt(); if(K.stillsleep){ point(0); cancelpt(); return 0; } K.now[c]+=t->tv_sec*1000000000L+t->tv_nsec; if(++K.nsleep>K.maxsleep) vp_cap("os: sleeps"); if(K.sleepcut&&++K.csleep[c]>K.sleepcut) vp_assume(0); point(0); return 0; }
int vpm_clock_gettime(int id,timespec*t){ int c=os_me();
  if(K.clkfail&&++K.nclk[c]==K.clkfail) return err(EINVAL);
  if(K.clkmode==3){ // any non-decreasing readings; the wall clock is unrelated to the monotonic one
    int k=K.nclk[c]++; int64_t q=vp_sym("clock_sec",34),r=vp_sym("clock_nsec",30); vp_assume(r<1000000000); if(id!=CLOCK_MONOTONIC){ t->tv_sec=q; t->tv_nsec=r; K.nclk[c]=k; if(++K.clkother>6) vp_assume(0); return 0; } if(k>7) vp_cap("os: clock readings"); if(k) vp_assume(q>K.clks[c][k-1]|(q==K.clks[c][k-1]&r>=K.clkn[c][k-1])); if(k>=K.clklimit) vp_assume(q>=K.clks[c][0]+(1L<<32)); else vp_assume(q<(1L<<31)); K.clks[c][k]=q; K.clkn[c][k]=r; t->tv_sec=q; t->tv_nsec=r; return 0; }
  if(K.clkmode==1){ uint64_t d=vp_sym("clock_advance",40); if(K.clkmax) vp_assume(d<(uint64_t)K.clkmax); K.now[c]+=d; if(++K.nclk[c]>K.clklimit) K.now[c]+=1L<<45; 
    int64_t q=vp_sym("clock_sec",30); int64_t r=vp_sym("clock_nsec",30); vp_assume(r<1000000000); vp_assume(q*1000000000L+r==K.now[c]); t->tv_sec=q; t->tv_nsec=r; return 0; }
  if(K.clkmode==2){ // time stands still or jumps past any deadline, whichever the solver picks
    if(++K.nclk[c]>1){ int j= K.nclk[c]>K.clklimit ? 1 : (int)vp_sym("deadline_passes",1); if(j) K.now[c]+=3600L*1000000000L; } t->tv_sec=K.now[c]/1000000000L; t->tv_nsec=K.now[c]%1000000000L; return 0; }
  K.now[c]+=K.tick; t->tv_sec=K.now[c]/1000000000L; t->tv_nsec=K.now[c]%1000000000L; return 0; }
long vpm_time(long*t){ long v=K.now[os_me()]/1000000000L; if(t) *t=v; return v; }
// ---- environment
char *vpm_getenv(const char*n){ for(int i=0;i<K.nenv;i++) if(seq(K.envn[i],n)) return (char*)K.envv[i]; return nullptr; }
int vpm_umask(int m){ int o=K.umask_cur; K.umask_cur=m; return o; }
long vpm_sysconf(int n){ return n==_SC_PAGESIZE?4096:-1; }
int vpm_getpagesize(){ return 4096; }
// ---- files
static int findPath0(const char*n){ for(int i=0;i<OS_FILES;i++) if(K.pa[i].used&&seq(K.pa[i].name,n)) return i; return -1; }
static int findPath(const char*n){ vp_model(1); int i=findPath0(n); vp_model(0); return i; }   // a path is read at once
static int addPath0(const char*n,int isdir,int mode){ for(int i=0;i<OS_FILES;i++) if(!K.pa[i].used){ K.pa[i].used=1; K.pa[i].isdir=isdir; K.pa[i].mode=mode; K.pa[i].dev=7; K.pa[i].ino=K.nextino++; int k=0; for(;n[k];k++){ if(k>=95) vp_cap("os: path length"); K.pa[i].name[k]=n[k]; } K.pa[i].name[k]=0; return i; } vp_cap("os: paths"); return -1; }
static int addPath(const char*n,int isdir,int mode){ vp_model(1); int i=addPath0(n,isdir,mode); vp_model(0); return i; }
static void touch(){ int p=K.cproc[os_me()]; for(int q=0;q<OS_PROCS;q++) if(q!=p&&K.att[q]) vp_assert(procDead(q),K.attmsg?K.attmsg:"P15: the shared file is initialised again while another process is attached"); }
static bool parent0(const char*n){ int e=-1; for(int k=0;n[k]&&k<95;k++) if(n[k]=='/') e=k; if(!n[0]) return false; if(e<=0) return true; char d[96]; for(int k=0;k<e;k++) d[k]=n[k]; d[e]=0; int i=findPath0(d); return i>=0&&K.pa[i].isdir; }
static bool parent(const char*n){ vp_model(1); bool r=parent0(n); vp_model(0); return r; }
int vpm_open(const char*n,int fl,int mode){ point(1); int p=K.cproc[os_me()]; if(K.failopen||flt()) return err(EACCES); int i=findPath(n);
  if(i>=0&&(fl&O_CREAT)&&(fl&O_EXCL)) return err(EEXIST);
  if(i<0){ if(!(fl&O_CREAT)||!parent(n)) return err(ENOENT); i=addPath(n,0,mode&~K.umask_cur); K.dataino=K.pa[i].ino; K.fsize=0; }
  if(fl&O_TRUNC){ touch(); K.fsize=0; }
  int o=newof(); K.of[o].dev=K.pa[i].dev; K.of[o].ino=K.pa[i].ino; K.of[o].kind=1; return newfd(p,o); }
int vpm_close(int f){ int p=K.cproc[os_me()]; if(f<0||f>=OS_FDS||K.fd[p][f]<0) return err(EBADF); point(1); os_close_fd(p,f); return 0; }
static int ofOf(int f){ int p=K.cproc[os_me()]; if(f<0||f>=OS_FDS||K.fd[p][f]<0) return -1; return K.fd[p][f]; }
int vpm_ftruncate(int f,long n){ point(1); int o=ofOf(f); if(o<0) return err(EBADF); if(K.failtrunc||flt()) return err(EIO); touch(); if(n>K.fcap) vp_cap("os: file size"); if(n<K.fsize) for(long i=n;i<K.fsize;i+=8) *(uint64_t*)(K.fbase+i)=0; K.fsize=n; return 0; }
static long ioLen(long n){ if(!K.shortio||n==0) return n; long k=K.intronly?(vp_conc(vp_sym("interrupted",1))?0:n):(long)vp_conc(vp_sym("io_count",8)); if(k==0){ K.iocalls++; if(K.iocalls>K.shortio) vp_assume(0); K.cerrno[os_me()]=EINTR; return -1; } if(k>n) vp_assume(0); if(k<n&&++K.iocalls>K.shortio) vp_assume(0); return k; }
long vpm_pwrite(int f,const void*b,unsigned long n,long off){ point(1); int o=ofOf(f); if(o<0) return err(EBADF); if(off<0) return err(EINVAL); if(flt()) return err(ENOSPC); touch(); long k=ioLen(n); if(k<0) return -1; if(off+k>K.fcap) vp_cap("os: file size"); __builtin_memcpy(K.fbase+off,b,k); if(off+k>K.fsize) K.fsize=off+k; return k; }
long vpm_pread(int f,void*b,unsigned long n,long off){ point(0); int o=ofOf(f); if(o<0) return err(EBADF); if(off>=K.fsize) return 0; if((long)n>K.fsize-off) n=K.fsize-off; long k=ioLen(n); if(k<0) return -1; __builtin_memcpy(b,K.fbase+off,k); return k; }
long vpm_read(int f,void*b,unsigned long n){ point(0); cancelpt(); int o=ofOf(f); if(o<0) return err(EBADF); if(K.of[o].kind==2){ long left=K.rdlen-K.of[o].pos; if(left<=0){ if(K.rdeagain) return err(EAGAIN); return 0; } if((long)n>left) n=left; long k=ioLen(n); if(k<0) return -1; __builtin_memcpy(b,K.rdbuf+K.of[o].pos,k); K.of[o].pos+=k; return k; }
  long k=vpm_pread(f,b,n,K.of[o].pos); if(k>0) K.of[o].pos+=k; return k; }
static void fillstat(struct stat*st,long dev,long ino,int mode,long size){ st->st_dev=dev; st->st_ino=ino; st->st_mode=mode; st->st_size=size; st->st_blksize=4096; }
int vpm_fstat(int f,struct stat*st){ point(0); int o=ofOf(f); if(o<0) return err(EBADF); if(flt()) return err(EIO); fillstat(st,K.of[o].dev,K.of[o].ino,S_IFREG|0644,K.of[o].ino==K.dataino?K.fsize:0); return 0; }
static const char *num(const char*s,long*v){ long r=0; if(*s<'0'||*s>'9') return nullptr; while(*s>='0'&&*s<='9') r=r*10+(*s++-'0'); *v=r; return s; }
static bool pre(const char*s,const char*p){ for(;*p;p++,s++) if(*s!=*p) return false; return true; }
int vpm_stat(const char*n,struct stat*st){
  if(pre(n,"/proc/")){ if(!K.quietlive) point(0); long pid; if(K.noproc) return err(EACCES); const char*q=num(n+6,&pid); if(!q) return err(ENOENT); int p=procOfPid(pid); if(p<0||procDead(p)) return err(ENOENT);
    if(!*q||seq(q,"/")||seq(q,"/task")||seq(q,"/fd")){ fillstat(st,3,pid,S_IFDIR|0555,0); return 0; }
    if(pre(q,"/task/")){ long tid; q=num(q+6,&tid); if(!q||(*q&&!seq(q,"/"))) return err(ENOENT); for(int c=0;c<OS_CALLERS;c++) if(K.ctid[c]==tid&&tid&&K.cproc[c]==p){ if(callerDead(c)) return err(ENOENT); fillstat(st,3,tid,S_IFDIR|0555,0); return 0; } return err(ENOENT); }
    if(pre(q,"/fd/")){ if(K.pfdeny[p]) return err(EACCES); long fd; q=num(q+4,&fd); if(!q||*q) return err(ENOENT); if(fd<0||fd>=OS_FDS||K.fd[p][fd]<0) return err(ENOENT); int o=K.fd[p][fd]; fillstat(st,K.of[o].dev,K.of[o].ino,S_IFREG|0644,0); return 0; }
    return err(ENOENT); }
  point(0); int i=findPath(n); if(i<0) return err(ENOENT); fillstat(st,K.pa[i].dev,K.pa[i].ino,(K.pa[i].isdir?S_IFDIR:S_IFREG)|0777,K.fsize); return 0; }
int vpm_lstat(const char*n,struct stat*st){ return vpm_stat(n,st); }
int vpm_access(const char*n,int){ struct stat st; return vpm_stat(n,&st); }
int vpm_mkdir(const char*n,int m){ point(1); if(findPath(n)>=0) return err(EEXIST); if(!parent(n)) return err(ENOENT); if(flt()) return err(EACCES); addPath(n,1,m); return 0; }
int vpm_unlink(const char*n){ int i=findPath(n); if(i<0) return err(ENOENT); K.pa[i].used=0; return 0; }
int vpm_fcntl(int f,int cmd,void*arg){ int me=os_me(),p=K.cproc[me]; point(1); int o=ofOf(f); if(o<0) return err(EBADF);
  if(cmd!=F_SETLK&&cmd!=F_SETLKW&&cmd!=F_GETLK){ if(cmd==F_SETFL||cmd==F_SETFD) return 0; if(cmd==F_GETFL||cmd==F_GETFD) return 0; vp_cap("os: fcntl"); return -1; }
  struct flock*l=(struct flock*)arg; if(flt()) return err(ENOLCK); long ino=K.of[o].ino,st=l->l_start,ln=l->l_len?l->l_len:(1L<<62);
  for(;;){ int hit=-1; if(l->l_type!=F_UNLCK) for(int i=0;i<OS_LOCKS;i++){ os_lock*k=&K.lk[i]; if(k->used&&k->ino==ino&&k->proc!=p&&!procDead(k->proc)&&k->start<st+ln&&st<k->start+k->len&&(k->type||l->l_type==F_WRLCK)){ hit=i; break; } }
    if(cmd==F_GETLK){ if(hit<0) l->l_type=F_UNLCK; else { l->l_type=K.lk[hit].type?F_WRLCK:F_RDLCK; l->l_pid=K.ppid[K.lk[hit].proc]; l->l_start=K.lk[hit].start; } return 0; }
    if(hit<0) break; if(cmd==F_SETLK) return err(EAGAIN); vp_visible(0); }
  for(int i=0;i<OS_LOCKS;i++){ os_lock*k=&K.lk[i]; if(k->used&&k->ino==ino&&k->proc==p&&k->start<st+ln&&st<k->start+k->len){ if(k->start<st||k->start+k->len>st+ln) vp_cap("os: lock split"); k->used=0; } }
  if(l->l_type!=F_UNLCK){ int i=0; for(;i<OS_LOCKS;i++) if(!K.lk[i].used) break; if(i==OS_LOCKS) vp_cap("os: locks"); K.lk[i].used=1; K.lk[i].proc=p; K.lk[i].type=l->l_type==F_WRLCK; K.lk[i].ino=ino; K.lk[i].start=st; K.lk[i].len=ln; }
  return 0; }
void *vpm_mmap(void*,unsigned long n,int,int,int f,long off){ point(0); int o=ofOf(f); if(o<0||K.failmmap||n==0||flt()){ err(EBADF); return (void*)-1; } long lim=(K.fsize+4095)/4096*4096-off; if(lim<=0){ lim=0; } if((long)n>lim) n=lim; if(n==0) return (void*)0x1000; K.nmap++; return (void*)vp_map(K.fbase+off,n); }
int vpm_munmap(void*p,unsigned long){ if(vp_unmap((uint64_t)p)) { K.nmap--; return 0; } return err(EINVAL); }
char *vpm_get_current_dir_name(){ char*p=(char*)__builtin_malloc(16); const char*s="/cwd"; int i=0; for(;s[i];i++) p[i]=s[i]; p[i]=0; return p; }
// ---- threads
int vpm_pthread_create(pthread_t*t,const void*,void*(*fn)(void*),void*a){ if(K.failcreate||flt()) return EAGAIN; int i=K.ncreate++; if(i<8){ K.cfn[i]=fn; K.carg[i]=a; } *t=0x5000+i; return 0; }
static int thOf(pthread_t t){ int i=(int)(t-0x5000); return i>=0&&i<8?K.thcaller[i]:0; }
int vpm_pthread_cancel(pthread_t t){ K.ncancel++; int c=thOf(t); if(c){ if(vp_status(c)) return ESRCH; point(1); K.cancelled[c]=1; } return 0; }
int vpm_pthread_join(pthread_t t,void**){ K.njoin++; int c=thOf(t); if(c) while(!vp_status(c)) vp_visible(0); return 0; }
int vpm_pthread_tryjoin_np(pthread_t t,void**){ K.njoin=1; int c=thOf(t); if(!c) return 0; point(0); return vp_status(c)?0:EBUSY; }
int vpm_pthread_detach(pthread_t){ return 0; }
int vpm_pthread_setcancelstate(int n,int*o){ int c=os_me(); if(o) *o=K.nocancel[c]; K.nocancel[c]=n; return 0; }
int vpm_pthread_setcanceltype(int,int*o){ if(o) *o=0; return 0; }
void vpm_cleanup_push(void(*f)(void*),void*a){ int c=os_me(); if(K.nch[c]>=4) vp_cap("os: cleanup handlers"); K.chfn[c][K.nch[c]]=f; K.charg[c][K.nch[c]++]=a; }
void vpm_cleanup_pop(int x){ int c=os_me(); int k=--K.nch[c]; if(x) K.chfn[c][k](K.charg[c][k]); }
void vpm_pthread_exit(void*){ int c=os_me(); K.nocancel[c]=1; while(K.nch[c]) vpm_cleanup_pop(1); vp_die(); }
static void cancelpt(){ int c=os_me(); if(K.cancelled[c]&&!K.nocancel[c]) vpm_pthread_exit(nullptr); }
void vpm_pthread_testcancel(){ if(K.cancelled[os_me()]) cancelpt(); }
int vpm_pthread_atfork(void(*)(),void(*)(),void(*c)()){ if(K.natfork<8) K.afchild[K.natfork]=c; K.natfork++; return 0; }
int vpm_pthread_key_create(unsigned*k,void(*)(void*)){ if(K.ntsd>=8) return EAGAIN; *k=K.ntsd++; return 0; }
int vpm_pthread_key_delete(unsigned){ return 0; }
void *vpm_pthread_getspecific(unsigned k){ return k<8?K.tsd[os_me()][k]:nullptr; }
int vpm_pthread_setspecific(unsigned k,const void*v){ if(k>=8) return EINVAL; K.tsd[os_me()][k]=(void*)v; return 0; }
// ---- epoll / inotify
static int evfd(){ int o=newof(); K.of[o].kind=2; K.of[o].dev=9; K.of[o].ino=K.nextino++; return newfd(K.cproc[os_me()],o); }
int vpm_epoll_create1(int){ if(flt()) return err(EMFILE); return evfd(); }
int vpm_inotify_init1(int){ if(flt()) return err(EMFILE); return evfd(); }
int vpm_epoll_ctl(int,int,int fd,struct epoll_event*e){ if(flt()) return err(ENOSPC); if(e){ K.ep_fd=e->data.fd; } (void)fd; return 0; }
int vpm_epoll_pwait(int ep,struct epoll_event*e,int n,int,const void*){ cancelpt(); if(K.ephook){ if(ofOf(ep)<0) return err(EBADF); K.ep_ret=K.ephook(); cancelpt(); if(K.ep_ret<-1){ err(EBADF); return -1; } } if(K.ep_ret>0){ e[0].events=K.ep_events; e[0].data.fd=K.ep_fd; } int r=K.ep_ret; if(r<0) err(EINTR); return r; }
int vpm_inotify_add_watch(int,const char*n,unsigned m){ if(flt()) return err(ENOSPC); K.watchmask=m; int i=0; for(;n[i]&&i<127;i++) K.watch[i]=n[i]; K.watch[i]=0; K.nwatch++; return 11; }
int vpm_inotify_rm_watch(int,int){ K.nwatch--; return 0; }
// ---- stdio (diagnostics only)
void *vpm_fopen(const char*,const char*){ return nullptr; }
int vpm_fclose(void*){ return 0; }
int vpm_fprintf(void*,const char*){ return 0; }
int vpm_printf(const char*){ return 0; }
int vpm_fflush(void*){ return 0; }
int vpm_puts(const char*){ return 0; }
int vpm_fputs(const char*,void*){ return 0; }
int vpm_fputc(int,void*){ return 0; }
unsigned long vpm_fwrite(const void*,unsigned long,unsigned long n,void*){ return n; }
}
