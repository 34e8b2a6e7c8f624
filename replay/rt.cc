// Native replay: runs the compiled library + OS model + harness under the schedule, inputs and crash points of a trace
// produced by vpengine. Threads are real pthreads (real forked processes for vp_spawn_proc), passed a baton so that
// each executes exactly the memory accesses the trace gives it. usage: replay TRACE. exit 0: trace ran to its end,
// no assertion failed, coverage labels agree; 1: an assertion failed (printed); 2: diverged from the trace.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <pthread.h>
#include <errno.h>
#include <time.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <string>
#include <vector>
#include <map>
#include "../models/vp.h"
enum { MAXT=32, MAXL=96 };
__attribute__((section("vpk"),used,aligned(4096))) char vpk_tail[4096];
extern "C++" { extern char fullock_commit_hash[]; } char fullock_commit_hash[]="replay";
extern char __start_vpk[], __stop_vpk[];
struct Seg { int tid; uint64_t ev; int crash; };
struct Ctl { pthread_mutex_t m; pthread_cond_t c; int active, cur, crash; uint64_t limit; int state[MAXT]; uint64_t spos[MAXT]; size_t seg; int nthreads, nprocs; int rc; char msg[256]; char lab[MAXL][120]; uint64_t lcnt[MAXL]; int nlab; };
static Ctl *C; static std::vector<Seg> segs; static std::map<int,std::vector<std::pair<std::string,uint64_t>>> syms; static std::map<std::string,uint64_t> params, labels; static std::string want;
static __thread int self_=0; static __thread uint64_t cnt=0,lim=0; static __thread int off_=0; struct Off { Off(){ off_++; } ~Off(){ off_--; } }; static int proc_=0; static int memfd=-1;
static void finish(int rc,const char*fmt,const char*a){ pthread_mutex_lock(&C->m); if(!C->rc){ C->rc=rc+1; snprintf(C->msg,sizeof C->msg,fmt,a); } pthread_cond_broadcast(&C->c); bool main=self_==0; pthread_mutex_unlock(&C->m); if(main){ printf("%s\n",C->msg); fflush(stdout); _exit(C->rc-1); } for(;;) pause(); }
static void waitC(){ timespec t; clock_gettime(CLOCK_REALTIME,&t); t.tv_sec+=20; if(pthread_cond_timedwait(&C->c,&C->m,&t)==ETIMEDOUT){ pthread_mutex_unlock(&C->m); finish(2,"DIVERGED no progress%s",""); } }
static void park(int st){ // end of this thread's segment; returns when it is scheduled again
  pthread_mutex_lock(&C->m); if(C->active&&C->cur==self_){ if(C->crash&&st==1) st=3; C->state[self_]=st; C->active=0; pthread_cond_broadcast(&C->c); }
  if(st!=1){ pthread_mutex_unlock(&C->m); for(;;) pause(); }
  while(!(C->active&&C->cur==self_)) pthread_cond_wait(&C->c,&C->m); lim=C->limit; pthread_mutex_unlock(&C->m); }
struct Start { void(*fn)(void*); void*a; int id; };
static void body(Start*s){ self_=s->id; cnt=0; lim=0; pthread_mutex_lock(&C->m); while(!(C->active&&C->cur==self_)) pthread_cond_wait(&C->c,&C->m); lim=C->limit; pthread_mutex_unlock(&C->m);
  s->fn(s->a); if(cnt!=lim){ char b[64]; snprintf(b,64,"thread %d ended after %llu accesses, not %llu",self_,(unsigned long long)cnt,(unsigned long long)lim); finish(2,"DIVERGED %s",b); }
  pthread_mutex_lock(&C->m); C->state[self_]=2; C->active=0; pthread_cond_broadcast(&C->c); pthread_mutex_unlock(&C->m); }
static std::map<uint64_t,uint64_t> maps;
extern "C" {
NT void vp_ev(){ if(self_==0||off_) return; while(cnt>=lim) park(1); cnt++; }
NT uint64_t vp_sym(const char*n,int bits){ Off o; auto&v=syms[self_]; uint64_t&p=C->spos[self_]; if(p>=v.size()) finish(2,"DIVERGED extra input %s",n); if(v[p].first!=n) finish(2,"DIVERGED input %s out of order",n); uint64_t r=v[p++].second; return bits<64?r&((1ULL<<bits)-1):r; }
NT void vp_assume(int c){ if(!c) finish(2,"DIVERGED assumption does not hold%s",""); }
NT void vp_assert(int c,const char*m){ if(!c) finish(1,"ASSERT %s",m); }
NT void vp_fail(const char*m){ finish(1,"ASSERT %s",m); }
NT void vp_cap(const char*m){ finish(2,"DIVERGED model capacity %s",m); }
NT void vp_reach(const char*m){ for(int i=0;i<C->nlab;i++) if(!strcmp(C->lab[i],m)){ C->lcnt[i]++; return; } if(C->nlab<MAXL){ strncpy(C->lab[C->nlab],m,119); C->lcnt[C->nlab++]=1; } }
NT void vp_note(const char*m,uint64_t v){ printf("note t%d %s %lld\n",self_,m,(long long)v); }
NT int vp_spawn(void(*f)(void*),void*a){ int id=C->nthreads++; Start*s=new Start{f,a,id}; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,1<<20); pthread_t t; pthread_create(&t,&at,[](void*p)->void*{ body((Start*)p); for(;;) pause(); return nullptr; },s); return id; }
NT int vp_spawn_proc(void(*f)(void*),void*a){ int id=C->nthreads++; int pr=++C->nprocs; fflush(stdout); pid_t p=fork(); if(p==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); proc_=pr; Start s{f,a,id}; body(&s); for(;;) pause(); } return id; }
static void snap_(); NT int vp_run(){ for(;;){ if(C->seg>=segs.size()) finish(2,"DIVERGED trace exhausted%s",""); Seg s=segs[C->seg++]; if(s.tid<0) return (int)s.ev;
    pthread_mutex_lock(&C->m); C->cur=s.tid; C->limit=s.ev; C->crash=s.crash; C->active=1; pthread_cond_broadcast(&C->c); while(C->active&&!C->rc) waitC(); int rc=C->rc; pthread_mutex_unlock(&C->m); if(s.crash) snap_(); if(rc){ printf("%s\n",C->msg); fflush(stdout); _exit(rc-1); } } }
NT int vp_self(){ return self_; }
NT int vp_proc(){ return proc_; }
NT void vp_visible(int){ vp_ev(); }
NT void vp_shared(void*){}
NT uint64_t vp_map(void*p,uint64_t n){ Off o; uint64_t off=(char*)p-__start_vpk; uint64_t len=(n+4095)/4096*4096; static int k=0; void*h=(void*)(0x500000000000ULL+((uint64_t)proc_<<36)+((uint64_t)k++<<24)+proc_*0x3000); void*q=mmap(h,len,PROT_READ|PROT_WRITE,MAP_SHARED,memfd,off); if(q==MAP_FAILED) finish(2,"DIVERGED mmap%s",""); maps[(uint64_t)q]=len; return (uint64_t)q; }
NT int vp_unmap(uint64_t p){ Off o; auto it=maps.find(p); if(it==maps.end()) return 0; munmap((void*)p,it->second); maps.erase(it); return 1; }
NT int vp_mapped(const void*p,uint64_t n){ uint64_t a=(uint64_t)p&~4095ULL,e=((uint64_t)p+n+4095)&~4095ULL; unsigned char v[64]; for(;a<e;a+=64*4096){ uint64_t l=e-a<64*4096?e-a:64*4096; if(mincore((void*)a,l,v)) return 0; } return 1; }
NT void vp_guard(void*){} NT void vp_merge(){} NT void vp_model(int){} NT void vp_only(int){} NT void vp_crashable(int,int){} static struct { void*d; const void*s; uint64_t n; } cc_[4]; static int ncc_; NT void vp_crashcopy(void*d,const void*s,uint64_t n){ if(ncc_<4) cc_[ncc_++]={d,s,n}; }
NT uint64_t vp_lastw(int,const void*){ return vp_sym("lastw",64); }
static void snap_(){ for(int i=0;i<ncc_;i++) memcpy(cc_[i].d,cc_[i].s,cc_[i].n); }
NT int vp_status(int t){ if(t>=C->nthreads) return 2; return C->state[t]==3?2:C->state[t]==2?1:0; }
NT void vp_die(){ if(self_==0) finish(2,"DIVERGED main died%s",""); if(cnt!=lim) finish(2,"DIVERGED thread ends early%s",""); park(3); }
NT uint64_t vp_conc(uint64_t v){ return v; }
NT uint64_t vp_param(const char*n,uint64_t d){ Off o; auto it=params.find(n); return it==params.end()?d:it->second; }
void *__libc_calloc(size_t,size_t); void *malloc(size_t n){ return __libc_calloc(1,n?n:1); }
void vp_entry();
}
static void onsig(int s){ static char b[40]; snprintf(b,40,"%d",s); if(write(1,"CRASH signal ",13)&&write(1,b,strlen(b))&&write(1,"\n",1)) {} if(self_==0) _exit(1); if(C&&!C->rc){ C->rc=2; snprintf(C->msg,sizeof C->msg,"CRASH signal %d",s); C->active=0; pthread_cond_broadcast(&C->c); } for(;;) pause(); }
__attribute__((constructor(101))) static void early(){ // share the kernel section before any constructor uses it
  size_t n=__stop_vpk-__start_vpk; memfd=memfd_create("vpk",0); if(ftruncate(memfd,n+4096)){ perror("memfd"); _exit(3); } if(pwrite(memfd,__start_vpk,n,0)!=(ssize_t)n) _exit(3); if(((uint64_t)__start_vpk&4095)||(n&4095)){ fprintf(stderr,"vpk section not page aligned\n"); _exit(3); }
  if(mmap(__start_vpk,n,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_FIXED,memfd,0)==MAP_FAILED) _exit(3);
  C=(Ctl*)mmap(0,sizeof(Ctl),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma,1); pthread_mutex_init(&C->m,&ma); pthread_condattr_t ca; pthread_condattr_init(&ca); pthread_condattr_setpshared(&ca,1); pthread_cond_init(&C->c,&ca); C->nthreads=1; }
int main(int ac,char**av){
  FILE*f=ac>1?fopen(av[1],"r"):nullptr; if(!f){ fprintf(stderr,"usage: replay TRACE\n"); return 3; } char line[4096];
  while(fgets(line,sizeof line,f)){ size_t l=strlen(line); while(l&&line[l-1]=='\n') line[--l]=0; char nm[4000]=""; unsigned long long v; int t,cr;
    if(sscanf(line,"S %d %llu %d",&t,&v,&cr)==3) segs.push_back({t,v,cr}); else if(sscanf(line,"V %d %llu %3999[^\n]",&t,&v,nm)==3) syms[t].push_back({nm,v}); else if(sscanf(line,"L %llu %3999[^\n]",&v,nm)==2) labels[nm]=v; else if(sscanf(line,"P %llu %3999[^\n]",&v,nm)==2) params[nm]=v; else if(line[0]=='M'&&l>2) want=line+2; }
  fclose(f); signal(SIGSEGV,onsig); signal(SIGBUS,onsig); signal(SIGABRT,onsig); signal(SIGFPE,onsig); signal(SIGILL,onsig);
  vp_entry(); int rc=0; if(C->rc){ printf("%s\n",C->msg); rc=C->rc-1; } else if(want.empty()){ std::map<std::string,uint64_t> got; for(int i=0;i<C->nlab;i++) got[C->lab[i]]=C->lcnt[i]; if(got!=labels){ printf("DIVERGED coverage labels differ\n"); rc=2; } else if(C->seg!=segs.size()){ printf("DIVERGED trace not used up\n"); rc=2; } else { for(auto&x:syms) if(C->spos[x.first]!=x.second.size()){ printf("DIVERGED inputs of thread %d not used up\n",x.first); rc=2; } if(!rc) printf("OK %zu segments\n",segs.size()); } } else { printf("NOFAIL expected: %s\n",want.c_str()); rc=2; }
  fflush(stdout); _exit(rc); }
