// Common harness prologue: the library's own headers with member access opened up.
#pragma once
#include <string>
#include <map>
#include <vector>
#include <list>
#include <set>
#include <iostream>
#include <sstream>
#include <algorithm>
#include <cstring>
#include <cstdlib>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <fcntl.h>
#define protected public
#define private public
#include "flckcommon.h"
#include "flckshm.h"
#include "fullock.h"
#include "rwlockrcsv.h"
#include "flckutil.h"
#undef protected
#undef private
#include "../models/os.h"
#define ENTRY extern "C" __attribute__((used)) void
#define GHOST __attribute__((section("vpk"),used)) static  // shared between processes, invisible to the scheduler
#define P(n,d) ((int)vp_param(n,d))
static inline uint64_t symb(const char*n,int bits){ return vp_sym(n,bits); }
static inline int symr(const char*n,int lim){ if(lim<=1) return 0; int b=1; while((1<<b)<lim) b++; int v=(int)vp_sym(n,b); vp_assume(v<lim); return v; }
// small decimal for environment values
static char hbuf[8][8]; static int hbufn;
static inline const char*dec(int v){ char*p=hbuf[hbufn++]; int n=0; char t[8]; do{ t[n++]='0'+v%10; v/=10; }while(v); int k=0; while(n) p[k++]=t[--n]; p[k]=0; return p; }
struct Sizes { int file, off, locker, mtx, cond, waiter; };
static inline void h_env(const char*robust,Sizes s){
  if(robust) os_setenv("FLCKROBUSTMODE",robust);
  os_setenv("FLCKFILECNT",dec(s.file)); os_setenv("FLCKOFFETCNT",dec(s.off)); os_setenv("FLCKLOCKERCNT",dec(s.locker)); os_setenv("FLCKNMTXCNT",dec(s.mtx)); os_setenv("FLCKNCONDCNT",dec(s.cond)); os_setenv("FLCKWAITERCNT",dec(s.waiter)); }
// Bring the library up exactly as a first user of it does (lazy singleton, environment, shared file).
static inline void h_up(){ FlShm o; (void)o; (void)get_threadid(); vp_assert(FlShm::pFlHead!=nullptr,"harness: the library attaches its shared memory"); }
static inline void h_guards(){ vp_guard(&FlShm::pFlHead->file_lock_lockid); vp_guard(&FlShm::pFlHead->named_mutex_lockid); vp_guard(&FlShm::pFlHead->named_cond_lockid); }
// callers 0..n: engine threads 0..n; separate emulated processes unless oneproc
static inline void h_callers(int n,bool oneproc){ for(int c=0;c<=n;c++){ int p=oneproc?0:c; os_caller(c,p,oneproc?1000:1000+c,oneproc?1000+c:1000+c); K.cbound[c]=1; } }
// The calls of the library, through the C++ class or (capi=1) through the C functions.
struct Api { bool c; Api():c(P("capi",0)){ if(!c) FlShm o; }
  int Lock(const char*n){ return c?fullock_mutex_lock(n):FlShm().Lock(n); } int TryLock(const char*n){ return c?fullock_mutex_trylock(n):FlShm().TryLock(n); } int TimeoutLock(const char*n,time_t t){ return c?fullock_mutex_timedlock(n,t):FlShm().TimeoutLock(n,t); } int Unlock(const char*n){ return c?fullock_mutex_unlock(n):FlShm().Unlock(n); }
  int ReadLock(int f,off_t o,size_t l){ return c?fullock_rwlock_rdlock(f,o,l):FlShm().ReadLock(f,o,l); } int WriteLock(int f,off_t o,size_t l){ return c?fullock_rwlock_wrlock(f,o,l):FlShm().WriteLock(f,o,l); } int TryReadLock(int f,off_t o,size_t l){ return c?fullock_rwlock_tryrdlock(f,o,l):FlShm().TryReadLock(f,o,l); } int TryWriteLock(int f,off_t o,size_t l){ return c?fullock_rwlock_trywrlock(f,o,l):FlShm().TryWriteLock(f,o,l); }
  int TimeoutReadLock(int f,off_t o,size_t l,time_t t){ return c?fullock_rwlock_timedrdlock(f,o,l,t):FlShm().TimeoutReadLock(f,o,l,t); } int TimeoutWriteLock(int f,off_t o,size_t l,time_t t){ return c?fullock_rwlock_timedwrlock(f,o,l,t):FlShm().TimeoutWriteLock(f,o,l,t); } int Unlock(int f,off_t o,size_t l){ return c?fullock_rwlock_unlock(f,o,l):FlShm().Unlock(f,o,l); } bool IsLocked(int f,off_t o,size_t l){ return c?fullock_rwlock_islocked(f,o,l):FlShm().IsLocked(f,o,l); }
  int Wait(const char*k,const char*m){ return c?fullock_cond_wait(k,m):FlShm().Wait(k,m); } int TimeoutWait(const char*k,const char*m,time_t t){ return c?fullock_cond_timedwait(k,m,t):FlShm().TimeoutWait(k,m,t); } int Signal(const char*k){ return c?fullock_cond_signal(k):FlShm().Signal(k); } int Broadcast(const char*k){ return c?fullock_cond_broadcast(k):FlShm().Broadcast(k); } };
