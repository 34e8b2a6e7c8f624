// OS model shared by all harnesses (see DESIGN.md "Environment model").
#pragma once
#include "vp.h"
#include <stdint.h>
#include <stddef.h>
enum { OS_CALLERS=16, OS_PROCS=12, OS_FDS=24, OS_OF=40, OS_FILES=10, OS_LOCKS=24, OS_ENV=20, OS_FCAP=3*65536 };
struct os_ofile { int used, refs, kind; long dev, ino, pos; int flags; };   // kind 0 plain 1 data file 2 special
struct os_lock { int used, proc, type; long ino, start, len; };             // type 0 rd 1 wr
struct os_path { int used, isdir; char name[96]; long dev, ino; int mode; };
struct os_kernel {
  int cur;                                   // caller override (-1: engine thread)
  int cproc[OS_CALLERS], ctid[OS_CALLERS], cdead[OS_CALLERS], cbound[OS_CALLERS], cerrno[OS_CALLERS];
  void *tsd[OS_CALLERS][8]; int ntsd;
  int ppid[OS_PROCS], pdead[OS_PROCS], pfdeny[OS_PROCS];
  int fd[OS_PROCS][OS_FDS]; os_ofile of[OS_OF];
  os_lock lk[OS_LOCKS];
  os_path pa[OS_FILES]; long fsize; long dataino; long nextino;
  const char *envn[OS_ENV]; const char *envv[OS_ENV]; int nenv;
  long now[OS_CALLERS]; int nclk[OS_CALLERS]; int clkmode, clklimit; long tick; long clkmax; long clks[OS_CALLERS][8], clkn[OS_CALLERS][8]; int clkfail, clkother;
  int ncreate, ncancel, njoin, natfork; void *(*cfn[8])(void*); void *carg[8]; void (*afchild[8])(); int failcreate;
  int thcaller[8], cancelled[OS_CALLERS], nocancel[OS_CALLERS], nch[OS_CALLERS]; void (*chfn[OS_CALLERS][4])(void*); void *charg[OS_CALLERS][4]; int (*ephook)(); int stillsleep;   // thread i of this process runs as caller thcaller[i] (0: not run)
  int umask_cur; int noproc; int failmmap, failopen, failtrunc, shortio, iocalls;
  int sched; int nsleep; int maxsleep; int quietlive;
  int prbaddress; int nmap;
  long rdlen; const unsigned char *rdbuf; int rdeagain; 
  int ep_ret, ep_fd; unsigned ep_events; int nwatch; unsigned watchmask; char watch[128]; int nextfd_ev;
  const char *attmsg; int att[OS_PROCS];                         // attached, as far as the process has been told (file writes by others are then a violation)
  int faultat, faults, intronly;                       // the system call that fails, counted down (0: none)
  unsigned char *fbase; long fcap; int sleepcut, csleep[OS_CALLERS];
};
extern os_kernel K;
extern unsigned char vps_file[OS_FCAP];
#ifdef __cplusplus
extern "C" {
#endif
void os_init();
int os_caller(int c,int proc,int pid,int tid);
int os_open_dev(int proc,long dev,long ino);
void os_close_fd(int proc,int fd);
void os_clone_fds(int from,int to);
void os_kill_proc(int proc);
void os_setenv(const char*n,const char*v);
int os_me();
#ifdef __cplusplus
}
#endif
