#include "lists.h"
#include "flckthread.h"
#include <sys/inotify.h>
#include <sys/epoll.h>
// A process that uses the library forks (twice with gens=2): every history of the calls of parent, child and a process that starts afterwards, against who owns what.
enum { NEW=1, PAR=2, CH=3, GC=4, STEPS=8 };
GHOST int turn, nst, at_, own[2], cnt[2], rd[6], wr, dead_[6], up_, gens, fdx; static Sizes SZ={1,4,6,3,1,4};
static const char*WRONG="P16: after a fork a call is not answered as the ownership of parent and child demands", *STOLEN="P16: after a fork a lock of a live process is released by the sweep", *ATT="P16: a forked child is not attached to the shared memory of its parent", *NAMES[2]={"m","c"};
static bool readers(int me){ for(int i=0;i<6;i++) if(i!=me&&rd[i]) return true; return false; }
static bool maydead(int o){ return o&&dead_[o]; }
static bool anydead(int me){ if(wr&&wr!=me&&dead_[wr]) return true; for(int i=0;i<6;i++) if(i!=me&&rd[i]&&dead_[i]) return true; return false; }
static void fresh(){ for(int n=0;n<2;n++) own[n]=cnt[n]=0; wr=0; for(int i=0;i<6;i++) rd[i]=0; }
enum { NOPS=11 };
static void call(int me,int o){ FlShm s; int r; switch(o){
  case 0: case 1: { int n=o; r=s.TryLock(NAMES[n]); bool busy=own[n]&&own[n]!=me; if(busy&&maydead(own[n])){ vp_assert(r==0||r==EBUSY,WRONG); if(r==0){ own[n]=me; cnt[n]=1; } } else { vp_assert(r==(busy?EBUSY:0),WRONG); if(busy) vp_reach("busy"); else { own[n]=me; cnt[n]++; vp_reach("locked"); } } break; }
  case 2: case 3: { int n=o-2; r=s.Unlock(NAMES[n]); if(own[n]==me){ vp_assert(r==0,WRONG); if(!--cnt[n]) own[n]=0; vp_reach("unlocked"); } else if(own[n]){ vp_assert(r==EPERM,WRONG); vp_reach("not owner"); } else vp_assert(r==0||r==EINVAL,WRONG); break; }
  case 4: case 5: { bool w=o==4; if(wr==me||rd[me]) vp_assume(0); r=w?s.TryWriteLock(fdx,0,9):s.TryReadLock(fdx,0,9); bool busy=wr||(w&&readers(me)); if(busy&&anydead(me)) vp_assert(r==0||r==EBUSY,WRONG); else { vp_assert(r==(busy?EBUSY:0),WRONG); if(busy) vp_reach("range busy"); } if(r==0){ if(w){ wr=me; for(int i=0;i<6;i++) rd[i]=0; } else { if(wr) wr=0; rd[me]=1; } vp_reach("range locked"); } break; }
  case 6: { r=s.Unlock(fdx,0,9); if(wr==me||rd[me]){ vp_assert(r==0,WRONG); if(wr==me) wr=0; rd[me]=0; } else { vp_assert(r!=0,WRONG); vp_reach("range not held"); } break; }
  case 7: { s.CheckProcessDead(); for(int n=0;n<2;n++) if(maydead(own[n])){ own[n]=0; cnt[n]=0; } if(maydead(wr)) wr=0; for(int i=0;i<6;i++) if(dead_[i]) rd[i]=0;
    for(int n=0;n<2;n++) if(own[n]&&own[n]!=me) vp_assert(s.TryLock(NAMES[n])==EBUSY,STOLEN); if((wr&&wr!=me)||(readers(me)&&!rd[me])) vp_assert(s.TryWriteLock(fdx,0,9)==EBUSY,STOLEN); vp_reach("swept"); break; }
  case 8: for(int n=0;n<2;n++) if(own[n]==me) vp_assert(s.Unlock(NAMES[n])==0,WRONG); break;   // (of a count above one a share stays)
  } if(o==8) for(int n=0;n<2;n++) if(own[n]==me&&!--cnt[n]) own[n]=0; }
static int procof(int me){ return me==PAR?0:me==CH?1:me==GC?2:3; }
static void next(){ at_++; if(at_<nst){ int t=1+(int)vp_conc(symr("who",gens==2?4:3)); if(dead_[t]) vp_assume(0); turn=t; vp_only(t); } else { turn=0; vp_only(0); } }
static void body(void*){ int me=vp_self(); for(;;){ while(turn!=me) { if(!turn) return; vp_visible(0); } int o=(int)vp_conc(symr("op",me==NEW?9:NOPS));
    if(me==NEW&&!up_){ if(dead_[PAR]&&dead_[CH]&&(gens<2||dead_[GC])) fresh(); FlShm s; up_=1; vp_assert(FlShm::pFlHead!=nullptr,"P16: a process cannot start beside a forked child"); K.att[3]=1; vp_reach("newcomer"); }
    if(o==9){ os_kill_proc(procof(me)); dead_[me]=1; next(); vp_visible(1); vp_reach("died"); return; }
    if(o==10){ K.att[procof(me)]=0; vp_assert(FlShm::Destroy(),WRONG); dead_[me]=1; os_kill_proc(procof(me)); next(); vp_visible(1); vp_reach("left"); return; }
    call(me,o); next(); vp_visible(1); } }
static int fds(int p){ int n=0; for(int f=0;f<OS_FDS;f++) if(K.fd[p][f]>=0) n++; return n; }
// What happens at fork(2): descriptors and thread-specific data are copied, record locks and other threads are not, the child handlers run.
static void forked(int from,int to,int cfrom,int cto,int rb,int wfds){ os_caller(cto,to,1000+to,1000+to); os_clone_fds(from,to); for(int k=0;k<8;k++) K.tsd[cto][k]=K.tsd[cfrom][k]; if(P("late",0)&&from==0){ os_kill_proc(0); dead_[PAR]=1; K.att[0]=0; fresh(); }
  K.cur=cto; int nc=K.ncreate, before=fds(to); for(int i=0;i<K.natfork&&i<8;i++) K.afchild[i](); vp_assert(FlShm::pFlHead!=nullptr,ATT); K.att[to]=1;
  vp_assert(K.ncreate-nc==(rb?1:0),"P16: a fork does not start exactly one worker in the child"); vp_assert(fds(to)==before-wfds,"P16: a forked child keeps descriptors of the worker of its parent"); }
ENTRY forks(){ os_init(); int rb=P("robust",2); gens=P("gens",1); h_env(rb==2?"HIGH":rb==1?"LOW":"NO",SZ); os_setenv("FLCKDIRPATH","/d"); os_setenv("FLCKFILENAME","f"); os_setenv("FLCKNOMAPMODE","DENY_NORETRY"); os_setenv("FLCKROBUSTCHKCNT","0"); K.attmsg="P16: the shared memory is initialised again while a forked child uses it";
  os_caller(0,0,1000,1000); os_caller(NEW,3,1003,1003); vp_spawn_proc(body,nullptr); K.cur=0; fdx=os_open_dev(0,5,50); for(int p=1;p<4;p++) K.fd[p][fdx]=-1; h_up(); K.att[0]=1;
  { int o=K.fd[0][fdx]; K.fd[3][fdx]=o; K.of[o].refs++; }   // the newcomer has the data file open as well
  if(P("again",0)){ FlShm::ReInitializeObject("/d","f",1,4,6,3,1,4); vp_assert(FlShm::pFlHead!=nullptr,"harness: attached again"); }
  int w=0; if(rb&&P("worker",1)){ FlckThread::InotifyFd=inotify_init1(0); FlckThread::EventFd=epoll_create1(0); w=2; }
  int npre=P("prefix",2); for(int i=0;i<npre;i++){ int o=(int)vp_conc(symr("parent_op",9)); if(o==7) vp_assume(0); call(PAR,o); } int fd0=fds(0); (void)fd0;
  os_caller(PAR,0,1000,1000); for(int k=0;k<8;k++) K.tsd[PAR][k]=K.tsd[0][k]; vp_spawn_proc(body,nullptr);
  forked(0,1,0,8,rb,w); os_caller(CH,1,1001,1001);
  if(gens==2){ int m=P("prefix2",1); for(int i=0;i<m;i++){ int o=(int)vp_conc(symr("child_op",9)); call(CH,o); } for(int k=0;k<8;k++) K.tsd[CH][k]=K.tsd[8][k]; vp_spawn_proc(body,nullptr); forked(1,2,8,9,rb,0); os_caller(GC,2,1002,1002); for(int k=0;k<8;k++) K.tsd[GC][k]=K.tsd[9][k]; vp_spawn_proc(body,nullptr); }
  else { for(int k=0;k<8;k++) K.tsd[CH][k]=K.tsd[8][k]; vp_spawn_proc(body,nullptr); }
  nst=P("steps",3); at_=-1; next();
  K.cur=-1; int r=vp_run(); vp_assert(r==0,"P16: calls after a fork never return"); vp_reach("finished"); }
