#include "lists.h"
// Locks whose descriptor was closed or now refers to another file, next to locks of live holders; recovery by a waiter (high) or by a sweep.
GHOST int held1, held2; static Sizes SZ; static const off_t O=0; static const size_t L=10;
ENTRY file_stale(){ os_init(); int rb=P("robust",2),fm=P("free",1),mode=P("mode",0); bool same=P("same",0); h_callers(3,false); for(int c=1;c<=3;c++) K.cbound[c]=0; if(same) os_caller(2,1,1001,1002);
  SZ={2,4,4,1,1,4}; h_env(rb==2?"HIGH":rb==1?"LOW":"NO",SZ); os_setenv("FLCKROBUSTCHKCNT","0"); os_setenv("FLCKFREEUNITMODE",fm==0?"NO":fm==1?"FD":fm==2?"OFFSET":"ALWAYS"); K.clkmode=2; K.clklimit=2; K.quietlive=1; h_up();
  for(int p=1;p<=3;p++) os_clone_fds(0,p); int base=os_open_dev(0,5,50); int f1=os_open_dev(1,5,50); int f2=os_open_dev(same?1:2,5,50); int f3=os_open_dev(3,5,50); FlShm s;
  int w1=(int)vp_conc(vp_sym("first_writes",1)), other=(int)vp_conc(vp_sym("second_elsewhere",1)), two=(w1||other)?0:(int)vp_conc(vp_sym("second_reader",1)); off_t O2=other?O+10:O; int g;
  K.cur=1; g=w1?s.WriteLock(f1,O,L):s.ReadLock(f1,O,L); vp_assert(g==0,"harness: first lock"); K.cur=2; if(two||other){ g=s.ReadLock(f2,O2,L); vp_assert(g==0,"harness: second lock"); }
  int ev=(int)vp_conc(symr("event",7)); bool gone=false; // 0 nothing 1 closed 2 other inode 3 other device 4 same file again 5 process dies 6 may not be inspected
  if(ev>=1&&ev<=4) os_close_fd(1,f1); if(ev==2||ev==3||ev==4){ int f=os_open_dev(1,ev==3?6:5,ev==2?51:50); vp_assert(f==f1,"harness: same number"); } if(ev==5&&!same) os_kill_proc(1); if(ev==6){ K.pfdeny[1]=1; } gone=ev==1||ev==2||ev==3||(ev==5&&!same);
  bool conflict=two||!gone; K.cur=3;
  if(mode==0){ // high: a waiter gets it at once if only dead holders are in the way
    if(!conflict||(!two&&!w1)){ int wr=(int)vp_conc(vp_sym("waiter_writes",1)); if(wr&&conflict) wr=0; g=wr?s.WriteLock(f3,O,L):s.ReadLock(f3,O,L); vp_assert(g==0,"P10: a blocking lock on a range of a dead holder returns an error"); vp_reach(gone?"recovered":"shared"); g=s.Unlock(f3,O,L); vp_assert(g==0,"P10: a lock taken after recovery cannot be released"); if(!wr&&gone) FlShm::CheckProcessDead(); }
    else { vp_reach("kept"); K.sched=0; FlShm::CheckFileLockDeadLock(); } }
  else { K.cur=0; FlShm::CheckProcessDead(); vp_reach(gone?"recovered":"kept"); }
  K.cur=3; g=s.TryWriteLock(f3,O,L); vp_assert(conflict?g==EBUSY:g==0,conflict?"P10: the lock of a live holder is released":"P10: the range of a dead holder is not usable after recovery"); if(g==0){ g=s.Unlock(f3,O,L); vp_assert(g==0,"P10: a lock taken after recovery cannot be released"); }
  g=s.TryReadLock(f3,O,L); vp_assert((!gone&&w1)?g==EBUSY:g==0,(!gone&&w1)?"P10: the lock of a live holder is released":"P10: readers are shut out after recovery"); if(g==0){ g=s.Unlock(f3,O,L); vp_assert(g==0,"P10: a lock taken after recovery cannot be released"); }
  if(other){ g=s.TryWriteLock(f3,O2,L); vp_assert(g==EBUSY,"P10: the lock of a live holder is released"); }
  if(two||other){ K.cur=2; g=s.Unlock(f2,O2,L); vp_assert(g==0,"P10: a live reader cannot unlock after recovery"); K.cur=3; }
  if(!gone){ K.cur=1; g=s.Unlock(f1,O,L); vp_assert(g==0,"P10: a live reader cannot unlock after recovery"); K.cur=3; }
  g=s.TryWriteLock(f3,O,L); vp_assert(g==0,"P10: the range of a dead holder is not usable after recovery"); g=s.Unlock(f3,O,L); vp_assert(g==0,"P10: a recovered range cannot be unlocked");
  if(fm==1||fm==3){ Tally t=wf_tally(64); vp_assert(t.uf==0&&t.uo==0&&t.ul==0,"P11: units stay allocated after recovery"); } wf_check(SZ,0,"P11: a list of units is corrupted by recovery","P11: units are lost by recovery"); (void)base; }
