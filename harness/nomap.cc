#include "lists.h"
// Without shared memory: every call under every policy, while a system call of the attachment fails.
static Sizes SZ={2,4,4,2,1,4}; static int fdx, base_, rb, usedname; static const char*LEFT="P17: a failed attachment leaves something behind", *POL="P17: a call without shared memory is not answered as the policy says", *NORM="P17: a call with shared memory is not answered normally", *ARG="P17: a missing name is not rejected", *RET="P17: the retry policies do not attach when they can", *NOR="P17: a policy without retry attaches at a call";
static int fds(){ int n=0; for(int f=0;f<OS_FDS;f++) if(K.fd[0][f]>=0) n++; return n; }
static int shmlock(){ for(int i=0;i<OS_LOCKS;i++) if(K.lk[i].used&&K.lk[i].proc==0) return 1+K.lk[i].type; return 0; }
static bool att(){ bool a=shmlock()!=0; if(a) vp_assert(shmlock()==1&&K.nmap==1,"P17: an attached process does not hold the shared file as attached"); else { vp_assert(K.nmap==0&&fds()==base_,LEFT); } return a; }
enum { NOPS=16 };
static int call(Api&s,int op,bool nul){ const char*m=nul?nullptr:"m",*c=nul?nullptr:"c"; switch(op){ case 0: return s.Lock(m); case 1: return s.TryLock(m); case 2: return s.TimeoutLock(m,0); case 3: return s.Unlock(m); case 4: return s.ReadLock(fdx,0,5); case 5: return s.WriteLock(fdx,0,5); case 6: return s.TryReadLock(fdx,0,5); case 7: return s.TryWriteLock(fdx,0,5); case 8: return s.TimeoutReadLock(fdx,0,5,0); case 9: return s.TimeoutWriteLock(fdx,0,5,0); case 10: return s.Unlock(fdx,0,5); case 11: return s.IsLocked(fdx,0,5); case 12: return s.Wait(c,"m"); case 13: return s.TimeoutWait(c,"m",0); case 14: return s.Signal(c); default: return s.Broadcast(c); } }
static void policy(int mode){ static const char*const M[]={"ALLOW_NORETRY","DENY_NORETRY","ALLOW_RETRY","DENY_RETRY"}; os_setenv("FLCKNOMAPMODE",M[mode]); }
static int mode; static bool allow(){ return mode%2==0; } static bool retry(){ return mode>=2; }
static int says(int op){ return op==11?(allow()?0:1):allow()?0:ENOLCK; }
// One call and what it must answer; where it took a lock, the lock is there and is given back.
static void one(Api&s,int op,bool nul,bool badfd){ bool before=att(); int f0=K.faults; bool named=op<4||op>=12; if(before&&(op==12||op==13)&&!nul){ vp_assume(0); } int keep=fdx; if(badfd) fdx=19; int r=call(s,op,nul); K.faultat=0; fdx=keep; if(named&&nul){ vp_assert(r==EINVAL,ARG); vp_assert(att()==before,ARG); vp_reach("no name"); return; }
  bool after=att(); if(before) vp_assert(after,NORM); else if(!retry()) vp_assert(!after,NOR); else if(K.faults==f0) vp_assert(after,RET);
  if(after&&K.faults!=f0&&r==says(op)) return;   // the call itself met the failure
  if(!after){ vp_assert(r==says(op),POL); vp_reach(allow()?"allowed":"denied"); return; } if(!before) vp_reach("attached by a call");
  if(badfd&&op>=4&&op<=11){ vp_assert(r==(op==11?0:says(op)),"P17: a descriptor that is not open is not answered as the policy says"); vp_reach("no descriptor"); return; }
  if(op<3){ vp_assert(r==0,NORM); usedname=1; vp_assert(wf_tally(8).um==1,NORM); vp_assert(s.Unlock("m")==0,NORM); vp_reach("normal"); } else if(op==3) vp_assert(r==(usedname?0:EINVAL),NORM);
  else if(op<10){ vp_assert(r==0,NORM); Tally t=wf_tally(8); vp_assert(t.ul==1,NORM); vp_assert(s.IsLocked(fdx,0,5),NORM); vp_assert(s.Unlock(fdx,0,5)==0,NORM); } else if(op==10) vp_assert(r==EINVAL,NORM); else if(op==11) vp_assert(r==0,NORM); else if(op>=14) vp_assert(r==EINVAL,NORM); else if(op==12) vp_assert(r==EINVAL||r==0,NORM); }
static void begin(int noauto){ os_init(); os_caller(0,0,100,100); os_caller(1,1,200,200); K.cur=0; rb=(int)vp_conc(symr("robust",2)); h_env(rb?"HIGH":"NO",SZ); os_setenv("FLCKDIRPATH","/w/d"); os_setenv("FLCKFILENAME","f"); if(noauto) os_setenv("FLCKAUTOINIT","NO"); fdx=os_open_dev(0,5,50); base_=fds(); }
ENTRY nomap(){ mode=(int)vp_conc(symr("policy",4)); int noauto=(int)vp_conc(symr("noauto",2)); begin(noauto); policy(mode); if(!noauto) K.faultat=(int)vp_conc(symr("fault",P("faults",20))); { FlShm o; (void)o; } bool a=att(); if(!noauto&&!K.faults) vp_assert(a,"P17: the library does not attach at its first use"); if(noauto) vp_assert(!a,"P17: the library attaches though told not to"); if(a) vp_reach("attached"); if(K.faults) vp_reach(a?"attached in spite of a failure":"not attached"); K.faultat=0;
  Api s; int n=P("steps",1); for(int i=0;i<n;i++){ if(retry()&&!att()) K.faultat=(int)vp_conc(symr("later_fault",P("later",20))); int op=(int)vp_conc(symr("op",NOPS)); one(s,op,vp_conc(vp_sym("missing",1)),(op>=4&&op<=11)&&vp_conc(vp_sym("closed",1))); }
  if(att()) { K.faultat=0; vp_assert(FlShm::Destroy(),"P17: leaving fails"); vp_assert(!att(),"P17: leaving fails"); } vp_reach("done"); }
// Two threads of one process whose first calls under a retry policy have to attach: one attachment, and both work normally.
GHOST int in_; 
static void thr(void*){ Api s; int me=vp_self(); int op=P("ops",0)<3?P("ops",0):me==1?0:1; if(op==0){ int r=s.Lock("m"); vp_assert(r==0,RET); vp_assert(in_==0,"P17: two threads attaching at once do not exclude each other"); in_=me; vp_visible(1); vp_assert(in_==me,"P17: two threads attaching at once do not exclude each other"); in_=0; r=s.Unlock("m"); vp_assert(r==0,NORM); vp_reach("locked"); } else if(op==1){ int r=s.TryWriteLock(fdx,0,5); vp_assert(r==0||r==EBUSY,RET); if(r==0) vp_assert(s.Unlock(fdx,0,5)==0,NORM); vp_reach("range"); } else { bool l=s.IsLocked(fdx,0,5); (void)l; int r=s.Signal("c"); vp_assert(r==EINVAL,RET); } }
ENTRY nomap_mc(){ mode=2+P("deny",1); begin(P("noauto",0)); os_caller(1,0,100,101); os_caller(2,0,100,102); K.cbound[1]=K.cbound[2]=1; policy(mode); if(!P("noauto",0)) K.faultat=1+P("fault",0); { FlShm o; (void)o; } K.faultat=0; vp_assert(!att(),"harness: not attached"); K.cur=-1; K.sched=1; vp_spawn(thr,nullptr); vp_spawn(thr,nullptr); int r=vp_run(); vp_assert(r==0,"P17: threads attaching at once never return"); K.sched=0; K.cur=0; vp_assert(att(),RET); vp_reach("finished"); }
