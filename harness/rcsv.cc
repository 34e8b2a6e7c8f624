#include "lists.h"
// The recursive helper. Several objects of one thread over two separate ranges, against a reference: the objects holding a range make one lock, which is a write lock once one of them has asked for it.
enum { NO=3, NR=2 };
static Sizes SZ; static FLRwlRcsv*ob[NO]; static int tgt[NO], kind[NO], held[NO]; static int gw[NR], promoted[NO]; static int fdx,fdo; static const off_t OFF[NR]={0,100}; static const size_t LEN[NR]={10,20};
static int members(int r){ int n=0; for(int i=0;i<NO;i++) if(held[i]&&tgt[i]==r) n++; return n; }
static void drop(int i){ if(!held[i]) return; held[i]=0; if(!members(tgt[i])) gw[tgt[i]]=0; }
static void take(int i,int k){ int r=tgt[i]; kind[i]=k; promoted[i]=0; if(held[i]&&members(r)==1) gw[r]=k; else { held[i]=1; if(k) gw[r]=1; } for(int j=0;j<NO;j++) if(held[j]&&kind[j]==0&&gw[tgt[j]]) promoted[j]=1; }
static const char*UND="P18: the underlying lock is not what the objects hold";
static void look(){ int ng=0; for(int r=0;r<NR;r++) if(members(r)) ng++; Tally t=wf_tally(32); vp_assert(wf_ok,UND); vp_assert(t.ul==ng,"P18: the objects of one thread on one range do not make one lock"); }
static void probe(){ Api s; int me=K.cur; K.cur=2; for(int r=0;r<NR;r++){ bool h=members(r)>0; int g=s.TryReadLock(fdo,OFF[r],LEN[r]); vp_assert(g==(h&&gw[r]?EBUSY:0),UND); if(!g) s.Unlock(fdo,OFF[r],LEN[r]); g=s.TryWriteLock(fdo,OFF[r],LEN[r]); vp_assert(g==(h?EBUSY:0),UND); if(!g) s.Unlock(fdo,OFF[r],LEN[r]); } K.cur=me; }
static void look0(){ vp_assert(wf_tally(32).ul==0,"P18: the underlying lock is not what the objects hold"); }
static void setup(bool mc=false){ K.quietlive=1; int rb=P("robust",0),fm=P("free",1); os_caller(0,0,100,100); os_caller(1,0,100,101); if(mc) os_caller(2,0,100,102); else os_caller(2,1,200,200); K.cur=0; SZ={2,4,P("nlocker",6),1,1,4}; h_env(rb==2?"HIGH":rb==1?"LOW":"NO",SZ); os_setenv("FLCKROBUSTCHKCNT","0"); os_setenv("FLCKNOMAPMODE","DENY"); os_setenv("FLCKFREEUNITMODE",fm==0?"NO":fm==1?"FD":fm==2?"OFFSET":"ALWAYS"); h_up(); os_clone_fds(0,1); fdx=os_open_dev(0,5,50); fdo=os_open_dev(1,5,50); for(int c=1;c<3;c++){ K.cur=c; (void)get_threadid(); } K.cur=0; }
static void finish(const char*after){ for(int r=0;r<NR;r++) gw[r]=0; for(int i=0;i<NO;i++){ delete ob[i]; ob[i]=nullptr; held[i]=0; } look(); probe(); wf_check(SZ,0,UND,UND); FLRwlRcsv o(fdx,OFF[0],LEN[0],false); tgt[0]=0; held[0]=1; gw[0]=1; vp_assert(wf_tally(32).ul==1,after); probe(); }
ENTRY rcsv(){ os_init(); setup(); int n=P("steps",3),no=P("objects",2),ops=P("ops",7); for(int i=0;i<no;i++){ tgt[i]=0; kind[i]=-1; int how=i&&P("made",0)?(int)vp_conc(symr("made",3)):0; if(how==0) ob[i]=new FLRwlRcsv(); else { ob[i]=new FLRwlRcsv(fdx,OFF[0],LEN[0]); } if(how==0) tgt[i]=-1; else if(how==2){ delete ob[i]; ob[i]=new FLRwlRcsv(fdx,OFF[0],LEN[0],true); take(i,0); } }
  for(int s=0;s<n;s++){ int i=(int)vp_conc(symr("object",no)); int op=(int)vp_conc(symr("op",ops)); FLRwlRcsv&o=*ob[i]; bool g;
    if(op==0||op==1){ int k=op; int r=(int)vp_conc(symr("range",NR)); drop(i); tgt[i]=r; g=k?o.Lock(fdx,OFF[r],LEN[r],false):o.Lock(fdx,OFF[r],LEN[r]); vp_assert(g,"P18: a lock that conflicts with nothing fails"); take(i,k); }
    else if(op==2){ g=o.Unlock(); vp_assert(g,"P18: an unlock fails"); drop(i); }
    else if(op==3||op==4){ if(tgt[i]<0) vp_assume(0); int k=op-3; g=vp_conc(symr("form",2))?o.Lock(!k):k?o.WriteLock():o.ReadLock(); vp_assert(g,"P18: a lock that conflicts with nothing fails"); take(i,k); }
    else if(op==5){ if(tgt[i]<0){ g=o.Lock(); vp_assert(!g,"P18: an object without a target locks"); vp_reach("no target"); } else if(promoted[i]) vp_assume(0); else { bool none=kind[i]<0; g=o.Lock(); vp_assert(g==!none,"P18: a lock that conflicts with nothing fails"); if(g) take(i,kind[i]); else vp_reach("never asked"); } }
    else { drop(i); delete ob[i]; ob[i]=new FLRwlRcsv(); tgt[i]=-1; kind[i]=-1; promoted[i]=0; vp_reach("destroyed"); }
    look(); for(int r=0;r<NR;r++){ if(members(r)>1) vp_reach(gw[r]?"shared write":"shared read"); } }
  probe(); finish("P18: a new object cannot lock after all others are gone"); vp_reach("done"); }
// A system call of one of the calls fails. What failed is reported, the objects stay usable, and nothing is held once they are gone.
ENTRY rcsv_fail(){ os_init(); setup(); int n=P("steps",2); for(int i=0;i<2;i++) ob[i]=new FLRwlRcsv(fdx,OFF[0],LEN[0]);
  for(int i=0;i<2;i++){ tgt[i]=0; int k=(int)vp_conc(symr("first",3)); if(k<2){ bool g=k?ob[i]->WriteLock():ob[i]->ReadLock(); vp_assert(g,"P18: a lock that conflicts with nothing fails"); } }
  K.faultat=(int)vp_conc(symr("fault",P("faults",4))); for(int s=0;s<n;s++){ int i=(int)vp_conc(symr("object",2)); int op=(int)vp_conc(symr("op",4)); int f0=K.faults; bool g=op==0?ob[i]->ReadLock():op==1?ob[i]->WriteLock():op==2?ob[i]->Unlock():ob[i]->Lock(fdx,OFF[1],LEN[1],(bool)vp_conc(symr("read",2))); if(K.faults==f0) vp_assert(g||f0,"P18: a lock that conflicts with nothing fails"); else { if(!g) vp_reach("failed"); else vp_reach("recovered"); } if(f0&&K.faults==f0) vp_reach("used after a failure"); }
  K.faultat=0; int last=(int)vp_conc(symr("last",3)); if(last==0){ vp_assert(ob[0]->Unlock()&&ob[1]->Unlock(),"P18: an object cannot be unlocked after a failed call"); look0(); } else if(last==1){ vp_assert(ob[0]->WriteLock()&&ob[1]->ReadLock(),"P18: an object cannot lock after a failed call"); } finish("P18: a new object cannot lock after all others are gone"); vp_reach("done"); }
// The descriptor is closed, or the object is dropped by another thread, before the object is gone: the objects that come later are not affected.
ENTRY rcsv_gone(){ os_init(); setup(); int how=(int)vp_conc(symr("how",2)); int k0=(int)vp_conc(symr("kind",2)),k1=(int)vp_conc(symr("kind2",3)); ob[0]=new FLRwlRcsv(fdx,OFF[0],LEN[0],!k0); ob[1]=new FLRwlRcsv(fdx,OFF[0],LEN[0]); if(k1<2){ bool g=k1?ob[1]->WriteLock():ob[1]->ReadLock(); vp_assert(g,"P18: a lock that conflicts with nothing fails"); }
  if(how==0) os_close_fd(0,fdx); else K.cur=1; int a=(int)vp_conc(symr("first_gone",2)); delete ob[a]; delete ob[1-a]; K.cur=0; int fd2=fdx; if(how==0){ fd2=os_open_dev(0,5,51); vp_assert(fd2==fdx,"harness: same number"); int fo=os_open_dev(1,5,51); fdo=fo; fdx=fd2; } else { Api s; s.Unlock(fdx,OFF[0],LEN[0]); }
  FLRwlRcsv*o=new FLRwlRcsv(fdx,OFF[0],LEN[0]); int k=(int)vp_conc(symr("new",2)); vp_assert(k?o->WriteLock():o->ReadLock(),"P18: a new object cannot lock after all others are gone"); tgt[0]=0; held[0]=1; gw[0]=k; probe(); vp_assert(o->Unlock(),"P18: an unlock fails"); held[0]=0; gw[0]=0; probe(); delete o; vp_reach("done"); }
// Two threads, each with its own objects on one range.
GHOST int rdn, wrn, done_; 
static void thr(void*a){ int me=vp_self(); int ops=P("uops",2); { FLRwlRcsv x(fdx,OFF[0],LEN[0]), y(fdx,OFF[0],LEN[0]); int kx=0; for(int s=0;s<P("tsteps",2);s++){ int op=P("plan",0)==1?(s==0?0:1):P("plan",0)==2?(s==0?1:0):(int)vp_conc(symr("op",3)); FLRwlRcsv&o=s%2&&P("two",0)?y:x; if(kx==1){ rdn--; } if(kx==2) wrn--; kx=0; bool g=op==0?o.ReadLock():op==1?o.WriteLock():o.Unlock(); vp_assert(g,"P18: a lock that conflicts with nothing fails"); if(op==2) continue; kx=op+1; if(op) wrn++; else rdn++; vp_assert(wrn==0||(wrn==1&&rdn==0),"P18: a write lock of a helper object does not exclude the other thread"); vp_reach(op?"write":"read"); } if(kx==1) rdn--; if(kx==2) wrn--; } }
ENTRY rcsv_mc(){ os_init(); setup(true); vp_shared(&FLRwlRcsv::Stack()); { FLRwlRcsv w(fdx,OFF[1],LEN[1],true); } for(int c=0;c<2;c++) K.cbound[c+1]=1; h_guards(); K.cur=-1; K.sched=P("sched",0); vp_spawn(thr,nullptr); vp_spawn(thr,nullptr); int r=vp_run(); vp_assert(r==0,"P18: a helper object never gets a lock that is released"); K.cur=0; K.sched=0; vp_reach("finished"); wf_check(SZ,0,UND,UND); vp_assert(wf_tally(32).ul==0,UND); { FLRwlRcsv o(fdx,OFF[0],LEN[0],false); vp_assert(wf_tally(32).ul==1,"P18: a new object cannot lock after all others are gone"); } }
// Two objects of one thread on ranges that overlap in part: both ranges are locked.
ENTRY rcsv_overlap(){ os_init(); setup(); int k0=(int)vp_conc(symr("kind",2)),k1=(int)vp_conc(symr("kind2",2)); int second=(int)vp_conc(symr("start",21)); FLRwlRcsv a(fdx,5,10), b(fdx,second,10); bool g=k0?a.WriteLock():a.ReadLock(); vp_assert(g,"P18: a lock that conflicts with nothing fails"); g=k1?b.WriteLock():b.ReadLock(); vp_assert(g,"P18: a lock that conflicts with nothing fails"); bool part=second!=5&&second<15; K.cur=2; Api s; int p=(int)vp_conc(symr("byte",31)); bool in=(p>=5&&p<15)||(p>=second&&p<second+10); int r=s.TryWriteLock(fdo,p,1); if(part) vp_assert(r==(in?EBUSY:0),"P18: ranges of two objects that overlap in part are not both locked"); else vp_assert(r==(in?EBUSY:0),UND); vp_reach(part?"overlap":"apart"); }
