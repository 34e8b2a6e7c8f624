#include "lists.h"
// Histories of range-lock calls on symbolic ranges by several callers and descriptors against a reference model.
enum { NC=3, ND=2, NR=3 };
static int rd[NC][ND][NR], wr[NC][ND][NR]; static off_t off[NR]; static size_t len[NR]; static int fdof[NC][ND]; static bool ov[NR][NR]; static int fileOf[ND];
static bool conflict(int d,int r,bool w){ bool x=false; for(int c=0;c<NC;c++) for(int e=0;e<ND;e++) if(fileOf[e]==fileOf[d]) for(int q=0;q<NR;q++) if(ov[r][q]){ if(wr[c][e][q]) x=true; if(w&&rd[c][e][q]) x=true; } return x; }
static bool heldFile(int f){ bool x=false; for(int c=0;c<NC;c++) for(int e=0;e<ND;e++) if(fileOf[e]==f) for(int q=0;q<NR;q++) if(rd[c][e][q]||wr[c][e][q]) x=true; return x; }
static int heldCount(){ int n=0; for(int c=0;c<NC;c++) for(int e=0;e<ND;e++) for(int q=0;q<NR;q++) n+=rd[c][e][q]+wr[c][e][q]; return n; }
static Sizes SZ;
static void setup(int nr,int files){ int rb=P("robust",0),fm=P("free",1);
  os_caller(0,0,100,100); os_caller(1,0,100,101); os_caller(2,1,200,200); K.cur=0; SZ={P("nfile",2),P("noff",4),P("nlocker",8),1,1,4};
  h_env(rb==2?"HIGH":rb==1?"LOW":"NO",SZ); os_setenv("FLCKROBUSTCHKCNT","0"); os_setenv("FLCKFREEUNITMODE",fm==0?"NO":fm==1?"FD":fm==2?"OFFSET":"ALWAYS"); K.clkmode=2; K.clklimit=1; h_up(); os_clone_fds(0,1); K.cur=1; (void)get_threadid(); K.cur=2; (void)get_threadid(); K.cur=0;
  long dev[2],ino[2]; for(int f=0;f<2;f++){ dev[f]=5; ino[f]=50+f; } if(P("symfile",0)){ for(int f=0;f<2;f++){ dev[f]=vp_sym("dev",32); ino[f]=vp_sym("ino",32); } vp_assume(dev[0]!=dev[1]||ino[0]!=ino[1]); }
  for(int d=0;d<ND;d++){ fileOf[d]=files>1?d:0; fdof[0][d]=fdof[1][d]=os_open_dev(0,dev[fileOf[d]],ino[fileOf[d]]); fdof[2][d]=os_open_dev(1,dev[fileOf[d]],ino[fileOf[d]]); }
  int w=P("bits",62); for(int r=0;r<nr;r++){ off[r]=(off_t)vp_sym("offset",w); len[r]=(size_t)vp_sym("length",w); vp_assume(len[r]>0); vp_assume((uint64_t)off[r]+len[r]<=0x7fffffffffffffffULL); }
  for(int a=0;a<nr;a++) for(int b=0;b<nr;b++){ bool o=(uint64_t)off[a]<(uint64_t)off[b]+len[b]&&(uint64_t)off[b]<(uint64_t)off[a]+len[a]; if(a==b) ov[a][b]=true; else if(b<a) ov[a][b]=ov[b][a]; else if(P("disjoint",1)){ vp_assume(!o); ov[a][b]=false; } else ov[a][b]=(bool)vp_conc(o); } }
static int call(Api&s,int op,int fd,off_t o,size_t l){ switch(op){ case 0: return s.TryReadLock(fd,o,l); case 1: return s.TryWriteLock(fd,o,l); case 3: return s.TimeoutReadLock(fd,o,l,7); case 4: return s.TimeoutWriteLock(fd,o,l,7); case 5: return s.ReadLock(fd,o,l); case 6: return s.WriteLock(fd,o,l); default: return s.Unlock(fd,o,l); } }
static void step(Api&s,int c,int d,int r,int op){ K.cur=c; for(int q=0;q<NC;q++) K.nclk[q]=0; int fd=fdof[c][d]; 
  if(op==7){ bool g=s.IsLocked(fd,off[r],len[r]); vp_assert(g==heldFile(fileOf[d]),"P05: the lock query does not report whether the file is locked"); vp_reach("queried"); return; }
  if(op==2){ int want=wr[c][d][r]||rd[c][d][r]; int g=s.Unlock(fd,off[r],len[r]); if(want) vp_assert(g==0,"P05: the holder cannot unlock"); else vp_assert(g!=0,"P05: unlocking a range that is not held succeeds"); if(wr[c][d][r]) wr[c][d][r]--; else if(rd[c][d][r]) rd[c][d][r]--; if(want) vp_reach("released"); else vp_reach("not held"); return; }
  bool w=op==1||op==4||op==6; bool x=conflict(d,r,w); if(op>=5&&x) vp_assume(0);
  int g=call(s,op,fd,off[r],len[r]); if(x){ if(op<2) vp_assert(g==EBUSY,"P05: a conflicting try lock is not refused as busy"); else vp_assert(g==ETIMEDOUT,"P05: a conflicting timed lock does not time out"); vp_reach("refused"); } else { vp_assert(g==0,"P05: a lock that conflicts with nothing is refused"); if(w) wr[c][d][r]++; else rd[c][d][r]++; vp_reach("granted"); } }
ENTRY file_seq(){ os_init(); int steps=P("steps",3),nr=P("ranges",2),nc=P("callers",2),nd=P("fds",1),ops=P("ops",3),files=P("files",1); setup(nr,files); Api s;
  for(int i=0;i<steps;i++){ int op=(int)vp_conc(symr("op",ops)); int c=(int)vp_conc(nc>1?symr("caller",nc)*(nc==2&&P("procs",0)?2:1):0); int d=(int)vp_conc(symr("fd",nd)); int r=(int)vp_conc(symr("range",nr)); step(s,c,d,r,op); vp_merge(); }
  if(P("tally",1)){ int fm=P("free",1); int held=heldCount(); Tally t=wf_tally(64); vp_assert(wf_ok,"P12: a list of units is malformed"); vp_assert(t.nl+t.ul==SZ.locker&&t.no+t.uo==SZ.off&&t.nf+t.uf==SZ.file,"P12: a unit is in no list or in two"); vp_assert(t.ul==held,"P12: refused or released locks keep holder units"); if(fm==1||fm==3){ if(held==0) vp_assert(t.uf==0,"P12: file units are not freed although nothing is locked"); if(held==0) vp_assert(t.uo==0,"P12: range units are not freed although nothing is locked"); } if(fm==2&&held==0) vp_assert(t.uo==0,"P12: range units are not freed although nothing is locked"); }
  int pc=2; K.cur=pc; for(int d=0;d<(files>1?2:1);d++) for(int r=0;r<nr;r++){ bool x=conflict(d,r,true); int g=s.TryWriteLock(fdof[pc][d],off[r],len[r]); vp_assert(g==(x?EBUSY:0),"P05: after the history a range is not locked or free as the history says"); if(g==0){ g=s.Unlock(fdof[pc][d],off[r],len[r]); vp_assert(g==0,"P05: the holder cannot unlock"); } }
  for(int c=0;c<NC;c++){ K.cur=c; for(int d=0;d<nd;d++) for(int r=0;r<nr;r++){ int n=rd[c][d][r]+wr[c][d][r]; n=(int)vp_conc(n); for(;n>0;n--){ int g=s.Unlock(fdof[c][d],off[r],len[r]); vp_assert(g==0,"P05: the holder cannot unlock"); } rd[c][d][r]=wr[c][d][r]=0; } }
  vp_merge(); K.cur=0; for(int r=0;r<nr;r++){ int g=s.TryWriteLock(fdof[0][0],off[r],len[r]); bool over=false; for(int q=0;q<r;q++) if(ov[q][r]) over=true; vp_assert(g==(over?EBUSY:0),"P05: a range everybody released cannot be write locked"); } vp_reach("done"); }
// Two arbitrary ranges, first request fresh: conflict exactly when they overlap and one of them writes.
ENTRY file_two(){ os_init(); setup(2,1); Api s; int o1=(int)vp_conc(vp_sym("first_is_write",1)),o2=(int)vp_conc(vp_sym("second_is_write",1)); step(s,0,0,0,o1); step(s,2,0,1,o2); int u=(int)vp_conc(vp_sym("unlock_first",1)); if(u) step(s,0,0,0,2); int g; K.cur=1; bool x=conflict(0,1,true); if(!u||!ov[0][1]||conflict(0,1,true)==(wr[2][0][1]||rd[2][0][1])){ g=s.TryWriteLock(fdof[1][0],off[1],len[1]); vp_assert(g==(x?EBUSY:0),"P05: after the history a range is not locked or free as the history says"); } vp_reach("done"); }
