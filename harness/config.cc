#include "lists.h"
// Configuration. The settings come from the environment, from the setters and from the re-initialisation.
struct Num { const char*env; size_t(*get)(); size_t(*set)(size_t); uint64_t lo,hi,def; };
static size_t rget(){ return FlShm::GetRobustLoopCnt(); } static size_t rset(size_t v){ return FlShm::SetRobustLoopCnt((int)v); }
static const Num NUM[7]={ {"FLCKFILECNT",FlShm::GetFileLockAreaCount,FlShm::SetFileLockAreaCount,1,2048,128}, {"FLCKOFFETCNT",FlShm::GetOffLockAreaCount,FlShm::SetOffLockAreaCount,4,16384,8192}, {"FLCKLOCKERCNT",FlShm::GetLockerAreaCount,FlShm::SetLockerAreaCount,4,16384,8192}, {"FLCKNMTXCNT",FlShm::GetNMtxAreaCount,FlShm::SetNMtxAreaCount,1,8192,256}, {"FLCKNCONDCNT",FlShm::GetNCondAreaCount,FlShm::SetNCondAreaCount,1,8192,256}, {"FLCKWAITERCNT",FlShm::GetWaiterAreaCount,FlShm::SetWaiterAreaCount,4,16384,8192}, {"FLCKROBUSTCHKCNT",rget,rset,50,2147483647,5000} };
static char str[40]; static int slen_;
static inline bool dg(unsigned char c){ return (c>='0')&(c<='9'); }
static void any_string(const char*pre,int n,int kind){ int k=0; for(;pre[k];k++) str[k]=pre[k]; slen_=k; bool end=false; for(int i=0;i<n;i++){ unsigned char c=(unsigned char)vp_sym("char",8); vp_assume(kind==0? dg(c)|(c=='-')|(c=='+')|(c==' ')|(c=='x')|(c==0) : kind==1? dg(c)|(c==0) : ((c>='A')&(c<='Z'))|((c>='a')&(c<='z'))|(c=='_')|(c==0)); str[k++]=c; } str[k]=0; }
static const char*ILL="P14: an illegal setting does not leave the previous one in force"; static const char*LEG="P14: a legal setting is not accepted"; static const char*OTH="P14: a setting changes another one";
ENTRY cfg_numbers(){ os_init(); os_caller(0,0,100,100); os_setenv("FLCKAUTOINIT","NO"); int w=P("what",9); if(w==9) w=(int)vp_conc(symr("setting",7)); const Num&n=NUM[w]; uint64_t prev[7]; bool set=vp_conc(symr("set_before",2)); for(int i=0;i<7;i++){ if(set){ NUM[i].set(60+i); prev[i]=60+i; } else prev[i]=NUM[i].def; }
  int pre=P("pre",0); any_string(pre==1?"42949":pre==2?"18446744073709551":pre==3?"000":"",P("chars",5),pre||P("digits",0)?1:0); os_setenv(n.env,str); { FlShm o; }
  uint64_t got=n.get(); for(int i=0;i<7;i++) if(i!=w) vp_assert(NUM[i].get()==prev[i],OTH);
  int i=0; uint64_t v=0; bool big=false; while(str[i]==' ') i++; bool neg=str[i]=='-'; bool sign=neg|(str[i]=='+'); if(sign) i++; int j=i; while(dg(str[j])){ if(v>100000000000000ULL) big=true; else v=v*10+(str[j]-'0'); j++; } bool any=j>i, plain=any&!sign&!str[j]&dg(str[0]); bool legal=any&!neg&!big&(v>=n.lo)&(v<=n.hi);
  if(!legal){ vp_assert(got==prev[w],ILL); vp_reach("illegal"); } else if(plain){ vp_assert(got==v,LEG); vp_reach("legal"); } else vp_assert((got==v)|(got==prev[w]),ILL); }
static bool eqi(const char*n){ bool r=true; int i=0; for(;n[i];i++){ unsigned char c=str[i]; r&=(c==(unsigned char)n[i])|((n[i]!='_')&(c==(unsigned char)(n[i]+32))); if(!c) return false; } return r&(str[i]==0); }
ENTRY cfg_modes(){ os_init(); os_caller(0,0,100,100); int w=P("what",0); if(w!=0) os_setenv("FLCKAUTOINIT","NO"); bool set=vp_conc(symr("set_before",2)); any_string("",w==1?14:w==3?7:5,2); os_setenv(w==0?"FLCKAUTOINIT":w==1?"FLCKNOMAPMODE":w==2?"FLCKROBUSTMODE":"FLCKFREEUNITMODE",str); if(w) K.failopen=1; else { Sizes z={1,4,4,1,1,4}; h_env(nullptr,z); }
  auto nm=FlShm::NOMAP_ALLOW_NORETRY; auto rm=FlShm::ROBUST_HIGH; auto fm=FlShm::FREE_FD; if(set){ nm=FlShm::NOMAP_DENY_RETRY; rm=FlShm::ROBUST_LOW; fm=FlShm::FREE_OFFSET; FlShm::SetNomapMode(nm); FlShm::SetRobustMode(rm); FlShm::SetFreeUnitMode(fm); }
  { FlShm o; } bool known=true; auto enm=nm; auto erm=rm; auto efm=fm;
  if(w==1){ if(eqi("ALLOW_NORETRY")|eqi("ALLOW")) enm=FlShm::NOMAP_ALLOW_NORETRY; else if(eqi("DENY_NORETRY")|eqi("DENY")) enm=FlShm::NOMAP_DENY_NORETRY; else if(eqi("ALLOW_RETRY")) enm=FlShm::NOMAP_ALLOW_RETRY; else if(eqi("DENY_RETRY")) enm=FlShm::NOMAP_DENY_RETRY; else known=false; }
  if(w==2){ if(eqi("NO")) erm=FlShm::ROBUST_NO; else if(eqi("LOW")) erm=FlShm::ROBUST_LOW; else if(eqi("HIGH")) erm=FlShm::ROBUST_HIGH; else known=false; }
  if(w==3){ if(eqi("NO")) efm=FlShm::FREE_NO; else if(eqi("FD")) efm=FlShm::FREE_FD; else if(eqi("OFFSET")) efm=FlShm::FREE_OFFSET; else if(eqi("ALWAYS")) efm=FlShm::FREE_ALWAYS; else known=false; }
  if(w==0){ bool no=eqi("NO"); vp_assert(FlShm::IsAutoInitialize==!no,no?LEG:ILL); vp_assert((FlShm::pFlHead!=nullptr)==!no,"P14: automatic start-up does not follow its setting"); known=no; }
  const char*m=known?LEG:ILL; vp_assert(FlShm::GetNomapMode()==enm,w==1?m:OTH); vp_assert(FlShm::IsNoRobust()==(erm==FlShm::ROBUST_NO)&&FlShm::IsHighRobust()==(erm==FlShm::ROBUST_HIGH)&&FlShm::IsRobust()==(erm!=FlShm::ROBUST_NO),w==2?m:OTH); vp_assert(FlShm::FreeUnitMode==efm&&FlShm::IsFreeUnitFd()==(efm==FlShm::FREE_FD)&&FlShm::IsFreeUnitOffset()==(efm==FlShm::FREE_FD||efm==FlShm::FREE_OFFSET),w==3?m:OTH); if(w) for(int i=0;i<7;i++) vp_assert(NUM[i].get()==NUM[i].def,OTH); vp_reach(known?"known":"unknown"); }
static int path_at(const char*n){ for(int i=0;i<OS_FILES;i++) if(K.pa[i].used){ int k=0; while(n[k]&&K.pa[i].name[k]==n[k]) k++; if(n[k]==K.pa[i].name[k]) return i; } return -1; }
// The mask: the created file has the permissions of the mask, and the caller's own mask is untouched.
ENTRY cfg_umask(){ os_init(); os_caller(0,0,100,100); Sizes z={1,4,4,1,1,4}; h_env("NO",z); os_setenv("FLCKDIRPATH","/d"); int own=K.umask_cur=(int)vp_sym("own_mask",9); int n=P("chars",4); uint64_t v=0,base=10; bool bad=false,neg=false,end=false,any=false; 
  for(int i=0;i<n;i++){ unsigned char c=(unsigned char)vp_sym("char",8); vp_assume(((c>='0')&(c<='7'))|(c=='9')|(c=='g')|(c=='-')|(c==0)); if(end){ vp_assume(c==0); str[i]=0; continue; } str[i]=c; if(c==0){ end=true; continue; } if(c=='-'&&i==0){ neg=true; continue; } if(c=='g'||c=='-'){ bad=true; continue; } if(c=='9'&&base==8){ bad=true; continue; } if(!any&&c=='0') base=8; any=true; v=v*base+(c-'0'); } str[n]=0; if(!any) bad=true; os_setenv("FLCKUMASK",str);
  h_up(); int i=path_at("/d/fullock.shm"); vp_assert(i>=0,"P14: the shared file is not made where it is configured"); vp_assert(K.umask_cur==own,"P14: the mask of the process is changed"); if(!bad&&!neg&&v==0777) return; uint64_t m=(bad||neg||v>0777)?0:v; vp_assert((K.pa[i].mode&0777)==(0666&~m),bad||neg||v>0777?ILL:LEG); vp_reach(m?"masked":"none"); }
static void str_of(char*d,const char*a,const char*b){ int k=0; for(;*a;a++) d[k++]=*a; d[k++]='/'; for(;*b;b++) d[k++]=*b; d[k]=0; }
// Directory and file name.
ENTRY cfg_place(){ os_init(); os_caller(0,0,100,100); Sizes z={1,4,4,1,1,4}; h_env("NO",z); int d=(int)vp_conc(symr("dir",6)); static const char*D[6]={nullptr,"","/d","/d//e/.","/../x","/f"}; if(D[d]) os_setenv("FLCKDIRPATH",D[d]); int ant=(int)vp_conc(symr("antpickax",3)); auto add=[](int i,const char*n,int dir){ K.pa[i].used=1; K.pa[i].isdir=dir; K.pa[i].dev=7; K.pa[i].ino=K.nextino++; int k=0; for(;n[k];k++) K.pa[i].name[k]=n[k]; K.pa[i].name[k]=0; };
  if(d==5) add(0,"/f",0); else { if(ant!=1){ add(0,"/tmp",1); } } if(ant){ add(1,"/var",1); add(2,"/var/lib",1); add(3,"/var/lib/antpickax",ant==1); if(ant==2&&d!=5){ /* a plain file there */ } }
  const char*dir=d==2?"/d":d==3?"/d/e":ant==1?"/var/lib/antpickax/.fullock":"/tmp/.fullock"; int n=0; const char*fn="fullock.shm"; static char want[8]; if(P("name",1)){ static const char A[4]={'a','/',' ','.'}; for(int i=0;i<3;i++){ int c=symr("char",5); c=(int)vp_conc(c); if(c==4) break; str[n++]=A[c]; } str[n]=0; os_setenv("FLCKFILENAME",str); bool bad=false; int a=0,b=n; while(a<b&&str[a]==' ') a++; while(b>a&&str[b-1]==' ') b--; for(int i=a;i<b;i++){ if(str[i]=='/') bad=true; want[i-a]=str[i]; } want[b-a]=0; if(a==b) bad=true; if(!bad){ fn=want; if(want[0]=='.'&&(!want[1]||(want[1]=='.'&&!want[2]))) vp_assume(0); vp_reach("named"); } else vp_reach("bad name"); }
  FlShm o; (void)o; static char full[64]; str_of(full,dir,fn); vp_assert(FlShm::pFlHead!=nullptr,"P14: the library does not start with this configuration"); vp_assert(path_at(full)>=0&&!K.pa[path_at(full)].isdir,"P14: the shared file is not made where it is configured"); vp_reach("placed"); }
// Setters and getters.
static void capi_set(int&rm,int&nm,int&fm,int&lc){ int x=(int)vp_conc(symr("c_setter",11)); bool r=true; switch(x){ case 0: r=fullock_set_no_robust(); rm=FlShm::ROBUST_NO; break; case 1: r=fullock_set_low_robust(); rm=FlShm::ROBUST_LOW; break; case 2: r=fullock_set_high_robust(); rm=FlShm::ROBUST_HIGH; break; case 3: r=fullock_set_noretry_allow_nomap(); nm=FlShm::NOMAP_ALLOW_NORETRY; break; case 4: r=fullock_set_noretry_deny_nomap(); nm=FlShm::NOMAP_DENY_NORETRY; break; case 5: r=fullock_set_retry_allow_nomap(); nm=FlShm::NOMAP_ALLOW_RETRY; break; case 6: r=fullock_set_retry_deny_nomap(); nm=FlShm::NOMAP_DENY_RETRY; break; case 7: r=fullock_set_no_freeunit(); fm=FlShm::FREE_NO; break; case 8: r=fullock_set_fd_freeunit(); fm=FlShm::FREE_FD; break; case 9: r=fullock_set_offset_freeunit(); fm=FlShm::FREE_OFFSET; break;
  default: { int v=(int)vp_sym("loops",32); r=fullock_set_robust_check_count(v); if(rm!=FlShm::ROBUST_HIGH||v<50){ vp_assert(!r,"P14: an illegal loop count is accepted"); return; } lc=v; vp_reach("loops set through C"); } } vp_assert(r,"P14: a setter of the C interface fails"); }
ENTRY cfg_setters(){ os_init(); os_caller(0,0,100,100); if(P("used",0)){ os_setenv("FLCKAUTOINIT","NO"); FlShm o; } uint64_t v[6]; for(int i=0;i<6;i++) v[i]=NUM[i].def; int rm=FlShm::ROBUST_HIGH,nm=FlShm::NOMAP_ALLOW_NORETRY,fm=FlShm::FREE_FD,lc=5000; int n=P("steps",3);
  for(int s=0;s<n;s++){ int op=(int)vp_conc(symr("op",P("capi",0)?11:10)); if(op==10){ capi_set(rm,nm,fm,lc); } else if(op<6){ uint64_t x=vp_sym("count",64); vp_assert(NUM[op].set(x)==v[op],"P14: a setter does not return the previous value"); v[op]=x; } else if(op==6){ int x=(int)vp_conc(symr("mode",3)); static const FlShm::ROBUSTMODE M[3]={FlShm::ROBUST_NO,FlShm::ROBUST_LOW,FlShm::ROBUST_HIGH}; vp_assert(FlShm::SetRobustMode(M[x])==rm,"P14: a setter does not return the previous value"); rm=M[x]; } else if(op==7){ int x=(int)vp_conc(symr("mode",4)); static const FlShm::NOMAPMODE M[4]={FlShm::NOMAP_ALLOW_RETRY,FlShm::NOMAP_DENY_RETRY,FlShm::NOMAP_ALLOW_NORETRY,FlShm::NOMAP_DENY_NORETRY}; vp_assert(FlShm::SetNomapMode(M[x])==nm,"P14: a setter does not return the previous value"); nm=M[x]; } else if(op==8){ int x=(int)vp_conc(symr("mode",4)); static const FlShm::FREEUNITMODE M[4]={FlShm::FREE_NO,FlShm::FREE_FD,FlShm::FREE_OFFSET,FlShm::FREE_ALWAYS}; vp_assert(FlShm::SetFreeUnitMode(M[x])==fm,"P14: a setter does not return the previous value"); fm=M[x]; }
    else { int x=(int)vp_sym("loops",32); int r=FlShm::SetRobustLoopCnt(x); if(rm!=FlShm::ROBUST_HIGH||x<50){ vp_assert(r==-1,"P14: an illegal loop count is accepted"); vp_reach("loops refused"); } else { vp_assert(r==lc,"P14: a setter does not return the previous value"); lc=x; vp_reach("loops set"); } }
    for(int i=0;i<6;i++) vp_assert(NUM[i].get()==v[i],"P14: a getter does not return the current value"); vp_assert(FlShm::GetRobustLoopCnt()==lc&&FlShm::GetNomapMode()==nm&&FlShm::IsNoRobust()==(rm==FlShm::ROBUST_NO)&&FlShm::IsHighRobust()==(rm==FlShm::ROBUST_HIGH)&&FlShm::IsRobust()==(rm!=FlShm::ROBUST_NO)&&FlShm::IsFreeUnitFd()==(fm==FlShm::FREE_FD)&&FlShm::IsFreeUnitOffset()==(fm==FlShm::FREE_FD||fm==FlShm::FREE_OFFSET),"P14: a getter does not return the current value"); } vp_reach("set"); }
// Re-initialisation: any counts. The file cannot be opened afterwards, so that no table has to be built for the largest ones.
static bool call(uint64_t*c){ if(P("capi",0)) return fullock_reinitialize_ex(nullptr,nullptr,c[0],c[1],c[2],c[3],c[4],c[5]); return FlShm::ReInitializeObject(nullptr,nullptr,c[0],c[1],c[2],c[3],c[4],c[5]); }
static bool ok_cnt(int i,uint64_t c){ return (c==0)|((c>=NUM[i].lo)&(c<=NUM[i].hi)); }
ENTRY cfg_reinit(){ os_init(); os_caller(0,0,100,100); Sizes z={1,4,4,2,2,5}; int env=P("env",0); if(env){ h_env("NO",z); } else { os_setenv("FLCKROBUSTMODE","NO"); FlShm::SetFileLockAreaCount(1); FlShm::SetOffLockAreaCount(4); FlShm::SetLockerAreaCount(4); FlShm::SetNMtxAreaCount(2); FlShm::SetNCondAreaCount(2); FlShm::SetWaiterAreaCount(5); } uint64_t cur[6]={1,4,4,2,2,5}; h_up(); FlShm s; vp_assert(s.Lock("m")==0,"harness: lock"); auto*base=FlShm::pFlHead; int fd=FlShm::ShmFd; long size=K.fsize; K.failopen=1;
  uint64_t c[6]; for(int i=0;i<6;i++) c[i]=vp_sym("count",64); bool legal=true; for(int i=0;i<6;i++) legal&=ok_cnt(i,c[i]);
  bool r=call(c); if(!legal){ vp_assert(!r,"P14: a re-initialisation with an illegal count does not fail"); vp_assert(FlShm::pFlHead==base&&FlShm::ShmFd==fd&&K.fsize==size&&vp_mapped(base,64),"P14: a failed re-initialisation touches the attached shared memory"); for(int i=0;i<6;i++) vp_assert(NUM[i].get()==cur[i],ILL); Tally t=wf_tally(20); vp_assert(wf_ok&&t.um==1&&t.nm==1&&s.Unlock("m")==0,"P14: a failed re-initialisation touches the attached shared memory"); vp_reach("refused"); return; }
  vp_assert(!r&&!FlShm::pFlHead,"P14: a re-initialisation whose file cannot be opened succeeds"); vp_assert(FlShm::pFlHead!=base&&!vp_mapped(base,64),"P14: a legal re-initialisation keeps the old shared memory"); for(int i=0;i<6;i++) vp_assert(NUM[i].get()==(c[i]?c[i]:env?cur[i]:NUM[i].def),c[i]?LEG:"P14: a re-initialisation without a count does not use the default"); vp_reach("accepted");
  if(P("again",0)){ uint64_t z0[6]={0,0,0,0,0,0}; call(z0); for(int i=0;i<6;i++) vp_assert(NUM[i].get()==(env?cur[i]:NUM[i].def),"P14: a re-initialisation without a count does not use the default"); vp_reach("again"); } }
// Re-initialisation that builds the file: from first use or later, other place, some counts given.
ENTRY cfg_rebuild(){ os_init(); os_caller(0,0,100,100); uint64_t e[6]={1,4,4,2,2,5}; Sizes z={1,4,4,2,2,5}; h_env("NO",z); os_setenv("FLCKDIRPATH","/d"); bool first=vp_conc(symr("first_use",2)); if(!first){ h_up(); } static const uint64_t G[6]={3,6,7,4,3,6}; uint64_t c[6]; for(int i=0;i<6;i++) c[i]=(vp_conc(vp_sym("given",1)))?G[i]:0; int d=(int)vp_conc(symr("dir",3)),f=(int)vp_conc(symr("file",4)); static const char*D[3]={nullptr,"/e","/../x"}; static const char*F[4]={nullptr,"other"," x ","a/b"};
  auto*base=FlShm::pFlHead; bool none=true; for(int i=0;i<6;i++) if(c[i]) none=false; int cp=P("capi",0); bool r=cp&&none?fullock_reinitialize(D[d],F[f]):cp?fullock_reinitialize_ex(D[d],F[f],c[0],c[1],c[2],c[3],c[4],c[5]):FlShm::ReInitializeObject(D[d],F[f],c[0],c[1],c[2],c[3],c[4],c[5]); if(d==2||f==3){ vp_assert(!r,"P14: a re-initialisation with an illegal place does not fail"); if(!first) vp_assert(FlShm::pFlHead==base&&vp_mapped(base,64),"P14: a failed re-initialisation touches the attached shared memory"); vp_reach("bad place"); return; }
  vp_assert(r&&FlShm::pFlHead,"P14: a legal re-initialisation fails"); static char full[64]; str_of(full,d?"/e":"/d",f==0?"fullock.shm":f==1?"other":"x"); vp_assert(path_at(full)>=0,"P14: the shared file is not made where it is configured"); Tally t=wf_tally(20); uint64_t w[6]; for(int i=0;i<6;i++) w[i]=c[i]?c[i]:e[i]; vp_assert(wf_ok&&t.nf==(int)w[0]&&t.no==(int)w[1]&&t.nl==(int)w[2]&&t.nm==(int)w[3]&&t.nc==(int)w[4]&&t.nw==(int)w[5],"P14: the shared file is not built with the counts in force"); FlShm s; vp_assert(s.Lock("m")==0&&s.Unlock("m")==0,"P14: a re-initialised library does not lock"); vp_reach("rebuilt"); }
// The getters before the first use.
ENTRY cfg_before(){ os_init(); os_caller(0,0,100,100); os_setenv("FLCKAUTOINIT","NO"); os_setenv("FLCKNOMAPMODE","DENY"); vp_assert(FlShm::GetNomapMode()==FlShm::NOMAP_DENY_NORETRY,"P14: the settings of the environment are not reported before the first use"); vp_reach("reported"); }
