#include "h.h"
#include <sys/inotify.h>
// Path normalisation, number parsing and the file helpers on symbolic inputs.
static char in_[64]; static int symstr(const char*nm,int n,int pre){ for(int i=0;i<pre;i++){} for(int i=0;i<n;i++){ in_[pre+i]=(char)vp_sym(nm,8); } in_[pre+n]=0; return pre+n; }
// oracle: canonical form of an absolute path; -1 if it climbs above the root
static int canon(const char*p,char*out){ int st[24],ln[24],k=0,i=0; while(p[i]){ while(p[i]=='/') i++; if(!p[i]) break; int b=i; while(p[i]&&p[i]!='/') i++; int n=i-b; if(n==1&&p[b]=='.') continue; if(n==2&&p[b]=='.'&&p[b+1]=='.'){ if(!k) return -1; k--; continue; } st[k]=b; ln[k]=n; k++; }
  int o=0; for(int q=0;q<k;q++){ out[o++]='/'; for(int z=0;z<ln[q];z++) out[o++]=p[st[q]+z]; } if(i>0&&p[i-1]=='/') { out[o++]='/'; } out[o]=0; return o; }
ENTRY util_path(){ os_init(); int n=P("chars",5),rel=P("relative",0); in_[0]='/'; int L=symstr("char",n,rel?0:1); if(rel){ vp_assume(in_[0]!='/'); vp_assume(in_[0]!=0); }
  char full[80]; int k=0; if(rel){ const char*c="/cwd/"; while(*c) full[k++]=*c++; } for(int i=0;in_[i];i++) full[k++]=in_[i]; full[k]=0; char want[80]; int w=canon(full,want); (void)L;
  std::string r="old"; bool ok=GetRealPath(in_,r); 
  if(w<0){ vp_assert(!ok||r.empty()||(r.size()==1&&r[0]=='/'),"P20: a path above the root is normalised to something else than the root or an error"); vp_reach("above root"); return; }
  vp_assert(ok,"P20: a well-formed path is rejected"); if(!ok) return; int m=(int)r.size(); const char*q=r.c_str(); 
  if(w==0){ vp_assert(m==0||(m==1&&q[0]=='/'),"P20: a path is not normalised"); vp_reach("root"); return; }
  vp_assert(m==w,"P20: a path is not normalised"); bool same=true; for(int i=0;i<w&&i<m;i++) if(q[i]!=want[i]) same=false; vp_assert(same,"P20: a path is not normalised"); vp_reach("normalised"); }
ENTRY util_nopath(){ os_init(); std::string r; vp_assert(!GetRealPath(nullptr,r),"P20: a missing path is accepted"); vp_assert(!GetRealPath("",r),"P20: an empty path is accepted"); long v; vp_assert(!CvtNumberStringToLong(nullptr,&v),"P20: a missing number is accepted"); vp_assert(!CvtNumberStringToLong("",&v),"P20: a missing number is accepted"); vp_assert(!CvtNumberStringToLong("1",nullptr),"P20: a missing result is accepted"); vp_reach("done"); }
// oracle: optional blanks, sign, then decimal, 0octal or 0xhex digits to the end of the string
static int parse(const char*s,long*out){ int i=0; while(s[i]==' '||(s[i]>=9&&s[i]<=13)) i++; bool neg=false; if(s[i]=='-'||s[i]=='+'){ neg=s[i]=='-'; i++; } int base=10; if(s[i]=='0'){ char x=s[i+1]; char d=(x=='x'||x=='X')?s[i+2]:0; bool hex=(d>='0'&&d<='9')||(d>='a'&&d<='f')||(d>='A'&&d<='F'); if(hex){ base=16; i+=2; } else base=8; }
  int nd=0; uint64_t v=0,lim=neg?1ULL<<63:(1ULL<<63)-1; bool over=false; for(;;i++,nd++){ int d; char c=s[i]; if(c>='0'&&c<='9') d=c-'0'; else if(c>='a'&&c<='f') d=c-'a'+10; else if(c>='A'&&c<='F') d=c-'A'+10; else break; if(d>=base) break; if(v>lim/base||v*base>lim-d) over=true; v=v*base+d; }
  if(!nd) return 0; if(s[i]) return 0; if(over) return 0; *out=neg?-(long)v:(long)v; return 1; }
ENTRY util_number(){ os_init(); int n=P("chars",3),pre=P("pre",0); const char*pf=pre==1?"922337203685477580":pre==2?"-922337203685477580":pre==3?"0x7ffffffffffffff":pre==4?"077777777777777777777":""; int k=0; while(pf[k]){ in_[k]=pf[k]; k++; } symstr("char",n,k); if(!pre) vp_assume(in_[0]!=0);
  long want=0,got=12345; int ok=parse(in_,&want); bool g=CvtNumberStringToLong(in_,&got); if(ok){ vp_assert(g,"P20: a well-formed number is rejected"); if(g) vp_assert(got==want,"P20: a number is parsed to a wrong value"); vp_reach("parsed"); } else { vp_assert(!g,"P20: a malformed number is accepted"); vp_reach("rejected"); } }
// file helpers: short transfers at symbolic places
static unsigned char buf_[64]; GHOST unsigned char ev_[3*4096];
ENTRY util_io(){ os_init(); os_caller(0,0,100,100); K.cur=0; int f=open("/f",O_CREAT|O_RDWR,0600); int n=(int)vp_conc(symr("count",P("max",6)+1)); int off=(int)vp_conc(symr("offset",4)); int what=(int)vp_conc(symr("call",3)); int base=(int)vp_conc(symr("filesize",P("max",6)+4));
  for(int i=0;i<base;i++) vps_file[i]=(unsigned char)vp_sym("old",8); K.fsize=base; unsigned char old[24]; for(int i=0;i<24;i++) old[i]=vps_file[i]; for(int i=0;i<16;i++) buf_[i]=(unsigned char)vp_sym("byte",8); unsigned char b0[16]; for(int i=0;i<16;i++) b0[i]=buf_[i]; int shorts=K.shortio=P("shorts",2);
  if(what==0){ long r=flck_pwrite(f,buf_,n,off); if(r>=0) vp_assert(r==n,"P20: the write helper reports a wrong count"); else vp_assert(K.iocalls>0,"P20: the write helper fails without a reason"); if(r>=0){ bool ok=true; for(int i=0;i<n;i++) if(vps_file[off+i]!=b0[i]) ok=false; vp_assert(ok,"P20: the write helper does not write the bytes in place"); } bool ok=true; for(int i=0;i<24;i++) if((i<off||i>=off+n)&&vps_file[i]!=old[i]) ok=false; vp_assert(ok,"P20: the write helper writes outside its range"); vp_assert(K.fsize<=(off+n>base?off+n:base),"P20: the write helper writes outside its range"); vp_reach("written"); }
  else if(what==1){ long want=off>=base?0:(n<base-off?n:base-off); long r=flck_pread(f,buf_,n,off); if(r>=0) vp_assert(r==want,"P20: the read helper reports a wrong count"); else vp_assert(K.iocalls>0,"P20: the read helper fails without a reason"); bool ok=true; if(r>=0) for(int i=0;i<want;i++) if(buf_[i]!=old[off+i]) ok=false; for(int i=n;i<16;i++) if(buf_[i]!=b0[i]) ok=false; vp_assert(ok,"P20: the read helper does not deliver the bytes in place"); vp_reach("read"); }
  else { bool r=flck_fill_zero(f,n,off); if(!r) vp_assert(K.iocalls>0,"P20: the fill helper fails without a reason"); bool ok=true; if(r) for(int i=0;i<n;i++) if(vps_file[off+i]) ok=false; for(int i=0;i<24;i++) if((i<off||i>=off+n)&&vps_file[i]!=old[i]) ok=false; vp_assert(ok,"P20: the fill helper does not clear exactly its range"); if(r) vp_assert(K.fsize>=off+n||n==0,"P20: the fill helper does not extend the file"); vp_reach("filled"); } (void)shorts; }
// large fills cross the internal block size
ENTRY util_fill(){ os_init(); os_caller(0,0,100,100); K.cur=0; int f=open("/f",O_CREAT|O_RDWR,0600); int n=4094+(int)vp_conc(symr("count",5))+(vp_conc(vp_sym("two_blocks",1))?4096:0); int off=(int)vp_conc(symr("offset",3)); for(int i=0;i<3*4096;i++) vps_file[i]=0x5a; K.fsize=3*4096; bool r=flck_fill_zero(f,n,off); vp_assert(r,"P20: the fill helper fails without a reason"); bool ok=true; for(int i=0;i<3*4096;i++) if(vps_file[i]!=((i<off||i>=off+n)?0x5a:0)) ok=false; vp_assert(ok,"P20: the fill helper does not clear exactly its range"); vp_reach("filled"); }
// the whole-stream reader: every size around the page size, ending by end-of-file or by would-block
ENTRY util_read(){ os_init(); os_caller(0,0,100,100); K.cur=0; int f=inotify_init1(0); static const int sz[]={0,1,16,4080,4095,4096,4097,4112,8176,8192,8193}; int k=(int)vp_conc(symr("size",11)); K.rdeagain=(int)vp_conc(vp_sym("would_block",1)); K.rdlen=sz[k]; for(int i=0;i<K.rdlen;i++) ev_[i]=(unsigned char)(i*7+(i>>8)+1); K.rdbuf=ev_; unsigned char*p=nullptr; long r=flck_read(f,&p);
  if(K.rdlen==0&&K.rdeagain){ vp_assert(r<=0,"P20: the stream reader reports bytes it did not read"); vp_reach("nothing"); return; }
  vp_assert(r==K.rdlen,"P20: the stream reader reports bytes it did not read"); if(r==K.rdlen){ bool ok=true; for(int i=0;i<r;i++) if(p[i]!=ev_[i]) ok=false; vp_assert(ok,"P20: the stream reader changes bytes"); } free(p); vp_reach("read"); }
