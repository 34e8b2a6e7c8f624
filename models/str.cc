// String helpers and red-black tree helpers (unbalanced) used by the code under test.
#include <map>
#include <stdint.h>
#include <stddef.h>
#include <limits.h>
#include <errno.h>
#include "vp.h"
extern "C" {
int *vpm___errno_location();
unsigned long vpm_strlen(const char*s){ unsigned long n=0; while(s[n]) n++; return n; }
unsigned long vpm_strnlen(const char*s,unsigned long m){ unsigned long n=0; while(n<m&&s[n]) n++; return n; }
int vpm_strcmp(const char*a,const char*b){ for(;;a++,b++){ unsigned char x=*a,y=*b; if(x!=y) return x<y?-1:1; if(!x) return 0; } }
int vpm_strncmp(const char*a,const char*b,unsigned long n){ for(;n;n--,a++,b++){ unsigned char x=*a,y=*b; if(x!=y) return x<y?-1:1; if(!x) return 0; } return 0; }
static int lw(unsigned char c){ return c>='A'&&c<='Z'?c+32:c; }
int vpm_tolower(int c){ return c>='A'&&c<='Z'?c+32:c; }
int vpm_toupper(int c){ return c>='a'&&c<='z'?c-32:c; }
int vpm_strcasecmp(const char*a,const char*b){ for(;;a++,b++){ int x=lw(*a),y=lw(*b); if(x!=y) return x-y; if(!x) return 0; } }
int vpm_strncasecmp(const char*a,const char*b,unsigned long n){ for(;n;n--,a++,b++){ int x=lw(*a),y=lw(*b); if(x!=y) return x-y; if(!x) return 0; } return 0; }
char *vpm_strcpy(char*d,const char*s){ char*r=d; while((*d++=*s++)); return r; }
char *vpm_stpcpy(char*d,const char*s){ while((*d=*s)){ d++; s++; } return d; }
char *vpm_strncpy(char*d,const char*s,unsigned long n){ unsigned long i=0; for(;i<n&&s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
char *vpm_strcat(char*d,const char*s){ char*r=d; while(*d) d++; while((*d++=*s++)); return r; }
char *vpm_strchr(const char*s,int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return nullptr; } }
char *vpm_strrchr(const char*s,int c){ const char*r=nullptr; for(;;s++){ if(*s==(char)c) r=s; if(!*s) return (char*)r; } }
char *vpm_strstr(const char*h,const char*n){ for(;;h++){ unsigned long i=0; while(n[i]&&h[i]==n[i]) i++; if(!n[i]) return (char*)h; if(!*h) return nullptr; } }
int vpm_memcmp(const void*a,const void*b,unsigned long n){ const unsigned char*x=(const unsigned char*)a,*y=(const unsigned char*)b; for(unsigned long i=0;i<n;i++) if(x[i]!=y[i]) return x[i]<y[i]?-1:1; return 0; }
int vpm_bcmp(const void*a,const void*b,unsigned long n){ return vpm_memcmp(a,b,n); }
void *vpm_memchr(const void*a,int c,unsigned long n){ const unsigned char*x=(const unsigned char*)a; for(unsigned long i=0;i<n;i++) if(x[i]==(unsigned char)c) return (void*)(x+i); return nullptr; }
char *vpm_strdup(const char*s){ unsigned long n=vpm_strlen(s)+1; char*p=(char*)__builtin_malloc(n); for(unsigned long i=0;i<n;i++) p[i]=s[i]; return p; }
static int sp(char c){ return c==' '||(c>=9&&c<=13); }
static long num(const char*s,char**e,int base,bool sat){ const char*b=s; while(sp(*s)) s++; bool neg=false; if(*s=='+'||*s=='-'){ neg=*s=='-'; s++; }
  if((base==0||base==16)&&s[0]=='0'&&(s[1]=='x'||s[1]=='X')&&((s[2]>='0'&&s[2]<='9')||(lw(s[2])>='a'&&lw(s[2])<='f'))){ s+=2; base=16; } else if(base==0) base=s[0]=='0'?8:10;
  unsigned long v=0; bool any=false,ov=false; unsigned long lim=neg?(unsigned long)LONG_MAX+1:(unsigned long)LONG_MAX;
  for(;;s++){ int d; char c=*s; if(c>='0'&&c<='9') d=c-'0'; else if(lw(c)>='a'&&lw(c)<='z') d=lw(c)-'a'+10; else break; if(d>=base) break; any=true; if(v>lim/base||(v==lim/base&&(unsigned long)d>lim%base)) ov=true; else v=v*base+d; }
  if(e) *e=(char*)(any?s:b); if(!any) return 0; if(ov){ if(sat) *vpm___errno_location()=ERANGE; return neg?LONG_MIN:LONG_MAX; } return neg?(long)(0-v):(long)v; }
long vpm___isoc23_strtol(const char*s,char**e,int b){ return num(s,e,b,true); }
long vpm_strtol(const char*s,char**e,int b){ return num(s,e,b,true); }
long vpm_strtoll(const char*s,char**e,int b){ return num(s,e,b,true); }
long vpm___isoc23_strtoll(const char*s,char**e,int b){ return num(s,e,b,true); }
unsigned long vpm_strtoul(const char*s,char**e,int b){ return (unsigned long)num(s,e,b,true); }
unsigned long vpm___isoc23_strtoul(const char*s,char**e,int b){ return (unsigned long)num(s,e,b,true); }
int vpm_atoi(const char*s){ return (int)num(s,nullptr,10,false); }
long vpm_atol(const char*s){ return num(s,nullptr,10,false); }
static unsigned long fmt(char*o,unsigned long cap,const char*f,const uint64_t*a){ unsigned long n=0; auto put=[&](char c){ if(n+1<cap) o[n]=c; n++; };
  for(;*f;f++){ if(*f!='%'){ put(*f); continue; } f++; int lng=0; while(*f=='l'||*f=='z'||*f=='h'||(*f>='0'&&*f<='9')){ if(*f=='l'||*f=='z') lng++; f++; }
    if(*f=='%'){ put('%'); continue; } if(*f=='c'){ put((char)*a++); continue; }
    if(*f=='s'){ const char*s=(const char*)*a++; while(*s) put(*s++); continue; }
    uint64_t v=vp_conc(*a++); bool neg=false; unsigned b=10; if(!lng) v=(*f=='d'||*f=='i')?(uint64_t)(int64_t)(int)v:(uint32_t)v; if((*f=='d'||*f=='i')&&(int64_t)v<0){ neg=true; v=0-v; } if(*f=='x'||*f=='X'||*f=='p') b=16; if(*f=='o') b=8;
    char t[24]; int k=0; do{ unsigned d=v%b; t[k++]=d<10?'0'+d:'a'+d-10; v/=b; }while(v); if(neg) put('-'); while(k) put(t[--k]); }
  if(cap) o[n<cap?n:cap-1]=0; return n; }
int vpm_sprintf(char*o,const char*f,uint64_t a,uint64_t b,uint64_t c,uint64_t d){ uint64_t v[4]={a,b,c,d}; return fmt(o,1UL<<40,f,v); }
int vpm_snprintf(char*o,unsigned long n,const char*f,uint64_t a,uint64_t b,uint64_t c,uint64_t d){ uint64_t v[4]={a,b,c,d}; return fmt(o,n,f,v); }
}
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base*x) throw(){ if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; } else { _Rb_tree_node_base*y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; } return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base*x) throw(){ return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base*x) throw(){ if(x->_M_color==_S_red&&x->_M_parent&&x->_M_parent->_M_parent==x) x=x->_M_right; else if(x->_M_left){ _Rb_tree_node_base*y=x->_M_left; while(y->_M_right) y=y->_M_right; x=y; } else { _Rb_tree_node_base*y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } x=y; } return x; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base*x) throw(){ return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left,_Rb_tree_node_base*x,_Rb_tree_node_base*p,_Rb_tree_node_base&h) throw(){
  x->_M_parent=p; x->_M_left=nullptr; x->_M_right=nullptr; x->_M_color=_S_black;
  if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; } else { p->_M_right=x; if(p==h._M_right) h._M_right=x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base*const z,_Rb_tree_node_base&h) throw(){
  _Rb_tree_node_base*&root=h._M_parent; _Rb_tree_node_base*r; 
  auto repl=[&](_Rb_tree_node_base*n){ if(root==z) root=n; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=n; else z->_M_parent->_M_right=n; if(n) n->_M_parent=z->_M_parent; };
  if(!z->_M_left){ r=z->_M_right; repl(r); } else if(!z->_M_right){ r=z->_M_left; repl(r); }
  else { _Rb_tree_node_base*y=z->_M_right; while(y->_M_left) y=y->_M_left; if(y!=z->_M_right){ y->_M_parent->_M_left=y->_M_right; if(y->_M_right) y->_M_right->_M_parent=y->_M_parent; y->_M_right=z->_M_right; y->_M_right->_M_parent=y; } y->_M_left=z->_M_left; y->_M_left->_M_parent=y; repl(y); }
  if(!root){ h._M_left=&h; h._M_right=&h; } else { _Rb_tree_node_base*m=root; while(m->_M_left) m=m->_M_left; h._M_left=m; m=root; while(m->_M_right) m=m->_M_right; h._M_right=m; }
  return z; }
}
