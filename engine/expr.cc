#include <map>
#include "expr.h"
#include <deque>
#include <algorithm>
std::vector<SymInfo> gSyms; u64 gNumExprs=0; E eTrue,eFalse;
struct Key{ u64 val; E a,b,c; u8 op,w; bool operator==(const Key&o)const{return val==o.val&&a==o.a&&b==o.b&&c==o.c&&op==o.op&&w==o.w;} };
struct KH{ size_t operator()(const Key&k)const{ u64 h=k.val*0x9E3779B97F4A7C15ULL; auto mx=[&](u64 x){h^=x+0x9E3779B97F4A7C15ULL+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdULL; h^=h>>32;}; mx((u64)k.a); mx((u64)k.b); mx((u64)k.c); mx(k.op*256u+k.w); return h; } };
static std::unordered_map<Key,E,KH> tab;
static std::deque<Expr> arena;
static E raw(Op op, unsigned w, u64 val, E a=nullptr,E b=nullptr,E c=nullptr,unsigned ct=0){
  Key k{val,a,b,c,(u8)op,(u8)w}; auto it=tab.find(k); if(it!=tab.end()) return it->second;
  arena.push_back(Expr{op,(u8)w,(u8)ct,(u32)arena.size(),val,a,b,c}); E e=&arena.back(); tab.emplace(k,e); gNumExprs++; return e;
}
void exprInit(){ eTrue=mkConst(1,1); eFalse=mkConst(0,1); }
E mkConst(u64 v, unsigned w){ return raw(OConst,w,v&maskw(w),0,0,0,1); }
E mkSym(const std::string &n, unsigned w){ u64 i=gSyms.size(); E e=raw(OSym,w,i); gSyms.push_back({n,w,e}); return e; }
static u64 foldBin(Op op,u64 x,u64 y,unsigned w,bool &ok){
  ok=true; u64 m=maskw(w);
  switch(op){
  case OAdd:return (x+y)&m; case OSub:return (x-y)&m; case OMul:return (x*y)&m;
  case OUDiv: return y? x/y : m; case OURem: return y? x%y : x;
  case OSDiv: { i64 a=sx(x,w),b=sx(y,w); if(!b) return a<0?1:m; if(b==-1) return (0-x)&m; return (u64)(a/b)&m; }
  case OSRem: { i64 a=sx(x,w),b=sx(y,w); if(!b) return x; if(b==-1) return 0; return (u64)(a%b)&m; }
  case OAnd:return x&y; case OOr:return x|y; case OXor:return x^y;
  case OShl:return y>=w?0:(x<<y)&m; case OLShr:return y>=w?0:x>>y; case OAShr:return (u64)(sx(x,w)>>(y>=w?w-1:y))&m;
  case OEq:return x==y; case OUlt:return x<y; case OUle:return x<=y; case OSlt:return sx(x,w)<sx(y,w); case OSle:return sx(x,w)<=sx(y,w);
  default: ok=false; return 0; }
}
static const unsigned CT_LIM=48;
static std::unordered_map<Key,E,KH> memoBin;
E mkNot(E a){
  if(isC(a)) return mkConst(!a->val,1);
  if(a->op==ONot) return a->a;
  if(a->op==OUlt) return mkBin(OUle,a->b,a->a);
  if(a->op==OUle) return mkBin(OUlt,a->b,a->a);
  if(a->op==OSlt) return mkBin(OSle,a->b,a->a);
  if(a->op==OSle) return mkBin(OSlt,a->b,a->a);
  return raw(ONot,1,0,a);
}
E mkAndB(E a,E b){
  if(isFalse(a)||isFalse(b)) return eFalse; if(isTrue(a)) return b; if(isTrue(b)) return a; if(a==b) return a;
  if((a->op==ONot&&a->a==b)||(b->op==ONot&&b->a==a)) return eFalse;
  if(a->op==OAnd&&(a->a==b||a->b==b)) return a; if(b->op==OAnd&&(b->a==a||b->b==a)) return b;
  // absorption a & (a|x) = a ; a & (!a|x) = a & x
  for(int i=0;i<2;i++){ E p=i?b:a,q=i?a:b; if(q->op==OOr){ if(q->a==p||q->b==p) return p; if(q->a==mkNot(p)) return mkAndB(p,q->b); if(q->b==mkNot(p)) return mkAndB(p,q->a);} 
    if(q->op==OAnd){ E np=mkNot(p); if(q->a==np||q->b==np) return eFalse; } }
  // contradictory equalities on the same term
  if(a->op==OEq&&b->op==OEq&&a->a==b->a&&isC(a->b)&&isC(b->b)&&a->b!=b->b) return eFalse;
  if(a->id>b->id) std::swap(a,b);
  return raw(OAnd,1,0,a,b);
}
E mkOrB(E a,E b){
  if(isTrue(a)||isTrue(b)) return eTrue; if(isFalse(a)) return b; if(isFalse(b)) return a; if(a==b) return a;
  if((a->op==ONot&&a->a==b)||(b->op==ONot&&b->a==a)) return eTrue;
  if(a->op==OOr&&(a->a==b||a->b==b)) return a; if(b->op==OOr&&(b->a==a||b->b==a)) return b;
  if(a->op==OAnd&&b->op==OAnd){ // (x&y)|(x&!y) = x ; factor common
    E A[2]={a->a,a->b},B[2]={b->a,b->b};
    for(int i=0;i<2;i++)for(int j=0;j<2;j++) if(A[i]==B[j]) return mkAndB(A[i],mkOrB(A[1-i],B[1-j]));
  }
  for(int i=0;i<2;i++){ E p=i?b:a,q=i?a:b; if(q->op==OAnd){ if(q->a==p||q->b==p) return p; E np=mkNot(p); if(q->a==np) return mkOrB(p,q->b); if(q->b==np) return mkOrB(p,q->a);} }
  if(a->id>b->id) std::swap(a,b);
  return raw(OOr,1,0,a,b);
}
static E boolIte(E c,E a,E b){
  if(isTrue(a)) return mkOrB(c,b); if(isFalse(a)) return mkAndB(mkNot(c),b);
  if(isTrue(b)) return mkOrB(mkNot(c),a); if(isFalse(b)) return mkAndB(c,a);
  if(a==mkNot(b)) return mkNot(mkBin(OXor,c,a));
  return nullptr;
}

// A constant tree is a chain ite(e1,v1,ite(e2,v2,...,vdef)) with distinct values and mutually exclusive conditions.
struct CT { std::vector<std::pair<u64,E>> it; u64 def; };
static CT getCT(E e){ CT c; while(e->op==OIte){ c.it.push_back({e->b->val,e->a}); e=e->c; } c.def=e->val; return c; }
static E putCT(const CT&c,unsigned w){
  E r=mkConst(c.def,w); unsigned n=1; for(size_t i=c.it.size();i-->0;){ if(isFalse(c.it[i].second)) continue; if(isTrue(c.it[i].second)) { r=mkConst(c.it[i].first,w); n=1; continue; } n++; r=raw(OIte,w,0,c.it[i].second,mkConst(c.it[i].first,w),r,n); } return r; }
static E defCond(const CT&c){ E r=eFalse; for(auto&x:c.it) r=mkOrB(r,x.second); return mkNot(r); }
static E boolCT(const CT&c){ E r=eFalse; for(auto&x:c.it) if(x.first!=c.def) r=mkOrB(r,x.second); return c.def? mkNot(r):r; }
static void addCT(CT&c,u64 v,E e){ if(v==c.def||isFalse(e)) return; for(auto&x:c.it) if(x.first==v){ x.second=mkOrB(x.second,e); return; } c.it.push_back({v,e}); }
static E mergeCT(E g,E a,E b){
  CT A=getCT(a),B=getCT(b),R; R.def=B.def; bool inB=false; for(auto&x:B.it) if(x.first==A.def) inB=true; if(A.def==B.def||inB) R.def=A.def;
  E ng=mkNot(g);
  if(A.def!=R.def) addCT(R,A.def,mkAndB(g,defCond(A))); for(auto&x:A.it) if(x.first!=R.def) addCT(R,x.first,mkAndB(g,x.second));
  if(B.def!=R.def) addCT(R,B.def,mkAndB(ng,defCond(B))); for(auto&x:B.it) if(x.first!=R.def) addCT(R,x.first,mkAndB(ng,x.second));
  if(R.it.size()>60) return nullptr; return putCT(R,a->w);
}
template<class Fn> static E mapCT(E e,unsigned rw,Fn f){ CT A=getCT(e),R; R.def=f(A.def); for(auto&x:A.it) addCT(R,f(x.first),x.second); return rw==1?boolCT(R):putCT(R,rw); }
E mkIte(E c,E a,E b){
  if(isC(c)) return c->val?a:b; if(a==b) return a;
  if(c->op==ONot) return mkIte(c->a,b,a);
  if(a->w==1){ if(a->op==OIte&&a->a==c) a=a->b; if(b->op==OIte&&b->a==c) b=b->c; if(a==b) return a; if(a==c) a=eTrue; if(b==c) b=eFalse; E r=boolIte(c,a,b); if(r) return r; }
  else if(a->ctree&&b->ctree){ E r=mergeCT(c,a,b); if(r) return r; }
  if(a->op==OIte&&a->a==c) a=a->b; if(b->op==OIte&&b->a==c) b=b->c; if(a==b) return a;
  if(b->op==OIte&&b->b==a) return mkIte(mkOrB(c,b->a),a,b->c);
  if(b->op==OIte&&b->c==a) return mkIte(mkAndB(mkNot(c),b->a),b->b,a);
  if(a->op==OIte&&a->b==b) return mkIte(mkAndB(c,mkNot(a->a)),a->c,b);
  if(a->op==OIte&&a->c==b) return mkIte(mkAndB(c,a->a),a->b,b);
  return raw(OIte,a->w,0,c,a,b,0);
}
static bool ctSmall(E e){ return e->op==OIte&&e->ctree; }
static E mkBin0(Op op,E a,E b);
E mkBin(Op op,E a,E b){
  Key k{0,a,b,nullptr,(u8)op,a->w}; auto it=memoBin.find(k); if(it!=memoBin.end()) return it->second;
  E r=mkBin0(op,a,b); memoBin.emplace(k,r); return r;
}
// largest unsigned value an expression can take (an upper bound)
static std::unordered_map<E,u64> memoMax;
u64 umax(E e){ if(isC(e)) return e->val; auto it=memoMax.find(e); if(it!=memoMax.end()) return it->second; u64 m=maskw(e->w),r=m; 
  switch(e->op){ case OZExt: r=umax(e->a); break; case OAdd:{ u64 x=umax(e->a),y=umax(e->b); if(x<=m-y) r=x+y; break; } case OMul:{ u64 x=umax(e->a),y=umax(e->b); if(!x||y<=m/x) r=x*y; break; }
    case OIte:{ u64 x=umax(e->b),y=umax(e->c); r=x>y?x:y; break; } case OAnd:{ u64 x=umax(e->a),y=umax(e->b); r=x<y?x:y; break; } case OUDiv: if(isC(e->b)&&e->b->val) r=umax(e->a)/e->b->val; break; case OURem: if(isC(e->b)&&e->b->val){ u64 x=umax(e->a); r=x<e->b->val?x:e->b->val-1; } break; case OLShr: if(isC(e->b)&&e->b->val<e->w) r=umax(e->a)>>e->b->val; break; case OShl: if(isC(e->b)&&e->b->val<e->w){ u64 x=umax(e->a); if(x<=(m>>e->b->val)) r=x<<e->b->val; } break; default: break; }
  memoMax[e]=r; return r; }
// a = q*v + rest with rest < v and no overflow: split the sum into multiples of v and the rest
static bool divSplit(E a,u64 v,E&q,E&rest){ unsigned w=a->w; q=mkConst(0,w); rest=mkConst(0,w); std::vector<E> st{a}; while(!st.empty()){ E t=st.back(); st.pop_back(); if(t->op==OAdd){ u64 x=umax(t->a),y=umax(t->b); if(x>maskw(w)-y) return false; st.push_back(t->a); st.push_back(t->b); continue; }
    if(isC(t)){ q=mkBin(OAdd,q,mkConst(t->val/v,w)); rest=mkBin(OAdd,rest,mkConst(t->val%v,w)); continue; }
    if(t->op==OShl&&isC(t->b)&&t->b->val<w&&((u64)1<<t->b->val)%v==0){ u64 x=umax(t->a); if(x>(maskw(w)>>t->b->val)) return false; q=mkBin(OAdd,q,mkBin(OMul,t->a,mkConst(((u64)1<<t->b->val)/v,w))); continue; }
    if(t->op==OMul&&isC(t->b)&&t->b->val%v==0){ u64 x=umax(t->a); if(x&&t->b->val>maskw(w)/x) return false; q=mkBin(OAdd,q,mkBin(OMul,t->a,mkConst(t->b->val/v,w))); continue; }
    rest=mkBin(OAdd,rest,t); }
  return umax(rest)<v; }
// sums without overflow: cancel what both sides of a comparison have in common
static bool linSum(E a,std::map<unsigned,std::pair<E,u64>>&m,u64&c){ std::vector<E> st{a}; u64 mx=maskw(a->w); while(!st.empty()){ E t=st.back(); st.pop_back(); if(t->op==OAdd){ if(umax(t->a)>mx-umax(t->b)) return false; st.push_back(t->a); st.push_back(t->b); continue; } if(isC(t)){ c+=t->val; continue; }
    if(t->op==OShl&&isC(t->b)&&t->b->val<t->w){ if(umax(t->a)>(mx>>t->b->val)) return false; auto&q=m[t->a->id]; q.first=t->a; q.second+=(u64)1<<t->b->val; continue; }
    if(t->op==OMul&&isC(t->b)){ u64 x=umax(t->a); if(x&&t->b->val>mx/x) return false; auto&q=m[t->a->id]; q.first=t->a; q.second+=t->b->val; } else { auto&q=m[t->id]; q.first=t; q.second++; } } return true; }
static E linCmp(Op op,E a,E b){ unsigned w=a->w; if(w<16||(a->op!=OAdd&&a->op!=OMul)||isC(a)||isC(b)||(op==OEq&&b->op!=OAdd&&b->op!=OMul)) if(w<16||(b->op!=OAdd&&b->op!=OMul)||isC(a)||isC(b)||op==OEq) return nullptr;
  std::map<unsigned,std::pair<E,u64>> A,B; u64 ca=0,cb=0; if(!linSum(a,A,ca)||!linSum(b,B,cb)) return nullptr; bool did=false; if(ca&&cb){ u64 k=ca<cb?ca:cb; ca-=k; cb-=k; did=true; }
  for(auto&x:A){ auto it=B.find(x.first); if(it==B.end()) continue; u64 k=std::min(x.second.second,it->second.second); x.second.second-=k; it->second.second-=k; if(k) did=true; } if(!did) return nullptr;
  auto mk=[&](std::map<unsigned,std::pair<E,u64>>&m,u64 c){ E r=mkConst(0,w); for(auto&x:m) if(x.second.second) r=mkBin(OAdd,r,mkBin(OMul,x.second.first,mkConst(x.second.second,w))); return mkBin(OAdd,r,mkConst(c,w)); };
  E x=mk(A,ca),y=mk(B,cb); if(op==OUlt&&isC(y)&&y->val==0) return eFalse; if(op==OUle&&isC(x)&&x->val==0) return eTrue; if(op==OUle&&isC(y)&&y->val==0) return mkBin(OEq,x,y); return mkBin(op,x,y); }
static E mkBin0(Op op,E a,E b){
  if((op==OUlt||op==OUle||op==OEq)&&a!=b){ E r=linCmp(op,a,b); if(r) return r; }
  if(op==OAdd&&a->w>=32&&!isC(a)&&!isC(b)&&(a->op==OAdd||b->op==OAdd)){ // one form for every order of the same sum
    unsigned w=a->w; std::map<unsigned,std::pair<E,u64>> m; u64 c=0; std::vector<E> st{a,b}; while(!st.empty()){ E t=st.back(); st.pop_back(); if(t->op==OAdd){ st.push_back(t->a); st.push_back(t->b); } else if(isC(t)) c+=t->val; else { E k=t; u64 f=1; if(t->op==OMul&&isC(t->b)){ k=t->a; f=t->b->val; } else if(t->op==OShl&&isC(t->b)&&t->b->val<w){ k=t->a; f=(u64)1<<t->b->val; } auto&q=m[k->id]; q.first=k; q.second+=f; } }
    E r=nullptr; for(auto&x:m){ u64 f=x.second.second&maskw(w); if(!f) continue; E t=mkBin(OMul,x.second.first,mkConst(f,w)); r=r?raw(OAdd,w,0,r,t):t; } c&=maskw(w); if(!r) return mkConst(c,w); return c?(isC(r)?mkConst(r->val+c,w):raw(OAdd,w,0,r,mkConst(c,w))):r; }
  if((op==OSDiv||op==OSRem||op==OUDiv||op==OURem)&&!isC(a)&&isC(b)&&b->val&&b->val<=(maskw(a->w)>>1)&&umax(a)<=(maskw(a->w)>>1)){ bool d=op==OSDiv||op==OUDiv; if(umax(a)<b->val) return d?mkConst(0,a->w):a; E q,r; if(divSplit(a,b->val,q,r)) return d?q:r; if(op==OSDiv) op=OUDiv; if(op==OSRem) op=OURem; u64 m=umax(a)|b->val; unsigned n=1; while(n<a->w&&(m>>n)) n++; if(n+4<=a->w) return mkZExt(mkBin(op,mkExtract(a,0,n),mkConst(b->val,n)),a->w); }
  assert(a->w==b->w);
  unsigned w=a->w; bool cmp=(op>=OEq&&op<=OSle); unsigned rw=cmp?1:w;
  if(isC(a)&&isC(b)){ bool ok; u64 r=foldBin(op,a->val,b->val,w,ok); if(ok) return mkConst(r,rw); }
  if(w==1&&!cmp){ if(op==OAnd) return mkAndB(a,b); if(op==OOr) return mkOrB(a,b); }
  bool comm=(op==OAdd||op==OMul||op==OAnd||op==OOr||op==OXor||op==OEq);
  if(comm&&isC(a)) std::swap(a,b);
  if(isC(b)){
    u64 v=b->val;
    switch(op){
    case OAdd: case OSub: case OOr: case OXor: case OShl: case OLShr: case OAShr: if(v==0) return a; break;
    default: break; }
    if(op==OAnd){ if(v==0) return b; if(v==maskw(w)) return a; }
    if(op==OOr&&v==maskw(w)) return b;
    if(op==OMul){ if(v==0) return b; if(v==1) return a; if(a->op==OMul&&isC(a->b)) return mkBin(OMul,a->a,mkConst(a->b->val*v,w)); }
    if(op==OUDiv&&v==1) return a;
    if((op==OUDiv||op==OURem)&&v>1&&(v&(v-1))==0){ unsigned k=__builtin_ctzll(v); return op==OUDiv?mkZExt(mkExtract(a,k,w-k),w):mkZExt(mkExtract(a,0,k),w); }
    if(op==OUlt&&v==0) return eFalse; if(op==OUle&&v==maskw(w)) return eTrue;
    if(op==OXor&&w==1) return mkNot(a);
    if(op==OSub) return mkBin(OAdd,a,mkConst(0-v,w));
    if(op==OAdd&&a->op==OAdd&&isC(a->b)) return mkBin(OAdd,a->a,mkConst(a->b->val+v,w));
    if(op==OEq&&w>1&&v>umax(a)) return eFalse; if(op==OUlt&&w>1&&v>umax(a)) return eTrue; if(op==OUle&&w>1&&v>=umax(a)) return eTrue;
    if(op==OEq){
      if(w==1) return v?a:mkNot(a);
      if(a->op==OAdd&&isC(a->b)) return mkBin(OEq,a->a,mkConst(v-a->b->val,w));
      if(a->op==OZExt){ if(v>maskw(a->a->w)) return eFalse; return mkBin(OEq,a->a,mkConst(v,a->a->w)); }
      if(a->op==OSExt){ if((u64)(sx(v&maskw(a->a->w),a->a->w)&maskw(w))!=v) return eFalse; return mkBin(OEq,a->a,mkConst(v,a->a->w)); }
      if(a->op==OConcat){ unsigned lw=a->b->w; return mkAndB(mkEq(a->a,mkConst(v>>lw,a->a->w)),mkEq(a->b,mkConst(v,lw))); }
      if(a->op==OIte&&!a->ctree&&(isC(a->b)||isC(a->c))) return mkIte(a->a,mkEq(a->b,b),mkEq(a->c,b));
    }
    if(op==OUlt&&a->op==OZExt){ if(v>maskw(a->a->w)) return eTrue; return mkBin(OUlt,a->a,mkConst(v,a->a->w)); }
    if(op==OAnd&&a->op==OZExt&&(maskw(a->a->w)&~v)==0) return a;
    if((op==OLShr)&&a->op==OConcat&&v>=a->b->w) return mkZExt(mkBin(OLShr,a->a,mkConst(v-a->b->w,a->a->w)),w);
    if((op==OLShr)&&a->op==OZExt&&v>=a->a->w) return mkConst(0,w);
  }
  if(a==b){ switch(op){ case OSub: case OXor: return mkConst(0,w); case OAnd: case OOr: return a; case OEq: case OUle: case OSle: return eTrue; case OUlt: case OSlt: return eFalse; default:break; } }
  if(w==1&&op==OEq) return mkNot(mkBin(OXor,a,b));
  if(w==1&&op==OXor){ if(a->op==ONot) return mkNot(mkBin(OXor,a->a,b)); if(b->op==ONot) return mkNot(mkBin(OXor,a,b->a)); }
  // push through constant trees
  { auto F=[&](u64 x,u64 y){ bool ok; u64 r=foldBin(op,x,y,w,ok); return r; };
    if(ctSmall(a)&&isC(b)) return mapCT(a,rw,[&](u64 x){return F(x,b->val);});
    if(isC(a)&&ctSmall(b)) return mapCT(b,rw,[&](u64 x){return F(a->val,x);});
    if(ctSmall(a)&&ctSmall(b)&&(unsigned)a->ctree*b->ctree<=100){ CT A=getCT(a),B=getCT(b),R; E da=defCond(A); R.def=F(A.def,B.def); E db=defCond(B);
      auto row=[&](u64 va,E ea){ for(auto&y:B.it) addCT(R,F(va,y.first),mkAndB(ea,y.second)); addCT(R,F(va,B.def),mkAndB(ea,db)); };
      for(auto&x:A.it) row(x.first,x.second); row(A.def,da); return rw==1?boolCT(R):putCT(R,rw); }
    if(a->op==OIte&&b->op==OIte&&a->a==b->a) return mkIte(a->a,mkBin(op,a->b,b->b),mkBin(op,a->c,b->c)); }
  if(op==OEq&&a->op==OZExt&&b->op==OZExt&&a->a->w==b->a->w) return mkEq(a->a,b->a);
  if(comm&&!isC(b)&&a->id>b->id) std::swap(a,b);
  return raw(op,rw,0,a,b);
}
E mkExtract(E a,unsigned lo,unsigned w){
  if(lo==0&&w==a->w) return a;
  if(isC(a)) return mkConst(a->val>>lo,w);
  if(a->op==OExtract) return mkExtract(a->a,lo+a->val,w);
  if(a->op==OConcat){ unsigned lw=a->b->w; if(lo>=lw) return mkExtract(a->a,lo-lw,w); if(lo+w<=lw) return mkExtract(a->b,lo,w); return mkConcat(mkExtract(a->a,0,lo+w-lw),mkExtract(a->b,lo,lw-lo)); }
  if(a->op==OZExt){ unsigned iw=a->a->w; if(lo>=iw) return mkConst(0,w); if(lo+w<=iw) return mkExtract(a->a,lo,w); return mkZExt(mkExtract(a->a,lo,iw-lo),w); }
  if(a->op==OSExt&&lo+w<=a->a->w) return mkExtract(a->a,lo,w);
  if(ctSmall(a)) return mapCT(a,w,[&](u64 x){return (x>>lo)&maskw(w);});
  if(a->op==OIte&&(isC(a->b)||isC(a->c)||a->b->op==OConcat||a->c->op==OConcat)) return mkIte(a->a,mkExtract(a->b,lo,w),mkExtract(a->c,lo,w));
  if(lo==0&&(a->op==OAdd||a->op==OSub||a->op==OMul||a->op==OAnd||a->op==OOr||a->op==OXor)&&(a->op==OAnd||a->op==OOr||a->op==OXor||isC(a->b))) return mkBin(a->op,mkExtract(a->a,0,w),mkExtract(a->b,0,w));
  if((a->op==OAnd||a->op==OOr)) return mkBin(a->op,mkExtract(a->a,lo,w),mkExtract(a->b,lo,w));
  if(a->op==OShl&&isC(a->b)){ unsigned s=a->b->val; if(lo+w<=s) return mkConst(0,w); if(lo>=s) return mkExtract(a->a,lo-s,w);}
  if(a->op==OLShr&&isC(a->b)&&lo+a->b->val+w<=a->w) return mkExtract(a->a,lo+a->b->val,w);
  return raw(OExtract,w,lo,a);
}
E mkTrunc(E a,unsigned w){ return mkExtract(a,0,w); }
E mkZExt(E a,unsigned w){
  if(a->w==w) return a; if(isC(a)) return mkConst(a->val,w); if(a->op==OZExt) return mkZExt(a->a,w);
  if(ctSmall(a)) return mapCT(a,w,[&](u64 x){return x;});
  if(a->w==1) return mkIte(a,mkConst(1,w),mkConst(0,w));
  return raw(OZExt,w,0,a);
}
E mkSExt(E a,unsigned w){
  if(a->w==w) return a; if(isC(a)) return mkConst((u64)sx(a->val,a->w),w); if(a->op==OSExt) return mkSExt(a->a,w); if(a->op==OZExt) return mkZExt(a->a,w);
  if(ctSmall(a)) return mapCT(a,w,[&](u64 x){return (u64)sx(x,a->w)&maskw(w);});
  if(a->w==1) return mkIte(a,mkConst(~0ULL,w),mkConst(0,w));
  return raw(OSExt,w,0,a);
}
E mkConcat(E hi,E lo){
  unsigned w=hi->w+lo->w; assert(w<=64);
  if(isC(hi)&&isC(lo)) return mkConst((hi->val<<lo->w)|lo->val,w);
  if(isC(hi)&&hi->val==0) return mkZExt(lo,w);
  if(hi->op==OExtract&&lo->op==OExtract&&hi->a==lo->a&&hi->val==lo->val+lo->w) return mkExtract(hi->a,lo->val,w);
  if(ctSmall(hi)&&isC(lo)) return mapCT(hi,w,[&](u64 x){return (x<<lo->w)|lo->val;});
  if(ctSmall(lo)&&isC(hi)) return mapCT(lo,w,[&](u64 x){return (hi->val<<lo->w)|x;});
  if(hi->op==OIte&&lo->op==OIte&&hi->a==lo->a) return mkIte(hi->a,mkConcat(hi->b,lo->b),mkConcat(hi->c,lo->c));
  return raw(OConcat,w,0,hi,lo);
}

static std::vector<u64> gMemo; static std::vector<u64> gStamp; static u64 gNext=1;
Model::Model():stamp(gNext++){} Model::Model(const Model&o):v(o.v),stamp(gNext++){} void Model::touch(){ stamp=gNext++; }
static u64 ev(E e, Model &m){
  switch(e->op){
  case OConst: return e->val;
  case OSym: return e->val<m.v.size()? m.v[e->val]&maskw(e->w):0;
  default: break; }
  if(e->id<gStamp.size()&&gStamp[e->id]==m.stamp) return gMemo[e->id];
  u64 r=0;
  switch(e->op){
  case OIte: r= ev(e->a,m)? ev(e->b,m):ev(e->c,m); break;
  case ONot: r=!ev(e->a,m); break;
  case OZExt: r=ev(e->a,m); break;
  case OSExt: r=(u64)sx(ev(e->a,m),e->a->w)&maskw(e->w); break;
  case OExtract: r=(ev(e->a,m)>>e->val)&maskw(e->w); break;
  case OConcat: r=(ev(e->a,m)<<e->b->w)|ev(e->b,m); break;
  default: { bool ok; if(e->w==1&&e->op==OAnd){ r=ev(e->a,m)&&ev(e->b,m); break; } if(e->w==1&&e->op==OOr){ r=ev(e->a,m)||ev(e->b,m); break; }
    r=foldBin(e->op,ev(e->a,m),ev(e->b,m),e->a->w,ok); } }
  if(e->id>=gStamp.size()){ size_t n=std::max<size_t>(gNumExprs*3/2+1024,e->id+1); gStamp.resize(n,0); gMemo.resize(n,0); }
  gStamp[e->id]=m.stamp; gMemo[e->id]=r; return r;
}
u64 evalE(E e, Model &m){ return ev(e,m); }
void leavesOf(E e,std::vector<u64>&out){ if(isC(e)){ out.push_back(e->val); return; } CT c=getCT(e); for(auto&x:c.it) out.push_back(x.first); out.push_back(c.def); }
