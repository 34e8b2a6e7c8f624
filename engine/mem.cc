#include "state.h"
static inline E byteOf(const Chunk*c,u32 i){ if(E s=c->sym(i)) return mkExtract(s,8*c->six(i),8); return mkConst(c->c[i],8); }
E objRead(const Obj*o,u32 off,u32 n){
  const Chunk*c0=o->at(off>>6); u32 k0=off&63;
  if(!c0->sp&&k0+n<=64){ u64 v=0; memcpy(&v,c0->c+k0,n); return mkConst(v,8*n); }
  bool anyS=false; u64 v=0;
  for(u32 i=0;i<n;i++){ const Chunk*c=o->at((off+i)>>6); u32 k=(off+i)&63; if(c->sym(k)){ anyS=true; break; } v|=(u64)c->c[k]<<(8*i); }
  if(!anyS) return mkConst(v,8*n);
  { E s=c0->sym(k0);
    if(s&&c0->six(k0)==0&&s->w==8*n){ bool ok=true; for(u32 i=1;i<n&&ok;i++){ const Chunk*d=o->at((off+i)>>6); u32 q=(off+i)&63; ok=d->sym(q)==s&&d->six(q)==i; } if(ok) return s; } }
  E r=nullptr; u32 i=0;
  while(i<n){ const Chunk*c=o->at((off+i)>>6); u32 k=(off+i)&63; E part; u32 len=1;
    if(E s=c->sym(k)){ u32 b=c->six(k); while(i+len<n){ const Chunk*d=o->at((off+i+len)>>6); u32 q=(off+i+len)&63; if(d->sym(q)==s&&d->six(q)==b+len) len++; else break; } part=mkExtract(s,8*b,8*len); }
    else { u64 v2=c->c[k]; while(i+len<n){ const Chunk*d=o->at((off+i+len)>>6); u32 q=(off+i+len)&63; if(d->sym(q)) break; v2|=(u64)d->c[q]<<(8*len); len++; } part=mkConst(v2,8*len); }
    r= r? mkConcat(part,r):part; i+=len; }
  return r;
}
void objWrite(Obj*o,u32 off,E v){
  u32 n=v->w/8; Chunk*c=nullptr; u32 ci=~0u;
  for(u32 i=0;i<n;i++){ u32 x=(off+i)>>6; if(x!=ci){ c=o->mut(x); ci=x; } u32 k=(off+i)&63;
    if(isC(v)){ c->c[k]=(u8)(v->val>>(8*i)); if(c->sp) c->sp->s[k]=nullptr; }
    else { if(!c->sp){ c->sp=new SymPart(); memset(c->sp->s,0,sizeof c->sp->s); } c->sp->s[k]=v; c->sp->ix[k]=i; } }
}
