// Program state: memory objects (copy on write), threads, processes.
#pragma once
#include "expr.h"
#include "solver.h"
#include <map>
#include <memory>
#include <cstring>
typedef unsigned __int128 H128;
static inline u64 mix64(u64 h){ h^=h>>33; h*=0xff51afd7ed558ccdULL; h^=h>>33; h*=0xc4ceb9fe1a85ec53ULL; h^=h>>33; return h; }
struct Hash { u64 a=0x9E3779B97F4A7C15ULL,b=0xC2B2AE3D27D4EB4FULL; void add(u64 v){ a=mix64(a^v)+0x9E3779B97F4A7C15ULL; b=(b^mix64(v+0x165667B19E3779F9ULL))*0x9FB21C651E98DF25ULL; b^=b>>29; } void add(const Hash&h){ add(h.a); add(h.b); } H128 get()const{ return (H128)a<<64|b; } };
struct SymPart { u8 ix[64]; E s[64]; };
struct Chunk { int rc=1; bool hv=false; Hash h; SymPart*sp=nullptr; u8 c[64];
  Chunk(){ memset(c,0,sizeof c); } Chunk(const Chunk&o):rc(1){ memcpy(c,o.c,64); if(o.sp) sp=new SymPart(*o.sp); } ~Chunk(){ delete sp; }
  E sym(u32 k)const{ return sp?sp->s[k]:nullptr; } u32 six(u32 k)const{ return sp->ix[k]; }
  bool symbolic()const{ if(!sp) return false; for(int i=0;i<64;i++) if(sp->s[i]) return true; return false; }
  const Hash&hash(){ if(!hv){ Hash x; for(int i=0;i<8;i++){ u64 v; memcpy(&v,c+8*i,8); if(sp){ for(int j=0;j<8;j++) if(sp->s[8*i+j]) v&=~(0xffULL<<(8*j)); } x.add(v); } if(sp) for(int i=0;i<64;i++) if(sp->s[i]){ x.add(i); x.add(((u64)sp->s[i]->id<<8)|sp->ix[i]); } h=x; hv=true; } return h; } };
enum { PGC=32 };
struct Page { int rc=1; bool hv=false,symb=false; Hash h; Chunk*ch[PGC];
  static Chunk *zeroC(){ static Chunk *z=nullptr; if(!z){ z=new Chunk(); z->rc=1<<30; } return z; }
  static Page *zero(){ static Page*z=nullptr; if(!z){ z=new Page(); z->rc=1<<30; } return z; }
  Page(){ for(auto&c:ch) c=zeroC(); }
  Page(const Page&o):rc(1){ for(int i=0;i<PGC;i++){ ch[i]=o.ch[i]; if(ch[i]!=zeroC()) ch[i]->rc++; } }
  ~Page(){ for(auto c:ch) if(c!=zeroC()&&--c->rc==0) delete c; }
  const Hash&hash(){ if(!hv){ Hash x; symb=false; for(auto c:ch){ x.add(c->hash()); if(c->symbolic()) symb=true; } h=x; hv=true; } return h; } };
struct Obj {
  int rc=0; u64 base=0; u32 size=0; bool shared=false; bool freed=false; bool kernel=false; u8 kind=0; // kind 0 global 1 heap 2 stack 3 map
  bool hv=false,symb=false; Hash h; std::vector<Page*> pg;
  Obj(u64 b,u32 sz):base(b),size(sz){ pg.assign((sz+64*PGC-1)/(64*PGC),Page::zero()); }
  Obj(const Obj&o):rc(0),base(o.base),size(o.size),shared(o.shared),freed(o.freed),kernel(o.kernel),kind(o.kind),pg(o.pg){ for(auto p:pg) if(p!=Page::zero()) p->rc++; }
  ~Obj(){ for(auto p:pg) if(p!=Page::zero()&&--p->rc==0) delete p; }
  u32 nchunks()const{ return (size+63)/64; }
  const Chunk*at(u32 i)const{ return pg[i/PGC]->ch[i%PGC]; }
  Chunk *mut(u32 i){ hv=false; Page*p=pg[i/PGC]; if(p==Page::zero()||p->rc>1){ Page*n=new Page(*p); if(p!=Page::zero()) p->rc--; pg[i/PGC]=n; p=n; } p->hv=false;
    Chunk *c=p->ch[i%PGC]; if(c==Page::zeroC()||c->rc>1){ Chunk *n=new Chunk(*c); if(c!=Page::zeroC()) c->rc--; p->ch[i%PGC]=n; c=n; } c->hv=false; return c; }
  const Hash&hash(){ if(!hv){ Hash x; symb=false; x.add(base*4+shared*2+kernel); x.add(size); for(auto p:pg){ x.add(p->hash()); if(p->symb) symb=true; } h=x; hv=true; } return h; }
};
struct ObjRef {
  Obj *p;
  ObjRef(Obj*o=nullptr):p(o){ if(p) p->rc++; }
  ObjRef(const ObjRef&o):p(o.p){ if(p) p->rc++; }
  ObjRef(ObjRef&&o):p(o.p){ o.p=nullptr; }
  ObjRef&operator=(ObjRef o){ std::swap(p,o.p); return *this; }
  ~ObjRef(){ if(p&&--p->rc==0) delete p; }
  Obj *mut(){ if(p->rc>1){ Obj *n=new Obj(*p); *this=ObjRef(n); } p->hv=false; return p; }
  Obj*operator->()const{ return p; } explicit operator bool()const{return p;}
};
E objRead(const Obj*o,u32 off,u32 n);
void objWrite(Obj*o,u32 off,E v);
struct Val { E e=nullptr; E f=nullptr; };
struct FnInfo;
struct Frame { FnInfo *fn; u32 pc; u32 stackN; u64 sp; int retDst; std::vector<Val> r; bool hv=false,symb=false; Hash h; };
typedef std::shared_ptr<Frame> FrameP;
// a call stack whose frames are shared between states until written
struct Frames { std::vector<FrameP> v; size_t size()const{ return v.size(); } bool empty()const{ return v.empty(); } void clear(){ v.clear(); } void pop_back(){ v.pop_back(); } void push(Frame&&f){ v.push_back(std::make_shared<Frame>(std::move(f))); }
  const Frame&operator[](size_t i)const{ return *v[i]; } Frame&mut(size_t i){ if(v[i].use_count()>1) v[i]=std::make_shared<Frame>(*v[i]); v[i]->hv=false; return *v[i]; } Frame&top(){ return mut(v.size()-1); } };
enum TS : u8 { T_RUN, T_JOIN, T_DONE, T_DEAD, T_MERGE, T_STUCK };
struct Thread {
  int id=0; int proc=0; TS st=T_RUN; bool yielded=false, consumed=false, crashable=false, inModel=false; bool wroteF=false; int solo=0; int runDst=-1; int vnext=0; u64 held=0, lastW=0; u64 ev=0; u64 sp=0;
  Frames fr; std::vector<ObjRef> stack; std::vector<std::pair<u64,int>> visited, rounds;
};
typedef std::shared_ptr<Thread> ThreadP;
struct MapEnt { u32 size; int slot; u32 off; };
struct AMap : std::map<u64,MapEnt> { bool hv=false; Hash h; };
struct State {
  std::vector<ObjRef> slots; std::vector<std::shared_ptr<AMap>> procs; std::vector<ThreadP> th;
  E guard=nullptr; ModelP wit; std::vector<E> stepLits; u32 symIdx=0; int crashLeft=0; int stuckRounds=0; bool stuck=false; bool multi=false; u32 runNo=0; u64 steps=0; u32 node=0; bool twin=false, hang=false; int only=0;
  std::vector<E> lits; E rest=nullptr; /* guard = conjunction of lits and rest */ std::vector<std::pair<E,u64>> known;
  Thread &T(int i){ if(th[i].use_count()>1) th[i]=std::make_shared<Thread>(*th[i]); return *th[i]; }
  AMap &M(int p){ if(procs[p].use_count()>1) procs[p]=std::make_shared<AMap>(*procs[p]); procs[p]->hv=false; return *procs[p]; }
};
