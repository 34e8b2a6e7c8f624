// Hash-consed bit-vector expressions with simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <unordered_map>
#include <cassert>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

enum Op : u8 { OConst, OSym, OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr,
  OZExt, OSExt, OExtract, OConcat, OEq, OUlt, OUle, OSlt, OSle, OIte, ONot };

struct Expr {
  Op op; u8 w; u8 ctree; // ctree: 0 = not a constant tree, else min(leaves,255)
  u32 id; u64 val;       // const value / symbol index / extract low bit
  const Expr *a, *b, *c;
};
typedef const Expr *E;

static inline u64 maskw(unsigned w){ return w>=64 ? ~0ULL : ((1ULL<<w)-1); }
static inline i64 sx(u64 v, unsigned w){ return w>=64 ? (i64)v : (i64)(v<<(64-w))>>(64-w); }

E mkConst(u64 v, unsigned w);
E mkSym(const std::string &name, unsigned w);
E mkBin(Op op, E a, E b);
E mkNot(E a);
E mkIte(E c, E a, E b);
E mkZExt(E a, unsigned w); E mkSExt(E a, unsigned w); E mkTrunc(E a, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
static inline E mkEq(E a, E b){ return mkBin(OEq,a,b); }
u64 umax(E e); // an upper bound of the unsigned value
E mkAndB(E a, E b); E mkOrB(E a, E b);
static inline bool isC(E e){ return e->op==OConst; }
static inline bool isTrue(E e){ return e->op==OConst && e->val==1; }
static inline bool isFalse(E e){ return e->op==OConst && e->val==0; }
extern E eTrue, eFalse;
struct SymInfo { std::string name; unsigned w; E e; };
extern std::vector<SymInfo> gSyms;
extern u64 gNumExprs;
void exprInit();
// evaluate under a model: values indexed by symbol index
struct Model { std::vector<u64> v; u64 stamp; Model(); Model(const Model&o); void touch(); };
u64 evalE(E e, Model &m);
// collect the leaves of a constant tree
void leavesOf(E e, std::vector<u64> &out);
