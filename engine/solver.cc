#include "solver.h"
#include <z3.h>
#include <unistd.h>
#include <chrono>
#include <map>
SolverStats gSolver;
static Z3_context C; static Z3_solver S; static unsigned gTmo;
static std::vector<Z3_ast> cache; static std::vector<Z3_ast> lits; static std::vector<Z3_ast> symAst;
static void errh(Z3_context c, Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); _exit(4); }
static void mkSolver(){
  S=Z3_mk_solver_for_logic(C,Z3_mk_string_symbol(C,"QF_FD")); Z3_solver_inc_ref(C,S);
  Z3_params p=Z3_mk_params(C); Z3_params_inc_ref(C,p); Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"timeout"),gTmo); Z3_solver_set_params(C,S,p); Z3_params_dec_ref(C,p);
}
void solverInit(unsigned t){ gTmo=t; Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true"); C=Z3_mk_context(cfg); Z3_set_error_handler(C,errh); mkSolver(); }
static Z3_sort srt(unsigned w){ return w==1?Z3_mk_bool_sort(C):Z3_mk_bv_sort(C,w); }
static Z3_ast and2(Z3_ast x,Z3_ast y){ Z3_ast v[2]={x,y}; return Z3_mk_and(C,2,v); }
static Z3_ast or2(Z3_ast x,Z3_ast y){ Z3_ast v[2]={x,y}; return Z3_mk_or(C,2,v); }
static Z3_ast tr(E e){
  if(e->id>=cache.size()) cache.resize(gNumExprs+1024,nullptr);
  if(cache[e->id]) return cache[e->id];
  Z3_ast r=nullptr; unsigned w=e->w;
  switch(e->op){
  case OConst: r= w==1? (e->val?Z3_mk_true(C):Z3_mk_false(C)) : Z3_mk_unsigned_int64(C,e->val,srt(w)); break;
  case OSym: { char b[32]; snprintf(b,sizeof b,"s%llu",(unsigned long long)e->val); r=Z3_mk_const(C,Z3_mk_string_symbol(C,b),srt(w)); if(symAst.size()<=e->val) symAst.resize(e->val+64,nullptr); symAst[e->val]=r; break; }
  case ONot: r=Z3_mk_not(C,tr(e->a)); break;
  case OIte: { Z3_ast a=tr(e->a),b=tr(e->b),c=tr(e->c); r=Z3_mk_ite(C,a,b,c); break; }
  case OZExt: r=Z3_mk_zero_ext(C,w-e->a->w,tr(e->a)); break;
  case OSExt: r=Z3_mk_sign_ext(C,w-e->a->w,tr(e->a)); break;
  case OExtract: { Z3_ast a=tr(e->a); r=Z3_mk_extract(C,e->val+w-1,e->val,a); if(w==1) r=Z3_mk_eq(C,r,Z3_mk_unsigned_int64(C,1,Z3_mk_bv_sort(C,1))); break; }
  case OConcat: { Z3_ast a=tr(e->a),b=tr(e->b); auto one=[&](Z3_ast x,unsigned ww){ return ww==1? Z3_mk_ite(C,x,Z3_mk_unsigned_int64(C,1,Z3_mk_bv_sort(C,1)),Z3_mk_unsigned_int64(C,0,Z3_mk_bv_sort(C,1))):x; }; r=Z3_mk_concat(C,one(a,e->a->w),one(b,e->b->w)); break; }
  default: {
    Z3_ast a=tr(e->a),b=tr(e->b); Z3_ast ab[2]={a,b};
    bool bo=e->a->w==1;
    switch(e->op){
    case OAdd: r=bo?Z3_mk_xor(C,a,b):Z3_mk_bvadd(C,a,b); break; case OSub: r=bo?Z3_mk_xor(C,a,b):Z3_mk_bvsub(C,a,b); break; case OMul: r=bo?Z3_mk_and(C,2,ab):Z3_mk_bvmul(C,a,b); break;
    case OUDiv: r=Z3_mk_bvudiv(C,a,b); break; case OSDiv: r=Z3_mk_bvsdiv(C,a,b); break;
    case OURem: r=Z3_mk_bvurem(C,a,b); break; case OSRem: r=Z3_mk_bvsrem(C,a,b); break;
    case OAnd: r=bo?Z3_mk_and(C,2,ab):Z3_mk_bvand(C,a,b); break; case OOr: r=bo?Z3_mk_or(C,2,ab):Z3_mk_bvor(C,a,b); break;
    case OXor: r=bo?Z3_mk_xor(C,a,b):Z3_mk_bvxor(C,a,b); break;
    case OShl: r=Z3_mk_bvshl(C,a,b); break; case OLShr: r=Z3_mk_bvlshr(C,a,b); break; case OAShr: r=Z3_mk_bvashr(C,a,b); break;
    case OEq: r=Z3_mk_eq(C,a,b); break;
    case OUlt: r=bo?and2(Z3_mk_not(C,a),b):Z3_mk_bvult(C,a,b); break;
    case OUle: r=bo?or2(Z3_mk_not(C,a),b):Z3_mk_bvule(C,a,b); break;
    case OSlt: r=bo?and2(a,Z3_mk_not(C,b)):Z3_mk_bvslt(C,a,b); break;
    case OSle: r=bo?or2(a,Z3_mk_not(C,b)):Z3_mk_bvsle(C,a,b); break;
    default: abort(); } } }
  Z3_inc_ref(C,r); 
  if(e->id>=cache.size()) cache.resize(gNumExprs+1024,nullptr);
  cache[e->id]=r; return r;
}
static Z3_ast lit(E e){
  if(e->op==OSym) return tr(e);
  if(e->op==ONot&&e->a->op==OSym) return tr(e);
  if(e->id>=lits.size()) lits.resize(gNumExprs+1024,nullptr);
  if(lits[e->id]) return lits[e->id];
  Z3_ast a=tr(e); char b[32]; snprintf(b,sizeof b,"p%u",e->id); Z3_ast p=Z3_mk_const(C,Z3_mk_string_symbol(C,b),Z3_mk_bool_sort(C)); Z3_inc_ref(C,p);
  Z3_solver_assert(C,S,Z3_mk_implies(C,p,a)); lits[e->id]=p; return p;
}
// Queries over long sums: first with each maximal sum replaced by a fresh variable within the sum's bounds. Unsatisfiable then means unsatisfiable.
static std::map<E,bool> sumMemo; static std::vector<E> sums;
static int addends(E e){ return e->op==OAdd?addends(e->a)+addends(e->b):isC(e)?0:1; }
static bool longSum(E e){ return e->op==OAdd&&e->w>=32&&!isC(e->b)&&addends(e)>=3&&umax(e)<maskw(e->w); }
static bool hasSum(E e){ if(!e) return false; auto it=sumMemo.find(e); if(it!=sumMemo.end()) return it->second; bool r=longSum(e)||hasSum(e->a)||hasSum(e->b)||hasSum(e->c); sumMemo[e]=r; return r; }
static void findSums(E e,std::map<E,bool>&seen,std::vector<E>&v){ if(!e||seen[e]||!hasSum(e)) return; seen[e]=true; if(longSum(e)){ v.push_back(e); return; } findSums(e->a,seen,v); findSums(e->b,seen,v); findSums(e->c,seen,v); }
static bool abstractUnsat(const std::vector<E>&conj){
  bool any=false; for(E e:conj) if(hasSum(e)) any=true; if(!any) return false;
  std::map<E,bool> seen; std::vector<E> v; for(E e:conj) findSums(e,seen,v); std::vector<Z3_ast> from,to; static int k=0;
  Z3_solver Q=Z3_mk_solver_for_logic(C,Z3_mk_string_symbol(C,"QF_FD")); Z3_solver_inc_ref(C,Q); Z3_params p=Z3_mk_params(C); Z3_params_inc_ref(C,p); Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"timeout"),10000); Z3_solver_set_params(C,Q,p); Z3_params_dec_ref(C,p);
  for(E e:v){ char b[32]; snprintf(b,sizeof b,"z%d",k++); Z3_ast x=Z3_mk_const(C,Z3_mk_string_symbol(C,b),srt(e->w)); Z3_inc_ref(C,x); from.push_back(tr(e)); to.push_back(x); Z3_solver_assert(C,Q,Z3_mk_bvule(C,x,Z3_mk_unsigned_int64(C,umax(e),srt(e->w)))); }
  for(E e:conj){ Z3_ast a=Z3_substitute(C,tr(e),from.size(),from.data(),to.data()); Z3_inc_ref(C,a); Z3_solver_assert(C,Q,a); Z3_dec_ref(C,a); }
  auto t0=std::chrono::steady_clock::now(); bool r=Z3_solver_check(C,Q)==Z3_L_FALSE; Z3_solver_dec_ref(C,Q); for(Z3_ast x:to) Z3_dec_ref(C,x);
  gSolver.queries++; if(r) gSolver.unsat++; gSolver.secs+=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); return r; }
int solveSat(const std::vector<E>&conj, ModelP *out){
  if(abstractUnsat(conj)) return 0;
  std::vector<Z3_ast> as; for(E e:conj){ if(isFalse(e)) return 0; if(isTrue(e)) continue; as.push_back(lit(e)); }
  auto t0=std::chrono::steady_clock::now();
  gSolver.queries++;
  Z3_lbool r=Z3_solver_check_assumptions(C,S,as.size(),as.data()); if(r==Z3_L_UNDEF&&getenv("VPDUMP")) for(E e:conj) if(e) fprintf(stderr,"Q %s\n",Z3_ast_to_string(C,tr(e)));
  int res=r==Z3_L_TRUE?1:r==Z3_L_FALSE?0:-1;
  if(res==1){ gSolver.sat++;
    if(out){ auto m=std::make_shared<Model>(); m->v.assign(gSyms.size(),0); Z3_model zm=Z3_solver_get_model(C,S); Z3_model_inc_ref(C,zm);
      for(size_t i=0;i<gSyms.size();i++){ if(i>=symAst.size()||!symAst[i]) continue; Z3_ast v; if(Z3_model_eval(C,zm,symAst[i],true,&v)){ if(gSyms[i].w==1) m->v[i]=Z3_get_bool_value(C,v)==Z3_L_TRUE; else { uint64_t u=0; if(Z3_get_numeral_uint64(C,v,&u)) m->v[i]=u; } } }
      Z3_model_dec_ref(C,zm); *out=m; } }
  else if(res==0) gSolver.unsat++; else gSolver.unknown++;
  gSolver.secs+=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
  return res;
}

// Independent small query on a solver of its own (no accumulated definitions).
int solveSmall(const std::vector<E>&conj, ModelP *out, const Model*base){
  if(abstractUnsat(conj)) return 0;
  auto t0=std::chrono::steady_clock::now(); gSolver.queries++;
  static Z3_solver Q=nullptr; static int used=0; if(Q&&++used>200){ Z3_solver_dec_ref(C,Q); Q=nullptr; used=0; }
  if(!Q){ Q=Z3_mk_solver_for_logic(C,Z3_mk_string_symbol(C,"QF_FD")); Z3_solver_inc_ref(C,Q); Z3_params p=Z3_mk_params(C); Z3_params_inc_ref(C,p); Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"timeout"),gTmo); Z3_solver_set_params(C,Q,p); Z3_params_dec_ref(C,p); }
  Z3_solver_push(C,Q); for(E e:conj) Z3_solver_assert(C,Q,tr(e));
  Z3_lbool r=Z3_solver_check(C,Q); int res=r==Z3_L_TRUE?1:r==Z3_L_FALSE?0:-1;
  if(res==1){ gSolver.sat++; std::shared_ptr<Model> m=base?std::make_shared<Model>(*base):std::make_shared<Model>(); if(m->v.size()<gSyms.size()) m->v.resize(gSyms.size(),0);
    std::vector<E> stk(conj); std::vector<E> done; std::map<E,bool> seen; Z3_model zm=Z3_solver_get_model(C,Q); Z3_model_inc_ref(C,zm);
    while(!stk.empty()){ E e=stk.back(); stk.pop_back(); if(seen[e]) continue; seen[e]=true; if(e->op==OSym){ Z3_ast v; if(Z3_model_eval(C,zm,tr(e),true,&v)){ if(e->w==1) m->v[e->val]=Z3_get_bool_value(C,v)==Z3_L_TRUE; else { uint64_t u=0; if(Z3_get_numeral_uint64(C,v,&u)) m->v[e->val]=u; } } continue; } if(e->op==OConst) continue; if(e->a) stk.push_back(e->a); if(e->b) stk.push_back(e->b); if(e->c) stk.push_back(e->c); }
    Z3_model_dec_ref(C,zm); m->touch(); if(out) *out=m; }
  else if(res==0) gSolver.unsat++; else gSolver.unknown++;
  Z3_solver_pop(C,Q,1); gSolver.secs+=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); return res;
}
