// Z3 back end: translation of expressions and satisfiability queries over slices of the path condition.
#include "nsym.h"
#include "shared.h"
#include <z3.h>
#include <time.h>
#include <algorithm>

std::vector<EP> gPC;
static Z3_context ctx;
static Z3_sort fs32, fs64; static Z3_ast rne, rtz, rtp, rtn, rna;
static std::vector<Z3_ast> varAst;

static Z3_ast keep(Z3_ast a){ Z3_inc_ref(ctx,a); return a; }
static void onErr(Z3_context c, Z3_error_code e){ fprintf(stderr,"z3 error: %s\n", Z3_get_error_msg(c,e)); gShared->engineErrors++; _exit(9); }

void solverInit(){
	Z3_config cfg = Z3_mk_config();
	Z3_set_param_value(cfg,"model","true");
	ctx = Z3_mk_context_rc(cfg);
	Z3_set_error_handler(ctx,onErr);
	fs32 = Z3_mk_fpa_sort_32(ctx); Z3_inc_ref(ctx,Z3_sort_to_ast(ctx,fs32));
	fs64 = Z3_mk_fpa_sort_64(ctx); Z3_inc_ref(ctx,Z3_sort_to_ast(ctx,fs64));
	rne = keep(Z3_mk_fpa_rne(ctx)); rtz = keep(Z3_mk_fpa_rtz(ctx)); rtp = keep(Z3_mk_fpa_rtp(ctx)); rtn = keep(Z3_mk_fpa_rtn(ctx)); rna = keep(Z3_mk_fpa_rna(ctx));
}
static Z3_sort bvSort[65];
static Z3_sort bvs(unsigned w){ if(!bvSort[w]){ bvSort[w]=Z3_mk_bv_sort(ctx,w); Z3_inc_ref(ctx,Z3_sort_to_ast(ctx,bvSort[w])); } return bvSort[w]; }
// every intermediate term is kept: with reference counting Z3 only protects the most recent result
static Z3_ast num(u64 v, unsigned w){ return keep(Z3_mk_unsigned_int64(ctx,v,bvs(w))); }
static Z3_ast toBV(EP e);
static Z3_ast toBool(EP e);
static Z3_ast fpOf(EP e){ // floating-point term whose bits are e (avoids the ieee_bv round trip on nested operations)
	if(e->z3b && e->w != 1) return (Z3_ast)e->z3b;
	Z3_ast r;
	switch(e->op){
	case E_FADD: r = Z3_mk_fpa_add(ctx,rne,fpOf(e->k[0]),fpOf(e->k[1])); break;
	case E_FSUB: r = Z3_mk_fpa_sub(ctx,rne,fpOf(e->k[0]),fpOf(e->k[1])); break;
	case E_FMUL: r = Z3_mk_fpa_mul(ctx,rne,fpOf(e->k[0]),fpOf(e->k[1])); break;
	case E_FDIV: r = Z3_mk_fpa_div(ctx,rne,fpOf(e->k[0]),fpOf(e->k[1])); break;
	case E_FSQRT: r = Z3_mk_fpa_sqrt(ctx,rne,fpOf(e->k[0])); break;
	case E_FEXT: case E_FTRUNC: r = Z3_mk_fpa_to_fp_float(ctx,rne,fpOf(e->k[0]),e->w==64?fs64:fs32); break;
	case E_SITOF: r = Z3_mk_fpa_to_fp_signed(ctx,rne,toBV(e->k[0]),e->w==64?fs64:fs32); break;
	case E_UITOF: r = Z3_mk_fpa_to_fp_unsigned(ctx,rne,toBV(e->k[0]),e->w==64?fs64:fs32); break;
	case E_FRND: r = Z3_mk_fpa_round_to_integral(ctx, e->aux==0?rtn:e->aux==1?rtp:e->aux==2?rtz:e->aux==3?rne:rna, fpOf(e->k[0])); break;
	case E_ITE: if(e->hasfp){ r = Z3_mk_ite(ctx,toBool(e->k[0]),fpOf(e->k[1]),fpOf(e->k[2])); break; } // fallthrough
	default: r = Z3_mk_fpa_to_fp_bv(ctx, toBV(e), e->w==64?fs64:fs32);
	}
	keep(r); e->z3b = r; return r;
}
static Z3_ast toBool(EP e){
	if(e->z3b) return (Z3_ast)e->z3b;
	Z3_ast r;
	switch(e->op){
	case E_CONST: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
	case E_AND: { Z3_ast a[2]={toBool(e->k[0]),toBool(e->k[1])}; r = Z3_mk_and(ctx,2,a); break; }
	case E_OR: { Z3_ast a[2]={toBool(e->k[0]),toBool(e->k[1])}; r = Z3_mk_or(ctx,2,a); break; }
	case E_XOR: r = (e->k[1]->op==E_CONST) ? (e->k[1]->c ? Z3_mk_not(ctx,toBool(e->k[0])) : toBool(e->k[0])) : Z3_mk_xor(ctx,toBool(e->k[0]),toBool(e->k[1])); break;
	case E_ITE: r = Z3_mk_ite(ctx,toBool(e->k[0]),toBool(e->k[1]),toBool(e->k[2])); break;
	case E_EQ: r = e->k[0]->w==1 ? Z3_mk_iff(ctx,toBool(e->k[0]),toBool(e->k[1])) : Z3_mk_eq(ctx,toBV(e->k[0]),toBV(e->k[1])); break;
	case E_ULT: r = Z3_mk_bvult(ctx,toBV(e->k[0]),toBV(e->k[1])); break;
	case E_ULE: r = Z3_mk_bvule(ctx,toBV(e->k[0]),toBV(e->k[1])); break;
	case E_SLT: r = Z3_mk_bvslt(ctx,toBV(e->k[0]),toBV(e->k[1])); break;
	case E_SLE: r = Z3_mk_bvsle(ctx,toBV(e->k[0]),toBV(e->k[1])); break;
	case E_FEQ: r = Z3_mk_fpa_eq(ctx,fpOf(e->k[0]),fpOf(e->k[1])); break;
	case E_FLT: r = Z3_mk_fpa_lt(ctx,fpOf(e->k[0]),fpOf(e->k[1])); break;
	case E_FLE: r = Z3_mk_fpa_leq(ctx,fpOf(e->k[0]),fpOf(e->k[1])); break;
	case E_FUNO: { Z3_ast a[2]={keep(Z3_mk_fpa_is_nan(ctx,fpOf(e->k[0]))),keep(Z3_mk_fpa_is_nan(ctx,fpOf(e->k[1])))}; r = Z3_mk_or(ctx,2,a); break; }
	default: r = Z3_mk_eq(ctx,toBV(e),num(1,1));
	}
	keep(r); e->z3b = r; return r;
}
static Z3_ast toBV(EP e){
	if(e->z3) return (Z3_ast)e->z3;
	Z3_ast r;
	auto A=[&](int i){ return toBV(e->k[i]); };
	switch(e->op){
	case E_CONST: r = num(e->c,e->w); break;
	case E_VAR: {
		if(varAst.size() <= e->c) varAst.resize(e->c+1,nullptr);
		if(!varAst[e->c]){ Z3_symbol s = Z3_mk_int_symbol(ctx,(int)e->c); varAst[e->c] = keep(Z3_mk_const(ctx,s,bvs(e->w))); }
		r = varAst[e->c]; break; }
	case E_ADD: r = Z3_mk_bvadd(ctx,A(0),A(1)); break;
	case E_SUB: r = Z3_mk_bvsub(ctx,A(0),A(1)); break;
	case E_MUL: r = Z3_mk_bvmul(ctx,A(0),A(1)); break;
	case E_UDIV: r = Z3_mk_bvudiv(ctx,A(0),A(1)); break;
	case E_SDIV: r = Z3_mk_bvsdiv(ctx,A(0),A(1)); break;
	case E_UREM: r = Z3_mk_bvurem(ctx,A(0),A(1)); break;
	case E_SREM: r = Z3_mk_bvsrem(ctx,A(0),A(1)); break;
	case E_AND: r = Z3_mk_bvand(ctx,A(0),A(1)); break;
	case E_OR: r = Z3_mk_bvor(ctx,A(0),A(1)); break;
	case E_XOR: r = (e->k[1]->op==E_CONST && e->k[1]->c==maskw(e->w)) ? Z3_mk_bvnot(ctx,A(0)) : Z3_mk_bvxor(ctx,A(0),A(1)); break;
	case E_SHL: r = Z3_mk_bvshl(ctx,A(0),A(1)); break;
	case E_LSHR: r = Z3_mk_bvlshr(ctx,A(0),A(1)); break;
	case E_ASHR: r = Z3_mk_bvashr(ctx,A(0),A(1)); break;
	case E_ITE: r = Z3_mk_ite(ctx,toBool(e->k[0]),A(1),A(2)); break;
	case E_CONCAT: r = Z3_mk_concat(ctx,A(0),A(1)); break;
	case E_EXTRACT: r = Z3_mk_extract(ctx,e->c+e->w-1,e->c,A(0)); break;
	case E_ZEXT: r = e->k[0]->w==1 ? Z3_mk_ite(ctx,toBool(e->k[0]),num(1,e->w),num(0,e->w)) : Z3_mk_zero_ext(ctx,e->w-e->k[0]->w,A(0)); break;
	case E_SEXT: r = e->k[0]->w==1 ? Z3_mk_ite(ctx,toBool(e->k[0]),num(~0ull,e->w),num(0,e->w)) : Z3_mk_sign_ext(ctx,e->w-e->k[0]->w,A(0)); break;
	case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: case E_FEQ: case E_FLT: case E_FLE: case E_FUNO:
		r = Z3_mk_ite(ctx,toBool(e),num(1,1),num(0,1)); break;
	case E_FTOSI: { // x86 cvttsd2si: out of range and NaN give the integer indefinite value (64- and 32-bit only)
		Z3_ast f = fpOf(e->k[0]); Z3_sort s = e->k[0]->w==64?fs64:fs32;
		unsigned cw = e->w>=32 ? e->w : 32;
		double lo = cw==64 ? -9223372036854775808.0 : -2147483649.0, hi = cw==64 ? 9223372036854775808.0 : 2147483648.0;
		Z3_ast flo = keep(Z3_mk_fpa_numeral_double(ctx,lo,s)), fhi = keep(Z3_mk_fpa_numeral_double(ctx,hi,s));
		Z3_ast in[2] = { keep(cw==64||e->k[0]->w==32 ? Z3_mk_fpa_geq(ctx,f,flo) : Z3_mk_fpa_gt(ctx,f,flo)), keep(Z3_mk_fpa_lt(ctx,f,fhi)) };
		r = Z3_mk_ite(ctx, keep(Z3_mk_and(ctx,2,in)), keep(Z3_mk_fpa_to_sbv(ctx,rtz,f,cw)), num(1ull<<(cw-1),cw));
		if(cw != e->w) r = Z3_mk_extract(ctx,e->w-1,0,keep(r));
		break; }
	case E_FTOUI: r = Z3_mk_fpa_to_ubv(ctx,rtz,fpOf(e->k[0]),e->w); break;
	default: { // floating-point results as bit patterns
		Z3_ast f = fpOf(e); r = Z3_mk_fpa_to_ieee_bv(ctx,f); break; }
	}
	keep(r); e->z3 = r; return r;
}

static u64 nowNs(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec*1000000000ull+t.tv_nsec; }
static std::vector<std::vector<u64>> recent;     // recently found full models
static size_t recentPos = 0;
static std::unordered_map<u64, int> unsatCache;

static void remember(const std::vector<u64> &m){
	if(recent.size() < 24) recent.push_back(m); else { recent[recentPos++ % 24] = m; }
}
unsigned gRlimit = 60000000;
SatRes solve(EP c, std::vector<u64> &model){
	if(c->op==E_CONST){ if(!c->c) return SAT_NO; model = gModel; return SAT_YES; }
	// slice
	u64 vs = c->vars; std::vector<EP> sl; std::vector<char> used(gPC.size(),0);
	for(bool ch=true; ch;){ ch=false;
		for(size_t i=0;i<gPC.size();i++) if(!used[i] && (gPC[i]->vars & vs)){ used[i]=1; ch=true; vs |= gPC[i]->vars; sl.push_back(gPC[i]); } }
	u64 h = c->id*0x9E3779B97F4A7C15ull; bool fp = c->hasfp; bool mul = c->hasmul;
	for(EP p: sl){ h += (p->id*0xD6E8FEB86659FD93ull) ^ (p->id<<7); fp |= p->hasfp; mul |= p->hasmul; }
	auto uc = unsatCache.find(h); if(uc != unsatCache.end()){ gShared->cacheHits++; return SAT_NO; }
	// try recent models: take the slice's variables from them
	{
		std::vector<u64> save = gModel;
		for(auto &m: recent){
			for(size_t i=0;i<gModel.size();i++) gModel[i] = (vs>>(i&63)&1) && i<m.size() ? m[i] : save[i];
			gEpoch++;
			bool ok = evalE(c);
			for(size_t i=0; ok && i<sl.size(); i++) ok = evalE(sl[i]);
			if(ok){ model = gModel; gModel = save; gEpoch++; gShared->cacheHits++; return SAT_YES; }
		}
		gModel = save; gEpoch++;
	}
	u64 t0 = nowNs();
	Z3_lbool r = Z3_L_UNDEF; Z3_solver s = nullptr;
	for(int att=0; att<2 && r==Z3_L_UNDEF; att++){
		if(s) Z3_solver_dec_ref(ctx,s);
		bool simple = (att==0) == !(fp||mul);
		s = simple ? Z3_mk_simple_solver(ctx) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, fp ? "QF_FPBV" : "QF_BV"));
		Z3_solver_inc_ref(ctx,s);
		Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p);
		Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"rlimit"), att==0 ? (simple ? gRlimit/10 : gRlimit) : gRlimit);
		Z3_solver_set_params(ctx,s,p); Z3_params_dec_ref(ctx,p);
		for(EP q: sl) Z3_solver_assert(ctx,s,toBool(q));
		Z3_solver_assert(ctx,s,toBool(c));
		r = Z3_solver_check(ctx,s);
	}
	SatRes res = r==Z3_L_TRUE ? SAT_YES : r==Z3_L_FALSE ? SAT_NO : SAT_UNKNOWN;
	if(res==SAT_YES){
		Z3_model m = Z3_solver_get_model(ctx,s); Z3_model_inc_ref(ctx,m);
		model = gModel;
		for(size_t i=0;i<gVars.size();i++) if((vs>>(i&63)&1) && i<varAst.size() && varAst[i]){
			Z3_ast v; if(Z3_model_eval(ctx,m,varAst[i],true,&v)){ u64 x=0; Z3_get_numeral_uint64(ctx,v,&x); model[i]=x; } }
		Z3_model_dec_ref(ctx,m);
		// guard against a mismatch between the solver's semantics and ours
		std::vector<u64> save = gModel; gModel = model; gEpoch++;
		bool ok = evalE(c); for(EP q: sl) ok = ok && evalE(q);
		gModel = save; gEpoch++;
		if(!ok){ gShared->modelMismatch++; res = SAT_UNKNOWN; }
		else remember(model);
	} else if(res==SAT_NO) unsatCache[h]=1;
	Z3_solver_dec_ref(ctx,s);
	u64 dt = nowNs()-t0;
	gShared->queries++; gShared->solverNs += dt;
	if(res==SAT_YES) gShared->qSat++; else if(res==SAT_NO) gShared->qUnsat++; else gShared->qUnknown++;
	u64 mx = gShared->maxQueryNs; while(dt > mx && !gShared->maxQueryNs.compare_exchange_weak(mx,dt)){}
	return res;
}
