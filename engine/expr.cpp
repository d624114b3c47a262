// Hash-consed bit-vector / floating-point expressions with light simplification.
#include "nsym.h"
#include <cmath>
#include <unordered_set>

std::vector<VarInfo> gVars; std::vector<u64> gModel; u64 gEpoch = 1;

namespace {
struct Key { bool operator()(EP a, EP b) const {
	return a->op==b->op && a->w==b->w && a->aux==b->aux && a->c==b->c && a->k[0]==b->k[0] && a->k[1]==b->k[1] && a->k[2]==b->k[2]; } };
struct Hash { size_t operator()(EP a) const {
	u64 h = a->op*0x9E3779B97F4A7C15ull ^ a->w*31 ^ ((u64)a->aux<<17) ^ a->c*0xC2B2AE3D27D4EB4Full;
	for(int i=0;i<3;i++) h = (h ^ (u64)(uintptr_t)a->k[i]) * 0xff51afd7ed558ccdull;
	return h ^ (h>>29); } };
std::unordered_set<EP, Hash, Key> table;
u32 nextId = 1;
EP intern(u8 op, u8 w, u16 aux, u64 c, EP a=nullptr, EP b=nullptr, EP d=nullptr){
	Expr t{}; t.op=op; t.w=w; t.aux=aux; t.c=c; t.k[0]=a; t.k[1]=b; t.k[2]=d;
	auto it = table.find(&t); if(it != table.end()) return *it;
	Expr *e = new Expr(t); e->id = nextId++;
	e->vars = 0; e->hasfp = (op >= E_FADD); e->hasmul = op==E_MUL||op==E_UDIV||op==E_SDIV||op==E_UREM||op==E_SREM;
	if(op == E_VAR) e->vars = 1ull << (c & 63);
	for(int i=0;i<3;i++) if(e->k[i]){ e->vars |= e->k[i]->vars; e->hasfp |= e->k[i]->hasfp; e->hasmul |= e->k[i]->hasmul; }
	table.insert(e); return e;
}
inline bool isC(EP e){ return e->op == E_CONST; }
inline bool isC(EP e, u64 v){ return e->op == E_CONST && e->c == (v & maskw(e->w)); }
}
EP eConst(u64 v, unsigned w){ return intern(E_CONST, w, 0, v & maskw(w)); }
EP eVar(u32 idx, unsigned w){ return intern(E_VAR, w, 0, idx); }

u64 knownZero(EP e){
	u64 m = maskw(e->w);
	switch(e->op){
	case E_CONST: return ~e->c & m;
	case E_ZEXT: return (knownZero(e->k[0]) | ~maskw(e->k[0]->w)) & m;
	case E_CONCAT: return ((knownZero(e->k[0]) << e->k[1]->w) | knownZero(e->k[1])) & m;
	case E_AND: return (knownZero(e->k[0]) | knownZero(e->k[1])) & m;
	case E_OR: case E_XOR: return knownZero(e->k[0]) & knownZero(e->k[1]) & m;
	case E_ITE: return knownZero(e->k[1]) & knownZero(e->k[2]) & m;
	case E_EXTRACT: return (knownZero(e->k[0]) >> e->c) & m;
	default: return 0;
	}
}
EP eNot(EP a){
	if(a->w == 1){
		if(a->op == E_XOR && isC(a->k[1],1)) return a->k[0];
	}
	return eBin(E_XOR, a, eConst(~0ull, a->w));
}
static bool isCmp(u8 op){ return (op >= E_EQ && op <= E_SLE) || (op >= E_FEQ && op <= E_FUNO); }

static double asD(u64 v){ double d; memcpy(&d,&v,8); return d; }
static float asF(u64 v){ u32 x=(u32)v; float d; memcpy(&d,&x,4); return d; }
static u64 frD(double d){ u64 v; memcpy(&v,&d,8); return v; }
static u64 frF(float d){ u32 v; memcpy(&v,&d,4); return v; }

u64 foldBin(EOp op, u64 a, u64 b, unsigned w){
	u64 m = maskw(w); a &= m; b &= m; i64 sa = sextw(a,w), sb = sextw(b,w);
	switch(op){
	case E_ADD: return (a+b)&m; case E_SUB: return (a-b)&m; case E_MUL: return (a*b)&m;
	case E_UDIV: return b ? (a/b)&m : m;
	case E_UREM: return b ? (a%b)&m : a;
	case E_SDIV: if(!b) return sa<0 ? 1 : m; if(sb==-1) return (0-a)&m; return (u64)(sa/sb)&m;
	case E_SREM: if(!b) return a; if(sb==-1) return 0; return (u64)(sa%sb)&m;
	case E_AND: return a&b; case E_OR: return a|b; case E_XOR: return a^b;
	case E_SHL: return b>=w ? 0 : (a<<b)&m;
	case E_LSHR: return b>=w ? 0 : (a>>b);
	case E_ASHR: return b>=w ? (sa<0?m:0) : (u64)(sa>>b)&m;
	case E_EQ: return a==b; case E_ULT: return a<b; case E_ULE: return a<=b; case E_SLT: return sa<sb; case E_SLE: return sa<=sb;
	case E_FADD: return w==64 ? frD(asD(a)+asD(b)) : frF(asF(a)+asF(b));
	case E_FSUB: return w==64 ? frD(asD(a)-asD(b)) : frF(asF(a)-asF(b));
	case E_FMUL: return w==64 ? frD(asD(a)*asD(b)) : frF(asF(a)*asF(b));
	case E_FDIV: return w==64 ? frD(asD(a)/asD(b)) : frF(asF(a)/asF(b));
	case E_FEQ: return w==64 ? asD(a)==asD(b) : asF(a)==asF(b);
	case E_FLT: return w==64 ? asD(a)<asD(b) : asF(a)<asF(b);
	case E_FLE: return w==64 ? asD(a)<=asD(b) : asF(a)<=asF(b);
	case E_FUNO: return w==64 ? (std::isnan(asD(a))||std::isnan(asD(b))) : (std::isnan(asF(a))||std::isnan(asF(b)));
	default: fprintf(stderr,"foldBin %d\n",op); abort();
	}
}
u64 foldUn(EOp op, u64 a, unsigned wa, unsigned w, unsigned aux){
	switch(op){
	case E_ZEXT: return a & maskw(wa);
	case E_SEXT: return (u64)sextw(a,wa) & maskw(w);
	case E_FSQRT: return w==64 ? frD(sqrt(asD(a))) : frF(sqrtf(asF(a)));
	case E_FEXT: return frD((double)asF(a));
	case E_FTRUNC: return frF((float)asD(a));
	case E_SITOF: return w==64 ? frD((double)sextw(a,wa)) : frF((float)sextw(a,wa));
	case E_UITOF: return w==64 ? frD((double)(a&maskw(wa))) : frF((float)(a&maskw(wa)));
	case E_FTOSI: { double d = wa==64 ? asD(a) : asF(a);   // x86 cvttsd2si: out of range gives the "integer indefinite"
		if(w==64){ if(!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return 1ull<<63; return (u64)(i64)d; }
		if(!(d > -2147483649.0 && d < 2147483648.0)) return w==32 ? 0x80000000u : (((u64)(i64)((d >= -9223372036854775808.0 && d < 9223372036854775808.0)?(i64)d:0)) & maskw(w));
		return (u64)(i64)d & maskw(w); }
	case E_FTOUI: { double d = wa==64 ? asD(a) : asF(a); if(!(d > -1.0 && d < 18446744073709551616.0)) return maskw(w); return (u64)d & maskw(w); }
	case E_FRND: { double d = w==64 ? asD(a) : asF(a); double r = aux==0?floor(d):aux==1?ceil(d):aux==2?trunc(d):aux==3?nearbyint(d):round(d);
		return w==64 ? frD(r) : frF((float)r); }
	default: fprintf(stderr,"foldUn %d\n",op); abort();
	}
}

/* a double converted from an integer: neither NaN nor infinite */
static bool finiteFP(EP e){
	if(e->w!=64) return false;
	if(e->op==E_SITOF || e->op==E_UITOF) return true;
	if(e->op==E_ZEXT && e->k[0]->op==E_EXTRACT && e->k[0]->c==0 && e->k[0]->w==63) return finiteFP(e->k[0]->k[0]); /* its absolute value */
	return isC(e) && ((e->c>>52)&0x7ff)!=0x7ff;
}
EP eBin(EOp op, EP a, EP b){
	unsigned w = a->w;
	unsigned rw = isCmp(op) ? 1 : w;
	if(w != b->w){ fprintf(stderr,"engine: width mismatch in operation %d: %u and %u\n",op,w,b->w); abort(); }
	if(isC(a) && isC(b)) return eConst(foldBin(op,a->c,b->c,w), rw);
	bool comm = op==E_ADD||op==E_MUL||op==E_AND||op==E_OR||op==E_XOR||op==E_EQ||op==E_FADD||op==E_FMUL||op==E_FEQ||op==E_FUNO;
	if(comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a,b);
	switch(op){
	case E_ADD:
		if(isC(b,0)) return a;
		if(isC(b) && a->op==E_ADD && isC(a->k[1])) return eBin(E_ADD, a->k[0], eConst(a->k[1]->c + b->c, w));
		if(a->op==E_ADD && isC(a->k[1]) && !isC(b)) return eBin(E_ADD, eBin(E_ADD, a->k[0], b), a->k[1]);
		if(b->op==E_ADD && isC(b->k[1])) return eBin(E_ADD, eBin(E_ADD, a, b->k[0]), b->k[1]);
		if(b->op==E_SUB && b->k[1]==a) return b->k[0];
		if(a->op==E_SUB && a->k[1]==b) return a->k[0];
		break;
	case E_SUB:
		if(a==b) return eConst(0,w);
		if(isC(b)) return eBin(E_ADD, a, eConst(0-b->c, w));
		if(a->op==E_ADD && a->k[1]==b) return a->k[0];
		if(a->op==E_ADD && a->k[0]==b) return a->k[1];
		if(b->op==E_ADD && b->k[0]==a) return eBin(E_SUB, eConst(0,w), b->k[1]);
		if(a->op==E_ADD && isC(a->k[1])) return eBin(E_ADD, eBin(E_SUB,a->k[0],b), a->k[1]);
		if(b->op==E_ADD && isC(b->k[1])) return eBin(E_ADD, eBin(E_SUB,a,b->k[0]), eConst(0-b->k[1]->c,w));
		break;
	case E_MUL:
		if(isC(b,0)) return b; if(isC(b,1)) return a;
		if(isC(b) && (b->c & (b->c-1)) == 0) return eBin(E_SHL, a, eConst(__builtin_ctzll(b->c), w));
		break;
	case E_UDIV: if(isC(b,1)) return a; if(isC(b) && b->c && (b->c&(b->c-1))==0) return eBin(E_LSHR,a,eConst(__builtin_ctzll(b->c),w)); break;
	case E_UREM: if(isC(b) && b->c && (b->c&(b->c-1))==0) return eBin(E_AND,a,eConst(b->c-1,w)); break;
	case E_SDIV: if(isC(b,1)) return a; break;
	case E_AND:
		if(a==b) return a; if(isC(b,0)) return b; if(isC(b,~0ull)) return a;
		if(isC(b)){
			if((~knownZero(a) & maskw(w) & ~b->c) == 0) return a;   // mask keeps all possibly-set bits
			if((b->c & (b->c+1)) == 0){ unsigned n = 64-__builtin_clzll(b->c); return eZext(eExtract(a,0,n), w); }
			if(a->op==E_AND && isC(a->k[1])) return eBin(E_AND,a->k[0],eConst(a->k[1]->c & b->c, w));
			if(a->op==E_ITE && isC(a->k[1]) && isC(a->k[2])) return eIte(a->k[0], eBin(E_AND,a->k[1],b), eBin(E_AND,a->k[2],b));
		}
		if(w==1){ if(a==eNot(b)) return eConst(0,1); }
		break;
	case E_OR:
		if(a==b) return a; if(isC(b,0)) return a; if(isC(b,~0ull)) return b;
		if(w==1){ if(a==eNot(b)) return eConst(1,1); }
		if(w > 1){
			u64 za = knownZero(a), zb = knownZero(b), m = maskw(w);
			if(((za|zb)&m) == m){
				for(int s=0;s<2;s++){
					EP hi = s ? b : a, lo = s ? a : b; u64 zh = s ? zb : za, zl = s ? za : zb;
					u64 nl = ~zl & m; if(!nl) continue;
					unsigned k = 64-__builtin_clzll(nl);
					if(k < w && (zh & maskw(k)) == maskw(k)) return eConcat(eExtract(hi,k,w-k), eExtract(lo,0,k));
				}
			}
		}
		break;
	case E_XOR:
		if(a==b) return eConst(0,w); if(isC(b,0)) return a;
		if(isC(b) && a->op==E_XOR && isC(a->k[1])) return eBin(E_XOR,a->k[0],eConst(a->k[1]->c^b->c,w));
		if(w==1 && isC(b,1) && a->op==E_SLT) return eBin(E_SLE,a->k[1],a->k[0]);
		if(w==1 && isC(b,1) && a->op==E_SLE) return eBin(E_SLT,a->k[1],a->k[0]);
		if(w==1 && isC(b,1) && a->op==E_ULT) return eBin(E_ULE,a->k[1],a->k[0]);
		if(w==1 && isC(b,1) && a->op==E_ULE) return eBin(E_ULT,a->k[1],a->k[0]);
		break;
	case E_SHL:
		if(isC(b)){ if(b->c==0) return a; if(b->c>=w) return eConst(0,w); return eConcat(eExtract(a,0,w-b->c), eConst(0,b->c)); }
		break;
	case E_LSHR:
		if(isC(b)){ if(b->c==0) return a; if(b->c>=w) return eConst(0,w); return eZext(eExtract(a,b->c,w-b->c), w); }
		break;
	case E_ASHR:
		if(isC(b)){ if(b->c==0) return a; u64 s = b->c>=w ? w-1 : b->c; return eSext(eExtract(a,s,w-s), w); }
		break;
	case E_EQ:
		if(a==b) return eConst(1,1);
		if(isC(b)){
			u64 c = b->c;
			if(w==1) return c ? a : eNot(a);
			if(a->op==E_ZEXT){ if(c & ~maskw(a->k[0]->w)) return eConst(0,1); return eBin(E_EQ,a->k[0],eConst(c,a->k[0]->w)); }
			if(a->op==E_SEXT){ unsigned n=a->k[0]->w; if(((u64)sextw(c,n)&maskw(w))!=c) return eConst(0,1); return eBin(E_EQ,a->k[0],eConst(c,n)); }
			if(a->op==E_ADD && isC(a->k[1])) return eBin(E_EQ,a->k[0],eConst(c-a->k[1]->c,w));
			if(a->op==E_SUB && isC(a->k[0])) return eBin(E_EQ,a->k[1],eConst(a->k[0]->c-c,w));
			if(a->op==E_SUB && c==0) return eBin(E_EQ,a->k[0],a->k[1]);
			if(a->op==E_XOR && isC(a->k[1])) return eBin(E_EQ,a->k[0],eConst(c^a->k[1]->c,w));
			if(a->op==E_CONCAT){ unsigned lw=a->k[1]->w; return eBin(E_AND, eBin(E_EQ,a->k[0],eConst(c>>lw,a->k[0]->w)), eBin(E_EQ,a->k[1],eConst(c,lw))); }
			if(a->op==E_ITE && isC(a->k[1]) && isC(a->k[2])){
				bool t = a->k[1]->c==c, f = a->k[2]->c==c;
				return t ? (f ? eConst(1,1) : a->k[0]) : (f ? eNot(a->k[0]) : eConst(0,1)); }
			if(a->op==E_ITE && (isC(a->k[1])||isC(a->k[2]))) return eIte(a->k[0], eBin(E_EQ,a->k[1],b), eBin(E_EQ,a->k[2],b));
			if(knownZero(a) & c) return eConst(0,1);
		} else {
			if(a->op==E_ZEXT && b->op==E_ZEXT && a->k[0]->w==b->k[0]->w) return eBin(E_EQ,a->k[0],b->k[0]);
			if(a->op==E_SEXT && b->op==E_SEXT && a->k[0]->w==b->k[0]->w) return eBin(E_EQ,a->k[0],b->k[0]);
		}
		break;
	case E_FUNO: if(finiteFP(a) && finiteFP(b)) return eConst(0,1); break;
	case E_FEQ: if(w==64 && isC(b,0x7ff0000000000000ull) && finiteFP(a)) return eConst(0,1); if(a==b && finiteFP(a)) return eConst(1,1); break;
	case E_ULT: case E_ULE:
		if(a==b) return eConst(op==E_ULE,1);
		if(w==1) { if(op==E_ULT) return eBin(E_AND,eNot(a),b); return eBin(E_OR,eNot(a),b); }
		if(op==E_ULT && isC(b,0)) return eConst(0,1);
		if(op==E_ULT && isC(b,1)) return eBin(E_EQ,a,eConst(0,w));
		if(op==E_ULE && isC(a,0)) return eConst(1,1);
		if(op==E_ULE && isC(b,0)) return eBin(E_EQ,a,b);
		if(op==E_ULE && isC(b,~0ull)) return eConst(1,1);
		if(a->op==E_ZEXT && b->op==E_ZEXT && a->k[0]->w==b->k[0]->w) return eBin(op,a->k[0],b->k[0]);
		if(isC(b) && a->op==E_ZEXT){ unsigned n=a->k[0]->w; if(b->c > maskw(n)) return eConst(1,1); return eBin(op,a->k[0],eConst(b->c,n)); }
		if(isC(a) && b->op==E_ZEXT){ unsigned n=b->k[0]->w; if(a->c > maskw(n)) return eConst(0,1); return eBin(op,eConst(a->c,n),b->k[0]); }
		if(a->op==E_ITE && isC(b) && isC(a->k[1]) && isC(a->k[2])) return eIte(a->k[0], eBin(op,a->k[1],b), eBin(op,a->k[2],b));
		break;
	case E_SLT: case E_SLE:
		if(a==b) return eConst(op==E_SLE,1);
		if(w > 1){
			u64 top = 1ull<<(w-1);
			bool za = knownZero(a)&top, zb = knownZero(b)&top;
			if(za && zb) return eBin(op==E_SLT?E_ULT:E_ULE,a,b);
			if(isC(a) && (a->c & top) && zb) return eConst(1,1);
			if(isC(b) && (b->c & top) && za) return eConst(0,1);
		}
		if(a->op==E_SEXT && b->op==E_SEXT && a->k[0]->w==b->k[0]->w) return eBin(op,a->k[0],b->k[0]);
		if(a->op==E_SEXT && isC(b)){ unsigned n=a->k[0]->w; if(((u64)sextw(b->c,n)&maskw(w))==b->c) return eBin(op,a->k[0],eConst(b->c,n)); }
		if(b->op==E_SEXT && isC(a)){ unsigned n=b->k[0]->w; if(((u64)sextw(a->c,n)&maskw(w))==a->c) return eBin(op,eConst(a->c,n),b->k[0]); }
		if(a->op==E_ITE && isC(b) && isC(a->k[1]) && isC(a->k[2])) return eIte(a->k[0], eBin(op,a->k[1],b), eBin(op,a->k[2],b));
		if(b->op==E_ITE && isC(a) && isC(b->k[1]) && isC(b->k[2])) return eIte(b->k[0], eBin(op,a,b->k[1]), eBin(op,a,b->k[2]));
		break;
	default: break;
	}
	return intern(op, rw, 0, 0, a, b);
}
EP eIte(EP c, EP a, EP b){
	if(c->w != 1 || a->w != b->w){ fprintf(stderr,"engine: width mismatch in a choice: %u ? %u : %u\n",c->w,a->w,b->w); abort(); }
	if(isC(c)) return c->c ? a : b;
	if(a==b) return a;
	if(c->op==E_XOR && isC(c->k[1],1)) return eIte(c->k[0], b, a);
	if(a->w==1){
		if(isC(a) && isC(b)) return a->c ? c : eNot(c);
		if(isC(a)) return a->c ? eBin(E_OR,c,b) : eBin(E_AND,eNot(c),b);
		if(isC(b)) return b->c ? eBin(E_OR,eNot(c),a) : eBin(E_AND,c,a);
	}
	return intern(E_ITE, a->w, 0, 0, c, a, b);
}
EP eConcat(EP hi, EP lo){
	unsigned w = hi->w + lo->w;
	if(w > 64){ fprintf(stderr,"concat too wide\n"); abort(); }
	if(isC(hi) && isC(lo)) return eConst((hi->c << lo->w) | lo->c, w);
	if(isC(hi,0)) return eZext(lo, w);
	if(hi->op==E_EXTRACT && lo->op==E_EXTRACT && hi->k[0]==lo->k[0] && hi->c == lo->c + lo->w) return eExtract(hi->k[0], lo->c, w);
	if(hi->op==E_ZEXT) return eZext(eConcat(hi->k[0], lo), w);
	if(lo->op==E_CONCAT) return eConcat(eConcat(hi, lo->k[0]), lo->k[1]);
	if(hi->op==E_CONCAT){
		EP x = hi->k[1];
		if(isC(x) && isC(lo)) return eConcat(hi->k[0], eConst((x->c << lo->w)|lo->c, x->w+lo->w));
		if(x->op==E_EXTRACT && lo->op==E_EXTRACT && x->k[0]==lo->k[0] && x->c==lo->c+lo->w)
			return eConcat(hi->k[0], eExtract(lo->k[0], lo->c, x->w+lo->w));
	}
	return intern(E_CONCAT, w, 0, 0, hi, lo);
}
EP eExtract(EP a, unsigned lo, unsigned w){
	if(lo==0 && w==a->w) return a;
	if(lo+w > a->w){ fprintf(stderr,"bad extract\n"); abort(); }
	switch(a->op){
	case E_CONST: return eConst(a->c >> lo, w);
	case E_EXTRACT: return eExtract(a->k[0], a->c+lo, w);
	case E_ZEXT: { unsigned n=a->k[0]->w; if(lo>=n) return eConst(0,w); if(lo+w<=n) return eExtract(a->k[0],lo,w); return eZext(eExtract(a->k[0],lo,n-lo), w); }
	case E_SEXT: { unsigned n=a->k[0]->w; if(lo+w<=n) return eExtract(a->k[0],lo,w); if(lo<n) return eSext(eExtract(a->k[0],lo,n-lo), w); return eSext(eExtract(a->k[0],n-1,1), w); }
	case E_CONCAT: { unsigned n=a->k[1]->w; if(lo+w<=n) return eExtract(a->k[1],lo,w); if(lo>=n) return eExtract(a->k[0],lo-n,w);
		return eConcat(eExtract(a->k[0],0,lo+w-n), eExtract(a->k[1],lo,n-lo)); }
	case E_AND: case E_OR: case E_XOR: return eBin((EOp)a->op, eExtract(a->k[0],lo,w), eExtract(a->k[1],lo,w));
	case E_ADD: case E_SUB: case E_MUL: if(lo==0) return eBin((EOp)a->op, eExtract(a->k[0],0,w), eExtract(a->k[1],0,w)); break;
	case E_ITE: if(isC(a->k[1]) || isC(a->k[2])) return eIte(a->k[0], eExtract(a->k[1],lo,w), eExtract(a->k[2],lo,w)); break;
	default: break;
	}
	return intern(E_EXTRACT, w, 0, lo, a);
}
EP eZext(EP a, unsigned w){
	if(w==a->w) return a;
	if(isC(a)) return eConst(a->c,w);
	if(a->op==E_ZEXT) return eZext(a->k[0],w);
	return intern(E_ZEXT,w,0,0,a);
}
EP eSext(EP a, unsigned w){
	if(w==a->w) return a;
	if(isC(a)) return eConst((u64)sextw(a->c,a->w),w);
	if(a->op==E_ZEXT) return eZext(a->k[0],w);
	if(a->op==E_SEXT) return eSext(a->k[0],w);
	if(knownZero(a) >> (a->w-1) & 1) return eZext(a,w);
	return intern(E_SEXT,w,0,0,a);
}
EP eUn(EOp op, EP a, unsigned w, unsigned aux){
	if(isC(a)) return eConst(foldUn(op,a->c,a->w,w,aux), w);
	return intern(op,w,aux,0,a);
}
u64 evalE(EP e){
	if(e->op==E_CONST) return e->c;
	if(e->op==E_VAR) return gModel[e->c] & maskw(e->w);
	if(e->evEpoch == gEpoch) return e->ev;
	u64 r;
	switch(e->op){
	case E_ITE: r = evalE(e->k[0]) ? evalE(e->k[1]) : evalE(e->k[2]); break;
	case E_CONCAT: r = (evalE(e->k[0]) << e->k[1]->w) | evalE(e->k[1]); break;
	case E_EXTRACT: r = (evalE(e->k[0]) >> e->c) & maskw(e->w); break;
	default:
		if(e->k[1]) r = foldBin((EOp)e->op, evalE(e->k[0]), evalE(e->k[1]), e->k[0]->w);
		else r = foldUn((EOp)e->op, evalE(e->k[0]), e->k[0]->w, e->w, e->aux);
	}
	e->ev = r; e->evEpoch = gEpoch; return r;
}
std::string eStr(EP e, int d){
	static const char *n[]={"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","fsqrt","feq","flt","fle","funo","ftosi","ftoui","sitof","uitof","fext","ftrunc","frnd"};
	char b[64];
	if(e->op==E_CONST){ snprintf(b,64,"%llu:%u",(unsigned long long)e->c,e->w); return b; }
	if(e->op==E_VAR) return gVars[e->c].name;
	if(d<=0) return "..";
	std::string s = std::string("(")+n[e->op];
	if(e->op==E_EXTRACT){ snprintf(b,64,"[%u+%u]",(unsigned)e->c,e->w); s+=b; }
	for(int i=0;i<3&&e->k[i];i++) s += " "+eStr(e->k[i],d-1);
	return s+")";
}
