// nsym - a small symbolic executor for LLVM IR (shared declarations).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <atomic>
#include <unordered_map>
#include <map>

typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;
typedef int64_t i64; typedef int32_t i32; typedef int16_t i16; typedef int8_t i8;

static inline u64 maskw(unsigned w){ return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sextw(u64 v, unsigned w){ if(w >= 64) return (i64)v; u64 m = 1ull << (w-1); v &= maskw(w); return (i64)((v ^ m) - m); }

// ---------------------------------------------------------------- expressions
enum EOp : u8 {
	E_CONST, E_VAR,
	E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
	E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
	E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
	E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT,
	E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FSQRT,
	E_FEQ, E_FLT, E_FLE, E_FUNO,       // ordered compares, and unordered test
	E_FTOSI, E_FTOUI, E_SITOF, E_UITOF, E_FEXT, E_FTRUNC,
	E_FRND,                              // aux: 0 floor 1 ceil 2 trunc 3 nearest-even 4 nearest-away
};
struct Expr {
	u8 op, w; u16 aux; u32 id; u64 c; u64 vars;
	const Expr *k[3];
	mutable u64 ev; mutable u64 evEpoch;
	mutable void *z3;   // cached Z3_ast (bit-vector)
	mutable void *z3b;  // cached Z3_ast (boolean), for w == 1
	mutable bool hasfp, hasmul;
};
typedef const Expr *EP;

EP eConst(u64 v, unsigned w);
EP eVar(u32 idx, unsigned w);
EP eBin(EOp op, EP a, EP b);
EP eIte(EP c, EP a, EP b);
EP eConcat(EP hi, EP lo);
EP eExtract(EP a, unsigned lo, unsigned w);
EP eZext(EP a, unsigned w);
EP eSext(EP a, unsigned w);
EP eUn(EOp op, EP a, unsigned w, unsigned aux = 0);
EP eNot(EP a);
u64 knownZero(EP e);
u64 foldBin(EOp op, u64 a, u64 b, unsigned w);
u64 foldUn(EOp op, u64 a, unsigned wa, unsigned w, unsigned aux);
std::string eStr(EP e, int depth = 6);

struct VarInfo { std::string name; u8 w; };
extern std::vector<VarInfo> gVars;
extern std::vector<u64> gModel;       // current model, by variable index
extern u64 gEpoch;                    // bump when gModel changes
u64 evalE(EP e);

// ---------------------------------------------------------------- solver
enum SatRes { SAT_NO, SAT_YES, SAT_UNKNOWN };
extern std::vector<EP> gPC;           // path condition
// Is PC /\ c satisfiable?  On SAT_YES, `model` holds a full assignment.
SatRes solve(EP c, std::vector<u64> &model);
void solverInit();

// ---------------------------------------------------------------- program
struct V { u64 c; EP e; };
enum IOp : u16 {
	I_NOP, I_BIN, I_ICMP, I_FBIN, I_FCMP, I_FNEG, I_FREM,
	I_ADD, I_SUB, I_AND, I_OR, I_XOR, I_MUL, I_SHL, I_LSHR, I_ASHR,
	I_EQ, I_NE, I_ULT, I_ULE, I_UGT, I_UGE, I_SLT, I_SLE, I_SGT, I_SGE,
	I_ZEXT, I_SEXT, I_TRUNC, I_COPY,
	I_FTOSI, I_FTOUI, I_SITOF, I_UITOF, I_FEXT, I_FTRUNC,
	I_LOAD, I_STORE, I_GEP, I_GEPI, I_SELECT, I_ALLOCA,
	I_BR, I_CBR, I_SWITCH, I_INDBR, I_RET, I_CALL, I_CALLI, I_UNREACHABLE,
	I_INTRIN, I_UNSUPPORTED,
};
enum Intrin { IN_MEMCPY, IN_MEMMOVE, IN_MEMSET, IN_FABS, IN_FLOOR, IN_CEIL, IN_TRUNC, IN_RINT, IN_ROUND, IN_SQRT,
	IN_CTPOP, IN_CTLZ, IN_CTTZ, IN_BSWAP, IN_SMIN, IN_SMAX, IN_UMIN, IN_UMAX, IN_ABS, IN_FSHL, IN_FSHR,
	IN_UADDO, IN_USUBO, IN_UMULO, IN_SADDO, IN_SSUBO, IN_SMULO, IN_TRAP, IN_VASTART, IN_VAEND, IN_COPYSIGN,
	IN_USUBSAT, IN_UADDSAT, IN_OBJSIZE, IN_STACKSAVE, IN_STACKRESTORE, IN_BITREV, IN_FMULADD, IN_VACOPY, IN_FMIN, IN_FMAX, IN_SSUBSAT, IN_SADDSAT };
struct Func;
struct Ins;
struct Edge { Ins *target = nullptr; int bb = 0; std::vector<std::pair<i32,i32>> copies; };
struct Ins {
	u16 op; u8 w, w2; u32 line;
	i32 d, a, b, c;
	u64 imm; void *p;
};
struct ArgI { i32 op; u16 n; bool byval; u32 size; };
struct CallI { Func *f; i32 fp; std::vector<ArgI> args; u32 nret; u8 retw; bool vararg; u32 nfixed; };
struct CbrI { Edge t, f; };
struct SwI { std::vector<std::pair<u64,Edge>> cases; Edge def; };
struct IndI { std::vector<std::pair<u64,Edge>> targets; };
struct Func {
	std::string name; u32 id; bool defined; std::vector<Ins> code; std::vector<int> bbStart;
	std::vector<V> consts; u32 nregs; u32 nparams; std::vector<ArgI> params; // params: op = first slot
	bool vararg; int builtin; u64 addr; std::string file;
	u8 retw;
};
extern std::vector<Func*> gFuncs;
extern std::unordered_map<u64, Func*> gFuncByAddr;
extern std::unordered_map<std::string, Func*> gFuncByName;
bool loadModule(const char *path);

// ---------------------------------------------------------------- guest memory
static const u64 GBASE = 0x200000000000ull, GSIZE = 6ull << 30;
static const u64 FBASE = 0x300000000000ull, BBASE = 0x310000000000ull;
extern u8 *gValid, *gSym;
extern u64 gRoLo, gRoHi;
struct Obj { u64 base, size; u8 kind; bool live; std::string name; }; // kind: 'g' global 'h' heap 's' stack
u64 gAlloc(u64 size, u64 align, char kind, const std::string &name);
void memInit();
u64 findGlobalAddr(const std::string &name);
extern std::unordered_map<std::string, u64> gGlobalAddr;
