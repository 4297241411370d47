// Textual LLVM IR loader (functions are parsed lazily from the mmapped file).
#pragma once
#include "expr.h"
#include <string_view>
#include <map>
#include <unordered_map>
#include <vector>
#include <string>

struct Type {
  enum K : u8 { Void, Int, Ptr, Float, Struct, Array, Vector, Other } k = Void;
  unsigned bits = 0; bool packed = false; std::vector<Type*> el; Type* elem = nullptr; u64 n = 0;
  u64 size = 0, align = 1;           // in-memory size (alloc size) and alignment
  struct Leaf { u32 off; u16 bits; u8 isptr; u8 isfloat; };
  std::vector<Leaf> leaves; std::vector<u64> eloff; std::vector<u32> elleaf;
};

struct Val { u128 c; Expr* e; };

enum Op : u8 { I_BIN, I_ICMP, I_SELECT, I_CAST, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CONDBR, I_SWITCH, I_RET, I_CALL, I_UNREACHABLE,
  I_MOVE, I_INSERT, I_SHUFFLE, I_EXTRACTEL, I_INSERTEL, I_FREEZE, I_RMW, I_CMPXCHG, I_FBIN, I_FCMP, I_FNEG, I_BITCAST, I_LANDINGPAD, I_RESUME, I_NOP };
enum Bin : u8 { B_ADD = E_ADD, B_SUB = E_SUB, B_MUL = E_MUL, B_UDIV = E_UDIV, B_UREM = E_UREM, B_SDIV = E_SDIV, B_SREM = E_SREM, B_SHL = E_SHL, B_LSHR = E_LSHR, B_ASHR = E_ASHR, B_AND = E_AND, B_OR = E_OR, B_XOR = E_XOR };
enum Pred : u8 { C_EQ, C_NE, C_ULT, C_ULE, C_UGT, C_UGE, C_SLT, C_SLE, C_SGT, C_SGE };
enum Cast : u8 { K_ZEXT, K_SEXT, K_TRUNC, K_PTRTOINT, K_INTTOPTR, K_FPEXT, K_FPTRUNC, K_UITOFP, K_SITOFP, K_FPTOUI, K_FPTOSI };

struct Func;
struct GepIdx { int32_t op; u64 scale; u16 w; };
struct CallArg { int32_t op; Type* ty; };
struct PhiMove { u32 dst; int32_t src; u32 n; };
struct Extra {
  std::vector<GepIdx> gep;
  std::vector<CallArg> args; Func* callee = nullptr; int32_t calleeOp = 0; Type* ret = nullptr; int intrin = 0;
  std::vector<u128> cases; std::vector<u32> caseTarget;   // switch: targets are indices in edges
  std::vector<int> mask;
};
struct Inst {
  u8 op, sub; u16 w, w2; u16 pad; u32 n; u32 dst; int32_t a, b, c; u32 t0, t1; u64 imm; Type* ty; Extra* x; u32 line;
};
struct Edge { u32 target; std::vector<PhiMove> moves; u32 total = 0; };
struct Func {
  std::string name; u32 index = 0; bool defined = false; size_t off = 0, end = 0; size_t commentOff = 0;
  bool parsed = false; Type* ret = nullptr; std::vector<Type*> ptypes; u32 nparamSlots = 0, nslots = 0;
  std::vector<Inst> code; std::vector<u32> blockStart; std::vector<Edge> edges; std::vector<Val> cpool; std::vector<std::string> blockNames;
  int builtin = 0; u64 addr = 0;
};
struct Global { std::string name; size_t off = 0, end = 0; bool constant = false, external = false, alias = false; u64 addr = 0; bool inited = false; Type* ty = nullptr; };

extern std::unordered_map<std::string, Func*> funcs;
extern std::unordered_map<std::string, Global*> globals;
extern std::vector<Func*> funcList;
void loadModule(const char* path);
void parseFunc(Func* f);
u64 funcAddr(Func* f);
u64 globalAddr(Global* g);
extern int (*builtinLookup)(const std::string&);
extern int (*intrinLookup)(const std::string&);
// memory services used by the loader (implemented in symx.cpp)
u64 memAlloc(u64 size, bool zero, bool isConst);
void memSetConst(u64 addr, bool isConst);
void memWriteConcrete(u64 addr, u128 v, unsigned bytes);
u64 memAllocFunc(Func* f);
