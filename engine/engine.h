#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <set>

struct Val;
typedef std::vector<Val> Agg;
struct Val {                     // e==nullptr: concrete c (width from type, <=64)
  E e; u64 c; const Agg* a;
  Val() : e(nullptr), c(0), a(nullptr) {}
  explicit Val(u64 v) : e(nullptr), c(v), a(nullptr) {}
  static Val ex(E x) { Val v; if (x->k == K_Const && x->w <= 64) { v.c = (u64)x->val; } else v.e = x; return v; }
  static Val ag(const Agg* g) { Val v; v.a = g; return v; }
  bool sym() const { return e != nullptr; }
};

enum ObjKind : uint8_t { O_Global, O_Stack, O_Heap, O_Opaque };
struct Obj {
  u64 base, size; ObjKind kind; bool ro; char how;   // how: 'n' new, 'a' new[], 'm' malloc
  std::vector<uint8_t> c; std::vector<E> s;           // s empty: all concrete
  std::string name;
};
typedef std::shared_ptr<Obj> ObjP;
typedef std::map<u64, ObjP> ObjMap;

struct FInfo;
struct Opnd { int reg; Val v; };            // reg<0: constant
struct DInst {
  llvm::Instruction* I; unsigned op; int dst; unsigned w; std::vector<Opnd> ops;
  // GEP
  i64 gepOff; std::vector<std::pair<Opnd, u64>> gepVar; std::vector<unsigned> gepW;
  int b0 = -1, b1 = -1;                     // successors
  FInfo* callee = nullptr; unsigned sz = 0; bool isFP = false;
};
struct DBlock { std::vector<DInst> insts; std::vector<DInst> phis; llvm::BasicBlock* bb; std::map<int, int> predIdx; };
struct State; struct Engine;
typedef Val (*Handler)(Engine&, State&, const DInst&, std::vector<Val>&);
struct FInfo {
  llvm::Function* F; std::string name, dem; bool decoded = false; Handler h = nullptr; std::string hname; unsigned haux = 0;
  std::vector<DBlock> blocks; std::map<llvm::BasicBlock*, int> bidx; std::unordered_map<llvm::Value*, int> reg; int nregs = 0; bool seen = false;
};

struct Frame {
  FInfo* f; int bb, prev; unsigned pc; std::vector<Val> r; std::vector<u64> allocas;
  const DInst* call = nullptr;   // call instruction in the *caller* frame
  u64 exc = 0, excTI = 0;
};
struct Thread { std::vector<Frame> st; int status = 0; u64 waitOn = 0; int waitTid = -1; bool yielded = false; std::vector<uint32_t> vc; std::map<u64,int> seen; };
struct SymRec { E e; std::string name; };
struct State {
  std::vector<Thread> th; int cur = 0;
  std::shared_ptr<const ObjMap> base; ObjMap mem; std::set<u64> gone;
  std::vector<E> pc; Model model; std::vector<SymRec> syms; std::vector<std::pair<std::string, Val>> obs;
  E abortOk = nullptr; bool throwOk = false; u64 ninst = 0; u64 brk; u64 depth = 0;
  std::map<u64, int> mutexOwner; std::vector<std::pair<u64,u64>> caught; int preempt = 0; std::string expectName; int spins = 0;
  std::map<u64, std::vector<uint32_t>> syncVC; std::vector<std::string> reached; u64 hint = 0;
  bool schedDone = false; u64 nev = 0; std::vector<std::pair<u64,int>> trace; // scheduling events so far, switches (event, thread)
  std::map<u64, std::pair<std::pair<int,uint32_t>, std::map<int,uint32_t>>> shadow; // addr -> last write (tid,clk), reads
  std::map<u64, std::pair<std::map<int,uint32_t>, std::map<int,uint32_t>>> shadowA; // atomic writes, atomic reads
  std::vector<Frame>& st() { return th[cur].st; }
  Frame& fr() { return th[cur].st.back(); }
};
typedef std::unique_ptr<State> StateP;

struct Viol { std::string kind, msg, loc; std::vector<std::pair<std::string, std::pair<unsigned, u128>>> in; };
struct Witness { std::string outcome; std::vector<std::pair<std::string, std::pair<unsigned, u128>>> in; std::vector<std::pair<std::string, u64>> obs; };

struct PathEnd { std::string why; };
struct Reexec {};
struct Unsupported { std::string what; };

struct Engine {
  llvm::LLVMContext lctx; std::unique_ptr<llvm::Module> M; const llvm::DataLayout* DL = nullptr;
  Solver S;
  std::unordered_map<llvm::Function*, FInfo*> finfo; std::map<u64, FInfo*> faddr; std::unordered_map<const llvm::GlobalValue*, u64> gaddr;
  std::vector<StateP> work; std::unordered_map<llvm::Constant*, Val> ccache;
  std::map<u64, int> tids;
  // options
  u64 maxInst = 4000000; double maxTime = 600, grace = 0; int maxViol = 4; int maxPreempt = 2; bool verbose = false; size_t maxWit = 6; int maxSpins = 3; bool races = true;
  // results
  std::vector<Viol> viols; std::vector<Witness> wits; std::map<std::string, u64> ends; std::set<std::string> incomplete; std::map<std::string, u64> reachCount;
  std::set<FInfo*> executed; u64 paths = 0, totInst = 0, forks = 0, asserts = 0, assertQ = 0;
  std::map<std::string, u64> violSeen; u64 gbrk = 0x10000000ull; std::map<std::string, u64> pathsOf;

  void load(const std::string& file);
  void run(const std::string& entry, const std::vector<u64>& args);
  FInfo* info(llvm::Function* F);
  void decode(FInfo* f);
  Val constVal(llvm::Constant* c);
  Opnd opnd(FInfo* f, llvm::Value* v);
  void initGlobals(State& s); void initConst(State& s, Obj& o, u64 off, llvm::Constant* c);
  void runState(StateP s); void step(State& s);
  void exec(State& s, const DInst& d);
  void pushFrame(State& s, FInfo* f, const std::vector<Val>& args, const DInst* call);
  void doReturn(State& s, Val v); void gotoBlock(State& s, int b);
  void doCall(State& s, const DInst& d);
  void finishCall(State& s, const DInst& d, Val v);
  void unwind(State& s, u64 exc, u64 ti); void throwStd(State& s, const std::string& ti);
  bool tiMatch(State& s, u64 thrown, u64 want);

  Val get(State& s, const Opnd& o) { return o.reg < 0 ? o.v : s.fr().r[o.reg]; }
  E toE(const Val& v, unsigned w) { if (v.a) throw Unsupported{"aggregate as scalar"}; return v.e ? v.e : X.cst(v.c, w); }
  // memory
  u64 alloc(State& s, u64 size, ObjKind k, const std::string& name, char how = 0, bool uninit = true, u64 align = 16);
  const Obj* find(State& s, u64 addr); Obj* findW(State& s, u64 base);
  void release(State& s, u64 base);
  Val load(State& s, Val p, unsigned w); void store(State& s, Val p, Val v, unsigned w);
  Val loadObj(State& s, const Obj& o, u64 off, unsigned w);
  E byteAt(State& s, u64 base, u64 off);
  void storeObj(State& s, Obj& o, u64 off, const Val& v, unsigned w);
  void copyMem(State& s, u64 dst, u64 src, u64 n);
  const Obj* resolve(State& s, E p, u64 n, E& off); const Obj* access(State& s, u64 a, u64 n, bool wr, const char* what);
  u64 conc(State& s, const Val& v, unsigned w, const char* what);
  std::string cstr(State& s, u64 a);
  // decisions
  int decide(State& s, E c, Model& other);
  bool branch(State& s, E c);           // forks (other side re-executes the instruction)
  void addPC(State& s, E c);
  void assertE(State& s, E c, const std::string& kind, const std::string& msg);
  void violation(State& s, Model m, const std::string& kind, const std::string& msg);
  void endPath(State& s, const std::string& why);
  std::string where(State& s);
  StateP clone(State& s);
  // threads
  int spawn(State& s, u64 fn, u64 arg); void schedPoint(State& s); bool spinning(State& s, u64 a); void progress(State& s); std::vector<E> schedSyms; bool enabled(State& s, int t); void switchFrom(State& s, bool blocked);
  void raceCheck(State& s, u64 a, u64 n, bool wr, bool at = false);
  void acquire(State& s, u64 obj), releaseS(State& s, u64 obj);
  void writeResult(const std::string& file, const std::string& entry, double t);
};
Handler findHandler(Engine& en, FInfo* f);
