#include <unistd.h>
#include "engine.h"
#include <chrono>
#include <cstdio>
#include <iostream>
#include <fstream>
#include <sstream>
#include <algorithm>
using namespace llvm;

static Expr UNINIT_;
static E UNINIT = &UNINIT_;
static auto T0 = std::chrono::steady_clock::now();
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
static const u64 GAP = 65536;

static unsigned tyW(const DataLayout* DL, Type* t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  return 0;
}

FInfo* Engine::info(Function* F) {
  auto it = finfo.find(F);
  if (it != finfo.end()) return it->second;
  FInfo* f = new FInfo(); f->F = F; f->name = F->getName().str(); f->dem = llvm::demangle(f->name);
  finfo[F] = f;
  return f;
}

// ------------------------------------------------------------------ constants
Val Engine::constVal(Constant* c) {
  auto it = ccache.find(c);
  if (it != ccache.end()) return it->second;
  Val v;
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() <= 64) v = Val(ci->getZExtValue());
    else { auto& a = ci->getValue(); u128 x = 0; for (unsigned i = 0; i < a.getNumWords() && i < 2; i++) x |= (u128)a.getRawData()[i] << (64 * i); v.e = X.cst(x, ci->getBitWidth()); }
  } else if (auto* cf = dyn_cast<ConstantFP>(c)) {
    auto a = cf->getValueAPF().bitcastToAPInt();
    if (a.getBitWidth() <= 64) v = Val(a.getZExtValue());
    else { u128 x = 0; for (unsigned i = 0; i < a.getNumWords() && i < 2; i++) x |= (u128)a.getRawData()[i] << (64 * i); v.e = X.cst(x, a.getBitWidth()); }
  } else if (isa<ConstantPointerNull>(c)) v = Val(0);
  else if (auto* f = dyn_cast<Function>(c)) { auto g = gaddr.find(f); if (g == gaddr.end()) throw Unsupported{"function address"}; v = Val(g->second); }
  else if (auto* g = dyn_cast<GlobalValue>(c)) {
    if (auto* ga = dyn_cast<GlobalAlias>(g)) return constVal(cast<Constant>(ga->getAliasee()->stripPointerCasts()));
    auto x = gaddr.find(g); if (x == gaddr.end()) throw Unsupported{"global " + g->getName().str()}; v = Val(x->second); }
  else if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    Type* t = c->getType();
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
      Agg* a = new Agg(); unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
      for (unsigned i = 0; i < n; i++) a->push_back(constVal(isa<UndefValue>(c) ? cast<UndefValue>(c)->getElementValue(i) : cast<ConstantAggregateZero>(c)->getElementValue(i)));
      v = Val::ag(a);
    } else { unsigned w = tyW(DL, t); if (w > 64) v.e = X.cst(0, w); else v = Val(0); }
  } else if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    Agg* a = new Agg(); for (unsigned i = 0; i < ca->getNumOperands(); i++) a->push_back(constVal(ca->getOperand(i))); v = Val::ag(a);
  } else if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    Agg* a = new Agg(); for (unsigned i = 0; i < cd->getNumElements(); i++) a->push_back(constVal(cd->getElementAsConstant(i))); v = Val::ag(a);
  } else if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0); auto* g = cast<GEPOperator>(ce);
        if (!g->accumulateConstantOffset(*DL, off)) throw Unsupported{"const gep"};
        v = Val(constVal(cast<Constant>(g->getPointerOperand())).c + off.getSExtValue()); break; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: v = constVal(ce->getOperand(0)); break;
      case Instruction::Sub: v = Val(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c); break;
      case Instruction::Add: v = Val(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c); break;
      case Instruction::Trunc: { Val x = constVal(ce->getOperand(0)); unsigned w = tyW(DL, ce->getType()); v = Val(x.c & (u64)maskW(w)); break; }
      default: throw Unsupported{"constant expression " + std::string(ce->getOpcodeName())};
    }
  } else throw Unsupported{"constant kind"};
  ccache[c] = v;
  return v;
}

void Engine::initConst(State& s, Obj& o, u64 off, Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* cs = dyn_cast<ConstantDataSequential>(c)) {
    StringRef raw = cs->getRawDataValues();
    memcpy(&o.c[off], raw.data(), raw.size()); return;
  }
  if (auto* st = dyn_cast<ConstantStruct>(c)) {
    auto* sl = DL->getStructLayout(st->getType());
    for (unsigned i = 0; i < st->getNumOperands(); i++) initConst(s, o, off + sl->getElementOffset(i), st->getOperand(i));
    return;
  }
  if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
    Type* et = isa<ConstantArray>(c) ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
    u64 sz = DL->getTypeAllocSize(et);
    for (unsigned i = 0; i < c->getNumOperands(); i++) initConst(s, o, off + sz * i, cast<Constant>(c->getOperand(i)));
    return;
  }
  Val v;
  try { v = constVal(c); } catch (Unsupported&) { return; }
  unsigned n = DL->getTypeStoreSize(t);
  u128 x = v.e ? v.e->val : v.c;
  for (unsigned i = 0; i < n && i < 16; i++) o.c[off + i] = (uint8_t)(x >> (8 * i));
}

void Engine::load(const std::string& file) {
  SMDiagnostic err;
  M = parseIRFile(file, err, lctx);
  if (!M) { err.print("vsym", errs()); exit(2); }
  DL = &M->getDataLayout();
  u64 fa = 0x100000;
  for (auto& F : *M) { gaddr[&F] = fa; faddr[fa] = info(&F); fa += 16; }
}

void Engine::initGlobals(State& s) {
  s.brk = 0x7000000000ull;
  for (auto& g : M->globals()) {
    u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 64;
    if (g.isDeclaration()) sz = std::max<u64>(sz, 512);
    u64 a = alloc(s, sz, g.isDeclaration() ? O_Opaque : O_Global, g.getName().str(), 0, false);
    gaddr[&g] = a;
  }
  for (auto& g : M->globals()) {
    if (g.isDeclaration() || !g.hasInitializer()) continue;
    Obj* o = findW(s, gaddr[&g]);
    o->ro = g.isConstant();
    initConst(s, *o, 0, g.getInitializer());
  }
}

// ------------------------------------------------------------------ decoding
Opnd Engine::opnd(FInfo* f, Value* v) {
  Opnd o; o.reg = -1;
  if (auto* c = dyn_cast<Constant>(v)) { o.v = constVal(c); return o; }
  auto it = f->reg.find(v);
  if (it != f->reg.end()) { o.reg = it->second; return o; }
  return o; // metadata etc.
}

void Engine::decode(FInfo* f) {
  if (f->decoded) return;
  f->decoded = true;
  Function* F = f->F;
  int n = 0;
  for (auto& a : F->args()) f->reg[&a] = n++;
  int bi = 0;
  for (auto& b : *F) { f->bidx[&b] = bi++; for (auto& i : b) if (!i.getType()->isVoidTy()) f->reg[&i] = n++; }
  f->nregs = n;
  f->blocks.resize(bi);
  for (auto& b : *F) {
    DBlock& B = f->blocks[f->bidx[&b]]; B.bb = &b;
    for (auto& i : b) {
      if (isa<DbgInfoIntrinsic>(&i)) continue;
      DInst d; d.I = &i; d.op = i.getOpcode(); d.dst = i.getType()->isVoidTy() ? -1 : f->reg[&i];
      d.w = i.getType()->isVoidTy() ? 0 : tyW(DL, i.getType());
      if (auto* p = dyn_cast<PHINode>(&i)) {
        for (unsigned k = 0; k < p->getNumIncomingValues(); k++) { d.ops.push_back(opnd(f, p->getIncomingValue(k))); d.gepW.push_back(f->bidx[p->getIncomingBlock(k)]); }
        B.phis.push_back(d); continue;
      }
      if (auto* cb = dyn_cast<CallBase>(&i)) {
        for (auto& a : cb->args()) { if (a->getType()->isMetadataTy()) { Opnd o; o.reg = -1; d.ops.push_back(o); } else d.ops.push_back(opnd(f, a)); }
        if (Function* c = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) d.callee = info(c);
        else if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand())) d.callee = info(cast<Function>(ga->getAliaseeObject()));
        else if (isa<InlineAsm>(cb->getCalledOperand())) { }
        else d.ops.push_back(opnd(f, cb->getCalledOperand()));
        if (auto* iv = dyn_cast<InvokeInst>(&i)) { d.b0 = f->bidx[iv->getNormalDest()]; d.b1 = f->bidx[iv->getUnwindDest()]; }
      } else if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
        d.ops.push_back(opnd(f, g->getPointerOperand())); d.gepOff = 0;
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
          Value* ix = it.getOperand();
          if (StructType* st = it.getStructTypeOrNull()) { d.gepOff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); }
          else {
            u64 sz = DL->getTypeAllocSize(it.getIndexedType());
            if (auto* ci = dyn_cast<ConstantInt>(ix)) d.gepOff += ci->getSExtValue() * (i64)sz;
            else { d.gepVar.push_back({opnd(f, ix), sz}); d.gepW.push_back(tyW(DL, ix->getType())); }
          }
        }
      } else if (auto* br = dyn_cast<BranchInst>(&i)) {
        if (br->isConditional()) { d.ops.push_back(opnd(f, br->getCondition())); d.b0 = f->bidx[br->getSuccessor(0)]; d.b1 = f->bidx[br->getSuccessor(1)]; }
        else d.b0 = f->bidx[br->getSuccessor(0)];
      } else if (auto* sw = dyn_cast<SwitchInst>(&i)) {
        d.ops.push_back(opnd(f, sw->getCondition())); d.b0 = f->bidx[sw->getDefaultDest()];
      } else if (auto* al = dyn_cast<AllocaInst>(&i)) {
        d.sz = DL->getTypeAllocSize(al->getAllocatedType()); d.ops.push_back(opnd(f, al->getArraySize()));
      } else {
        for (auto& o : i.operands()) d.ops.push_back(opnd(f, o.get()));
      }
      B.insts.push_back(d);
    }
  }
}

// ------------------------------------------------------------------ memory
u64 Engine::alloc(State& s, u64 size, ObjKind k, const std::string& name, char how, bool uninit, u64 align) {
  u64 a = (s.brk + GAP + 4095) & ~4095ull;
  auto o = std::make_shared<Obj>();
  o->base = a; o->size = size; o->kind = k; o->ro = false; o->how = how; o->name = name;
  o->c.assign(size, 0);
  if (uninit && size) o->s.assign(size, UNINIT);
  s.mem[a] = o; s.brk = a + size + GAP;
  return a;
}
const Obj* Engine::find(State& s, u64 addr) {
  auto it = s.mem.upper_bound(addr);
  const Obj* best = nullptr;
  if (it != s.mem.begin()) { --it; const Obj* o = it->second.get(); if (addr - o->base <= o->size) best = o; }
  if (best) return best;
  auto jt = s.base ? s.base->upper_bound(addr) : ObjMap::const_iterator();
  if (s.base && jt != s.base->begin()) { --jt; const Obj* o = jt->second.get(); if (addr - o->base <= o->size && !s.gone.count(o->base)) return o; }
  return nullptr;
}
Obj* Engine::findW(State& s, u64 base) {
  auto it = s.mem.find(base);
  if (it == s.mem.end()) {
    auto jt = s.base->find(base);
    auto c = std::make_shared<Obj>(*jt->second);
    s.mem[base] = c; return c.get();
  }
  if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
  return it->second.get();
}
void Engine::release(State& s, u64 base) { s.mem.erase(base); s.gone.insert(base); }

E Engine::byteAt(State& s, u64 base, u64 off) {
  const Obj* o = find(s, base);
  if (o->s.empty() || !o->s[off]) return X.cst(o->c[off], 8);
  if (o->s[off] == UNINIT) {
    E v = X.sym("uninit", 8, true);
    Obj* w = findW(s, o->base); w->s[off] = v; return v;
  }
  return o->s[off];
}

Val Engine::loadObj(State& s, const Obj& o, u64 off, unsigned w) {
  unsigned n = (w + 7) / 8;
  bool conc = true;
  if (!o.s.empty()) for (unsigned i = 0; i < n; i++) if (o.s[off + i]) { conc = false; break; }
  if (conc) {
    if (w <= 64) { u64 x = 0; memcpy(&x, &o.c[off], n); return Val(x & (u64)maskW(w)); }
    u128 x = 0; memcpy(&x, &o.c[off], std::min(n, 16u)); return Val::ex(X.cst(x, w));
  }
  u64 base = o.base;
  E r = nullptr;
  for (unsigned i = 0; i < n; i++) { E b = byteAt(s, base, off + i); r = r ? X.concat(b, r) : b; }
  if (r->w > w) r = X.extract(r, 0, w);
  return Val::ex(r);
}
void Engine::storeObj(State& s, Obj& o, u64 off, const Val& v, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (!v.e) {
    memcpy(&o.c[off], &v.c, std::min(n, 8u)); for (unsigned i = 8; i < n; i++) o.c[off + i] = 0;
    if (!o.s.empty()) for (unsigned i = 0; i < n; i++) o.s[off + i] = nullptr;
    return;
  }
  E e = v.e; if (e->w < n * 8) e = X.zext(e, n * 8);
  if (o.s.empty()) o.s.assign(o.size, nullptr);
  for (unsigned i = 0; i < n; i++) {
    E b = X.extract(e, 8 * i, 8);
    if (b->k == K_Const) { o.c[off + i] = (uint8_t)b->val; o.s[off + i] = nullptr; } else o.s[off + i] = b;
  }
}

const Obj* Engine::access(State& s, u64 a, u64 n, bool wr, const char* what) {
  const Obj* o = find(s, a);
  if (!o || a - o->base + n > o->size) {
    std::ostringstream m;
    if (a < 4096) m << "null pointer access (" << what << ")";
    else if (o) m << "out-of-bounds " << what << " of " << n << " bytes at offset " << (a - o->base) << " of " << (o->kind == O_Heap ? "heap block" : o->kind == O_Stack ? "stack object" : "global object") << " of size " << o->size;
    else m << "invalid or freed memory " << what << " of " << n << " bytes";
    violation(s, s.model, "memory", m.str());
    throw PathEnd{"memory-error"};
  }
  if (wr && o->ro) { violation(s, s.model, "memory", "write to read-only memory"); throw PathEnd{"memory-error"}; }
  return o;
}

static unsigned tz(E e) { // known trailing zero bits
  switch (e->k) {
    case K_Const: { if (!e->val) return e->w; unsigned n = 0; while (!((e->val >> n) & 1)) n++; return n; }
    case K_Shl: if (e->op[1]->k == K_Const) return std::min<u64>(e->w, tz(e->op[0]) + (u64)e->op[1]->val); return 0;
    case K_Add: case K_Sub: return std::min(tz(e->op[0]), tz(e->op[1]));
    case K_Mul: return std::min<unsigned>(e->w, tz(e->op[0]) + tz(e->op[1]));
    case K_Ite: return std::min(tz(e->op[1]), tz(e->op[2]));
    case K_Concat: { unsigned l = tz(e->op[1]); return l < e->op[1]->w ? l : l + tz(e->op[0]); }
    case K_ZExt: case K_SExt: { unsigned l = tz(e->op[0]); return l < e->op[0]->w ? l : e->w; }
    default: return 0;
  }
}

// Resolve a symbolic address to one object; reports and excludes out-of-bounds values.
const Obj* Engine::resolve(State& s, E p, u64 n, E& off) {
  for (;;) {
    if (p->k == K_Ite) { p = branch(s, p->op[0]) ? p->op[1] : p->op[2]; continue; }
    if (p->k == K_Add && p->op[1]->k == K_Const && p->op[0]->k == K_Ite) {
      E b = branch(s, p->op[0]->op[0]) ? p->op[0]->op[1] : p->op[0]->op[2]; p = X.add(b, p->op[1]); continue; }
    break;
  }
  if (p->k == K_Const) { const Obj* o = access(s, (u64)p->val, n, false, "access"); off = X.cst((u64)p->val - o->base, 64); return o; }
  const Obj* o = nullptr;
  std::vector<u64> cand;
  std::vector<E> stk{p};
  while (!stk.empty()) { E e = stk.back(); stk.pop_back(); if (e->k == K_Const) cand.push_back((u64)e->val); else if (e->k == K_Add) { stk.push_back(e->op[0]); stk.push_back(e->op[1]); } else if (e->k == K_Sub) stk.push_back(e->op[0]); }
  for (u64 a : cand) {
    if (a < 0x1000000) continue;
    if ((o = find(s, a))) break;
    for (i64 d : {4096, -4096, 16384, -16384, 32768, -32768}) { // before/after the object within the guard gap
      auto it = s.mem.lower_bound(d > 0 ? a : a - 32768);
      (void)d;
      if (it != s.mem.end() && it->second->base <= a + 32768 && it->second->base + it->second->size + 32768 >= a) { o = it->second.get(); break; }
      if (s.base) { auto jt = s.base->lower_bound(d > 0 ? a : a - 32768);
        if (jt != s.base->end() && !s.gone.count(jt->first) && jt->second->base <= a + 32768 && jt->second->base + jt->second->size + 32768 >= a) { auto mt = s.mem.find(jt->first); o = mt != s.mem.end() ? mt->second.get() : jt->second.get(); break; } }
    }
    if (o) break;
  }
  if (!o) {
    u64 a = (u64)X.evalWith(p, *s.model);
    o = find(s, a);
    if (!o) { access(s, a, n, false, "access"); }
    E inside = X.ule(X.sub(p, X.cst(o->base, 64)), X.cst(o->size, 64));
    if (!branch(s, inside)) throw Unsupported{"symbolic pointer with unknown object"};
  }
  off = X.sub(p, X.cst(o->base, 64));
  u64 base = o->base;
  if (o->size < n) { access(s, o->base, n, false, "access"); }
  E in = X.ule(off, X.cst(o->size - n, 64));
  std::ostringstream m; m << "out-of-bounds access of " << n << " bytes in " << (o->kind == O_Heap ? "heap block" : o->kind == O_Stack ? "stack object" : "global object") << " of size " << o->size;
  assertE(s, in, "memory", m.str());
  return find(s, base);
}

Val Engine::load(State& s, Val p, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (!p.e) {
    const Obj* o = access(s, p.c, n, false, "read");
    if (s.th.size() > 1) raceCheck(s, p.c, n, false);
    return loadObj(s, *o, p.c - o->base, w);
  }
  E off; const Obj* o = resolve(s, p.e, n, off);
  if (s.th.size() > 1) throw Unsupported{"symbolic address in threaded code"};
  if (off->k == K_Const) return loadObj(s, *o, (u64)off->val, w);
  u64 al = 1ull << std::min(tz(off), 3u); i128 lo, hi; X.range(off, lo, hi);
  u64 l = lo > 0 ? (u64)lo : 0, h = o->size - n; if (hi >= 0 && (u128)hi < h) h = (u64)hi;
  l = (l + al - 1) / al * al;
  if ((h - l) / al > 300) { u64 v = conc(s, Val::ex(off), 64, "index"); return loadObj(s, *find(s, o->base), v, w); }
  u64 base = o->base; E r = nullptr;
  for (u64 x = l; x <= h; x += al) {
    E v = toE(loadObj(s, *find(s, base), x, w), w);
    r = r ? X.ite(X.eq(off, X.cst(x, 64)), v, r) : v;
  }
  return Val::ex(r);
}
void Engine::store(State& s, Val p, Val v, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (!p.e) {
    const Obj* o = access(s, p.c, n, true, "write");
    if (s.th.size() > 1) raceCheck(s, p.c, n, true);
    Obj* ow = findW(s, o->base);
    storeObj(s, *ow, p.c - ow->base, v, w); return;
  }
  E off; const Obj* o = resolve(s, p.e, n, off);
  if (s.th.size() > 1) throw Unsupported{"symbolic address in threaded code"};
  u64 base = o->base;
  if (off->k == K_Const) { storeObj(s, *findW(s, base), (u64)off->val, v, w); return; }
  u64 al = 1ull << std::min(tz(off), 3u); i128 lo, hi; X.range(off, lo, hi);
  u64 l = lo > 0 ? (u64)lo : 0, h = o->size - n; if (hi >= 0 && (u128)hi < h) h = (u64)hi;
  l = (l + al - 1) / al * al;
  if (al < n || (h - l) / al > 300) { u64 x = conc(s, Val::ex(off), 64, "index"); storeObj(s, *findW(s, base), x, v, w); return; }
  for (u64 x = l; x <= h; x += al) {
    E old = toE(loadObj(s, *find(s, base), x, w), w);
    E nv = X.ite(X.eq(off, X.cst(x, 64)), toE(v, w), old);
    storeObj(s, *findW(s, base), x, Val::ex(nv), w);
  }
}
void Engine::copyMem(State& s, u64 dst, u64 src, u64 n) {
  if (!n) return;
  const Obj* so = access(s, src, n, false, "read"); access(s, dst, n, true, "write");
  if (s.th.size() > 1) { raceCheck(s, src, n, false); raceCheck(s, dst, n, true); }
  std::vector<uint8_t> c(so->c.begin() + (src - so->base), so->c.begin() + (src - so->base + n));
  std::vector<E> e; if (!so->s.empty()) e.assign(so->s.begin() + (src - so->base), so->s.begin() + (src - so->base + n));
  Obj* d = findW(s, find(s, dst)->base); u64 o = dst - d->base;
  memcpy(&d->c[o], c.data(), n);
  if (!e.empty()) { if (d->s.empty()) d->s.assign(d->size, nullptr); for (u64 i = 0; i < n; i++) d->s[o + i] = e[i]; }
  else if (!d->s.empty()) for (u64 i = 0; i < n; i++) d->s[o + i] = nullptr;
}

u64 Engine::conc(State& s, const Val& v, unsigned w, const char* what) {
  if (v.a) throw Unsupported{"aggregate"};
  if (!v.e) return v.c;
  u64 x = (u64)X.evalWith(v.e, *s.model);
  E c = X.eq(v.e, X.cst(x, v.e->w));
  if (branch(s, c)) return x;
  throw Unsupported{"concretise"}; // not reached: the model satisfies c
}

std::string Engine::cstr(State& s, u64 a) {
  std::string r;
  for (;;) { const Obj* o = find(s, a); if (!o || a >= o->base + o->size) break; char c = o->c[a - o->base]; if (!o->s.empty() && o->s[a - o->base]) { r += '?'; a++; continue; } if (!c) break; r += c; a++; }
  return r;
}

// ------------------------------------------------------------------ path decisions
StateP Engine::clone(State& s) { forks++; return std::make_unique<State>(s); }
void Engine::addPC(State& s, E c) {
  if (c->k == K_Const) return;
  if (c->k == K_And && c->w == 1) { addPC(s, c->op[0]); addPC(s, c->op[1]); return; }
  for (E e : s.pc) if (e == c) return;
  s.pc.push_back(c);
}
// 0: only false, 1: only true, 2: both (other = model for the side not satisfied by s.model)
int Engine::decide(State& s, E c, Model& other) {
  if (c->k == K_Const) return c->val ? 1 : 0;
  E nc = X.lnot(c);
  for (size_t i = s.pc.size(); i-- > 0;) { if (s.pc[i] == c) return 1; if (s.pc[i] == nc) return 0; }
  bool v = X.evalWith(c, *s.model);
  int r = S.check(s.pc, v ? nc : c, s.model, other);
  if (r < 0) { incomplete.insert("solver-unknown"); return v ? 1 : 0; }
  if (r == 0) return v ? 1 : 0;
  return 2;
}
bool Engine::branch(State& s, E c) {
  Model om;
  int d = decide(s, c, om);
  if (d != 2) return d == 1;
  bool v = X.evalWith(c, *s.model);
  StateP o = clone(s);
  addPC(*o, v ? X.lnot(c) : c); o->model = om; o->depth++;
  work.push_back(std::move(o));
  addPC(s, v ? c : X.lnot(c)); s.depth++;
  return v;
}
void Engine::assertE(State& s, E c, const std::string& kind, const std::string& msg) {
  asserts++;
  if (c->k == K_Const && c->val) return;
  if (c->k == K_Const) { violation(s, s.model, kind, msg); throw PathEnd{"violation"}; }
  assertQ++;
  Model om; int d = decide(s, c, om);
  if (d == 1) return;
  bool v = X.evalWith(c, *s.model);
  violation(s, d == 0 || !v ? s.model : om, kind, msg);
  if (d == 0) throw PathEnd{"violation"};
  addPC(s, c); if (!v) s.model = om;
}
std::string Engine::where(State& s) {
  std::string r; int n = 0;
  for (auto it = s.st().rbegin(); it != s.st().rend() && n < 7; ++it) {
    auto& b = it->f->blocks[it->bb];
    unsigned pc = it->pc; if (pc > 0 && it != s.st().rbegin()) pc--;
    if (pc >= b.insts.size()) pc = b.insts.size() - 1;
    std::string loc; const DebugLoc& dl = b.insts[pc].I->getDebugLoc();
    if (dl) { loc = dl->getFilename().str(); auto p = loc.find("include/vif"); if (p != std::string::npos) loc = loc.substr(p); loc += ":" + std::to_string(dl.getLine()); }
    std::string fn = it->f->dem; if (fn.size() > 90) fn = fn.substr(0, 90) + "...";
    r += (n ? " < " : "") + fn + (loc.empty() ? "" : " (" + loc + ")"); n++;
  }
  return r;
}
void Engine::violation(State& s, Model m, const std::string& kind, const std::string& msg) {
  std::string key = kind + "|" + msg;
  if (violSeen[key]++ >= 2) return;
  Viol v; v.kind = kind; v.msg = msg; v.loc = where(s);
  for (auto& r : s.syms) v.in.push_back({r.name, {r.e->w, X.evalWith(r.e, *m)}});
  for (auto& t : s.trace) v.in.push_back({"@", {64, (t.first << 8) | (u64)t.second}});
  viols.push_back(v);
  if (verbose) { fprintf(stderr, "VIOLATION %s: %s\n  at %s\n", kind.c_str(), msg.c_str(), v.loc.c_str()); for (auto& i : v.in) fprintf(stderr, "   %s = 0x%llx\n", i.first.c_str(), (unsigned long long)i.second.second); }
}
void Engine::endPath(State& s, const std::string& why) {
  paths++; ends[why]++;
  for (auto& r : s.reached) reachCount[r]++;
  if (why == "returned" || why == "aborted" || why == "thrown") {
    // witnesses: spread over the exploration, and the first for each reach label
    bool take = false; u64 k = pathsOf[why]++;
    size_t have = 0; for (auto& w : wits) if (w.outcome == why) have++;
    if (have < maxWit && (k & (k - 1)) == 0) take = true;
    for (auto& r : s.reached) if (reachCount[r] == 1) take = true;
    if (take && wits.size() < 3 * maxWit) {
      Witness w; w.outcome = why;
      for (auto& r : s.syms) w.in.push_back({r.name, {r.e->w, X.evalWith(r.e, *s.model)}});
      for (auto& t : s.trace) w.in.push_back({"@", {64, (t.first << 8) | (u64)t.second}});
      bool bad = false;
      for (auto& o : s.obs) { if (o.second.e) { E e = o.second.e; for (size_t i = 0; i < X.syms.size(); i++) if (X.syms[i].uninit && e->vars.test(i % MAXVARS)) bad = true; } w.obs.push_back({o.first, o.second.e ? (u64)X.evalWith(o.second.e, *s.model) : o.second.c}); }
      if (!bad) wits.push_back(w);
    }
  }
}

// ------------------------------------------------------------------ execution
void Engine::pushFrame(State& s, FInfo* f, const std::vector<Val>& args, const DInst* call) {
  decode(f);
  if (!f->seen) { f->seen = true; executed.insert(f); }
  if (s.st().size() > 400) { violation(s, s.model, "hang", "unbounded recursion"); throw PathEnd{"violation"}; }
  Frame fr; fr.f = f; fr.bb = 0; fr.prev = -1; fr.pc = 0; fr.call = call;
  fr.r.resize(f->nregs);
  unsigned i = 0; for (auto& a : f->F->args()) {
    if (i < args.size()) {
      fr.r[i] = args[i];
      if (a.hasByValAttr()) {
        u64 sz = DL->getTypeAllocSize(a.getParamByValType()); u64 m = alloc(s, sz, O_Stack, "byval");
        s.st().push_back(fr); // not really needed, keep frame consistent for errors
        s.st().pop_back();
        copyMem(s, m, args[i].c, sz); fr.r[i] = Val(m); fr.allocas.push_back(m);
      }
    }
    i++;
  }
  s.st().push_back(std::move(fr));
}
void Engine::gotoBlock(State& s, int b) {
  Frame& f = s.fr();
  f.prev = f.bb; f.bb = b; f.pc = 0;
  DBlock& B = f.f->blocks[b];
  if (!B.phis.empty()) {
    std::vector<Val> v; v.reserve(B.phis.size());
    for (auto& p : B.phis) {
      bool ok = false;
      for (unsigned k = 0; k < p.gepW.size(); k++) if ((int)p.gepW[k] == f.prev) { v.push_back(p.ops[k].reg < 0 ? p.ops[k].v : f.r[p.ops[k].reg]); ok = true; break; }
      if (!ok) throw Unsupported{"phi"};
    }
    for (unsigned k = 0; k < v.size(); k++) f.r[B.phis[k].dst] = v[k];
  }
}
void Engine::finishCall(State& s, const DInst& d, Val v) {
  Frame& f = s.fr();
  if (d.dst >= 0) f.r[d.dst] = v;
  if (d.op == Instruction::Invoke) gotoBlock(s, d.b0); else f.pc++;
}
void Engine::doReturn(State& s, Val v) {
  Frame fr = std::move(s.fr());
  s.st().pop_back();
  for (u64 a : fr.allocas) release(s, a);
  if (s.st().empty()) {
    if (s.cur == 0) throw PathEnd{"returned"};
    s.th[s.cur].status = 9;
    releaseS(s, 0x9000000000ull + s.cur);
    progress(s);
    switchFrom(s, true);
    return;
  }
  if (fr.call) finishCall(s, *fr.call, v);
}

void Engine::doCall(State& s, const DInst& d) {
  FInfo* f = d.callee;
  auto* cb = cast<CallBase>(d.I);
  std::vector<Val> args;
  size_t na = cb->arg_size();
  args.reserve(na);
  for (size_t i = 0; i < na; i++) args.push_back(get(s, d.ops[i]));
  if (!f) {
    if (isa<InlineAsm>(cb->getCalledOperand())) throw Unsupported{"inline asm"};
    u64 a = conc(s, get(s, d.ops[na]), 64, "function pointer");
    auto it = faddr.find(a);
    if (it == faddr.end()) { violation(s, s.model, "memory", "call through an invalid function pointer"); throw PathEnd{"memory-error"}; }
    f = it->second;
  }
  if (!f->h && f->hname.empty()) { f->h = findHandler(*this, f); f->hname = f->h ? "h" : "none"; }
  if (f->h) {
    size_t depth = s.st().size(); int cur = s.cur; 
    Frame* fp = &s.fr(); unsigned pc = fp->pc; int bb = fp->bb;
    Val r = f->h(*this, s, d, args);
    // a handler may have switched thread, unwound, or pushed a frame
    if (s.cur == cur && s.st().size() == depth && s.fr().pc == pc && s.fr().bb == bb && !s.hint) finishCall(s, d, r);
    s.hint = 0;
    return;
  }
  if (f->F->isDeclaration()) throw Unsupported{"external function " + f->dem};
  pushFrame(s, f, args, &d);
}

static const Agg* aggSet(const Agg* a, ArrayRef<unsigned> ix, const Val& v) {
  Agg* n = new Agg(*a);
  if (ix.size() == 1) (*n)[ix[0]] = v; else (*n)[ix[0]] = Val::ag(aggSet((*n)[ix[0]].a, ix.slice(1), v));
  return n;
}

static Val loadAgg(Engine& en, State& s, Val p, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) {
    Agg* a = new Agg(); auto* sl = en.DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) { Val q = p; u64 o = sl->getElementOffset(i); if (q.e) q = Val::ex(X.add(q.e, X.cst(o, 64))); else q.c += o; a->push_back(loadAgg(en, s, q, st->getElementType(i))); }
    return Val::ag(a);
  }
  if (t->isArrayTy() || t->isVectorTy()) {
    Agg* a = new Agg(); Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
    unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(); u64 sz = en.DL->getTypeAllocSize(et);
    for (unsigned i = 0; i < n; i++) { Val q = p; if (q.e) q = Val::ex(X.add(q.e, X.cst(sz * i, 64))); else q.c += sz * i; a->push_back(loadAgg(en, s, q, et)); }
    return Val::ag(a);
  }
  return en.load(s, p, tyW(en.DL, t));
}
static void storeAgg(Engine& en, State& s, Val p, Val v, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) {
    auto* sl = en.DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) { Val q = p; u64 o = sl->getElementOffset(i); if (q.e) q = Val::ex(X.add(q.e, X.cst(o, 64))); else q.c += o; storeAgg(en, s, q, (*v.a)[i], st->getElementType(i)); }
    return;
  }
  if (t->isArrayTy() || t->isVectorTy()) {
    Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
    unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(); u64 sz = en.DL->getTypeAllocSize(et);
    for (unsigned i = 0; i < n; i++) { Val q = p; if (q.e) q = Val::ex(X.add(q.e, X.cst(sz * i, 64))); else q.c += sz * i; storeAgg(en, s, q, (*v.a)[i], et); }
    return;
  }
  en.store(s, p, v, tyW(en.DL, t));
}

static K binK(unsigned op) {
  switch (op) {
    case Instruction::Add: return K_Add; case Instruction::Sub: return K_Sub; case Instruction::Mul: return K_Mul;
    case Instruction::UDiv: return K_UDiv; case Instruction::SDiv: return K_SDiv; case Instruction::URem: return K_URem; case Instruction::SRem: return K_SRem;
    case Instruction::And: return K_And; case Instruction::Or: return K_Or; case Instruction::Xor: return K_Xor;
    case Instruction::Shl: return K_Shl; case Instruction::LShr: return K_LShr; case Instruction::AShr: return K_AShr;
    case Instruction::FAdd: return K_FAdd; case Instruction::FSub: return K_FSub; case Instruction::FMul: return K_FMul; case Instruction::FDiv: return K_FDiv; case Instruction::FRem: return K_FRem;
  }
  throw Unsupported{"binop"};
}

static Val binOp(Engine& en, State& s, unsigned op, Val a, Val b, unsigned w) {
  bool div = op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem;
  if (div) en.assertE(s, X.lnot(X.eq(en.toE(b, w), X.cst(0, w))), "arith", "integer division by zero");
  if (!a.e && !b.e && w <= 64 && op != Instruction::FRem) {
    u64 m = (u64)maskW(w), x = a.c, y = b.c;
    switch (op) {
      case Instruction::Add: return Val((x + y) & m); case Instruction::Sub: return Val((x - y) & m); case Instruction::Mul: return Val((x * y) & m);
      case Instruction::And: return Val(x & y); case Instruction::Or: return Val(x | y); case Instruction::Xor: return Val(x ^ y);
      case Instruction::Shl: return Val(y >= w ? 0 : (x << y) & m); case Instruction::LShr: return Val(y >= w ? 0 : x >> y);
      case Instruction::UDiv: return Val(x / y); case Instruction::URem: return Val(x % y);
      default: break;
    }
  }
  K k = binK(op);
  E ea = en.toE(a, w), eb = en.toE(b, w);
  if (k >= K_FAdd) { if (w > 64) throw Unsupported{"x86_fp80"}; return Val::ex(X.fbin(k, ea, eb)); }
  return Val::ex(X.bin(k, ea, eb));
}

static E fcmpE(CmpInst::Predicate p, E a, E b) {
  auto un = [&] { return X.lor(X.fnan_(a), X.fnan_(b)); };
  switch (p) {
    case CmpInst::FCMP_FALSE: return X.fls(); case CmpInst::FCMP_TRUE: return X.tru();
    case CmpInst::FCMP_OEQ: return X.fcmp(K_FOeq, a, b); case CmpInst::FCMP_UNE: return X.lnot(X.fcmp(K_FOeq, a, b));
    case CmpInst::FCMP_OLT: return X.fcmp(K_FOlt, a, b); case CmpInst::FCMP_OLE: return X.fcmp(K_FOle, a, b);
    case CmpInst::FCMP_OGT: return X.fcmp(K_FOlt, b, a); case CmpInst::FCMP_OGE: return X.fcmp(K_FOle, b, a);
    case CmpInst::FCMP_UGE: return X.lnot(X.fcmp(K_FOlt, a, b)); case CmpInst::FCMP_UGT: return X.lnot(X.fcmp(K_FOle, a, b));
    case CmpInst::FCMP_ULE: return X.lnot(X.fcmp(K_FOlt, b, a)); case CmpInst::FCMP_ULT: return X.lnot(X.fcmp(K_FOle, b, a));
    case CmpInst::FCMP_UNO: return un(); case CmpInst::FCMP_ORD: return X.lnot(un());
    case CmpInst::FCMP_ONE: return X.land(X.lnot(un()), X.lnot(X.fcmp(K_FOeq, a, b)));
    case CmpInst::FCMP_UEQ: return X.lor(un(), X.fcmp(K_FOeq, a, b));
    default: throw Unsupported{"fcmp"};
  }
}
static Val cmpOp(Engine& en, CmpInst* ci, Val a, Val b, unsigned w) {
  auto p = ci->getPredicate();
  if (isa<FCmpInst>(ci)) { if (w > 64) throw Unsupported{"x86_fp80"}; return Val::ex(fcmpE(p, en.toE(a, w), en.toE(b, w))); }
  if (!a.e && !b.e && w <= 64) {
    i64 x = (i64)sextV(a.c, w), y = (i64)sextV(b.c, w);
    switch (p) {
      case CmpInst::ICMP_EQ: return Val(a.c == b.c); case CmpInst::ICMP_NE: return Val(a.c != b.c);
      case CmpInst::ICMP_ULT: return Val(a.c < b.c); case CmpInst::ICMP_ULE: return Val(a.c <= b.c);
      case CmpInst::ICMP_UGT: return Val(a.c > b.c); case CmpInst::ICMP_UGE: return Val(a.c >= b.c);
      case CmpInst::ICMP_SLT: return Val(x < y); case CmpInst::ICMP_SLE: return Val(x <= y);
      case CmpInst::ICMP_SGT: return Val(x > y); case CmpInst::ICMP_SGE: return Val(x >= y);
      default: break;
    }
  }
  E x = en.toE(a, w), y = en.toE(b, w), r;
  switch (p) {
    case CmpInst::ICMP_EQ: r = X.eq(x, y); break; case CmpInst::ICMP_NE: r = X.lnot(X.eq(x, y)); break;
    case CmpInst::ICMP_ULT: r = X.ult(x, y); break; case CmpInst::ICMP_ULE: r = X.ule(x, y); break;
    case CmpInst::ICMP_UGT: r = X.ult(y, x); break; case CmpInst::ICMP_UGE: r = X.ule(y, x); break;
    case CmpInst::ICMP_SLT: r = X.slt(x, y); break; case CmpInst::ICMP_SLE: r = X.sle(x, y); break;
    case CmpInst::ICMP_SGT: r = X.slt(y, x); break; case CmpInst::ICMP_SGE: r = X.sle(y, x); break;
    default: throw Unsupported{"icmp"};
  }
  return Val::ex(r);
}

static Val castOp(Engine& en, unsigned op, Val a, unsigned sw, unsigned dw) {
  if (sw > 64 && (op == Instruction::FPExt || op == Instruction::FPTrunc || op == Instruction::FPToSI || op == Instruction::FPToUI) ) throw Unsupported{"x86_fp80"};
  if (dw > 64 && (op == Instruction::FPExt || op == Instruction::SIToFP || op == Instruction::UIToFP)) throw Unsupported{"x86_fp80"};
  if (!a.e && sw <= 64 && dw <= 64) {
    switch (op) {
      case Instruction::Trunc: return Val(a.c & (u64)maskW(dw)); case Instruction::ZExt: return Val(a.c);
      case Instruction::SExt: return Val((u64)sextV(a.c, sw) & (u64)maskW(dw));
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: if (sw == dw) return a; break;
      default: break;
    }
  }
  E x = en.toE(a, sw), r;
  switch (op) {
    case Instruction::Trunc: r = X.trunc(x, dw); break; case Instruction::ZExt: r = X.zext(x, dw); break; case Instruction::SExt: r = X.sext(x, dw); break;
    case Instruction::BitCast: r = x; break;
    case Instruction::PtrToInt: case Instruction::IntToPtr: r = dw < sw ? X.trunc(x, dw) : X.zext(x, dw); break;
    case Instruction::FPToSI: r = X.fconv(K_FToSI, x, dw); break; case Instruction::FPToUI: r = X.fconv(K_FToUI, x, dw); break;
    case Instruction::SIToFP: r = X.fconv(K_SIToF, x, dw); break; case Instruction::UIToFP: r = X.fconv(K_UIToF, x, dw); break;
    case Instruction::FPExt: r = X.fconv(K_FExt, x, dw); break; case Instruction::FPTrunc: r = X.fconv(K_FTrunc, x, dw); break;
    default: throw Unsupported{"cast"};
  }
  return Val::ex(r);
}

static Val selectV(Engine& en, E c, const Val& a, const Val& b, Type* t) {
  if (a.a) {
    Agg* r = new Agg(); for (size_t i = 0; i < a.a->size(); i++) r->push_back(selectV(en, c, (*a.a)[i], (*b.a)[i], t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType()));
    return Val::ag(r);
  }
  unsigned w = tyW(en.DL, t);
  return Val::ex(X.ite(c, en.toE(a, w), en.toE(b, w)));
}

void Engine::exec(State& s, const DInst& d) {
  Frame& f = s.fr();
  Instruction* I = d.I;
  auto set = [&](Val v) { Frame& ff = s.fr(); ff.r[d.dst] = v; ff.pc++; };
  switch (d.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      Val a = get(s, d.ops[0]), b = get(s, d.ops[1]);
      if (a.a) {
        unsigned w = tyW(DL, cast<VectorType>(I->getType())->getElementType()); Agg* r = new Agg();
        for (size_t i = 0; i < a.a->size(); i++) r->push_back(binOp(*this, s, d.op, (*a.a)[i], (*b.a)[i], w));
        set(Val::ag(r)); return;
      }
      set(binOp(*this, s, d.op, a, b, d.w)); return; }
    case Instruction::FNeg: { Val a = get(s, d.ops[0]); if (a.a || d.w > 64) throw Unsupported{"fneg"}; set(Val::ex(X.fun1(K_FNeg, toE(a, d.w)))); return; }
    case Instruction::ICmp: case Instruction::FCmp: {
      Val a = get(s, d.ops[0]), b = get(s, d.ops[1]); Type* t = I->getOperand(0)->getType();
      if (a.a) { Agg* r = new Agg(); unsigned w = tyW(DL, cast<VectorType>(t)->getElementType()); for (size_t i = 0; i < a.a->size(); i++) r->push_back(cmpOp(*this, cast<CmpInst>(I), (*a.a)[i], (*b.a)[i], w)); set(Val::ag(r)); return; }
      set(cmpOp(*this, cast<CmpInst>(I), a, b, tyW(DL, t))); return; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
      Val a = get(s, d.ops[0]); Type *st = I->getOperand(0)->getType(), *dt = I->getType();
      if (a.a || dt->isVectorTy()) {
        if (d.op == Instruction::BitCast && st->isVectorTy() && !dt->isVectorTy()) { // vector -> scalar
          E r = nullptr; unsigned w = tyW(DL, cast<VectorType>(st)->getElementType()); for (auto& v : *a.a) r = r ? X.concat(toE(v, w), r) : toE(v, w); set(Val::ex(r)); return; }
        if (d.op == Instruction::BitCast && dt->isVectorTy()) {
          E r = nullptr;
          if (a.a) { unsigned w = tyW(DL, cast<VectorType>(st)->getElementType()); for (auto& v : *a.a) r = r ? X.concat(toE(v, w), r) : toE(v, w); } else r = toE(a, tyW(DL, st));
          unsigned ew = tyW(DL, cast<VectorType>(dt)->getElementType()); Agg* g = new Agg(); for (unsigned o = 0; o + ew <= r->w; o += ew) g->push_back(Val::ex(X.extract(r, o, ew))); set(Val::ag(g)); return; }
        unsigned sw = tyW(DL, cast<VectorType>(st)->getElementType()), dw = tyW(DL, cast<VectorType>(dt)->getElementType());
        Agg* g = new Agg(); for (auto& v : *a.a) g->push_back(castOp(*this, d.op, v, sw, dw)); set(Val::ag(g)); return;
      }
      set(castOp(*this, d.op, a, tyW(DL, st), d.w)); return; }
    case Instruction::GetElementPtr: {
      Val p = get(s, d.ops[0]);
      if (p.a) throw Unsupported{"vector gep"};
      u64 cst = (u64)d.gepOff; E se = p.e; u64 base = p.c;
      for (size_t i = 0; i < d.gepVar.size(); i++) {
        Val ix = get(s, d.gepVar[i].first); unsigned w = d.gepW[i];
        if (!ix.e) { cst += (u64)sextV(ix.c, w) * d.gepVar[i].second; }
        else { E x = w < 64 ? X.sext(ix.e, 64) : ix.e; x = X.bin(K_Mul, x, X.cst(d.gepVar[i].second, 64)); se = se ? X.add(se, x) : (X.add(X.cst(base, 64), x)); }
      }
      if (!se) set(Val(base + cst)); else set(Val::ex(X.add(se, X.cst(cst, 64))));
      return; }
    case Instruction::Load: {
      auto* li = cast<LoadInst>(I);
      Val p = get(s, d.ops[0]);
      if (li->isAtomic()) { u64 a = conc(s, p, 64, "atomic"); if (spinning(s, a)) return; schedPoint(s); raceCheck(s, a, (d.w + 7) / 8, false, true); bool r = races; races = false; Val v; try { v = load(s, p, d.w); } catch (...) { races = r; throw; } races = r; acquire(s, a); set(v); return; }
      if (I->getType()->isAggregateType() || I->getType()->isVectorTy()) { set(loadAgg(*this, s, p, I->getType())); return; }
      if (d.w > 64 && I->getType()->isX86_FP80Ty()) { set(load(s, p, 80)); return; }
      set(load(s, p, d.w)); return; }
    case Instruction::Store: {
      auto* si = cast<StoreInst>(I);
      if (si->isAtomic()) schedPoint(s);
      Val v = get(s, d.ops[0]), p = get(s, d.ops[1]); Type* t = I->getOperand(0)->getType();
      if (si->isAtomic()) { u64 a = conc(s, p, 64, "atomic"); raceCheck(s, a, (tyW(DL, t) + 7) / 8, true, true); bool r = races; races = false; try { store(s, p, v, tyW(DL, t)); } catch (...) { races = r; throw; } races = r; releaseS(s, a); progress(s); f.pc++; return; }
      if (t->isAggregateType() || t->isVectorTy()) storeAgg(*this, s, p, v, t); else store(s, p, v, tyW(DL, t));
      s.fr().pc++; return; }
    case Instruction::AtomicRMW: {
      schedPoint(s);
      auto* r = cast<AtomicRMWInst>(I); Val p = get(s, d.ops[0]), v = get(s, d.ops[1]); u64 a = conc(s, p, 64, "atomic");
      raceCheck(s, a, (d.w + 7) / 8, true, true); bool rc = races; races = false; Val old = load(s, p, d.w), nv; E o = toE(old, d.w), x = toE(v, d.w);
      switch (r->getOperation()) {
        case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = Val::ex(X.add(o, x)); break; case AtomicRMWInst::Sub: nv = Val::ex(X.sub(o, x)); break;
        case AtomicRMWInst::And: nv = Val::ex(X.bin(K_And, o, x)); break; case AtomicRMWInst::Or: nv = Val::ex(X.bin(K_Or, o, x)); break;
        default: throw Unsupported{"atomicrmw"};
      }
      store(s, p, nv, d.w); races = rc; acquire(s, a); releaseS(s, a); progress(s); set(old); return; }
    case Instruction::AtomicCmpXchg: {
      schedPoint(s);
      Val p = get(s, d.ops[0]), c = get(s, d.ops[1]), n = get(s, d.ops[2]); unsigned w = tyW(DL, I->getOperand(1)->getType()); u64 a = conc(s, p, 64, "atomic");
      raceCheck(s, a, (w + 7) / 8, true, true); bool rc = races; races = false; Val old = load(s, p, w); races = rc; E eq = X.eq(toE(old, w), toE(c, w)); bool ok = branch(s, eq);
      races = false; if (ok) store(s, p, n, w); races = rc; acquire(s, a); if (ok) { releaseS(s, a); progress(s); }
      Agg* g = new Agg{old, Val(ok)}; set(Val::ag(g)); return; }
    case Instruction::Fence: f.pc++; return;
    case Instruction::Alloca: {
      u64 n = conc(s, get(s, d.ops[0]), 64, "alloca"); u64 a = alloc(s, d.sz * n, O_Stack, "");
      s.fr().allocas.push_back(a); set(Val(a)); return; }
    case Instruction::Br: {
      if (d.b1 < 0) { gotoBlock(s, d.b0); return; }
      Val c = get(s, d.ops[0]);
      bool t;
      if (!c.e) t = c.c & 1; else t = branch(s, c.e);
      gotoBlock(s, t ? d.b0 : d.b1); return; }
    case Instruction::Switch: {
      auto* sw = cast<SwitchInst>(I); Val c = get(s, d.ops[0]); unsigned w = tyW(DL, sw->getCondition()->getType());
      for (auto& cs : sw->cases()) {
        u64 v = cs.getCaseValue()->getZExtValue();
        bool hit = c.e ? branch(s, X.eq(c.e, X.cst(v, w))) : c.c == v;
        if (hit) { gotoBlock(s, f.f->bidx[cs.getCaseSuccessor()]); return; }
      }
      gotoBlock(s, d.b0); return; }
    case Instruction::Select: {
      Val c = get(s, d.ops[0]), a = get(s, d.ops[1]), b = get(s, d.ops[2]);
      if (c.a) { Agg* g = new Agg(); Type* et = cast<VectorType>(I->getType())->getElementType(); for (size_t i = 0; i < c.a->size(); i++) g->push_back((*c.a)[i].e ? selectV(*this, (*c.a)[i].e, (*a.a)[i], (*b.a)[i], et) : ((*c.a)[i].c & 1 ? (*a.a)[i] : (*b.a)[i])); set(Val::ag(g)); return; }
      if (!c.e) { set(c.c & 1 ? a : b); return; }
      set(selectV(*this, c.e, a, b, I->getType())); return; }
    case Instruction::Freeze: set(get(s, d.ops[0])); return;
    case Instruction::ExtractValue: { Val a = get(s, d.ops[0]); for (unsigned i : cast<ExtractValueInst>(I)->indices()) a = (*a.a)[i]; set(a); return; }
    case Instruction::InsertValue: { Val a = get(s, d.ops[0]), b = get(s, d.ops[1]); set(Val::ag(aggSet(a.a, cast<InsertValueInst>(I)->getIndices(), b))); return; }
    case Instruction::ExtractElement: { Val a = get(s, d.ops[0]); u64 i = conc(s, get(s, d.ops[1]), 64, "lane"); set((*a.a)[i]); return; }
    case Instruction::InsertElement: { Val a = get(s, d.ops[0]), b = get(s, d.ops[1]); u64 i = conc(s, get(s, d.ops[2]), 64, "lane"); Agg* g = new Agg(*a.a); (*g)[i] = b; set(Val::ag(g)); return; }
    case Instruction::ShuffleVector: { Val a = get(s, d.ops[0]), b = get(s, d.ops[1]); Agg* g = new Agg(); for (int m : cast<ShuffleVectorInst>(I)->getShuffleMask()) g->push_back(m < 0 ? Val(0) : m < (int)a.a->size() ? (*a.a)[m] : (*b.a)[m - a.a->size()]); set(Val::ag(g)); return; }
    case Instruction::Ret: doReturn(s, d.ops.empty() ? Val() : get(s, d.ops[0])); return;
    case Instruction::Call: case Instruction::Invoke: doCall(s, d); return;
    case Instruction::LandingPad: {
      auto* lp = cast<LandingPadInst>(I); u64 sel = 0;
      for (unsigned i = 0; i < lp->getNumClauses(); i++) if (lp->isCatch(i)) {
        u64 want = constVal(lp->getClause(i)).c;
        if (want == 0 || tiMatch(s, f.excTI, want)) { sel = want == 0 ? 0x7fff : (tids.emplace(want, (int)tids.size() + 1).first->second); break; }
      }
      set(Val::ag(new Agg{Val(f.exc), Val(sel)})); return; }
    case Instruction::Resume: { Val a = get(s, d.ops[0]); u64 exc = (*a.a)[0].c; unwind(s, exc, f.excTI); return; }
    case Instruction::Unreachable: violation(s, s.model, "ub", "unreachable code reached"); throw PathEnd{"violation"};
    default: throw Unsupported{std::string("instruction ") + I->getOpcodeName()};
  }
}

bool Engine::tiMatch(State& s, u64 thrown, u64 want) {
  if (thrown == want) return true;
  const Obj* a = find(s, thrown); const Obj* b = find(s, want);
  if (!a || !b) return false;
  if (a->name == b->name) return true;
  if (b->name == "_ZTISt9exception" && a->name.rfind("_ZTISt", 0) == 0) return true;
  if (b->name == "_ZTISt11logic_error" && (a->name == "_ZTISt12out_of_range" || a->name == "_ZTISt12length_error" || a->name == "_ZTISt16invalid_argument")) return true;
  if (a->kind == O_Global && a->size >= 24) { u64 base = 0; memcpy(&base, &a->c[16], 8); if (base && base != thrown) return tiMatch(s, base, want); }
  return false;
}
void Engine::unwind(State& s, u64 exc, u64 ti) {
  // pop frames until an invoke whose landing pad handles it (the top frame is the thrower)
  bool first = true;
  while (true) {
    Frame& f = s.fr();
    const DInst* call = nullptr;
    DBlock& B = f.f->blocks[f.bb];
    // the pending instruction of this frame is the call/invoke that leads to the throw
    if (f.pc < B.insts.size() && B.insts[f.pc].op == Instruction::Invoke && !(first && B.insts[f.pc].op == Instruction::Resume)) call = &B.insts[f.pc];
    first = false;
    if (call) {
      auto* lp = cast<InvokeInst>(call->I)->getLandingPadInst();
      bool enter = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses() && !enter; i++) {
        if (lp->isCatch(i)) { u64 want = constVal(lp->getClause(i)).c; if (want == 0 || tiMatch(s, ti, want)) enter = true; } else enter = true;
      }
      if (enter) { f.exc = exc; f.excTI = ti; gotoBlock(s, call->b1); s.hint = 1; return; }
    }
    for (u64 a : f.allocas) release(s, a);
    s.st().pop_back();
    if (s.st().empty()) {
      const Obj* o = find(s, ti);
      if (!s.throwOk) {
        State& ss = s; Viol v; std::string key = "exception|" + (o ? o->name : "");
        if (violSeen[key]++ < 2) {
          v.kind = "exception"; v.msg = "uncaught exception of type " + (o ? llvm::demangle(o->name) : std::string("?")); v.loc = "";
          for (auto& r : ss.syms) v.in.push_back({r.name, {r.e->w, X.evalWith(r.e, *ss.model)}});
          viols.push_back(v);
        }
        throw PathEnd{"violation"};
      }
      throw PathEnd{"thrown"};
    }
  }
}
void Engine::throwStd(State& s, const std::string& ti) {
  u64 t = 0;
  if (auto* g = M->getNamedGlobal(ti)) t = gaddr[g];
  else {
    for (auto& kv : s.mem) if (kv.second->name == ti) t = kv.first;
    if (!t) t = alloc(s, 64, O_Opaque, ti, 0, false);
  }
  u64 e = alloc(s, 64, O_Heap, "exception", 'e', false);
  unwind(s, e, t);
}

// ------------------------------------------------------------------ threads
int Engine::spawn(State& s, u64 fn, u64 arg) {
  auto it = faddr.find(fn); if (it == faddr.end()) throw Unsupported{"spawn"};
  int t = s.th.size(); s.th.emplace_back();
  auto& pv = s.th[s.cur].vc; if ((int)pv.size() <= t) pv.resize(t + 1, 0);
  if ((int)pv.size() <= s.cur) pv.resize(s.cur + 1, 0);
  s.th[t].vc = pv; s.th[t].vc.resize(t + 1, 0); s.th[t].vc[t] = 1; pv[s.cur]++;
  progress(s); int c = s.cur; s.cur = t; pushFrame(s, it->second, {Val(arg)}, nullptr); s.cur = c;
  return t;
}
bool Engine::enabled(State& s, int t) {
  auto& th = s.th[t];
  if (th.status == 9) return false;
  if (th.status == 1) return !s.mutexOwner.count(th.waitOn);
  if (th.status == 2) return s.th[th.waitTid].status == 9;
  if (th.status == 3) return false; // waiting on a condition variable
  return true;
}
// Something other threads may wait for has changed.
void Engine::progress(State& s) { s.spins = 0; for (auto& t : s.th) { t.yielded = false; t.seen.clear(); } }
// A thread that reads the same atomic over and over while nothing changes is waiting: let others run.
bool Engine::spinning(State& s, u64 a) {
  if (s.th.size() <= 1 || s.schedDone) return false;
  auto& t = s.th[s.cur];
  if (++t.seen[a] <= 3) return false;
  t.seen.clear(); t.yielded = true; t.waitTid = -1; switchFrom(s, false); return true;
}
// Scheduling point before a synchronisation operation of the current thread.
void Engine::schedPoint(State& s) {
  if (s.th.size() <= 1) return;
  if (s.schedDone) { s.schedDone = false; return; }
  s.nev++;
  if (s.preempt >= maxPreempt) return;
  for (int t = 0; t < (int)s.th.size(); t++) {
    if (t == s.cur || !enabled(s, t) || s.th[t].yielded) continue;
    StateP o = clone(s);
    o->th[o->cur].vc.resize(std::max<size_t>(o->th[o->cur].vc.size(), 1));
    o->th[o->cur].status = 0; o->th[o->cur].waitTid = -2; // parked at a scheduling point
    o->preempt++;
    while ((int)schedSyms.size() < o->preempt) schedSyms.push_back(X.sym("sched", 8));
    E v = schedSyms[o->preempt - 1]; addPC(*o, X.eq(v, X.cst(t, 8)));
    { auto nm = std::make_shared<std::vector<u128>>(*o->model); nm->resize(X.syms.size(), 0); (*nm)[v->aux] = t; X.newEpoch(); o->model = nm; }
    o->syms.push_back({v, "sched"}); o->trace.push_back({o->nev, t});
    o->schedDone = o->th[t].waitTid == -2; o->th[t].waitTid = -1; o->th[t].status = 0;
    o->cur = t;
    work.push_back(std::move(o));
  }
}
// The current thread cannot continue (blocked, finished or yielded): continue with every other enabled thread.
void Engine::switchFrom(State& s, bool blocked) {
  std::vector<int> en; s.nev++;
  for (int t = 0; t < (int)s.th.size(); t++) if (t != s.cur && enabled(s, t) && !s.th[t].yielded) en.push_back(t);
  if (en.empty()) { // only yielded ones left
    bool any = false;
    for (int t = 0; t < (int)s.th.size(); t++) if (enabled(s, t) && s.th[t].status != 9 && !(t == s.cur && blocked)) { en.push_back(t); any = true; }
    if (!any) {
      bool allDone = true; for (auto& t : s.th) if (t.status != 9) allDone = false;
      if (allDone) throw PathEnd{"returned"};
      violation(s, s.model, "deadlock", "deadlock: no thread can make progress"); throw PathEnd{"violation"};
    }
    s.spins++;
    if (s.spins > maxSpins) { violation(s, s.model, "hang", "livelock: every thread keeps waiting without progress"); throw PathEnd{"violation"}; }
    for (auto& t : s.th) t.yielded = false;
  }
  int from = s.cur;
  auto go = [&](State& o, int t) { o.schedDone = o.th[t].waitTid == -2; if (t != from) o.th[t].waitTid = -1; o.th[t].waitTid = -1; o.th[t].status = 0; o.cur = t; o.trace.push_back({o.nev, t}); };
  for (size_t i = 1; i < en.size(); i++) { StateP o = clone(s); o->hint = 0; go(*o, en[i]); work.push_back(std::move(o)); }
  go(s, en[0]);
}
void Engine::acquire(State& s, u64 obj) {
  if (s.th.size() <= 1) return;
  auto it = s.syncVC.find(obj); if (it == s.syncVC.end()) return;
  auto& v = s.th[s.cur].vc; if (v.size() < it->second.size()) v.resize(it->second.size(), 0);
  for (size_t i = 0; i < it->second.size(); i++) v[i] = std::max(v[i], it->second[i]);
}
void Engine::releaseS(State& s, u64 obj) {
  if (s.th.size() <= 1) return;
  auto& v = s.th[s.cur].vc; if ((int)v.size() <= s.cur) v.resize(s.cur + 1, 0);
  auto& o = s.syncVC[obj]; if (o.size() < v.size()) o.resize(v.size(), 0);
  for (size_t i = 0; i < v.size(); i++) o[i] = std::max(o[i], v[i]);
  v[s.cur]++;
}
void Engine::raceCheck(State& s, u64 a, u64 n, bool wr, bool at) {
  if (!races || s.th.size() <= 1) return;
  auto& v = s.th[s.cur].vc; if ((int)v.size() <= s.cur) v.resize(s.cur + 1, 1);
  auto hb = [&](int t, uint32_t c) { return t == s.cur || (t < (int)v.size() && v[t] >= c); };
  const Obj* o = find(s, a);
  if (o && o->kind == O_Opaque) return;
  for (u64 x = a; x < a + n; x++) {
    auto& sh = s.shadow[x];
    bool bad = sh.first.second && !hb(sh.first.first, sh.first.second);
    if (wr) for (auto& r : sh.second) if (!hb(r.first, r.second)) bad = true;
    if (!at) { // against atomic accesses of others
      auto it = s.shadowA.find(x);
      if (it != s.shadowA.end()) { for (auto& r : it->second.first) if (!hb(r.first, r.second)) bad = true; if (wr) for (auto& r : it->second.second) if (!hb(r.first, r.second)) bad = true; }
    }
    if (bad) { violation(s, s.model, "race", std::string("data race on ") + (wr ? "write" : "read")); throw PathEnd{"violation"}; }
    if (at) { auto& sa = s.shadowA[x]; (wr ? sa.first : sa.second)[s.cur] = v[s.cur]; }
    else if (wr) { sh.first = {s.cur, v[s.cur]}; sh.second.clear(); } else sh.second[s.cur] = v[s.cur];
  }
}

// ------------------------------------------------------------------ driver
void Engine::step(State& s) {
  Frame& f = s.fr();
  DBlock& B = f.f->blocks[f.bb];
  s.ninst++; totInst++;
  if (s.ninst > maxInst) { violation(s, s.model, "hang", "no termination within the instruction bound"); throw PathEnd{"violation"}; }
  exec(s, B.insts[f.pc]);
}

void Engine::runState(StateP sp) {
  State& s = *sp;
  try {
    u64 k = 0;
    for (;;) {
      step(s);
      if ((++k & 4095) == 0 && now() > maxTime) { incomplete.insert("time-limit"); return; }
    }
  } catch (PathEnd& p) {
    endPath(s, p.why);
  } catch (Unsupported& u) {
    incomplete.insert("unsupported: " + u.what + " at " + where(s)); endPath(s, "unsupported");
  } catch (std::string& u) {
    incomplete.insert("unsupported: " + u); endPath(s, "unsupported");
  }
}

void Engine::run(const std::string& entry, const std::vector<u64>& args) {
  StateP s0 = std::make_unique<State>();
  s0->th.emplace_back(); s0->model = std::make_shared<std::vector<u128>>();
  s0->abortOk = X.fls();
  initGlobals(*s0);
  // static initialisers
  if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
    for (auto& o : ca->operands()) {
      auto* st = cast<ConstantStruct>(o); auto* F = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts());
      if (!F) continue;
      pushFrame(*s0, info(F), {}, nullptr);
      try { for (;;) step(*s0); } catch (PathEnd& p) { if (p.why != "returned") { fprintf(stderr, "ctor ended: %s\n", p.why.c_str()); incomplete.insert("static-init " + p.why); } }
      catch (Unsupported& u) { incomplete.insert("unsupported in static init: " + u.what + " at " + where(*s0)); s0->st().clear(); }
      s0->st().clear();
    }
  s0->ninst = 0;
  s0->base = std::make_shared<const ObjMap>(s0->mem); s0->mem.clear();
  Function* F = M->getFunction(entry);
  if (!F) { fprintf(stderr, "no entry %s\n", entry.c_str()); incomplete.insert("no entry"); return; }
  executed.clear(); for (auto& kv : finfo) kv.second->seen = false;
  std::vector<Val> av; for (u64 a : args) av.push_back(Val(a));
  pushFrame(*s0, info(F), av, nullptr);
  work.push_back(std::move(s0));
  while (!work.empty()) {
    if (now() > maxTime) { incomplete.insert("time-limit"); break; }
    if (!viols.empty() && grace > 0) { maxTime = std::min(maxTime, now() + grace); grace = 0; }
    if ((int)viols.size() >= maxViol) { incomplete.insert("stopped at violations"); break; }
    StateP s = std::move(work.back()); work.pop_back();
    runState(std::move(s));
  }
}

static std::string js(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static std::string hex(u128 v) { char b[40]; if (v >> 64) snprintf(b, 40, "\"0x%llx%016llx\"", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, 40, "\"0x%llx\"", (unsigned long long)v); return b; }
void Engine::writeResult(const std::string& file, const std::string& entry, double t) {
  std::ofstream o(file);
  o << "{\"entry\":" << js(entry) << ",\"complete\":" << (incomplete.empty() ? "true" : "false") << ",\"incomplete\":[";
  bool c = false; for (auto& i : incomplete) { o << (c ? "," : "") << js(i); c = true; }
  o << "],\"paths\":" << paths << ",\"forks\":" << forks << ",\"instructions\":" << totInst << ",\"assertions\":" << asserts << ",\"assertion_queries\":" << assertQ << ",\"wall_s\":" << t;
  o << ",\"solver\":{\"queries\":" << S.st.queries << ",\"sat\":" << S.st.sat << ",\"unsat\":" << S.st.unsat << ",\"unknown\":" << S.st.unknown << ",\"cache_hits\":" << S.st.cacheHits << ",\"model_hits\":" << S.st.modelHits << ",\"mismatches\":" << S.st.mismatches << ",\"time_s\":" << S.st.time << ",\"max_s\":" << S.st.maxTime << "}";
  o << ",\"ends\":{"; c = false; for (auto& e : ends) { o << (c ? "," : "") << js(e.first) << ":" << e.second; c = true; }
  o << "},\"reached\":{"; c = false; for (auto& e : reachCount) { o << (c ? "," : "") << js(e.first) << ":" << e.second; c = true; }
  o << "},\"violations\":["; c = false;
  for (auto& v : viols) { o << (c ? "," : "") << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"loc\":" << js(v.loc) << ",\"inputs\":["; bool d = false; for (auto& i : v.in) { o << (d ? "," : "") << "[" << js(i.first) << "," << i.second.first << "," << hex(i.second.second) << "]"; d = true; } o << "]}"; c = true; }
  o << "],\"witnesses\":["; c = false;
  for (auto& v : wits) { o << (c ? "," : "") << "{\"outcome\":" << js(v.outcome) << ",\"inputs\":["; bool d = false; for (auto& i : v.in) { o << (d ? "," : "") << "[" << js(i.first) << "," << i.second.first << "," << hex(i.second.second) << "]"; d = true; } o << "],\"obs\":["; d = false; for (auto& i : v.obs) { o << (d ? "," : "") << "[" << js(i.first) << "," << hex(i.second) << "]"; d = true; } o << "]}"; c = true; }
  o << "],\"functions\":["; c = false;
  std::set<std::string> fn;
  for (FInfo* f : executed) if (auto* sp = f->F->getSubprogram()) { std::string file = sp->getFilename().str(); auto p = file.find("include/vif"); if (p != std::string::npos) { std::string n = f->dem; auto q = n.find('<'); auto r = n.find('('); (void)q; (void)r; fn.insert(file.substr(p + 8) + ":" + std::to_string(sp->getLine()) + " " + sp->getName().str()); } }
  for (auto& f : fn) { o << (c ? "," : "") << js(f); c = true; }
  o << "]}\n";
}

int main(int argc, char** argv) {
  Engine en; std::string bc, entry, out; std::vector<u64> args;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-o") out = argv[++i]; else if (a == "-e") entry = argv[++i]; else if (a == "-a") args.push_back(strtoull(argv[++i], 0, 0));
    else if (a == "-t") en.maxTime = atof(argv[++i]); else if (a == "-v") en.verbose = true; else if (a == "--max-inst") en.maxInst = strtoull(argv[++i], 0, 0);
    else if (a == "--preempt") en.maxPreempt = atoi(argv[++i]); else if (a == "--grace") en.grace = atof(argv[++i]); else if (a == "--viol") en.maxViol = atoi(argv[++i]); else if (a == "--qt") en.S.timeoutMs = atoi(argv[++i]);
    else if (a == "--dump") en.S.dumpDir = argv[++i]; else if (a == "--no-race") en.races = false; else if (a == "--spins") en.maxSpins = atoi(argv[++i]);
    else bc = a;
  }
  T0 = std::chrono::steady_clock::now();
  en.load(bc);
  try { en.run(entry, args); } catch (Unsupported& u) { en.incomplete.insert("unsupported: " + u.what); }
  double t = now();
  if (!out.empty()) en.writeResult(out, entry, t);
  if (en.verbose || out.empty()) {
    fprintf(stderr, "%s: paths=%llu inst=%llu forks=%llu asserts=%llu/%llu queries=%llu (cache %llu, model %llu, unk %llu, mism %llu) solver=%.2fs wall=%.2fs viol=%zu\n", entry.c_str(), (unsigned long long)en.paths, (unsigned long long)en.totInst, (unsigned long long)en.forks, (unsigned long long)en.asserts, (unsigned long long)en.assertQ, (unsigned long long)en.S.st.queries, (unsigned long long)en.S.st.cacheHits, (unsigned long long)en.S.st.modelHits, (unsigned long long)en.S.st.unknown, (unsigned long long)en.S.st.mismatches, en.S.st.time, t, en.viols.size());
    for (auto& e : en.ends) fprintf(stderr, "  end %s: %llu\n", e.first.c_str(), (unsigned long long)e.second);
    for (auto& e : en.incomplete) fprintf(stderr, "  INCOMPLETE %s\n", e.c_str());
    for (auto& e : en.reachCount) fprintf(stderr, "  reached %s: %llu\n", e.first.c_str(), (unsigned long long)e.second);
  }
  fflush(nullptr);
  _exit(0);
}
