// vf: abstract interpreter over LLVM IR in an algebraic (gated value graph) domain.
//
// Integers and pointers are propagated as constants, floating point values are gnodes of a
// hash-consed value graph over uninterpreted inputs.  States are joined at the immediate
// post-dominator of every branch whose condition is not a constant (value = ite(cond, a, b)).
// No code is executed and no solver is called; the output is the value graph of what each entry
// context can observe, plus the aborts, out-of-bounds and uninitialised accesses found.
#include "llvm/ADT/DenseMap.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <ctime>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <regex>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
using namespace llvm;
typedef uint32_t u32;
typedef uint64_t u64;

// ------------------------------------------------------------------ values
enum Kind : uint8_t { KU, KI, KP, KN, KC, KA };
struct Val {
  Kind k = KU;
  uint8_t bits = 0;   // int width; for KN: 64 double, 32 float, 1 bool
  u32 a = 0;          // KP: object; KN: node; KC: choice index; KA: aggregate index
  u64 b = 0;          // KI: value; KP: offset
  bool operator==(const Val &o) const { return k == o.k && bits == o.bits && a == o.a && b == o.b; }
  bool operator!=(const Val &o) const { return !(*this == o); }
};
static u64 maskb(unsigned bits) { return bits >= 64 ? ~0ull : ((1ull << bits) - 1); }
static Val mkI(u64 v, unsigned bits) { Val r; r.k = KI; r.bits = bits; r.b = v & maskb(bits); return r; }
static Val mkP(u32 o, u64 off) { Val r; r.k = KP; r.bits = 64; r.a = o; r.b = off; return r; }
static Val mkN(u32 n, unsigned bits) { Val r; r.k = KN; r.bits = bits; r.a = n; return r; }
static int64_t sx(u64 v, unsigned bits) { if (bits >= 64) return (int64_t)v; u64 m = 1ull << (bits - 1); v &= maskb(bits); return (int64_t)((v ^ m) - m); }

// ------------------------------------------------------------------ value graph
struct Node {
  std::string op;
  std::vector<u32> args;
  double c = 0;       // const value (op=="c") or approximation of a constant expression
  std::string s;      // names
  u32 loc = 0, here = 0, epoch = 0;
  bool isc = false;   // all leaves constant
};
static std::vector<Node> gnodes;
static std::unordered_map<std::string, u32> nodeIdx;
static std::vector<std::string> locs{""};
static std::unordered_map<std::string, u32> locIdx;
static u32 curLoc();
static u32 nodeEpoch = 0;
static u32 hereOf(u32 n) {
  std::vector<u32> q{n}; std::set<u32> seen;
  for (size_t i = 0; i < q.size() && i < 500; ++i) { Node &x = gnodes[q[i]]; if (x.epoch == nodeEpoch && x.here) return x.here; for (u32 a : x.args) if (seen.insert(a).second) q.push_back(a); }
  return 0;
}
static u32 mkNode(const std::string &op, std::vector<u32> args, const std::string &s = "", double c = 0) {
  std::string key = op; key.push_back(0); key += s; key.push_back(0);
  if (op == "c") key.append((char *)&c, 8);
  for (u32 a : args) key.append((char *)&a, 4);
  auto it = nodeIdx.find(key);
  if (it != nodeIdx.end()) {   // where this entry computes the value first, if another entry made it before
    Node &h = gnodes[it->second]; if (h.epoch != nodeEpoch) { h.epoch = nodeEpoch; h.here = curLoc(); }
    return it->second;
  }
  Node n; n.op = op; n.args = args; n.s = s; n.c = c; n.loc = n.here = curLoc(); n.epoch = nodeEpoch;
  u32 id = gnodes.size();
  n.isc = (op == "c");
  gnodes.push_back(n); nodeIdx[key] = id;
  return id;
}
static u32 cst(double d) { return mkNode("c", {}, "", d == 0 ? 0.0 : d); }
static bool isC(u32 n, double v) { return gnodes[n].op == "c" && gnodes[n].c == v; }
static u32 nTrue() { return mkNode("true", {}); }
static u32 nFalse() { return mkNode("false", {}); }
static bool constBool(u32 n, bool &v) {
  if (gnodes[n].op == "true") { v = true; return true; }
  if (gnodes[n].op == "false") { v = false; return true; }
  return false;
}
static u32 nNot(u32 a) {
  bool v; if (constBool(a, v)) return v ? nFalse() : nTrue();
  if (gnodes[a].op == "not") return gnodes[a].args[0];
  return mkNode("not", {a});
}
static u32 nAnd(u32 a, u32 b) {
  bool v; if (constBool(a, v)) return v ? b : a; if (constBool(b, v)) return v ? a : b;
  if (a == b) return a;
  if ((gnodes[a].op == "not" && gnodes[a].args[0] == b) || (gnodes[b].op == "not" && gnodes[b].args[0] == a)) return nFalse();
  return mkNode("and", {a, b});
}
static u32 nOr(u32 a, u32 b) {
  bool v; if (constBool(a, v)) return v ? a : b; if (constBool(b, v)) return v ? b : a;
  if (a == b) return a;
  if ((gnodes[a].op == "not" && gnodes[a].args[0] == b) || (gnodes[b].op == "not" && gnodes[b].args[0] == a)) return nTrue();
  return mkNode("or", {a, b});
}
static u32 nIte(u32 c, u32 a, u32 b) {
  bool v; if (constBool(c, v)) return v ? a : b;
  if (gnodes[c].op == "not") return nIte(gnodes[c].args[0], b, a);
  if (gnodes[a].op == "ite" && gnodes[a].args[0] == c) a = gnodes[a].args[1];
  if (gnodes[b].op == "ite" && gnodes[b].args[0] == c) b = gnodes[b].args[2];
  if (a == b) return a;
  return mkNode("ite", {c, a, b});
}
static u32 nBIte(u32 c, u32 a, u32 b) {
  bool v; if (constBool(c, v)) return v ? a : b;
  bool va, vb; bool ca = constBool(a, va), cb = constBool(b, vb);
  if (ca && cb) { if (va == vb) return a; return va ? c : nNot(c); }
  if (a == b) return a;
  if (ca) return va ? nOr(c, b) : nAnd(nNot(c), b);
  if (cb) return vb ? nOr(nNot(c), a) : nAnd(c, a);
  return nOr(nAnd(c, a), nAnd(nNot(c), b));
}
static bool cval(u32 n, double &v) { if (!gnodes[n].isc) return false; v = gnodes[n].c; return true; }
static u32 arith(const std::string &op, u32 a, u32 b) {
  if (op == "+") { if (isC(a, 0)) return b; if (isC(b, 0)) return a; }
  if (op == "-") { if (isC(b, 0)) return a; if (a == b) return cst(0); if (isC(a, 0)) return arith("neg", b, 0); }
  if (op == "*") { if (isC(a, 0) || isC(b, 0)) return cst(0); if (isC(a, 1)) return b; if (isC(b, 1)) return a;
                   if (isC(a, -1)) return arith("neg", b, 0); if (isC(b, -1)) return arith("neg", a, 0); }
  if (op == "/") { if (isC(a, 0)) return cst(0); if (isC(b, 1)) return a; }
  if (op == "neg") { if (gnodes[a].op == "neg") return gnodes[a].args[0]; if (isC(a, 0)) return a; if (gnodes[a].op == "c") return cst(-gnodes[a].c); }
  u32 r = op == "neg" ? mkNode(op, {a}) : mkNode(op, {a, b});
  double x, y = 0;
  if (!gnodes[r].isc && cval(a, x) && (op == "neg" || cval(b, y))) {
    gnodes[r].isc = true;
    gnodes[r].c = op == "+" ? x + y : op == "-" ? x - y : op == "*" ? x * y : op == "/" ? x / y : -x;
  }
  return r;
}
static u32 call1(const std::string &f, std::vector<u32> args) {
  double x = 0, y = 0; bool c0 = cval(args[0], x), c1 = args.size() < 2 || cval(args[1], y);
  bool k = c0 && c1; double v = 0; bool known = true;
  if (k) {
    if (f == "sin") v = std::sin(x); else if (f == "cos") v = std::cos(x); else if (f == "sqrt") v = std::sqrt(x);
    else if (f == "fabs") v = std::fabs(x); else if (f == "atan2") v = std::atan2(x, y); else if (f == "acos") v = std::acos(x);
    else if (f == "asin") v = std::asin(x); else if (f == "tan") v = std::tan(x); else if (f == "floor") v = std::floor(x);
    else if (f == "ceil") v = std::ceil(x); else if (f == "round") v = std::round(x); else if (f == "fmod") v = std::fmod(x, y);
    else if (f == "pow") v = std::pow(x, y); else if (f == "exp") v = std::exp(x); else if (f == "log") v = std::log(x);
    else if (f == "trunc") v = std::trunc(x);
    else known = false;
    // exact cases fold
    if (f == "sqrt" && (v == 0 || v == 1)) return cst(v);
    if (f == "fabs" && gnodes[args[0]].op == "c") return cst(v);
    if ((f == "floor" || f == "ceil" || f == "round" || f == "trunc") && gnodes[args[0]].op == "c") return cst(v);
    if ((f == "sin") && isC(args[0], 0)) return cst(0);
    if ((f == "cos") && isC(args[0], 0)) return cst(1);
  }
  u32 r = mkNode("f", args, f);
  if (k && known) { gnodes[r].isc = true; gnodes[r].c = v; }
  return r;
}

// a power with a small constant exponent is a product or a root
static u32 power(u32 x, u32 y) {
  double e; bool ex;
  if (cval(y, e) && gnodes[y].op == "c" && std::fabs(e) <= 8 && (ex = e == std::floor(e), ex || std::fabs(e) == 0.5 || std::fabs(e) == 1.5)) {
    u32 r = cst(1); double m = std::fabs(e);
    for (int i = 0; i < (int)m; ++i) r = isC(r, 1) ? x : arith("*", r, x);
    if (!ex) { u32 q = call1("sqrt", {x}); r = isC(r, 1) ? q : arith("*", r, q); }
    return e < 0 ? arith("/", cst(1), r) : r;
  }
  return call1("pow", {x, y});
}
// ------------------------------------------------------------------ arenas
struct Choice { u32 c; Val a, b; };
static std::vector<Choice> choices;
static std::vector<std::vector<Val>> aggs;
static std::map<std::vector<u64>, u32> choiceIdx;
static Val mkAgg(std::vector<Val> v) { Val r; r.k = KA; r.a = aggs.size(); aggs.push_back(std::move(v)); return r; }
static double asD(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static u64 asU(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static Val toDbl(Val v);
static void budget();
static Val mkChoice(u32 c, Val a, Val b) {
  static u32 ticks; if (!(++ticks & 4095)) budget();
  bool v; if (constBool(c, v)) return v ? a : b;
  if (gnodes[c].op == "not") return mkChoice(gnodes[c].args[0], b, a);
  if (a == b) return a;
  if (a.k == KU) return b;   // undef may take any value
  if (b.k == KU) return a;
  if (a.k == KC && choices[a.a].c == c) a = choices[a.a].a;
  if (b.k == KC && choices[b.a].c == c) b = choices[b.a].b;
  if (a == b) return a;
  if (a.k == KA && b.k == KA && aggs[a.a].size() == aggs[b.a].size()) {
    std::vector<Val> r; auto x = aggs[a.a], y = aggs[b.a];
    for (size_t i = 0; i < x.size(); ++i) r.push_back(mkChoice(c, x[i], y[i]));
    return mkAgg(r);
  }
  if ((a.k == KN && a.bits == 64) || (b.k == KN && b.bits == 64)) {
    Val x = toDbl(a), y = toDbl(b);
    if (x.k == KN && y.k == KN) return mkN(nIte(c, x.a, y.a), 64);
  }
  if (a.k == KN && b.k == KN && a.bits == 32 && b.bits == 32) return mkN(nIte(c, a.a, b.a), 32);
  auto isb = [](Val v) { return v.bits == 1 && (v.k == KN || v.k == KI); };
  if (isb(a) && isb(b)) {
    u32 x = a.k == KN ? a.a : (a.b ? nTrue() : nFalse()), y = b.k == KN ? b.a : (b.b ? nTrue() : nFalse());
    u32 r = nBIte(c, x, y); bool cv;
    if (constBool(r, cv)) return mkI(cv, 1);
    return mkN(r, 1);
  }
  std::vector<u64> key{c, (u64)a.k << 8 | a.bits, a.a, a.b, (u64)b.k << 8 | b.bits, b.a, b.b};
  auto it = choiceIdx.find(key);
  Val r; r.k = KC; r.bits = a.bits;
  if (it != choiceIdx.end()) { r.a = it->second; return r; }
  r.a = choices.size(); choices.push_back({c, a, b}); choiceIdx[key] = r.a;
  return r;
}
static Val toDbl(Val v) {
  if (v.k == KI && v.bits == 64) return mkN(cst(asD(v.b)), 64);
  if (v.k == KC) { Choice ch = choices[v.a]; return mkChoice(ch.c, toDbl(ch.a), toDbl(ch.b)); }
  return v;
}
static Val mapV(Val v, const std::function<Val(Val)> &f) {
  if (v.k == KC) { Choice ch = choices[v.a]; Val a = mapV(ch.a, f); Val b = mapV(ch.b, f); return mkChoice(ch.c, a, b); }
  return f(v);
}
static Val mapV2(Val x, Val y, const std::function<Val(Val, Val)> &f) {
  if (x.k == KC) { Choice ch = choices[x.a];
    Val ya = y, yb = y;
    if (y.k == KC && choices[y.a].c == ch.c) { Choice cy = choices[y.a]; ya = cy.a; yb = cy.b; }
    Val a = mapV2(ch.a, ya, f); Val b = mapV2(ch.b, yb, f); return mkChoice(ch.c, a, b); }
  if (y.k == KC) { Choice ch = choices[y.a]; Val a = mapV2(x, ch.a, f); Val b = mapV2(x, ch.b, f); return mkChoice(ch.c, a, b); }
  return f(x, y);
}

// ------------------------------------------------------------------ memory
struct Byte { u32 v = 0; u32 i = 0; };   // v: 0 uninit; 1..256 concrete byte; else vals[v-257], fragment i
struct Frag { Val v; u32 size; };
static std::vector<Frag> vals;
struct Obj { std::vector<Byte> b; bool live = true; u32 fc = 0; /* node: condition under which it was released (0: never) */ uint8_t kind = 0; /*0 stack 1 heap 2 global 3 func*/ bool ro = false; };
typedef std::vector<std::shared_ptr<Obj>> Mem;
static Mem mem;
static std::vector<Function *> objFunc;   // by object id (nullptr if not a function)
static std::vector<std::string> objName;

struct Fail { std::string msg; };
[[noreturn]] static void fail(const std::string &m) { throw Fail{m}; }

static u32 newObj(u64 size, uint8_t kind, const std::string &name) {
  if (size > (1u << 26)) fail("object too large: " + name);
  auto o = std::make_shared<Obj>(); o->b.resize(size); o->kind = kind;
  mem.push_back(o);
  if (objFunc.size() < mem.size()) { objFunc.resize(mem.size(), nullptr); objName.resize(mem.size()); }
  objName[mem.size() - 1] = name;
  return mem.size() - 1;
}
struct Issue { std::string kind, msg, loc; std::string guard; };
static std::vector<Issue> issues;
static std::set<std::string> issueKeys;
static std::string curLocS();
static std::string guardS();
static void issue(const std::string &kind, const std::string &msg) {
  std::string l = curLocS();
  if (issueKeys.insert(kind + msg + l).second) issues.push_back({kind, msg, l, guardS()});
}
struct AbortX { std::string why; };

static Obj &wobj(u32 o) {
  if (mem[o].use_count() > 1) mem[o] = std::make_shared<Obj>(*mem[o]);
  return *mem[o];
}
static bool checkAcc(Val p, u64 n, bool write) {
  if (p.a == 0 || p.a >= mem.size() || !mem[p.a]) {
    issue("invalid-access", std::string(write ? "write" : "read") + " through a null or wild pointer");
    return false;
  }
  Obj &o = *mem[p.a];
  if (!o.live) { issue("use-after-free", std::string(write ? "write" : "read") + " of released storage " + objName[p.a]); return false; }
  if (p.b > o.b.size() || p.b + n > o.b.size()) {
    issue("out-of-bounds", std::string(write ? "write" : "read") + " outside an object (" + objName[p.a] + ")");
    return false;
  }
  return true;
}
static u32 addVal(Val v, u32 size) { vals.push_back({v, size}); return vals.size() - 1 + 257; }
static void storeBytes(Val p, Val v, u32 size) {
  if (!checkAcc(p, size, true)) throw AbortX{"invalid write"};
  Obj &o = wobj(p.a);
  if (v.k == KI) { for (u32 i = 0; i < size; ++i) o.b[p.b + i] = {1 + (u32)((i < 8 ? v.b >> (8 * i) : 0) & 0xff), 0}; return; }
  if (v.k == KN && v.bits == 64 && gnodes[v.a].op == "c") { storeBytes(p, mkI(asU(gnodes[v.a].c), 64), 8); return; }
  if (v.k == KU) { for (u32 i = 0; i < size; ++i) o.b[p.b + i] = {0, 0}; return; }
  u32 id = addVal(v, size);
  for (u32 i = 0; i < size; ++i) o.b[p.b + i] = {id, i};
}
static Val subInt(Val v, u32 from, u32 size) {   // bytes [from, from+size) of integer value
  return mapV(v, [&](Val x) -> Val {
    if (x.k == KI) return mkI(x.b >> (8 * from), size * 8);
    if (x.k == KN && x.bits == 64 && gnodes[x.a].op == "c") return mkI(asU(gnodes[x.a].c) >> (8 * from), size * 8);
    if (x.k == KU) return Val();
    fail("partial read of an abstract value at " + curLocS());
  });
}
// raw load: returns KI / KN / KP / KC / KU
static Val loadBytes(Val p, u32 size) {
  if (!checkAcc(p, size, false)) throw AbortX{"invalid read"};
  Obj &o = *mem[p.a];
  const Byte *b = &o.b[p.b];
  if (b[0].v == 0) {
    bool all = true; for (u32 i = 0; i < size; ++i) if (b[i].v) all = false;
    if (all) return Val();
  }
  bool conc = size <= 8;
  for (u32 i = 0; i < size && conc; ++i) if (!(b[i].v >= 1 && b[i].v <= 256)) conc = false;
  if (conc) { u64 r = 0; for (u32 i = 0; i < size; ++i) r |= (u64)(b[i].v - 1) << (8 * i); return mkI(r, size * 8); }
  if (b[0].v >= 257 && b[0].i == 0 && vals[b[0].v - 257].size == size) {
    bool ok = true; for (u32 i = 0; i < size; ++i) if (b[i].v != b[0].v || b[i].i != i) ok = false;
    if (ok) return vals[b[0].v - 257].v;
  }
  if (b[0].v >= 257) {   // a slice of one value
    bool ok = true; for (u32 i = 0; i < size; ++i) if (b[i].v != b[0].v || b[i].i != b[0].i + i) ok = false;
    if (ok) return subInt(vals[b[0].v - 257].v, b[0].i, size);
  }
  // mixture: assemble byte by byte from integer fragments
  Val acc = mkI(0, size * 8);
  for (u32 i = 0; i < size; ++i) {
    Val x;
    if (b[i].v == 0) return Val();   // partly uninitialised (padding)
    if (b[i].v <= 256) x = mkI(b[i].v - 1, 8);
    else x = subInt(vals[b[i].v - 257].v, b[i].i, 1);
    acc = mapV2(acc, x, [&](Val q, Val w) -> Val {
      if (q.k != KI || w.k != KI) return Val();
      return mkI(q.b | (w.b << (8 * i)), size * 8); });
  }
  return acc;
}
// merge two memories under condition c (true -> m1)
static void mergeMem(u32 c, Mem &m1, Mem &m2, size_t base) {
  Mem &out = m1;
  if (m2.size() > out.size()) out.resize(m2.size());
  if (out.size() > m2.size()) m2.resize(out.size());
  for (size_t o = 0; o < out.size(); ++o) {
    auto &x = out[o]; auto &y = m2[o];
    if (x == y) continue;
    if (!x) { if (o >= base) x = y; continue; }
    if (!y) { if (o < base) x = nullptr; continue; }
    auto r = std::make_shared<Obj>(*x);
    if (x->live != y->live || x->fc != y->fc) {   // released on one side: contents are those of the other side
      u32 fx = !x->live ? nTrue() : x->fc ? x->fc : nFalse(), fy = !y->live ? nTrue() : y->fc ? y->fc : nFalse();
      u32 f = nBIte(c, fx, fy); bool cv;
      if (constBool(f, cv)) { r->live = !cv; r->fc = 0; } else { r->live = true; r->fc = f; }
      if (x->live != y->live) { auto &l = x->live ? x : y; r->b = l->b; x = r; continue; }
    }
    size_t n = std::min(x->b.size(), y->b.size());
    for (size_t i = 0; i < n;) {
      const Byte &p = x->b[i], &q = y->b[i];
      if (p.v == q.v && p.i == q.i) { ++i; continue; }
      // extent
      size_t sz = 0, st = i;
      if (p.v >= 257) { st = i - p.i; sz = vals[p.v - 257].size; }
      if (q.v >= 257) { size_t s2 = i - q.i, z2 = vals[q.v - 257].size; if (sz == 0 || z2 > sz) { st = s2; sz = z2; } }
      if (sz == 0) {
        // concrete or uninitialised on both sides: the widest aligned chunk that is concrete on both
        for (size_t w : {8, 4, 2, 1}) {
          st = i / w * w; if (st + w > n) continue; bool ok = true;
          for (size_t k = 0; k < w; ++k) if (x->b[st + k].v > 256 || y->b[st + k].v > 256) ok = false;
          if (w > 1) for (size_t k = 0; k < w; ++k) if (x->b[st + k].v == 0 || y->b[st + k].v == 0) ok = false;
          if (ok) { sz = w; break; }
        }
        if (sz == 0) { st = i; sz = 1; }
      }
      if (st + sz > n) { ++i; continue; }
      // load from each side
      Mem keep; keep.swap(mem);
      mem.resize(2); mem[1] = x; Val a = loadBytes(mkP(1, st), sz);
      mem[1] = y; Val b2 = loadBytes(mkP(1, st), sz);
      mem[1] = r; mem[1] = nullptr;
      Val m = mkChoice(c, a, b2);
      mem[1] = r;
      auto tmp = r; r.reset();
      mem[1] = tmp; tmp.reset();
      storeBytes(mkP(1, st), m, sz);
      r = mem[1];
      mem.swap(keep);
      i = st + sz;
    }
    x = r;
  }
}

// ------------------------------------------------------------------ module state
static Module *M;
static const DataLayout *DL;
static std::vector<const Instruction *> callStack;
static const Instruction *curI = nullptr;
static std::string repoPrefix = "/repo/";
static std::set<std::string> repoFuncs;
static std::set<std::string> havocCalls;
static u64 nInst = 0, nJoin = 0, nCalls = 0;
static u64 maxInst = 400000000ull, maxSec = 300;
// comparisons of an integer with a literal in repository code: largest value met, outcomes met (sizes the analysed cases did not reach)
struct Gate { std::string loc; int64_t k; int64_t mx; int mask; };
static std::map<const Instruction *, Gate> gates;
static void gate(const Instruction *I, ICmpInst::Predicate p, const Val &x, const Val &y, const Val &r);
static void budget() { if (clock() > (clock_t)maxSec * CLOCKS_PER_SEC) fail("analysis budget exceeded"); }
static int loopBound = 8;
static std::vector<std::pair<u32, bool>> facts;

static DenseMap<const Instruction *, u32> instLoc;
static bool inRepo(const DILocation *L, std::string &s) {
  std::string f = L->getFilename().str(), d = L->getDirectory().str();
  std::string p = (f.size() && f[0] == '/') ? f : d + "/" + f;
  if (p.compare(0, repoPrefix.size(), repoPrefix) != 0) return false;
  DISubprogram *sp = L->getScope()->getSubprogram();
  std::string fn = sp ? (sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str())) : "";
  s = p.substr(repoPrefix.size()) + ":" + std::to_string(L->getLine()) + " (" + fn + ")";
  return true;
}
static u32 locOf(const Instruction *I) {
  auto it = instLoc.find(I);
  if (it != instLoc.end()) return it->second;
  u32 r = 0;
  for (const DILocation *L = I->getDebugLoc().get(); L; L = L->getInlinedAt()) {
    std::string s;
    if (inRepo(L, s)) {
      auto q = locIdx.find(s);
      if (q == locIdx.end()) { locIdx[s] = locs.size(); r = locs.size(); locs.push_back(s); } else r = q->second;
      break;
    }
  }
  // remember which repository functions were analysed
  for (const DILocation *L = I->getDebugLoc().get(); L; L = L->getInlinedAt()) {
    std::string s; if (inRepo(L, s)) { auto a = s.find('('); auto f = s.substr(0, s.find(':')); repoFuncs.insert(f + " " + s.substr(a + 1, s.size() - a - 2)); }
  }
  instLoc[I] = r;
  return r;
}
static u32 curLoc() {
  if (curI) { u32 l = locOf(curI); if (l) return l; }
  for (size_t i = callStack.size(); i-- > 0;) { u32 l = locOf(callStack[i]); if (l) return l; }
  return 0;
}
static void gate(const Instruction *I, ICmpInst::Predicate p, const Val &x, const Val &y, const Val &r) {
  if (x.k != KI || y.k != KI || r.k != KI) return;
  bool lx = isa<ConstantInt>(I->getOperand(0)), ly = isa<ConstantInt>(I->getOperand(1)); if (lx == ly) return;
  auto it = gates.find(I);
  if (it == gates.end()) {
    const DILocation *L = I->getDebugLoc().get(); std::string s; Gate g; g.k = sx(lx ? x.b : y.b, x.bits); g.mx = INT64_MIN; g.mask = 0;
    if (L && inRepo(L, s)) g.loc = s;
    else if (!L) if (auto *sp = I->getFunction()->getSubprogram()) {   // a comparison moved by simplification carries no line of its own
      std::string f = sp->getFilename().str(); if (f.empty() || f[0] != '/') f = sp->getDirectory().str() + "/" + f;
      if (f.compare(0, repoPrefix.size(), repoPrefix) == 0) g.loc = f.substr(repoPrefix.size()) + " (" + demangle(sp->getLinkageName().str()) + ")";
    }
    it = gates.emplace(I, g).first;
  }
  if (it->second.loc.empty()) return;
  it->second.mx = std::max<int64_t>(it->second.mx, sx(lx ? y.b : x.b, x.bits)); it->second.mask |= r.b ? 1 : 2;
}
static std::string curLocS() { return locs[curLoc()]; }
static std::string guardS() {
  std::string s; for (auto &f : facts) s += (f.second ? "" : "!") + std::to_string(f.first) + " "; return s;
}
static bool known(u32 c, bool &v) {
  if (constBool(c, v)) return true;
  if (gnodes[c].op == "not") { if (known(gnodes[c].args[0], v)) { v = !v; return true; } return false; }
  for (size_t i = facts.size(); i-- > 0;) if (facts[i].first == c) { v = facts[i].second; return true; }
  if (gnodes[c].op == "and") {
    bool x, y; bool kx = known(gnodes[c].args[0], x), ky = known(gnodes[c].args[1], y);
    if ((kx && !x) || (ky && !y)) { v = false; return true; }
    if (kx && ky) { v = true; return true; }
  }
  if (gnodes[c].op == "or") {
    bool x, y; bool kx = known(gnodes[c].args[0], x), ky = known(gnodes[c].args[1], y);
    if ((kx && x) || (ky && y)) { v = true; return true; }
    if (kx && ky) { v = false; return true; }
  }
  return false;
}
static void pushFact(u32 c, bool v) {
  if (gnodes[c].op == "not") { pushFact(gnodes[c].args[0], !v); return; }
  facts.push_back({c, v});
  if (gnodes[c].op == "and" && v) { pushFact(gnodes[c].args[0], true); pushFact(gnodes[c].args[1], true); }
  if (gnodes[c].op == "or" && !v) { pushFact(gnodes[c].args[0], false); pushFact(gnodes[c].args[1], false); }
}
static Val prune(Val v) {
  while (v.k == KC) { bool b; if (known(choices[v.a].c, b)) v = b ? choices[v.a].a : choices[v.a].b; else break; }
  if (v.k == KN && v.bits == 1) { bool b; if (known(v.a, b)) return mkI(b, 1); }
  return v;
}

// ------------------------------------------------------------------ constants, globals
static std::map<const GlobalVariable *, u32> gObj;
static std::map<const Function *, u32> fObj;
static Val constVal(const Constant *C);
static void initGlobal(Val p, const Constant *C) {
  Type *T = C->getType();
  if (isa<UndefValue>(C)) return;
  if (C->isNullValue() && !isa<GlobalValue>(C)) { Obj &o = wobj(p.a); u64 n = DL->getTypeStoreSize(T); for (u64 i = 0; i < n; ++i) o.b[p.b + i] = {1, 0}; return; }
  if (auto *S = dyn_cast<ConstantStruct>(C)) {
    auto *L = DL->getStructLayout(cast<StructType>(T));
    for (unsigned i = 0; i < S->getNumOperands(); ++i) initGlobal(mkP(p.a, p.b + L->getElementOffset(i)), S->getOperand(i));
    return;
  }
  if (isa<ConstantArray>(C) || isa<ConstantVector>(C)) {
    Type *ET = C->getOperand(0)->getType(); u64 es = DL->getTypeAllocSize(ET);
    for (unsigned i = 0; i < C->getNumOperands(); ++i) initGlobal(mkP(p.a, p.b + i * es), cast<Constant>(C->getOperand(i)));
    return;
  }
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
    u64 es = DL->getTypeAllocSize(D->getElementType());
    for (unsigned i = 0; i < D->getNumElements(); ++i) initGlobal(mkP(p.a, p.b + i * es), D->getElementAsConstant(i));
    return;
  }
  storeBytes(p, constVal(C), DL->getTypeStoreSize(T));
}
static u32 funcObj(Function *F) {
  auto it = fObj.find(F); if (it != fObj.end()) return it->second;
  u32 o = newObj(1, 3, F->getName().str()); objFunc[o] = F; fObj[F] = o; return o;
}
// globals and functions are created up front so that every branch copy of the memory has them
static u32 globalObj(const GlobalVariable *G) {
  auto it = gObj.find(G); if (it != gObj.end()) return it->second;
  fail("global not prepared: " + G->getName().str());
}
static void prepareGlobals() {
  for (auto &F : *M) funcObj(&F);
  for (auto &G : M->globals()) {
    u64 n = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8;
    gObj[&G] = newObj(n, 2, G.getName().str());
  }
  for (auto &G : M->globals()) {
    if (G.hasInitializer()) initGlobal(mkP(gObj[&G], 0), G.getInitializer());
    else { Obj &o = wobj(gObj[&G]); for (auto &b : o.b) b = {1, 0}; }
  }
}
static Val constVal(const Constant *C) {
  Type *T = C->getType();
  if (auto *I = dyn_cast<ConstantInt>(C)) { if (I->getBitWidth() > 64) fail("wide int constant"); return mkI(I->getZExtValue(), I->getBitWidth()); }
  if (auto *F = dyn_cast<ConstantFP>(C)) {
    if (T->isDoubleTy()) return mkN(cst(F->getValueAPF().convertToDouble()), 64);
    if (T->isFloatTy()) return mkN(cst(F->getValueAPF().convertToFloat()), 32);
    APFloat v = F->getValueAPF(); bool li; v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    return mkN(cst(v.convertToDouble()), 64);
  }
  if (isa<ConstantPointerNull>(C)) return mkP(0, 0);
  if (isa<UndefValue>(C)) {
    if (T->isStructTy()) { std::vector<Val> v(T->getStructNumElements()); return mkAgg(v); }
    if (auto *AT = dyn_cast<ArrayType>(T)) { std::vector<Val> v(AT->getNumElements()); return mkAgg(v); }
    if (auto *VT = dyn_cast<FixedVectorType>(T)) { std::vector<Val> v(VT->getNumElements()); return mkAgg(v); }
    return Val();
  }
  if (auto *F = dyn_cast<Function>(C)) return mkP(funcObj(const_cast<Function *>(F)), 0);
  if (auto *G = dyn_cast<GlobalVariable>(C)) return mkP(globalObj(G), 0);
  if (auto *A = dyn_cast<GlobalAlias>(C)) return constVal(A->getAliasee());
  if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
    unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
    std::vector<Val> v; for (unsigned i = 0; i < n; ++i) v.push_back(constVal(C->getAggregateElement(i)));
    return mkAgg(v);
  }
  if (auto *E = dyn_cast<ConstantExpr>(C)) {
    switch (E->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0); auto *G = cast<GEPOperator>(E);
      if (!G->accumulateConstantOffset(*DL, off)) fail("const gep");
      Val p = constVal(cast<Constant>(G->getPointerOperand())); p.b += off.getSExtValue(); return p; }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(E->getOperand(0));
    case Instruction::IntToPtr: { Val v = constVal(E->getOperand(0)); if (v.k == KI) return mkP(0, v.b); return v; }
    case Instruction::PtrToInt: return constVal(E->getOperand(0));
    case Instruction::Sub: { Val a = constVal(E->getOperand(0)), b = constVal(E->getOperand(1));
      if (a.k == KP && b.k == KP && a.a == b.a) return mkI(a.b - b.b, 64); if (a.k == KI && b.k == KI) return mkI(a.b - b.b, a.bits); break; }
    case Instruction::Trunc: { Val a = constVal(E->getOperand(0)); if (a.k == KI) return mkI(a.b, T->getIntegerBitWidth()); break; }
    default: break;
    }
  }
  if (C->isNullValue()) return mkI(0, 64);
  std::string s; raw_string_ostream os(s); C->print(os); fail("constant: " + s);
}

// ------------------------------------------------------------------ function info
struct FInfo {
  DenseMap<const Value *, u32> idx; u32 n = 0;
  DenseMap<const BasicBlock *, const BasicBlock *> ipdom;   // null = virtual exit
  DenseMap<const BasicBlock *, int> limit;                  // blocks in counted loops: nested splits allowed
};
static std::map<const Function *, std::unique_ptr<FInfo>> finfos;
static std::vector<const BasicBlock *> succs(const BasicBlock *B) {
  std::vector<const BasicBlock *> r; const Instruction *T = B->getTerminator();
  if (auto *I = dyn_cast<InvokeInst>(T)) { r.push_back(I->getNormalDest()); return r; }
  for (unsigned i = 0; i < T->getNumSuccessors(); ++i) r.push_back(T->getSuccessor(i));
  return r;
}
static FInfo &finfo(const Function *F) {
  auto &p = finfos[F]; if (p) return *p;
  p.reset(new FInfo); FInfo &f = *p;
  for (auto &A : F->args()) f.idx[&A] = f.n++;
  for (auto &B : *F) for (auto &I : B) if (!I.getType()->isVoidTy()) f.idx[&I] = f.n++;
  // blocks that can reach a return
  std::vector<const BasicBlock *> bl; DenseMap<const BasicBlock *, int> id;
  for (auto &B : *F) { id[&B] = bl.size(); bl.push_back(&B); }
  int n = bl.size(); std::vector<std::vector<int>> su(n), pr(n + 1);
  std::vector<char> ok(n, 0);
  for (int i = 0; i < n; ++i) for (auto *s : succs(bl[i])) su[i].push_back(id[s]);
  for (int i = 0; i < n; ++i) if (isa<ReturnInst>(bl[i]->getTerminator())) ok[i] = 1;
  for (bool ch = true; ch;) { ch = false; for (int i = 0; i < n; ++i) if (!ok[i]) for (int s : su[i]) if (ok[s]) { ok[i] = 1; ch = true; break; } }
  // post order on reverse graph from virtual exit n
  for (int i = 0; i < n; ++i) if (ok[i]) { if (isa<ReturnInst>(bl[i]->getTerminator())) pr[n].push_back(i); for (int s : su[i]) if (ok[s]) pr[s].push_back(i); }
  std::vector<int> po(n + 1, -1), order; std::vector<char> vis(n + 1, 0);
  std::vector<std::pair<int, size_t>> st{{n, 0}}; vis[n] = 1;
  while (!st.empty()) { auto &t = st.back(); if (t.second < pr[t.first].size()) { int q = pr[t.first][t.second++]; if (!vis[q]) { vis[q] = 1; st.push_back({q, 0}); } } else { po[t.first] = order.size(); order.push_back(t.first); st.pop_back(); } }
  std::vector<int> idom(n + 1, -1); idom[n] = n;
  for (bool ch = true; ch;) { ch = false;
    for (int k = (int)order.size() - 1; k >= 0; --k) { int b = order[k]; if (b == n) continue; int nd = -1;
      auto consider = [&](int s) { if (idom[s] < 0) return; if (nd < 0) nd = s; else { int x = s, y = nd; while (x != y) { while (po[x] < po[y]) x = idom[x]; while (po[y] < po[x]) y = idom[y]; } nd = x; } };
      if (isa<ReturnInst>(bl[b]->getTerminator())) consider(n);
      for (int s : su[b]) if (ok[s]) consider(s);
      if (nd >= 0 && idom[b] != nd) { idom[b] = nd; ch = true; } } }
  // a loop with an integer exit test ends by itself: its early exits may be unrolled further than the bound
  DominatorTree dt(const_cast<Function &>(*F)); LoopInfo li(dt);
  for (auto &B : *F) if (const Loop *L = li.getLoopFor(&B)) {
    bool counted = false, calls = false; SmallVector<BasicBlock *, 8> ex; L->getExitingBlocks(ex);
    for (auto *x : ex) if (auto *br = dyn_cast<BranchInst>(x->getTerminator())) if (br->isConditional()) if (auto *ic = dyn_cast<ICmpInst>(br->getCondition())) if (ic->getOperand(0)->getType()->isIntegerTy() || ic->getOperand(0)->getType()->isPointerTy()) counted = true;
    for (auto *x : L->blocks()) for (auto &I : *x) if (auto *cb = dyn_cast<CallBase>(&I)) if (!isa<IntrinsicInst>(cb)) calls = true;
    if (counted) f.limit[&B] = calls ? (loopBound > 8 ? loopBound : 32) : 4096; }
  for (int i = 0; i < n; ++i) f.ipdom[bl[i]] = (idom[i] >= 0 && idom[i] < n) ? bl[idom[i]] : nullptr;
  return f;
}

struct Frame {
  Function *F; FInfo *fi; std::vector<Val> v; std::vector<u32> allocas;
};
static std::map<const BasicBlock *, int> symDepth;
enum Stat { REACHED, RETURNED, ABORTED };

// ------------------------------------------------------------------ inputs / outputs / events
struct Out { std::string name; int i, j; u32 node; std::string loc; };
static std::vector<Out> gouts;
struct Ev { std::string name; std::vector<u32> args; std::string guard; std::string loc; };
static std::vector<Ev> events;
struct Opaque { std::regex re; std::string name; std::vector<std::pair<int, int>> ins, gouts; std::vector<int> vins; bool ret = false; bool noop = false; bool abort = false; bool estr = false; int ev = -1, ival = 0; std::vector<Function*> hits; };
static std::vector<Opaque> opaques;
static std::map<const Function *, int> opaqueOf;

static Val exec(Function *F, std::vector<Val> args);
static Val getV(Frame &fr, const Value *V) {
  if (auto *C = dyn_cast<Constant>(V)) return constVal(C);
  auto it = fr.fi->idx.find(V);
  if (it == fr.fi->idx.end()) fail("no value index");
  return prune(fr.v[it->second]);
}
static std::string readStr(Val p) {
  std::string s; for (;; ++p.b) { Val c = loadBytes(p, 1); if (c.k != KI) fail("string"); if (!c.b) break; s.push_back((char)c.b); } return s;
}
static u32 boolNode(Val v) {
  if (v.k == KI) return v.b ? nTrue() : nFalse();
  if (v.k == KN) return v.a;
  if (v.k == KC) { Choice c = choices[v.a]; return nBIte(c.c, boolNode(c.a), boolNode(c.b)); }
  fail("undefined boolean at " + curLocS());
}
static Val bval(u32 n) { bool v; if (constBool(n, v)) return mkI(v, 1); if (known(n, v)) return mkI(v, 1); return mkN(n, 1); }
static u32 dnode(Val v) {
  v = toDbl(v);
  if (v.k == KN) return v.a;
  if (v.k == KU) { issue("uninitialised", "uninitialised floating-point value used"); return mkNode("undef", {}, curLocS()); }
  fail("expected a double at " + curLocS());
}
static Val loadT(Val p, Type *T) {
  if (p.k == KC) { Choice c = choices[p.a]; Val a = loadT(c.a, T), b = loadT(c.b, T); return mkChoice(c.c, a, b); }
  if (p.k != KP) { if (p.k == KI) p = mkP(0, p.b); else { issue("invalid-access", "read through an undefined pointer"); throw AbortX{"undefined pointer"}; } }
  if (T->isStructTy()) { auto *L = DL->getStructLayout(cast<StructType>(T)); std::vector<Val> r; for (unsigned i = 0; i < T->getStructNumElements(); ++i) r.push_back(loadT(mkP(p.a, p.b + L->getElementOffset(i)), T->getStructElementType(i))); return mkAgg(r); }
  if (auto *AT = dyn_cast<ArrayType>(T)) { std::vector<Val> r; u64 es = DL->getTypeAllocSize(AT->getElementType()); for (u64 i = 0; i < AT->getNumElements(); ++i) r.push_back(loadT(mkP(p.a, p.b + i * es), AT->getElementType())); return mkAgg(r); }
  if (auto *VT = dyn_cast<FixedVectorType>(T)) { std::vector<Val> r; u64 es = DL->getTypeAllocSize(VT->getElementType()); for (u64 i = 0; i < VT->getNumElements(); ++i) r.push_back(loadT(mkP(p.a, p.b + i * es), VT->getElementType())); return mkAgg(r); }
  Val v = loadBytes(p, DL->getTypeStoreSize(T));
  if (T->isDoubleTy()) { if (v.k == KU) return v; return toDbl(v); }
  if (T->isFloatTy()) return mapV(v, [&](Val x) -> Val { if (x.k == KI) { float f; u32 u = x.b; memcpy(&f, &u, 4); return mkN(cst(f), 32); } return x; });
  if (T->isX86_FP80Ty()) return v;
  if (T->isPointerTy()) return mapV(v, [&](Val x) -> Val { if (x.k == KI) return mkP(0, x.b); return x; });
  if (auto *IT = dyn_cast<IntegerType>(T)) { unsigned w = IT->getBitWidth();
    return mapV(v, [&](Val x) -> Val { if (x.k == KI) return mkI(x.b, w); if (x.k == KP && x.a == 0) return mkI(x.b, w); if (x.k == KN && x.bits == 1) x.bits = 1; return x; }); }
  return v;
}
static void storeT(Val p, Val v, Type *T) {
  if (p.k == KC) {
    Choice c = choices[p.a]; 
    auto cond = [&](Val q, u32 cc, bool inv) { Val old = loadT(q, T); storeT(q, inv ? mkChoice(cc, old, v) : mkChoice(cc, v, old), T); };
    cond(c.a, c.c, false); cond(c.b, c.c, true); return;
  }
  if (p.k != KP) { issue("invalid-access", "write through an undefined pointer"); throw AbortX{"undefined pointer"}; }
  if (T->isStructTy() && v.k == KA) { auto *L = DL->getStructLayout(cast<StructType>(T)); auto a = aggs[v.a]; for (unsigned i = 0; i < a.size(); ++i) storeT(mkP(p.a, p.b + L->getElementOffset(i)), a[i], T->getStructElementType(i)); return; }
  if ((T->isArrayTy() || T->isVectorTy()) && v.k == KA) { Type *E = T->isArrayTy() ? T->getArrayElementType() : cast<VectorType>(T)->getElementType(); u64 es = DL->getTypeAllocSize(E); auto a = aggs[v.a]; for (unsigned i = 0; i < a.size(); ++i) storeT(mkP(p.a, p.b + i * es), a[i], E); return; }
  if (v.k == KN && v.bits == 1) v = mkChoice(v.a, mkI(1, 8), mkI(0, 8));
  if (v.k == KI) v.bits = DL->getTypeStoreSize(T) * 8;
  if (T->isFloatTy()) v = mapV(v, [&](Val x) -> Val { if (x.k == KN && gnodes[x.a].op == "c") { float f = gnodes[x.a].c; u32 u; memcpy(&u, &f, 4); return mkI(u, 32); } return x; });
  storeBytes(p, v, DL->getTypeStoreSize(T));
}
static void copyBytes(Val d, Val s, u64 n) {
  if (n == 0) return;
  if (d.k == KC) { Choice c = choices[d.a]; (void)c; fail("memcpy to a gated pointer at " + curLocS()); }
  if (s.k == KC) {
    // gated source: word-wise gated copy
    for (u64 i = 0; i < n;) { u64 w = (n - i >= 8) ? 8 : 1;
      std::function<Val(Val)> ld = [&](Val q) -> Val { if (q.k == KC) { Choice c = choices[q.a]; Val a = ld(c.a), b = ld(c.b); return mkChoice(c.c, a, b); } return loadBytes(mkP(q.a, q.b + i), w); };
      storeBytes(mkP(d.a, d.b + i), ld(s), w); i += w; }
    return;
  }
  if (d.k != KP || s.k != KP) fail("memcpy operands");
  if (!checkAcc(s, n, false) || !checkAcc(d, n, true)) throw AbortX{"invalid copy"};
  std::vector<Byte> t(mem[s.a]->b.begin() + s.b, mem[s.a]->b.begin() + s.b + n);
  Obj &o = wobj(d.a); std::copy(t.begin(), t.end(), o.b.begin() + d.b);
}
static std::vector<u32> readDbls(Val p, int n) {
  std::vector<u32> r; Type *D = Type::getDoubleTy(M->getContext());
  auto at = [&](int i) { return mapV(p, [&](Val q) -> Val { q.b += 8 * i; return q; }); };
  for (int i = 0; i < n; ++i) r.push_back(dnode(loadT(at(i), D)));
  return r;
}
static void writeOpaque(const std::string &name, const std::vector<u32> &args, Val p, int n, int from) {
  Type *D = Type::getDoubleTy(M->getContext());
  u32 t = mkNode("op", args, name);
  auto at = [&](int i) { return mapV(p, [&](Val q) -> Val { q.b += 8 * i; return q; }); };
  for (int i = 0; i < n; ++i) storeT(at(i), mkN(mkNode("proj", {t}, std::to_string(from + i)), 64), D);
}
static int64_t cint(Val v, const char *what) { v = prune(v); if (v.k == KI) return sx(v.b, v.bits); if (v.k == KP && v.a == 0) return v.b; fail(std::string("constant integer expected: ") + what + " at " + curLocS()); }
static u32 intNode(Val v) {
  if (v.k == KI) return cst((double)sx(v.b, v.bits));
  if (v.k == KN && v.bits == 1) return nIte(v.a, cst(1), cst(0));
  if (v.k == KC) { Choice c = choices[v.a]; return nIte(c.c, intNode(c.a), intNode(c.b)); }
  if (v.k == KP) return mkNode("ptr", {}, std::to_string(v.a) + "+" + std::to_string(v.b));
  if (v.k == KN) return v.a;
  return mkNode("undef", {}, "int");
}

// returns true if handled
static bool external(Function *F, CallBase *CB, std::vector<Val> &a, Val &ret) {
  std::string n = F->getName().str();
  Type *RT = F->getReturnType();
  auto D = [&](u32 x) { ret = mkN(x, 64); return true; };
  if (n == "vf_in") { std::string s = readStr(a[0]); int i = cint(a[1], "vf_in"), j = cint(a[2], "vf_in"); return D(mkNode("v", {}, s + "[" + std::to_string(i) + "," + std::to_string(j) + "]")); }
  if (n == "vf_bool") { std::string s = readStr(a[0]); ret = mkChoice(mkNode("b", {}, s), mkI(1, 32), mkI(0, 32)); return true; }
  if (n == "vf_out") { std::string s = readStr(a[0]); gouts.push_back({s, (int)cint(a[1], "i"), (int)cint(a[2], "j"), dnode(a[3]), ""}); ret = Val(); return true; }
  if (n == "vf_outi") { std::string s = readStr(a[0]); gouts.push_back({s, (int)cint(a[1], "i"), (int)cint(a[2], "j"), intNode(a[3]), ""}); ret = Val(); return true; }
  if (n == "vf_event") { Ev e; e.name = readStr(a[0]); e.args.push_back(intNode(a[1])); e.args.push_back(intNode(a[2])); e.guard = guardS(); e.loc = curLocS(); events.push_back(e); ret = Val(); return true; }
  if (n == "vf_opaque") { // name, in, nin, out, nout
    std::string s = readStr(a[0]); int ni = cint(a[2], "nin"), no = cint(a[4], "nout"); auto in = readDbls(a[1], ni); writeOpaque(s, in, a[3], no, 0); ret = Val(); return true; }
  if (n == "vf_live") { Val p = prune(a[0]); if (p.k != KP) fail("vf_live"); ret = mkI(p.a && mem[p.a] && mem[p.a]->live, 32); return true; }
  if (n == "vf_kind") { Val p = prune(a[0]); if (p.k != KP) fail("vf_kind"); ret = mkI(p.a && mem[p.a] ? mem[p.a]->kind : 9, 32); return true; }
  if (n == "vf_heap") { int c = 0; for (auto &o : mem) if (o && o->live && o->kind == 1) ++c; ret = mkI(c, 32); return true; }
  static const char *m1[] = {"sin", "cos", "tan", "sqrt", "acos", "asin", "atan", "exp", "log", "floor", "ceil", "round", "fabs", "trunc", "cbrt", "sinh", "cosh", "tanh", "nearbyint", "rint", "expm1", "log1p"};
  for (auto *f : m1) if (n == f) return D(call1(f, {dnode(a[0])}));
  static const char *m2[] = {"atan2", "pow", "fmod", "hypot", "remainder", "fmin", "fmax", "copysign"};
  for (auto *f : m2) if (n == f) {
    u32 x = dnode(a[0]), y = dnode(a[1]);
    if (n == "hypot") return D(call1("sqrt", {arith("+", arith("*", x, x), arith("*", y, y))}));
    if (n == "pow") return D(power(x, y));
    return D(call1(f, {x, y})); }
  if (n == "fma") return D(arith("+", arith("*", dnode(a[0]), dnode(a[1])), dnode(a[2])));
  if (n == "sincos") { Type *T = Type::getDoubleTy(M->getContext()); u32 x = dnode(a[0]); storeT(a[1], mkN(call1("sin", {x}), 64), T); storeT(a[2], mkN(call1("cos", {x}), 64), T); ret = Val(); return true; }
  if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmRKSt9nothrow_t") { u64 s = cint(a[0], "malloc"); ret = mkP(newObj(s, 1, "heap block allocated at " + curLocS()), 0); return true; }
  if (n == "aligned_alloc" || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t") { u64 s = cint(a[n == "aligned_alloc" ? 1 : 0], "malloc"); ret = mkP(newObj(s, 1, "heap block allocated at " + curLocS()), 0); return true; }
  if (n == "calloc") { u64 s = cint(a[0], "calloc") * cint(a[1], "calloc"); u32 o = newObj(s, 1, "heap block at " + curLocS()); for (auto &b : mem[o]->b) b = {1, 0}; ret = mkP(o, 0); return true; }
  if (n == "realloc") { Val p = prune(a[0]); u64 s = cint(a[1], "realloc"); u32 o = newObj(s, 1, "heap block at " + curLocS());
    if (p.k == KP && p.a) { u64 k = std::min<u64>(s, mem[p.a]->b.size()); std::copy(mem[p.a]->b.begin(), mem[p.a]->b.begin() + k, mem[o]->b.begin()); wobj(p.a).live = false; } ret = mkP(o, 0); return true; }
  if (n == "posix_memalign") { u64 s = cint(a[2], "posix_memalign"); Val p = mkP(newObj(s, 1, "heap block at " + curLocS()), 0); storeT(a[0], p, PointerType::getUnqual(M->getContext())); ret = mkI(0, 32); return true; }
  if (n == "free" || n == "_ZdlPv" || n == "_ZdaPv" || n == "_ZdlPvm" || n == "_ZdaPvm" || n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t") {
    Val p = prune(a[0]); ret = Val();
    if (p.k == KC) {   // gated release
      std::function<void(Val, u32)> rel = [&](Val q, u32 g) {
        if (q.k == KC) { Choice ch = choices[q.a]; rel(ch.a, nAnd(g, ch.c)); rel(ch.b, nAnd(g, nNot(ch.c))); return; }
        if (q.k != KP || q.a == 0 || !mem[q.a]) return;
        Obj &o = wobj(q.a); if (!o.live) { issue("double-free", "storage released twice"); return; }
        u32 f = o.fc ? nOr(o.fc, g) : g; bool cv;
        if (constBool(f, cv)) { if (cv) o.live = false; } else o.fc = f; };
      rel(p, nTrue()); return true; }
    if (p.k != KP || p.a == 0) return true;
    if (!mem[p.a] || !mem[p.a]->live) { issue("double-free", "storage released twice"); return true; }
    if (p.b != 0 || mem[p.a]->kind != 1) { issue("bad-free", "release of a pointer that was not allocated"); return true; }
    wobj(p.a).live = false; return true; }
  if (n == "memcpy" || n == "memmove") { copyBytes(prune(a[0]), prune(a[1]), cint(a[2], "memcpy")); ret = a[0]; return true; }
  if (n == "memset") { Val p = prune(a[0]); u64 k = cint(a[2], "memset"); Val v = prune(a[1]); if (k) { if (!checkAcc(p, k, true)) throw AbortX{"memset"}; Obj &o = wobj(p.a); for (u64 i = 0; i < k; ++i) o.b[p.b + i] = {1 + (u32)(v.b & 0xff), 0}; } ret = a[0]; return true; }
  if (n == "strlen") { ret = mkI(readStr(prune(a[0])).size(), 64); return true; }
  if (n == "memcmp" || n == "bcmp") { u64 k = cint(a[2], "memcmp"); int r = 0; for (u64 i = 0; i < k && !r; ++i) { Val x = loadBytes(mkP(a[0].a, a[0].b + i), 1), y = loadBytes(mkP(a[1].a, a[1].b + i), 1); if (x.k != KI || y.k != KI) fail("memcmp"); r = (int)x.b - (int)y.b; } ret = mkI((u32)r, 32); return true; }
  if (n == "__cxa_throw" || n == "__cxa_rethrow" || n == "abort" || n == "__assert_fail" || n == "exit" || n == "_Unwind_Resume" || n == "__clang_call_terminate" || n == "_ZSt9terminatev" || n.find("_ZSt") == 0 && n.find("__throw_") != std::string::npos)
    throw AbortX{demangle(n)};
  if (n == "__cxa_allocate_exception") { ret = mkP(newObj(256, 1, "exception"), 0); return true; }
  if (n.find("__cxa_") == 0 || n == "__gxx_personality_v0") { ret = RT->isVoidTy() ? Val() : (RT->isPointerTy() ? mkP(0, 0) : mkI(0, RT->getIntegerBitWidth())); if (n == "__cxa_guard_acquire") { ret = mkI(1, 32); } return true; }
  std::string d = demangle(n);
  auto has = [&](const char *s) { return d.find(s) != std::string::npos; };
  if (has("std::ostream") || has("basic_ostream") || has("std::ios") || has("basic_ios") || n == "putchar" || n == "puts" || n == "printf") {
    havocCalls.insert(d);
    if (RT->isVoidTy()) ret = Val(); else if (RT->isPointerTy()) ret = a.size() ? a[0] : mkP(0, 0); else ret = mkI(0, RT->isIntegerTy() ? RT->getIntegerBitWidth() : 64);
    return true; }
  static const std::regex exc("std::(exception|logic_error|out_of_range|invalid_argument|domain_error|length_error|runtime_error|range_error|overflow_error|underflow_error|bad_alloc)::~?\\1\\(.*");
  if (std::regex_match(d, exc)) { ret = RT->isVoidTy() ? Val() : a[0]; return true; }
  if (n == "__errno_location") { static u32 e = 0; if (!e) e = newObj(8, 2, "errno"); ret = mkP(e, 0); return true; }
  fail("call of an unmodelled external function: " + d + " at " + curLocS());
}

static Val fcmp(CmpInst::Predicate p, Val x, Val y) {
  u32 a = dnode(x), b = dnode(y);
  if (p == CmpInst::FCMP_TRUE) return mkI(1, 1); if (p == CmpInst::FCMP_FALSE) return mkI(0, 1);
  double u, v;
  if (cval(a, u) && cval(b, v)) {
    bool r = false, un = std::isnan(u) || std::isnan(v);
    switch (p) { case CmpInst::FCMP_OEQ: r = u == v; break; case CmpInst::FCMP_OGT: r = u > v; break; case CmpInst::FCMP_OGE: r = u >= v; break; case CmpInst::FCMP_OLT: r = u < v; break; case CmpInst::FCMP_OLE: r = u <= v; break; case CmpInst::FCMP_ONE: r = !un && u != v; break;
    case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || u == v; break; case CmpInst::FCMP_UGT: r = un || u > v; break; case CmpInst::FCMP_UGE: r = un || u >= v; break; case CmpInst::FCMP_ULT: r = un || u < v; break; case CmpInst::FCMP_ULE: r = un || u <= v; break; case CmpInst::FCMP_UNE: r = un || u != v; break; default: break; }
    return mkI(r, 1);
  }
  u32 n;
  auto nanAtom = [&]() -> u32 {
    u32 r = nFalse();
    for (u32 q : {a, b}) { double w; if (cval(q, w)) { if (std::isnan(w)) r = nTrue(); } else r = nOr(r, mkNode("nan", {q})); }
    return r; };
  switch (p) {
  case CmpInst::FCMP_ORD: return bval(nNot(nanAtom()));
  case CmpInst::FCMP_UNO: return bval(nanAtom());
  case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: if (a == b) return mkI(1, 1); n = mkNode("eq", {std::min(a, b), std::max(a, b)}); break;
  case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: if (a == b) return mkI(0, 1); n = nNot(mkNode("eq", {std::min(a, b), std::max(a, b)})); break;
  case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: if (a == b) return mkI(0, 1); n = mkNode("lt", {a, b}); break;
  case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: if (a == b) return mkI(0, 1); n = mkNode("lt", {b, a}); break;
  case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: if (a == b) return mkI(1, 1); n = nNot(mkNode("lt", {b, a})); break;
  case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: if (a == b) return mkI(1, 1); n = nNot(mkNode("lt", {a, b})); break;
  default: fail("fcmp");
  }
  return bval(n);
}
static Val icmp1(CmpInst::Predicate p, Val x, Val y) {
  if (x.k == KU || y.k == KU) return Val();
  if (x.k == KP && x.a == 0) x = mkI(x.b, 64);
  if (y.k == KP && y.a == 0) y = mkI(y.b, 64);
  if (x.k == KN && x.bits == 1) return mapV2(mkChoice(x.a, mkI(1, 1), mkI(0, 1)), y, [&](Val a, Val b) { return icmp1(p, a, b); });
  u64 a, b; int64_t sa, sb;
  if (x.k == KP || y.k == KP) {
    if (x.k == KP && y.k == KP && x.a == y.a) { a = x.b; b = y.b; sa = a; sb = b; }
    else {
      auto ad = [](Val v) -> u64 { return v.k == KP ? ((u64)v.a << 28) + v.b : v.b; };
      a = ad(x); b = ad(y); sa = a; sb = b;
    }
  } else if (x.k == KI && y.k == KI) { a = x.b; b = y.b; sa = sx(a, x.bits); sb = sx(b, y.bits); }
  else if (x.k == KN && y.k == KI && x.bits == 64) {
    // bit-pattern test of a floating value: sign test only
    if (p == CmpInst::ICMP_SLT && y.b == 0) return bval(mkNode("lt", {x.a, cst(0)}));
    if (p == CmpInst::ICMP_SGT && y.b == ~0ull) return bval(nNot(mkNode("lt", {x.a, cst(0)})));
    fail("integer comparison of a floating value at " + curLocS());
  }
  else fail("icmp operands at " + curLocS());
  bool r = false;
  switch (p) { case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break; case CmpInst::ICMP_UGT: r = a > b; break; case CmpInst::ICMP_UGE: r = a >= b; break; case CmpInst::ICMP_ULT: r = a < b; break; case CmpInst::ICMP_ULE: r = a <= b; break; case CmpInst::ICMP_SGT: r = sa > sb; break; case CmpInst::ICMP_SGE: r = sa >= sb; break; case CmpInst::ICMP_SLT: r = sa < sb; break; case CmpInst::ICMP_SLE: r = sa <= sb; break; default: fail("icmp"); }
  return mkI(r, 1);
}
static Val ibin(unsigned op, Val x, Val y) {
  if (x.k == KN && x.bits == 1 || y.k == KN && y.bits == 1) {
    if ((x.k == KN || x.k == KI) && (y.k == KN || y.k == KI) && x.bits == 1 && y.bits == 1) {
      u32 a = boolNode(x), b = boolNode(y);
      if (op == Instruction::And) return bval(nAnd(a, b));
      if (op == Instruction::Or) return bval(nOr(a, b));
      if (op == Instruction::Xor || op == Instruction::Add || op == Instruction::Sub) return bval(nOr(nAnd(a, nNot(b)), nAnd(nNot(a), b)));
    }
  }
  if (x.k == KU || y.k == KU) return Val();
  if (x.k == KP && x.a == 0) x = mkI(x.b, 64);
  if (y.k == KP && y.a == 0) y = mkI(y.b, 64);
  if (x.k == KP || y.k == KP) {
    if (op == Instruction::Sub && x.k == KP && y.k == KP) { if (x.a == y.a) return mkI(x.b - y.b, 64); return mkI((((u64)x.a << 28) + x.b) - (((u64)y.a << 28) + y.b), 64); }
    if (op == Instruction::Add && x.k == KP && y.k == KI) return mkP(x.a, x.b + y.b);
    if (op == Instruction::Add && y.k == KP && x.k == KI) return mkP(y.a, y.b + x.b);
    if (op == Instruction::Sub && x.k == KP && y.k == KI) return mkP(x.a, x.b - y.b);
    Val p = x.k == KP ? x : y, i = x.k == KP ? y : x;
    if (i.k == KI && op == Instruction::And) { if (i.b < 4096) return mkI(p.b & i.b, 64); if (~i.b < 4096) return mkP(p.a, p.b & i.b); }
    // hashing of pointers: any deterministic integer
    u64 u = x.k == KP ? ((u64)x.a << 28) + x.b : x.b, v = y.k == KP ? ((u64)y.a << 28) + y.b : y.b; x = mkI(u, 64); y = mkI(v, 64);
  }
  if (x.k == KN && x.bits == 64 && y.k == KI) {
    if (op == Instruction::And && y.b == 0x7fffffffffffffffull) return mkN(call1("fabs", {x.a}), 64);
    if (op == Instruction::Xor && y.b == 0x8000000000000000ull) return mkN(arith("neg", x.a, 0), 64);
  }
  if (x.k != KI || y.k != KI) fail(std::string("integer operation ") + Instruction::getOpcodeName(op) + " on an abstract value at " + curLocS());
  unsigned w = x.bits; u64 a = x.b, b = y.b; int64_t sa = sx(a, w), sb = sx(b, w);
  switch (op) {
  case Instruction::Add: return mkI(a + b, w); case Instruction::Sub: return mkI(a - b, w); case Instruction::Mul: return mkI(a * b, w);
  case Instruction::And: return mkI(a & b, w); case Instruction::Or: return mkI(a | b, w); case Instruction::Xor: return mkI(a ^ b, w);
  case Instruction::Shl: return mkI(b >= w ? 0 : a << b, w); case Instruction::LShr: return mkI(b >= w ? 0 : a >> b, w); case Instruction::AShr: return mkI(b >= w ? (sa < 0 ? -1 : 0) : sa >> b, w);
  case Instruction::UDiv: if (!b) fail("udiv 0"); return mkI(a / b, w); case Instruction::URem: if (!b) fail("urem 0"); return mkI(a % b, w);
  case Instruction::SDiv: if (!sb) fail("sdiv 0"); return mkI(sa / sb, w); case Instruction::SRem: if (!sb) fail("srem 0"); return mkI(sa % sb, w);
  }
  fail("int op");
}
static Val fbin(unsigned op, Val x, Val y, unsigned bits) {
  const char *o = op == Instruction::FAdd ? "+" : op == Instruction::FSub ? "-" : op == Instruction::FMul ? "*" : op == Instruction::FDiv ? "/" : nullptr;
  u32 a = dnode(x), b = dnode(y);
  if (!o) return mkN(call1("fmod", {a, b}), bits);
  return mkN(arith(o, a, b), bits);
}
template <class Fn> static Val vec1(Val x, Fn f) { if (x.k == KA) { auto v = aggs[x.a]; std::vector<Val> r; for (auto &e : v) r.push_back(f(e)); return mkAgg(r); } return f(x); }
template <class Fn> static Val vec2(Val x, Val y, Fn f) { if (x.k == KA && y.k == KA) { auto v = aggs[x.a], w = aggs[y.a]; std::vector<Val> r; for (size_t i = 0; i < v.size(); ++i) r.push_back(f(v[i], w[i])); return mkAgg(r); } return f(x, y); }

static Val doCall(Frame &fr, CallBase *CB);
static void phis(Frame &fr, const BasicBlock *from, const BasicBlock *to) {
  std::vector<std::pair<u32, Val>> t;
  for (auto &P : to->phis()) t.push_back({fr.fi->idx[&P], getV(fr, P.getIncomingValueForBlock(from))});
  for (auto &x : t) fr.v[x.first] = x.second;
}
struct Trunc {};
static Stat run(Frame &fr, const BasicBlock *bb, const BasicBlock *stop, Val &ret);

// split on condition c inside a frame: run both sides to P (or return), merge
static Stat split(Frame &fr, const BasicBlock *bb, u32 c, const std::function<const BasicBlock *(bool)> &target, const BasicBlock *P, const BasicBlock *stop, Val &ret, bool &atP) {
  ++nJoin;
  int &dep = symDepth[bb];
  auto lm = fr.fi->limit.find(bb);
  bool cnt = lm != fr.fi->limit.end(); int bound = cnt ? lm->second : loopBound;
  if (dep >= bound) { issue("loop-bound", std::string(cnt ? "counted" : "abstract") + " loop unrolled " + std::to_string(bound) + " times"); return ABORTED; }
  ++dep;
  Frame f0 = fr; Mem m0 = mem; size_t base = mem.size(); size_t fs = facts.size();
  Val r1, r2; Stat s1, s2;
  auto side = [&](bool b, Val &r) -> Stat {
    pushFact(c, b);
    const BasicBlock *t = target(b);
    phis(fr, bb, t);
    Stat s = run(fr, t, P, r);
    facts.resize(fs);
    return s; };
  s1 = side(true, r1);
  Mem m1; Frame f1 = fr; m1.swap(mem);
  fr = f0; mem = m0; 
  // keep object numbering disjoint between the two sides
  mem.resize(std::max(m1.size(), mem.size()));
  s2 = side(false, r2);
  --dep;
  if (s1 == ABORTED && s2 == ABORTED) return ABORTED;
  if (s1 == ABORTED) { pushFact(c, false); atP = (s2 == REACHED); ret = r2; return s2; }
  if (s2 == ABORTED) { mem.swap(m1); fr = f1; pushFact(c, true); atP = (s1 == REACHED); ret = r1; return s1; }
  if (s1 != s2) fail("inconsistent join");
  Mem m2; m2.swap(mem);
  mergeMem(c, m1, m2, base);
  mem.swap(m1);
  for (size_t i = 0; i < fr.v.size(); ++i) fr.v[i] = mkChoice(c, f1.v[i], fr.v[i]);
  for (u32 o : f1.allocas) if (std::find(fr.allocas.begin(), fr.allocas.end(), o) == fr.allocas.end()) fr.allocas.push_back(o);
  if (s1 == RETURNED) { ret = mkChoice(c, r1, r2); return RETURNED; }
  atP = true; return REACHED;
}

static Stat run(Frame &fr, const BasicBlock *bb, const BasicBlock *stop, Val &ret) {
  try {
  for (;;) {
    if (bb == stop) return REACHED;
    const BasicBlock *next = nullptr;
    for (auto &Ic : *bb) {
      Instruction &I = const_cast<Instruction &>(Ic);
      if (isa<PHINode>(I)) continue;
      if (isa<DbgInfoIntrinsic>(I)) continue;
      curI = &I;
      if (++nInst > maxInst) fail("analysis budget exceeded");
      if (!(nInst & 255)) budget();
      Val r; bool set = !I.getType()->isVoidTy();
      switch (I.getOpcode()) {
      case Instruction::Ret: ret = I.getNumOperands() ? getV(fr, I.getOperand(0)) : Val(); return RETURNED;
      case Instruction::Unreachable: throw AbortX{"unreachable"};
      case Instruction::Br: {
        auto &B = cast<BranchInst>(I);
        if (B.isUnconditional()) { next = B.getSuccessor(0); break; }
        Val c = getV(fr, B.getCondition());
        if (c.k == KU) { issue("uninitialised", "branch on an uninitialised value"); if (getenv("VF_DEBUG")) { errs() << I.getFunction()->getName() << "\n"; for (auto &J : *bb) errs() << J << "\n"; } fail("branch on an undefined value at " + curLocS()); }
        if (c.k == KI) { next = B.getSuccessor(c.b ? 0 : 1); break; }
        u32 cn = boolNode(c); bool kv;
        if (known(cn, kv)) { next = B.getSuccessor(kv ? 0 : 1); break; }
        if (B.getSuccessor(0) == B.getSuccessor(1)) { next = B.getSuccessor(0); break; }
        const BasicBlock *P = fr.fi->ipdom.lookup(bb);
        bool atP = false;
        Stat s = split(fr, bb, cn, [&](bool b) { return B.getSuccessor(b ? 0 : 1); }, P, stop, ret, atP);
        if (s == ABORTED) return ABORTED;
        if (s == RETURNED) return RETURNED;
        // both at P, phis already evaluated
        bb = P; goto again;
      }
      case Instruction::Switch: {
        auto &S = cast<SwitchInst>(I); Val c = getV(fr, S.getCondition());
        std::function<Stat(Val)> go = [&](Val v) -> Stat {
          v = prune(v);
          const BasicBlock *P = fr.fi->ipdom.lookup(bb);
          if (v.k == KI) { const BasicBlock *t = S.findCaseValue(ConstantInt::get(cast<IntegerType>(S.getCondition()->getType()), v.b))->getCaseSuccessor(); phis(fr, bb, t); return run(fr, t, P, ret); }
          fail("switch on an abstract value"); };
        if (c.k == KI) { next = S.findCaseValue(ConstantInt::get(cast<IntegerType>(S.getCondition()->getType()), c.b))->getCaseSuccessor(); break; }
        if (c.k != KC) fail("switch on an undefined value at " + curLocS());
        // nested split over the leaves
        const BasicBlock *P = fr.fi->ipdom.lookup(bb);
        std::function<Stat(Val, Val &)> rec = [&](Val v, Val &rr) -> Stat {
          v = prune(v);
          if (v.k == KI) { const BasicBlock *t = S.findCaseValue(ConstantInt::get(cast<IntegerType>(S.getCondition()->getType()), v.b))->getCaseSuccessor(); phis(fr, bb, t); return run(fr, t, P, rr); }
          if (v.k != KC) fail("switch leaf");
          Choice ch = choices[v.a]; ++nJoin;
          Frame f0 = fr; Mem m0 = mem; size_t base = mem.size(), fs = facts.size(); Val r1, r2;
          pushFact(ch.c, true); Stat s1 = rec(ch.a, r1); facts.resize(fs);
          Mem m1; Frame f1 = fr; m1.swap(mem); fr = f0; mem = m0; mem.resize(std::max(m1.size(), mem.size()));
          pushFact(ch.c, false); Stat s2 = rec(ch.b, r2); facts.resize(fs);
          if (s1 == ABORTED && s2 == ABORTED) return ABORTED;
          if (s1 == ABORTED) { rr = r2; return s2; }
          if (s2 == ABORTED) { mem.swap(m1); fr = f1; rr = r1; return s1; }
          Mem m2; m2.swap(mem); mergeMem(ch.c, m1, m2, base); mem.swap(m1);
          for (size_t i = 0; i < fr.v.size(); ++i) fr.v[i] = mkChoice(ch.c, f1.v[i], fr.v[i]);
          rr = s1 == RETURNED ? mkChoice(ch.c, r1, r2) : Val(); return s1; };
        Val rr; Stat s = rec(c, rr);
        if (s == ABORTED) return s;
        if (s == RETURNED) { ret = rr; return s; }
        bb = P; goto again;
      }
      case Instruction::Invoke: { auto &C = cast<InvokeInst>(I); r = doCall(fr, &C); next = C.getNormalDest(); break; }
      case Instruction::Call: r = doCall(fr, cast<CallBase>(&I)); break;
      case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); u64 n = DL->getTypeAllocSize(A.getAllocatedType()) * cint(getV(fr, A.getArraySize()), "alloca"); u32 o = newObj(n, 0, "local of " + demangle(fr.F->getName().str())); fr.allocas.push_back(o); r = mkP(o, 0); break; }
      case Instruction::Load: r = loadT(getV(fr, I.getOperand(0)), I.getType()); break;
      case Instruction::Store: { Val v = getV(fr, I.getOperand(0)); Val p = getV(fr, I.getOperand(1)); storeT(p, v, I.getOperand(0)->getType()); break; }
      case Instruction::GetElementPtr: {
        auto &G = cast<GetElementPtrInst>(I); Val p = getV(fr, G.getPointerOperand());
        auto addc = [&](u64 k) { p = mapV(p, [&](Val q) -> Val { if (q.k == KU) return q; if (q.k == KI) q = mkP(0, q.b); q.b += k; return q; }); };
        for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
          if (StructType *ST = it.getStructTypeOrNull()) { addc(DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue())); continue; }
          u64 es = DL->getTypeAllocSize(it.getIndexedType()); Val ix = getV(fr, it.getOperand());
          if (ix.k == KI) { addc((u64)(sx(ix.b, ix.bits) * (int64_t)es)); continue; }
          p = mapV2(p, ix, [&](Val q, Val i) -> Val { if (q.k == KU || i.k != KI) return Val(); if (q.k == KI) q = mkP(0, q.b); q.b += (u64)(sx(i.b, i.bits) * (int64_t)es); return q; });
        }
        r = p; break; }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        unsigned op = I.getOpcode(); unsigned bits = I.getType()->getScalarType()->isFloatTy() ? 32 : 64;
        r = vec2(getV(fr, I.getOperand(0)), getV(fr, I.getOperand(1)), [&](Val x, Val y) { if (x.k == KU && y.k == KU) return Val(); return fbin(op, x, y, bits); }); break; }
      case Instruction::FNeg: r = vec1(getV(fr, I.getOperand(0)), [&](Val x) { if (x.k == KU) return x; return mkN(arith("neg", dnode(x), 0), x.k == KN ? x.bits : 64); }); break;
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: {
        unsigned op = I.getOpcode();
        r = vec2(getV(fr, I.getOperand(0)), getV(fr, I.getOperand(1)), [&](Val x, Val y) { return mapV2(x, y, [&](Val a, Val b) { return ibin(op, a, b); }); }); r = prune(r); break; }
      case Instruction::ICmp: { auto p = cast<ICmpInst>(I).getPredicate(); Val gx = getV(fr, I.getOperand(0)), gy = getV(fr, I.getOperand(1));
        r = vec2(gx, gy, [&](Val x, Val y) { return mapV2(x, y, [&](Val a, Val b) { return icmp1(p, a, b); }); }); r = prune(r); gate(&I, p, gx, gy, r); break; }
      case Instruction::FCmp: { auto p = cast<FCmpInst>(I).getPredicate(); r = vec2(getV(fr, I.getOperand(0)), getV(fr, I.getOperand(1)), [&](Val x, Val y) { return fcmp(p, x, y); }); break; }
      case Instruction::Select: {
        Val c = getV(fr, I.getOperand(0));
        if (c.k == KA) { auto cv = aggs[c.a], xa = aggs[getV(fr, I.getOperand(1)).a], ya = aggs[getV(fr, I.getOperand(2)).a]; std::vector<Val> q; for (size_t i = 0; i < cv.size(); ++i) q.push_back(mkChoice(boolNode(cv[i]), xa[i], ya[i])); r = mkAgg(q); break; }
        if (c.k == KI) { r = getV(fr, I.getOperand(c.b ? 1 : 2)); break; }
        if (c.k == KU) { r = Val(); break; }
        r = mkChoice(boolNode(c), getV(fr, I.getOperand(1)), getV(fr, I.getOperand(2))); break; }
      case Instruction::Trunc: { unsigned w = I.getType()->getScalarSizeInBits(); r = vec1(getV(fr, I.getOperand(0)), [&](Val x) { return mapV(x, [&](Val v) -> Val { if (v.k == KI) return mkI(v.b, w); if (v.k == KN && v.bits == 1) return v; if (v.k == KP) return mkI(((u64)v.a << 28) + v.b, w); if (v.k == KU) return v; fail("trunc"); }); }); break; }
      case Instruction::ZExt: { unsigned w = I.getType()->getScalarSizeInBits(); r = vec1(getV(fr, I.getOperand(0)), [&](Val x) { return mapV(x, [&](Val v) -> Val { if (v.k == KI) return mkI(v.b, w); if (v.k == KN && v.bits == 1) return mkChoice(v.a, mkI(1, w), mkI(0, w)); return v; }); }); break; }
      case Instruction::SExt: { unsigned w = I.getType()->getScalarSizeInBits(); r = vec1(getV(fr, I.getOperand(0)), [&](Val x) { return mapV(x, [&](Val v) -> Val { if (v.k == KI) return mkI((u64)sx(v.b, v.bits), w); if (v.k == KN && v.bits == 1) return mkChoice(v.a, mkI(~0ull, w), mkI(0, w)); return v; }); }); break; }
      case Instruction::UIToFP: case Instruction::SIToFP: { bool sg = I.getOpcode() == Instruction::SIToFP; unsigned bits = I.getType()->getScalarType()->isFloatTy() ? 32 : 64;
        r = vec1(getV(fr, I.getOperand(0)), [&](Val x) { return mapV(x, [&](Val v) -> Val { if (v.k == KI) return mkN(cst(sg ? (double)sx(v.b, v.bits) : (double)v.b), bits); if (v.k == KN && v.bits == 1) return mkN(nIte(v.a, cst(sg ? -1 : 1), cst(0)), bits); if (v.k == KU) return v; fail("int to fp"); }); }); break; }
      case Instruction::FPToSI: case Instruction::FPToUI: { unsigned w = I.getType()->getIntegerBitWidth(); Val x = toDbl(getV(fr, I.getOperand(0)));
        if (x.k == KU) { r = x; break; }
        std::function<Val(u32)> conv = [&](u32 n) -> Val { double d; if (cval(n, d)) return mkI((u64)(int64_t)d, w); if (gnodes[n].op == "ite") { auto ar = gnodes[n].args; Val p = conv(ar[1]), q = conv(ar[2]); return mkChoice(ar[0], p, q); } fail("conversion of an abstract floating value to an integer at " + curLocS()); };
        r = conv(dnode(x)); break; }
      case Instruction::FPExt: r = vec1(getV(fr, I.getOperand(0)), [&](Val v) { if (v.k == KN) v.bits = 64; return v; }); break;
      case Instruction::FPTrunc: r = vec1(getV(fr, I.getOperand(0)), [&](Val v) { if (v.k == KN) v.bits = 32; return v; }); break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: r = mapV(getV(fr, I.getOperand(0)), [&](Val v) -> Val { if (I.getOpcode() == Instruction::IntToPtr && v.k == KI) return mkP(0, v.b); if (I.getOpcode() == Instruction::PtrToInt && v.k == KP && v.a == 0) return mkI(v.b, 64); return v; }); break;
      case Instruction::BitCast: { Type *D = I.getType(); Val v = getV(fr, I.getOperand(0));
        if (D->isDoubleTy()) v = toDbl(v);
        else if (D->isIntegerTy(64) && v.k == KN && gnodes[v.a].op == "c") v = mkI(asU(gnodes[v.a].c), 64);
        else if (D->isVectorTy() && I.getOperand(0)->getType()->isVectorTy() && cast<FixedVectorType>(D)->getNumElements() == cast<FixedVectorType>(I.getOperand(0)->getType())->getNumElements()) { bool dd = D->getScalarType()->isDoubleTy(); v = vec1(v, [&](Val x) { return dd ? toDbl(x) : x; }); }
        else if (D->isVectorTy() || I.getOperand(0)->getType()->isVectorTy()) {
          u64 n = DL->getTypeStoreSize(D); u32 o = newObj(n, 0, "bitcast"); storeT(mkP(o, 0), v, I.getOperand(0)->getType()); v = loadT(mkP(o, 0), D); }
        r = v; break; }
      case Instruction::ExtractValue: { Val v = getV(fr, I.getOperand(0)); for (unsigned i : cast<ExtractValueInst>(I).indices()) { if (v.k != KA) { v = Val(); break; } v = aggs[v.a][i]; } r = v; break; }
      case Instruction::InsertValue: { Val v = getV(fr, I.getOperand(0)), x = getV(fr, I.getOperand(1)); auto ix = cast<InsertValueInst>(I).getIndices();
        std::function<Val(Val, size_t)> ins = [&](Val q, size_t d) -> Val { if (d == ix.size()) return x; std::vector<Val> t = aggs[q.a]; t[ix[d]] = ins(t[ix[d]], d + 1); return mkAgg(t); };
        if (v.k != KA) fail("insertvalue"); r = ins(v, 0); break; }
      case Instruction::ExtractElement: { Val v = getV(fr, I.getOperand(0)); int64_t i = cint(getV(fr, I.getOperand(1)), "extractelement"); r = v.k == KA ? aggs[v.a][i] : Val(); break; }
      case Instruction::InsertElement: { Val v = getV(fr, I.getOperand(0)), x = getV(fr, I.getOperand(1)); int64_t i = cint(getV(fr, I.getOperand(2)), "insertelement"); std::vector<Val> t = v.k == KA ? aggs[v.a] : std::vector<Val>(cast<FixedVectorType>(I.getType())->getNumElements()); t[i] = x; r = mkAgg(t); break; }
      case Instruction::ShuffleVector: { auto &S = cast<ShuffleVectorInst>(I); Val x = getV(fr, S.getOperand(0)), y = getV(fr, S.getOperand(1)); unsigned n = cast<FixedVectorType>(S.getOperand(0)->getType())->getNumElements(); std::vector<Val> t; for (int m : S.getShuffleMask()) { if (m < 0) t.push_back(Val()); else if ((unsigned)m < n) t.push_back(x.k == KA ? aggs[x.a][m] : Val()); else t.push_back(y.k == KA ? aggs[y.a][m - n] : Val()); } r = mkAgg(t); break; }
      case Instruction::Freeze: { r = getV(fr, I.getOperand(0)); if (r.k == KU && I.getType()->isIntegerTy()) r = mkI(0, I.getType()->getIntegerBitWidth()); break; }
      case Instruction::AtomicRMW: { auto &A = cast<AtomicRMWInst>(I); Val p = getV(fr, A.getPointerOperand()), v = getV(fr, A.getValOperand()); Val old = loadT(p, I.getType()); Val nw;
        switch (A.getOperation()) { case AtomicRMWInst::Add: nw = mapV2(old, v, [&](Val a, Val b) { return ibin(Instruction::Add, a, b); }); break; case AtomicRMWInst::Sub: nw = mapV2(old, v, [&](Val a, Val b) { return ibin(Instruction::Sub, a, b); }); break; case AtomicRMWInst::Xchg: nw = v; break; default: fail("atomicrmw"); }
        storeT(p, nw, I.getType()); r = old; break; }
      case Instruction::AtomicCmpXchg: { auto &A = cast<AtomicCmpXchgInst>(I); Val p = getV(fr, A.getPointerOperand()); Type *T = A.getCompareOperand()->getType(); Val old = loadT(p, T); Val eq = mapV2(old, getV(fr, A.getCompareOperand()), [&](Val a, Val b) { return icmp1(CmpInst::ICMP_EQ, a, b); }); if (eq.k != KI) fail("cmpxchg"); if (eq.b) storeT(p, getV(fr, A.getNewValOperand()), T); r = mkAgg({old, eq}); break; }
      case Instruction::Fence: break;
      case Instruction::LandingPad: r = mkAgg({mkP(0, 0), mkI(0, 32)}); break;
      case Instruction::Resume: throw AbortX{"resume"};
      default: fail(std::string("instruction ") + I.getOpcodeName() + " at " + curLocS());
      }
      if (set) fr.v[fr.fi->idx[&I]] = r;
      curI = &I;
    }
    if (!next) fail("no successor");
    phis(fr, bb, next);
    bb = next;
  again:;
  }
  } catch (AbortX &a) {
    issue("abort", a.why);
    return ABORTED;
  }
}

static Val doCall(Frame &fr, CallBase *CB) {
  ++nCalls;
  if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
    auto A = [&](int i) { return getV(fr, II->getArgOperand(i)); };
    auto un = [&](const char *f) { return vec1(A(0), [&](Val x) { if (x.k == KU) return x; return mkN(call1(f, {dnode(x)}), x.k == KN ? x.bits : 64); }); };
    switch (II->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyBytes(A(0), A(1), cint(A(2), "memcpy")); return Val();
    case Intrinsic::memset: { Val p = A(0); u64 k = cint(A(2), "memset"); Val v = A(1); if (!k) return Val(); if (p.k != KP) fail("memset pointer"); if (!checkAcc(p, k, true)) throw AbortX{"memset"}; Obj &o = wobj(p.a); for (u64 i = 0; i < k; ++i) { if (v.k == KI) o.b[p.b + i] = {1 + (u32)(v.b & 0xff), 0}; else o.b[p.b + i] = {0, 0}; } return Val(); }
    case Intrinsic::sqrt: return un("sqrt"); case Intrinsic::sin: return un("sin"); case Intrinsic::cos: return un("cos"); case Intrinsic::fabs: return un("fabs"); case Intrinsic::floor: return un("floor"); case Intrinsic::ceil: return un("ceil"); case Intrinsic::round: return un("round"); case Intrinsic::trunc: return un("trunc"); case Intrinsic::exp: return un("exp"); case Intrinsic::log: return un("log"); case Intrinsic::rint: return un("rint"); case Intrinsic::nearbyint: return un("nearbyint");
    case Intrinsic::pow: return mkN(power(dnode(A(0)), dnode(A(1))), 64);
    case Intrinsic::powi: { u32 x = dnode(A(0)); int64_t e = cint(A(1), "powi"); u32 r = cst(1); for (int64_t i = 0; i < std::abs(e); ++i) r = arith("*", r, x); if (e < 0) r = arith("/", cst(1), r); return mkN(r, 64); }
    case Intrinsic::fmuladd: case Intrinsic::fma: return mkN(arith("+", arith("*", dnode(A(0)), dnode(A(1))), dnode(A(2))), 64);
    case Intrinsic::copysign: return mkN(call1("copysign", {dnode(A(0)), dnode(A(1))}), 64);
    case Intrinsic::minnum: case Intrinsic::minimum: { u32 x = dnode(A(0)), y = dnode(A(1)); return mkN(nIte(boolNode(fcmp(CmpInst::FCMP_OLT, A(0), A(1))), x, y), 64); }
    case Intrinsic::maxnum: case Intrinsic::maximum: { u32 x = dnode(A(0)), y = dnode(A(1)); return mkN(nIte(boolNode(fcmp(CmpInst::FCMP_OLT, A(0), A(1))), y, x), 64); }
    case Intrinsic::is_fpclass: { u32 x = dnode(A(0)); u64 m = cint(A(1), "fpclass"); double d; if (cval(x, d)) { bool r = ((m & 3) && std::isnan(d)); if (m & ~3ull) fail("fpclass"); return mkI(r, 1); } if (m == 3) return bval(mkNode("nan", {x})); if (m == (0x3ffu & ~3u)) return bval(nNot(mkNode("nan", {x}))); if (m == 0x204) return mkI(0, 1); if (m == 504 /*finite*/) return bval(nNot(mkNode("nan", {x}))); fail("fpclass mask"); }
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: { auto id = II->getIntrinsicID(); return mapV2(A(0), A(1), [&](Val x, Val y) -> Val { CmpInst::Predicate p = id == Intrinsic::smax ? CmpInst::ICMP_SGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT; Val c = icmp1(p, x, y); return c.b ? x : y; }); }
    case Intrinsic::abs: return mapV(A(0), [&](Val x) -> Val { int64_t s = sx(x.b, x.bits); return mkI(s < 0 ? -s : s, x.bits); });
    case Intrinsic::umul_with_overflow: { return mapV2(A(0), A(1), [&](Val x, Val y) -> Val { unsigned __int128 p = (unsigned __int128)x.b * y.b; return mkAgg({mkI((u64)p, x.bits), mkI((p >> x.bits) != 0, 1)}); }); }
    case Intrinsic::uadd_with_overflow: { return mapV2(A(0), A(1), [&](Val x, Val y) -> Val { unsigned __int128 p = (unsigned __int128)x.b + y.b; return mkAgg({mkI((u64)p, x.bits), mkI((p >> x.bits) != 0, 1)}); }); }
    case Intrinsic::usub_sat: return mapV2(A(0), A(1), [&](Val x, Val y) -> Val { return mkI(x.b > y.b ? x.b - y.b : 0, x.bits); });
    case Intrinsic::uadd_sat: return mapV2(A(0), A(1), [&](Val x, Val y) -> Val { u64 s = x.b + y.b; if (s < x.b || s > maskb(x.bits)) s = maskb(x.bits); return mkI(s, x.bits); });
    case Intrinsic::ctlz: { Val x = A(0); if (x.k != KI) fail("ctlz"); unsigned c = 0; for (int i = x.bits - 1; i >= 0 && !((x.b >> i) & 1); --i) ++c; return mkI(c, x.bits); }
    case Intrinsic::cttz: { Val x = A(0); if (x.k != KI) fail("cttz"); unsigned c = 0; while (c < x.bits && !((x.b >> c) & 1)) ++c; return mkI(c, x.bits); }
    case Intrinsic::ctpop: { Val x = A(0); if (x.k != KI) fail("ctpop"); return mkI(__builtin_popcountll(x.b), x.bits); }
    case Intrinsic::fshl: { Val x = A(0), y = A(1), z = A(2); if (x.k != KI || y.k != KI || z.k != KI) fail("fshl"); unsigned w = x.bits, s = z.b % w; return mkI(s ? (x.b << s) | (y.b >> (w - s)) : x.b, w); }
    case Intrinsic::expect: return A(0);
    case Intrinsic::ptrmask: { Val p = A(0), m = A(1); return mkP(p.a, p.b & m.b); }
    case Intrinsic::threadlocal_address: return A(0);
    case Intrinsic::lifetime_end: {
      // the storage is dead from here on; forget its contents so that a later use shows
      Val p = prune(A(1)); if (p.k == KP && p.a && mem[p.a] && p.b == 0) { Obj &o = wobj(p.a); for (auto &b : o.b) b = {0, 0}; } return Val(); }
    case Intrinsic::lifetime_start: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
      return II->getType()->isVoidTy() ? Val() : mkP(0, 0);
    case Intrinsic::objectsize: return mkI(~0ull, 64);
    case Intrinsic::is_constant: return mkI(0, 1);
    case Intrinsic::trap: case Intrinsic::ubsantrap: throw AbortX{"trap"};
    case Intrinsic::eh_typeid_for: return mkI(1, 32);
    case Intrinsic::vector_reduce_fadd: { Val v = A(1); u32 s = dnode(A(0)); for (auto &e : aggs[v.a]) s = arith("+", s, dnode(e)); return mkN(s, 64); }
    default: fail("intrinsic " + II->getCalledFunction()->getName().str() + " at " + curLocS());
    }
  }
  std::vector<Val> args;
  for (auto &A : CB->args()) {
    Val v = getV(fr, A.get());
    unsigned i = CB->getArgOperandNo(&A);
    if (CB->isByValArgument(i)) { Type *T = CB->getParamByValType(i); u64 n = DL->getTypeAllocSize(T); u32 o = newObj(n, 0, "byval"); copyBytes(mkP(o, 0), v, n); v = mkP(o, 0); fr.allocas.push_back(o); }
    args.push_back(v);
  }
  Function *F = nullptr;
  if (CB->isInlineAsm()) { return CB->getType()->isVoidTy() ? Val() : Val(); }
  if (auto *DF = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) F = DF;
  auto callF = [&](Function *G) -> Val {
    auto oi = opaqueOf.find(G);
    callStack.push_back(CB);
    struct Pop { const Instruction *c; ~Pop() { callStack.pop_back(); curI = c; } } pop{CB};
    if (oi != opaqueOf.end()) {
      Opaque &o = opaques[oi->second];
      if (o.abort) throw AbortX{o.name};
      Type *RT = G->getReturnType();
      if (o.estr) { // returns a string whose content does not matter: the empty one
        if (args.empty() || args[0].k != KP) fail("returned string");
        Type *P8 = PointerType::getUnqual(M->getContext()); storeT(args[0], mkP(args[0].a, args[0].b + 16), P8); storeT(mkP(args[0].a, args[0].b + 8), mkI(0, 64), Type::getInt64Ty(M->getContext())); storeT(mkP(args[0].a, args[0].b + 16), mkI(0, 8), Type::getInt8Ty(M->getContext())); return Val(); }
      if (o.ev >= 0 && o.ev < (int)args.size()) { Ev e; e.name = o.name; e.args.push_back(intNode(args[o.ev])); e.guard = guardS(); e.loc = curLocS(); events.push_back(e); }
      if (o.noop) return RT->isVoidTy() ? Val() : RT->isPointerTy() ? (args.size() ? args[0] : mkP(0, 0)) : RT->isIntegerTy() ? mkI(o.ival, RT->getIntegerBitWidth()) : RT->isDoubleTy() ? mkN(cst(0), 64) : Val();
      std::vector<u32> in;
      for (int i : o.vins) in.push_back(dnode(args[i]));
      for (auto &p : o.ins) for (u32 x : readDbls(args[p.first], p.second)) in.push_back(x);
      int k = 0;
      for (auto &p : o.gouts) { Val q = prune(args[p.first]); if (q.k == KP && q.a == 0) { k += p.second; continue; } writeOpaque(o.name, in, q, p.second, k); k += p.second; }
      if (o.ret) return mkN(mkNode("proj", {mkNode("op", in, o.name)}, std::to_string(k)), 64);
      return Val();
    }
    std::string nm = G->getName().str();
    if (G->isDeclaration() || nm == "malloc" || nm == "free") { Val r; external(G, CB, args, r); return r; }
    curI = nullptr;
    return exec(G, args);
  };
  if (F) return callF(F);
  Val fp = getV(fr, CB->getCalledOperand());
  std::function<Val(Val)> icall = [&](Val p) -> Val {
    p = prune(p);
    if (p.k == KC) {
      Choice ch = choices[p.a]; Mem m0 = mem; size_t base = mem.size(), fs = facts.size();
      pushFact(ch.c, true); Val a = icall(ch.a); facts.resize(fs); Mem m1; m1.swap(mem); mem = m0; mem.resize(std::max(m1.size(), mem.size()));
      pushFact(ch.c, false); Val b = icall(ch.b); facts.resize(fs); Mem m2; m2.swap(mem); mergeMem(ch.c, m1, m2, base); mem.swap(m1);
      return mkChoice(ch.c, a, b); }
    if (p.k != KP || p.a >= objFunc.size() || !objFunc[p.a]) { issue("invalid-access", "call through an invalid function pointer"); throw AbortX{"bad function pointer"}; }
    return callF(objFunc[p.a]); };
  return icall(fp);
}
static int depth = 0;
static Val exec(Function *F, std::vector<Val> args) {
  if (++depth > 400) fail("recursion too deep: " + demangle(F->getName().str()));
  struct D { ~D() { --depth; } } d;
  Frame fr; fr.F = F; fr.fi = &finfo(F); fr.v.resize(fr.fi->n);
  unsigned i = 0; for (auto &A : F->args()) { (void)A; if (i < args.size()) fr.v[i] = args[i]; ++i; }
  Val ret; 
  // loop bounds are per activation
  std::map<const BasicBlock *, int> saved; saved.swap(symDepth);
  Stat s;
  try { s = run(fr, &F->getEntryBlock(), nullptr, ret); } catch (...) { symDepth.swap(saved); throw; }
  symDepth.swap(saved);
  for (u32 o : fr.allocas) if (o < mem.size() && mem[o]) { wobj(o).live = false; if (mem[o]->b.size() > 64) { mem[o]->b.clear(); } }
  if (s == ABORTED) throw AbortX{"callee aborts"};
  return ret;
}

static std::string js(const std::string &s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
int main(int argc, char **argv) {
  std::vector<std::string> files, entries; std::string out = "-", emit;
  std::vector<std::string> noinl;
  bool optimise = true;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "-o") out = argv[++i];
    else if (a == "-e") entries.push_back(argv[++i]);
    else if (a == "-repo") repoPrefix = argv[++i];
    else if (a == "-loop") loopBound = atoi(argv[++i]);
    else if (a == "-emit") emit = argv[++i];
    else if (a == "-O0") optimise = false;
    else if (a == "-max") maxInst = strtoull(argv[++i], 0, 10);
    else if (a == "-sec") maxSec = strtoull(argv[++i], 0, 10);
    else if (a == "-opaque") {   // "regex@name@in:ARG:N,inv:ARG,out:ARG:N,ret,noop,abort"
      std::string s = argv[++i]; auto p = s.find('@'), q = s.find('@', p + 1);
      Opaque o; o.re = std::regex(s.substr(0, p)); o.name = s.substr(p + 1, q - p - 1);
      std::string t = s.substr(q + 1); size_t b = 0;
      while (b < t.size()) { auto e = t.find(',', b); if (e == std::string::npos) e = t.size(); std::string w = t.substr(b, e - b); b = e + 1;
        int x, y; if (sscanf(w.c_str(), "in:%d:%d", &x, &y) == 2) o.ins.push_back({x, y}); else if (sscanf(w.c_str(), "out:%d:%d", &x, &y) == 2) o.gouts.push_back({x, y}); else if (sscanf(w.c_str(), "inv:%d", &x) == 1) o.vins.push_back(x); else if (w == "ret") o.ret = true; else if (sscanf(w.c_str(), "ev:%d", &x) == 1) o.ev = x; else if (sscanf(w.c_str(), "ival:%d", &x) == 1) o.ival = x; else if (w == "noop") o.noop = true; else if (w == "estr") o.estr = true; else if (w == "abort") o.abort = true; }
      opaques.push_back(o);
    } else files.push_back(a);
  }
  LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> mod;
  for (auto &f : files) {
    auto m = parseIRFile(f, err, ctx); if (!m) { err.print("vf", errs()); return 3; }
    if (!mod) mod = std::move(m); else if (Linker::linkModules(*mod, std::move(m))) return 3;
  }
  M = mod.get(); DL = &M->getDataLayout();
  for (auto &F : *M) {
    std::string d = demangle(F.getName().str());
    for (size_t k = 0; k < opaques.size(); ++k) if (std::regex_search(d, opaques[k].re)) { opaqueOf[&F] = k; opaques[k].hits.push_back(&F); if (!F.isDeclaration()) F.deleteBody(); F.setComdat(nullptr); break; }
    if (F.hasFnAttribute(Attribute::OptimizeNone)) F.removeFnAttr(Attribute::OptimizeNone);
  }
  if (optimise) {
    std::set<std::string> keep(entries.begin(), entries.end());
    for (auto &F : *M) if (!F.isDeclaration() && !F.isIntrinsic()) {
      bool isE = keep.empty() ? F.getName().starts_with("H_") : keep.count(F.getName().str());
      if (!isE && !F.hasLocalLinkage()) { F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); }
    }
    PipelineTuningOptions pto; pto.LoopVectorization = false; pto.SLPVectorization = false; pto.LoopUnrolling = false; pto.LoopInterleaving = false; pto.InlinerThreshold = 100;
    PassBuilder pb(nullptr, pto);
    LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cgam; ModuleAnalysisManager mam;
    pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cgam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cgam, mam);
    std::map<std::string, int> oq; for (auto &p : opaqueOf) oq[p.first->getName().str()] = p.second;
    { ModulePassManager dce; dce.addPass(GlobalDCEPass()); dce.run(*M, mam); }
    auto mpm = pb.buildPerModuleDefaultPipeline(OptimizationLevel::O1);
    if (getenv("VF_TIME")) fprintf(stderr, "before passes %.2f\n", clock() / 1e6);
    mpm.run(*M, mam);
    if (getenv("VF_TIME")) fprintf(stderr, "after passes %.2f\n", clock() / 1e6);
    opaqueOf.clear(); for (auto &F : *M) { auto it = oq.find(F.getName().str()); if (it != oq.end()) opaqueOf[&F] = it->second; }
  }
  if (!emit.empty()) { std::error_code ec; raw_fd_ostream os(emit, ec); M->print(os, nullptr); }
  std::ofstream of; std::ostream *os;
  of.open(out); os = &of;
  newObj(0, 2, "null"); mem[0] = nullptr; nTrue(); nFalse();
  prepareGlobals();
  Mem init = mem;
  *os << "{\"entries\":[";
  if (entries.empty()) for (auto &F : *M) if (F.getName().starts_with("H_") && !F.isDeclaration()) entries.push_back(F.getName().str());
  bool first = true;
  for (auto &e : entries) {
    ++nodeEpoch; mem = init; facts.clear(); gouts.clear(); events.clear(); issues.clear(); issueKeys.clear(); callStack.clear(); curI = nullptr; symDepth.clear(); depth = 0;
    u64 n0 = nInst, j0 = nJoin, c0 = nCalls; std::string status = "ok", msg; repoFuncs.clear();
    instLoc.clear();
    Function *F = M->getFunction(e);
    if (!F || F->isDeclaration()) { status = "missing"; }
    else {
      try { exec(F, {}); } catch (AbortX &a) { status = "aborted"; msg = a.why; } catch (Fail &f) { status = "failed"; msg = f.msg; }
    }
    if (!first) *os << ",\n"; first = false;
    *os << "{\"entry\":" << js(e) << ",\"status\":" << js(status) << ",\"msg\":" << js(msg) << ",\"inst\":" << nInst - n0 << ",\"joins\":" << nJoin - j0 << ",\"calls\":" << nCalls - c0 << ",\"outs\":[";
    for (size_t i = 0; i < gouts.size(); ++i) *os << (i ? "," : "") << "[" << js(gouts[i].name) << "," << gouts[i].i << "," << gouts[i].j << "," << gouts[i].node << "," << hereOf(gouts[i].node) << "]";
    *os << "],\"events\":[";
    for (size_t i = 0; i < events.size(); ++i) { *os << (i ? "," : "") << "[" << js(events[i].name); for (u32 a : events[i].args) *os << "," << a; *os << "," << js(events[i].guard) << "," << js(events[i].loc) << "]"; }
    *os << "],\"issues\":[";
    for (size_t i = 0; i < issues.size(); ++i) *os << (i ? "," : "") << "[" << js(issues[i].kind) << "," << js(issues[i].msg) << "," << js(issues[i].loc) << "," << js(issues[i].guard) << "]";
    *os << "],\"facts\":" << js(guardS()) << ",\"functions\":[";
    bool f2 = true; for (auto &s : repoFuncs) { *os << (f2 ? "" : ",") << js(s); f2 = false; }
    *os << "]}";
  }
  *os << "],\n\"opaque\":{";
  { bool f = true; for (auto &o : opaques) { *os << (f ? "" : ",") << js(o.name) << ":" << o.hits.size(); f = false; } }
  *os << "},\"havoc\":["; { bool f = true; for (auto &s : havocCalls) { *os << (f ? "" : ",") << js(s); f = false; } }
  *os << "],\n\"gates\":["; { bool f = true; for (auto &g : gates) if (!g.second.loc.empty()) { *os << (f ? "" : ",") << "[" << js(g.second.loc) << "," << g.second.k << "," << g.second.mx << "," << g.second.mask << "]"; f = false; } }
  *os << "],\n\"locs\":["; for (size_t i = 0; i < locs.size(); ++i) *os << (i ? "," : "") << js(locs[i]);
  *os << "],\n\"nodes\":[";
  char buf[64];
  for (size_t i = 0; i < gnodes.size(); ++i) {
    Node &n = gnodes[i]; *os << (i ? ",\n" : "") << "[" << js(n.op) << "," << n.loc << ",";
    if (n.op == "c") { if (std::isfinite(n.c)) snprintf(buf, 64, "%.17g", n.c); else snprintf(buf, 64, "\"%g\"", n.c); *os << buf; } else *os << js(n.s);
    for (u32 a : n.args) *os << "," << a; *os << "]";
  }
  *os << "]}\n";
  return 0;
}
