#include <unordered_set>
// irvc: verification-condition generator for LLVM IR.
//
// Input : a linked LLVM module (the real /repo sources + a contract harness), a dump of the
//         post-initialisation contents of the globals, the name of a harness entry function,
//         concrete case parameters, and a list of function->contract replacements.
// Output: JSON; every vc_assert / memory-safety / unreachable obligation met on any path of the
//         harness, with its status (discharged by simplification, by SAT (minisat), by SAT (kissat),
//         failed with a model, or undecided).
//
// Semantics: exact bit-vector semantics (and-inverter graph with xor/mux gnodes), all paths explored
// with state merging at joins, loops unrolled until their guard is false (structurally or by SAT);
// there is no unwinding bound that is silently assumed: when the bound is hit the run is "undecided".
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IntrinsicsX86.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/ModuleSlotTracker.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/MemoryBuffer.h"
#include "minisat/core/Solver.h"
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <iostream>
#include <map>
#include <set>
#include <unordered_map>
#include <memory>
#include <vector>
#include <string>
#include <algorithm>
#include <chrono>
#include <functional>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
using namespace llvm;
typedef uint32_t Lit;
static const Lit F0 = 0, T1 = 1;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double g_t0;
struct Unsupported { std::string msg; };
[[noreturn]] static void unsup(const std::string& m) { throw Unsupported{m}; }

// ------------------------------------------------------------------ AIG
enum { N_CONST, N_IN, N_AND, N_XOR, N_MUX };
struct Node { uint32_t t; Lit a, b, c; };
static std::vector<Node> gnodes;
static std::vector<uint32_t> htab; static size_t hmask;
static size_t g_maxNodes = 120000000;
static inline uint64_t hsh(uint32_t t, Lit a, Lit b, Lit c) {
    uint64_t h = (uint64_t)a * 0x9E3779B97F4A7C15ull ^ ((uint64_t)b << 21) * 0xC2B2AE3D27D4EB4Full ^ (uint64_t)c * 0x165667B19E3779F9ull ^ t * 0x27D4EB2F165667C5ull;
    h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; return h;
}
static void growHash() {
    size_t n = htab.empty() ? (1u << 20) : htab.size() * 2;
    htab.assign(n, 0); hmask = n - 1;
    for (uint32_t i = 1; i < gnodes.size(); ++i) {
        Node& x = gnodes[i]; if (x.t < N_AND) continue;
        size_t h = hsh(x.t, x.a, x.b, x.c) & hmask; while (htab[h]) h = (h + 1) & hmask; htab[h] = i;
    }
}
static Lit mk(uint32_t t, Lit a, Lit b, Lit c) {
    if (gnodes.size() * 2 > htab.size()) growHash();
    size_t h = hsh(t, a, b, c) & hmask;
    while (uint32_t i = htab[h]) { Node& x = gnodes[i]; if (x.t == t && x.a == a && x.b == b && x.c == c) return i << 1; h = (h + 1) & hmask; }
    if (gnodes.size() > g_maxNodes) unsup("node limit");
    htab[h] = gnodes.size(); gnodes.push_back({t, a, b, c}); return (gnodes.size() - 1) << 1;
}
static inline Lit Not(Lit a) { return a ^ 1; }
static inline const Node& N(Lit a) { return gnodes[a >> 1]; }
static inline bool isAnd(Lit a) { return !(a & 1) && N(a).t == N_AND; }
// is b a conjunct of a (bounded walk)?  +1 yes, -1 its negation is, 0 unknown
static int conj(Lit a, Lit b, int depth) {
    if (a == b) return 1; if (a == (b ^ 1)) return -1;
    if (depth <= 0 || !isAnd(a)) return 0;
    const Node n = N(a);
    int r = conj(n.b, b, n.b > 2 && isAnd(n.b) ? depth / 2 : 0); if (r) return r;
    return conj(n.a, b, depth - 1);
}
static Lit And(Lit a, Lit b) {
    if (a == F0 || b == F0) return F0; if (a == T1) return b; if (b == T1) return a;
    if (a == b) return a; if (a == (b ^ 1)) return F0;
    if (isAnd(a)) { int r = conj(a, b, 12); if (r > 0) return a; if (r < 0) return F0; }
    if (isAnd(b)) { int r = conj(b, a, 12); if (r > 0) return b; if (r < 0) return F0; }
    // !(x&y) & !(x&~y) = !x
    if ((a & 1) && (b & 1) && N(a).t == N_AND && N(b).t == N_AND) {
        Node x = N(a), y = N(b);
        if (x.a == y.a && x.b == Not(y.b)) return Not(x.a); if (x.b == y.b && x.a == Not(y.a)) return Not(x.b);
        if (x.a == y.b && x.b == Not(y.a)) return Not(x.a); if (x.b == y.a && x.a == Not(y.b)) return Not(x.b);
    }
    // a & !(x&y)
    for (int k = 0; k < 2; ++k) {
        Lit p = k ? b : a, q = k ? a : b;
        if ((q & 1) && N(q).t == N_AND) {
            Node n = N(q); // q = !(n.a & n.b)
            int ra = conj(p, n.a, 8), rb = conj(p, n.b, 8);
            if (ra < 0 || rb < 0) return p;
            if (ra > 0 && rb > 0) return F0;
            if (ra > 0) return And(p, Not(n.b));
            if (rb > 0) return And(p, Not(n.a));
        }
        if (N(q).t == N_MUX) {
            Node n = N(q); int r = conj(p, n.a, 4);
            if (r > 0) return And(p, n.b ^ (q & 1));
            if (r < 0) return And(p, n.c ^ (q & 1));
        }
    }
    if (a > b) std::swap(a, b);
    // keep larger-node first so guard chains are left-deep: order (big,small)
    return mk(N_AND, b, a, 0);
}
static inline Lit Or(Lit a, Lit b) { return Not(And(Not(a), Not(b))); }
static Lit Xor(Lit a, Lit b) {
    Lit s = (a ^ b) & 1; a &= ~1u; b &= ~1u;
    if (a == b) return s; if (a == 0) return b ^ s; if (b == 0) return a ^ s;
    if (N(a).t == N_XOR) { if (N(a).a == b) return N(a).b ^ s; if (N(a).b == b) return N(a).a ^ s; }
    if (N(b).t == N_XOR) { if (N(b).a == a) return N(b).b ^ s; if (N(b).b == a) return N(b).a ^ s; }
    if (a > b) std::swap(a, b);
    return mk(N_XOR, b, a, 0) ^ s;
}
static Lit Mux(Lit c, Lit t, Lit e) {
    if (c == T1) return t; if (c == F0) return e; if (t == e) return t;
    if (c & 1) { c ^= 1; std::swap(t, e); }
    if (t == c) t = T1; else if (t == (c ^ 1)) t = F0;
    if (e == c) e = F0; else if (e == (c ^ 1)) e = T1;
    if (t == e) return t;
    if (t == T1) return Or(c, e); if (t == F0) return And(Not(c), e);
    if (e == F0) return And(c, t); if (e == T1) return Or(Not(c), t);
    if (t == (e ^ 1)) return Xor(c, e);
    if (N(t).t == N_MUX && N(t).a == c) t = N(t).b ^ (t & 1);
    if (N(e).t == N_MUX && N(e).a == c) e = N(e).c ^ (e & 1);
    if (t == e) return t;
    // absorb: c ? (c&x) : e
    if (isAnd(t)) { if (N(t).a == c) t = N(t).b; else if (N(t).b == c) t = N(t).a; else if (N(t).a == (c^1) || N(t).b == (c^1)) return And(Not(c), e); }
    if (isAnd(e)) { if (N(e).a == (c^1)) e = N(e).b; else if (N(e).b == (c^1)) e = N(e).a; else if (N(e).a == c || N(e).b == c) return And(c, t); }
    if (t == e) return t;
    if (t < 2 || e < 2 || t == (e ^ 1)) return Mux(c, t, e);
    Lit s = t & 1; t ^= s; e ^= s;
    return mk(N_MUX, c, t, e) ^ s;
}
struct InputName { std::string name; int bit; };
static std::unordered_map<uint32_t, InputName> inputNames;
static Lit newInput() { gnodes.push_back({N_IN, 0, 0, 0}); return (gnodes.size() - 1) << 1; }

// ------------------------------------------------------------------ SAT
struct Sat {
    struct VarMap { bool dense; std::vector<int> v; std::unordered_map<uint32_t, int> m;
        int get(uint32_t n) { if (dense) return n < v.size() ? v[n] : -1; auto it = m.find(n); return it == m.end() ? -1 : it->second; }
        void set(uint32_t n, int x) { if (dense) { if (v.size() <= n) v.resize(std::max<size_t>(gnodes.size(), n + 1), -1); v[n] = x; } else m[n] = x; } } var; // node -> minisat var (or -1)
    Minisat::Solver s;
    Sat(bool dense = false) { s.verbosity = 0; var.dense = dense; }
    Minisat::Lit sl(Lit l) { return Minisat::mkLit(var.get(l >> 1), l & 1); }
    void enc(Lit root) {
        std::vector<uint32_t> st{root >> 1};
        while (!st.empty()) {
            uint32_t n = st.back(); if (var.get(n) >= 0) { st.pop_back(); continue; }
            const Node x = gnodes[n];
            if (x.t == N_CONST) { var.set(n, s.newVar()); s.addClause(Minisat::mkLit(var.get(n), true)); st.pop_back(); continue; }
            if (x.t == N_IN) { var.set(n, s.newVar()); st.pop_back(); continue; }
            bool ready = true; auto need = [&](Lit l) { if (var.get(l >> 1) < 0) { st.push_back(l >> 1); ready = false; } };
            need(x.a); need(x.b); if (x.t == N_MUX) need(x.c); if (!ready) continue;
            var.set(n, s.newVar()); Minisat::Lit o = Minisat::mkLit(var.get(n)); auto a = sl(x.a), b = sl(x.b);
            if (x.t == N_AND) { s.addClause(~o, a); s.addClause(~o, b); s.addClause(o, ~a, ~b); }
            else if (x.t == N_XOR) { s.addClause(~o, a, b); s.addClause(~o, ~a, ~b); s.addClause(o, ~a, b); s.addClause(o, a, ~b); }
            else { auto c = sl(x.c); s.addClause(~o, ~a, b); s.addClause(o, ~a, ~b); s.addClause(~o, a, c); s.addClause(o, a, ~c); s.addClause(~o, b, c); s.addClause(o, ~b, ~c); }
            st.pop_back();
        }
    }
    // 1 sat, 0 unsat, -1 unknown
    int solve(const std::vector<Lit>& as, int64_t budget) {
        Minisat::vec<Minisat::Lit> v;
        for (Lit l : as) { if (l == T1) continue; if (l == F0) return 0; enc(l); v.push(sl(l)); }
        if (budget >= 0) s.setConfBudget(budget); else s.budgetOff();
        auto r = s.solveLimited(v);
        return Minisat::toInt(r) == 0 ? 1 : Minisat::toInt(r) == 1 ? 0 : -1;
    }
    int val(Lit l) { if ((l >> 1) == 0) return l & 1; if (var.get(l >> 1) < 0) return 0; auto m = s.model[var.get(l >> 1)]; int v = (Minisat::toInt(m) == 0); return v ^ (l & 1); }
};
// input support of a literal (sorted node ids)
static std::vector<uint32_t> g_vis; static uint32_t g_visGen = 0;
static void supportOf(Lit l, std::vector<uint32_t>& out, std::vector<uint32_t>* mark = nullptr) {
    if (g_vis.size() < gnodes.size()) g_vis.resize(gnodes.size(), 0);
    std::vector<uint32_t> st{l >> 1};
    while (!st.empty()) { uint32_t n = st.back(); st.pop_back(); if (g_vis[n] == g_visGen) continue; g_vis[n] = g_visGen; const Node& x = gnodes[n]; if (x.t == N_CONST) continue; if (x.t == N_IN) { out.push_back(n); continue; } st.push_back(x.a >> 1); st.push_back(x.b >> 1); if (x.t == N_MUX) st.push_back(x.c >> 1); }
}
struct AssumeIdx { std::vector<std::vector<uint32_t>> sup; std::unordered_map<uint32_t, std::vector<int>> byIn; };
static AssumeIdx g_aidx;
static std::vector<Lit> relevant(Lit goal, const std::vector<Lit>& assumes, size_t n) {
    while (g_aidx.sup.size() < assumes.size()) { size_t i = g_aidx.sup.size(); g_aidx.sup.emplace_back(); ++g_visGen; supportOf(assumes[i], g_aidx.sup.back()); for (uint32_t u : g_aidx.sup.back()) g_aidx.byIn[u].push_back(i); }
    std::vector<uint32_t> q; ++g_visGen; supportOf(goal, q); std::set<int> used; std::set<uint32_t> seen(q.begin(), q.end());
    while (!q.empty()) { uint32_t u = q.back(); q.pop_back(); auto it = g_aidx.byIn.find(u); if (it == g_aidx.byIn.end()) continue; for (int a : it->second) if ((size_t)a < n && used.insert(a).second) for (uint32_t v : g_aidx.sup[a]) if (seen.insert(v).second) q.push_back(v); }
    std::vector<Lit> r; for (int a : used) r.push_back(assumes[a]); r.push_back(goal); return r;
}
static Sat* g_sat; static double g_satTime = 0; static uint64_t g_satCalls = 0;
static std::string g_kissat = "kissat"; static double g_kissatTimeout = 300; static int64_t g_msBudget = 20000;
static std::string g_tmp = "/tmp";
static bool g_unwindLimitHit = false;
// external solver; model returned through 'model' (node->bool)
static int kissatSolve(const std::vector<Lit>& as, std::unordered_map<uint32_t, bool>& model, double timeout) {
    std::unordered_map<uint32_t, int> id; std::vector<uint32_t> order; int nv = 0; size_t ncl = 0; std::string body;
    std::vector<uint32_t> st; for (Lit l : as) if (l > 1) st.push_back(l >> 1);
    for (Lit l : as) if (l == F0) return 0;
    auto app = [&](std::initializer_list<int> c) { for (int x : c) { body += std::to_string(x); body += ' '; } body += "0\n"; ++ncl; };
    auto L = [&](Lit l) { int v = id[l >> 1]; return (l & 1) ? -v : v; };
    while (!st.empty()) {
        uint32_t n = st.back(); if (id.count(n)) { st.pop_back(); continue; }
        const Node x = gnodes[n];
        if (x.t == N_CONST) { id[n] = ++nv; app({-nv}); st.pop_back(); continue; }
        if (x.t == N_IN) { id[n] = ++nv; st.pop_back(); continue; }
        bool ready = true; auto need = [&](Lit l) { if (!id.count(l >> 1)) { st.push_back(l >> 1); ready = false; } };
        need(x.a); need(x.b); if (x.t == N_MUX) need(x.c); if (!ready) continue;
        int o = id[n] = ++nv; int a = L(x.a), b = L(x.b);
        if (x.t == N_AND) { app({-o, a}); app({-o, b}); app({o, -a, -b}); }
        else if (x.t == N_XOR) { app({-o, a, b}); app({-o, -a, -b}); app({o, -a, b}); app({o, a, -b}); }
        else { int c = L(x.c); app({-o, -a, b}); app({o, -a, -b}); app({-o, a, c}); app({o, a, -c}); app({-o, b, c}); app({o, -b, -c}); }
        st.pop_back();
    }
    for (Lit l : as) if (l > 1) app({L(l)});
    char fn[256]; snprintf(fn, sizeof fn, "%s/irvc-%d.cnf", g_tmp.c_str(), getpid());
    { std::ofstream f(fn); f << "p cnf " << nv << " " << ncl << "\n" << body; } body.clear(); body.shrink_to_fit();
    char cmd[600]; snprintf(cmd, sizeof cmd, "%s -q --time=%d %s 2>/dev/null", g_kissat.c_str(), (int)timeout, fn);
    FILE* p = popen(cmd, "r"); if (!p) { unlink(fn); return -1; }
    std::vector<char> vals(nv + 1, 0); char line[1 << 16]; int res = -1;
    while (fgets(line, sizeof line, p)) {
        if (line[0] == 's') { if (strstr(line, "UNSATISFIABLE")) res = 0; else if (strstr(line, "SATISFIABLE")) res = 1; }
        else if (line[0] == 'v') { std::istringstream is(line + 1); int x; while (is >> x) if (x > 0 && x <= nv) vals[x] = 1; }
    }
    pclose(p); unlink(fn);
    if (res == 1) for (auto& kv : id) model[kv.first] = vals[kv.second];
    return res;
}

// ------------------------------------------------------------------ bit vectors
typedef SmallVector<Lit, 32> BV;
static BV cst(unsigned w, uint64_t v) { BV r; r.resize(w); for (unsigned i = 0; i < w; ++i) r[i] = i < 64 ? (v >> i) & 1 : 0; return r; }
static BV cstAP(const APInt& v) { BV r; unsigned w = v.getBitWidth(); r.resize(w); for (unsigned i = 0; i < w; ++i) r[i] = v[i]; return r; }
static inline bool isC(const BV& b) { for (Lit l : b) if (l > 1) return false; return true; }
static uint64_t cval(const BV& b) { uint64_t v = 0; for (unsigned i = 0; i < b.size() && i < 64; ++i) v |= (uint64_t)(b[i] & 1) << i; return v; }
static int64_t csval(const BV& b) { uint64_t v = cval(b); unsigned w = b.size(); if (w < 64 && w > 0 && (b[w - 1] & 1)) v |= ~0ull << w; return (int64_t)v; }
static BV bvMux(Lit c, const BV& t, const BV& e) { if (c == T1) return t; if (c == F0) return e; BV r; r.resize(t.size()); for (unsigned i = 0; i < t.size(); ++i) r[i] = Mux(c, t[i], e[i]); return r; }
static BV bvAdd(const BV& a, const BV& b, Lit cin) {
    unsigned w = a.size(); BV r; r.resize(w); Lit c = cin;
    for (unsigned i = 0; i < w; ++i) { Lit x = Xor(a[i], b[i]); r[i] = Xor(x, c); if (i + 1 < w) c = Or(And(a[i], b[i]), And(x, c)); }
    return r;
}
static BV bvNot(const BV& a);
// 64-bit sums are kept canonical: two sums of the same terms, in any order or grouping, are the same literals
struct LinForm { std::map<int, uint64_t> t; uint64_t c = 0; bool operator<(const LinForm& o) const { return std::tie(c, t) < std::tie(o.c, o.t); } };
static std::map<std::vector<Lit>, LinForm> g_lin; static std::map<LinForm, BV> g_linBV; static int g_linAtoms = 0;
static const LinForm& linOf(const BV& a) {
    std::vector<Lit> k(a.begin(), a.end()); auto it = g_lin.find(k); if (it != g_lin.end()) return it->second;
    LinForm f; if (isC(a)) f.c = cval(a); else { f.t[g_linAtoms++] = 1; g_linBV[f] = a; } return g_lin[k] = f;
}
static BV bvAddSub64(const BV& a, const BV& b, bool sub) {
    bool ca = isC(a), cb = isC(b); if (ca && cb) return cst(64, sub ? cval(a) - cval(b) : cval(a) + cval(b));
    LinForm f = linOf(a); const LinForm& g = linOf(b); f.c = sub ? f.c - g.c : f.c + g.c;
    for (auto& x : g.t) { uint64_t& y = f.t[x.first]; y = sub ? y - x.second : y + x.second; if (!y) f.t.erase(x.first); }
    if (f.t.empty()) return cst(64, f.c); auto it = g_linBV.find(f); if (it != g_linBV.end()) return it->second;
    BV r = sub ? bvAdd(a, bvNot(b), T1) : bvAdd(a, b, F0); std::vector<Lit> k(r.begin(), r.end()); if (!g_lin.count(k)) g_lin[k] = f; g_linBV[f] = r; return r;
}
static BV bvNot(const BV& a) { BV r = a; for (auto& l : r) l ^= 1; return r; }
static BV bvSub(const BV& a, const BV& b) { return bvAdd(a, bvNot(b), T1); }
static Lit bvEq(const BV& a, const BV& b) { Lit r = T1; for (unsigned i = 0; i < a.size(); ++i) { Lit x = Not(Xor(a[i], b[i])); if (x == F0) return F0; } for (unsigned i = 0; i < a.size(); ++i) { r = And(r, Not(Xor(a[i], b[i]))); if (r == F0) break; } return r; }
static Lit bvUlt(const BV& a, const BV& b) { Lit r = F0; for (unsigned i = 0; i < a.size(); ++i) r = Mux(Xor(a[i], b[i]), b[i], r); return r; }
static Lit bvSlt(BV a, BV b) { a.back() ^= 1; b.back() ^= 1; return bvUlt(a, b); }
static BV bvShlC(const BV& a, unsigned s) { unsigned w = a.size(); BV r; r.resize(w, F0); for (unsigned i = 0; i < w; ++i) r[i] = i >= s ? a[i - s] : F0; return r; }
static BV bvShift(const BV& a, const BV& s, int kind) { // 0 shl 1 lshr 2 ashr
    unsigned w = a.size(); Lit fill = kind == 2 ? a.back() : F0; BV r = a; unsigned k = 0;
    for (; (1u << k) < w; ++k) {
        if (k >= s.size()) break; if (s[k] == F0) continue; unsigned sh = 1u << k; BV t; t.resize(w);
        for (unsigned i = 0; i < w; ++i) t[i] = kind == 0 ? (i >= sh ? r[i - sh] : F0) : (i + sh < w ? r[i + sh] : fill);
        r = bvMux(s[k], t, r);
    }
    Lit big = F0; for (; k < s.size(); ++k) big = Or(big, s[k]);
    if (big != F0) { BV f; f.resize(w, fill); r = bvMux(big, f, r); }
    return r;
}
static BV bvMul(const BV& a, const BV& b) {
    unsigned w = a.size(); const BV *x = &a, *y = &b; unsigned ca = 0, cb = 0; for (Lit l : a) ca += l == F0; for (Lit l : b) cb += l == F0;
    if (ca > cb) std::swap(x, y); // y has more zeros
    BV r = cst(w, 0);
    for (unsigned i = 0; i < w; ++i) { Lit m = (*y)[i]; if (m == F0) continue; BV s = bvShlC(*x, i); if (m != T1) for (auto& l : s) l = And(l, m); r = bvAdd(r, s, F0); }
    return r;
}
static unsigned effw(const BV& a) { unsigned w = a.size(); while (w > 0 && a[w - 1] == F0) --w; return w; }
static void bvUDivRem(const BV& a, const BV& b, BV& q, BV& rem) {
    unsigned w = a.size(), ea = effw(a); q = cst(w, 0); rem = cst(w, 0);
    for (int i = (int)ea - 1; i >= 0; --i) {
        BV r2 = bvShlC(rem, 1); r2[0] = a[i];
        Lit ge = Not(bvUlt(r2, b)); q[i] = ge; rem = bvMux(ge, bvSub(r2, b), r2);
    }
}
static BV bvNeg(const BV& a) { return bvAdd(bvNot(a), cst(a.size(), 0), T1); }
static void bvSDivRem(const BV& a, const BV& b, BV& q, BV& r) {
    Lit sa = a.back(), sb = b.back(); BV ua = bvMux(sa, bvNeg(a), a), ub = bvMux(sb, bvNeg(b), b); BV uq, ur; bvUDivRem(ua, ub, uq, ur);
    q = bvMux(Xor(sa, sb), bvNeg(uq), uq); r = bvMux(sa, bvNeg(ur), ur);
}
static BV bvPop(const BV& a) {
    unsigned w = a.size(); std::vector<BV> v; for (Lit l : a) { if (l == F0) continue; v.push_back(BV{l}); }
    if (v.empty()) return cst(w, 0);
    while (v.size() > 1) { std::vector<BV> n; for (size_t i = 0; i + 1 < v.size(); i += 2) { BV x = v[i], y = v[i + 1]; unsigned m = std::max(x.size(), y.size()) + 1; x.resize(m, F0); y.resize(m, F0); n.push_back(bvAdd(x, y, F0)); } if (v.size() & 1) n.push_back(v.back()); v.swap(n); }
    BV r = v[0]; r.resize(w, F0); return r;
}
static BV bvCtz(const BV& a, bool lead) {
    unsigned w = a.size(); BV r = cst(w, w); // lowest set wins: iterate from far to near
    for (int i = (int)w - 1; i >= 0; --i) { unsigned pos = lead ? w - 1 - i : i; r = bvMux(a[pos], cst(w, i), r); }
    return r;
}

// ------------------------------------------------------------------ values & memory
// index * stride; lim > 0: the index runs over an array of lim elements (beyond is an obligation, not an alias)
struct Term { BV first; int64_t second; int64_t lim = 0; bool operator==(const Term& o) const { return first == o.first && second == o.second && lim == o.lim; } };
struct PAlt { Lit g; int reg; int64_t off; std::vector<Term> terms;
    bool samePlace(const PAlt& o) const { return reg == o.reg && off == o.off && terms == o.terms; } };
struct Val { uint8_t k = 0; BV b; std::vector<PAlt> p; std::vector<Val> a; }; // k: 0 int/vec, 1 ptr, 2 agg, 3 undef
static Val VI(const BV& b) { Val v; v.b = b; return v; }
static Val VI(BV&& b) { Val v; v.b = std::move(b); return v; }
static Val VP(int reg, int64_t off) { Val v; v.k = 1; v.p.push_back({T1, reg, off, {}}); return v; }
static const int PG = 64; static const Lit UNI = 0xFFFFFFFEu; // uninitialised bit: becomes a fresh input when first observed
struct Page { Lit b[PG * 8]; };
struct RegInfo { std::string name; int64_t size; bool sink = false; int sinkElem = 0; const GlobalVariable* gv = nullptr; Function* fn = nullptr; bool dead = false; const std::vector<uint8_t>* img = nullptr; };
static std::vector<RegInfo> regInfo;
struct Region { std::vector<std::shared_ptr<Page>> pages; const uint8_t* cb = nullptr; std::map<int64_t, Val> slots; };
typedef std::shared_ptr<Region> RegP;
struct Mem { std::vector<std::pair<int, RegP>> r; // sorted by id
    RegP* find(int id) { auto it = std::lower_bound(r.begin(), r.end(), id, [](const std::pair<int, RegP>& x, int i) { return x.first < i; }); if (it != r.end() && it->first == id) return &it->second; return nullptr; }
    void set(int id, RegP p) { auto it = std::lower_bound(r.begin(), r.end(), id, [](const std::pair<int, RegP>& x, int i) { return x.first < i; }); if (it != r.end() && it->first == id) it->second = p; else r.insert(it, {id, p}); }
    void erase(int id) { auto it = std::lower_bound(r.begin(), r.end(), id, [](const std::pair<int, RegP>& x, int i) { return x.first < i; }); if (it != r.end() && it->first == id) r.erase(it); }
};
static std::map<int, RegP> baseMem; // globals, lazily
static std::map<std::string, std::vector<uint8_t>> dumpMap;
// addresses of the globals and live heap blocks in the native run that produced the dump
struct DumpBlk { std::string name; uint64_t size; bool heap; int reg = -1; }; static std::map<uint64_t, DumpBlk> dumpAddr;
static Module* M; static const DataLayout* DL; static std::unordered_map<const Value*, int> gvReg;
static std::vector<std::string> g_symGlobals; static std::map<std::string, int> g_ufGlobals; // name -> number of low bits known zero
struct UfCall { int reg; int64_t n; BV off, val; }; static std::vector<UfCall> ufCalls; static bool feasible(Lit g);
static int newRegion(const std::string& n, int64_t size) { regInfo.push_back({n, size}); return regInfo.size() - 1; }

struct Oblig { Lit fail; std::string id; size_t nAssume; std::string loc; Lit bad; };
struct Event { Lit g; int reg; int64_t off; BV v; };
static std::vector<Oblig> obligs; static std::vector<Lit> assumes; static std::vector<Event> events; static std::vector<std::pair<std::string, Lit>> covers;
struct NondetRec { std::string name; BV b; }; static std::vector<NondetRec> nondets;
static Lit ctxGuard = T1; static Lit curGuard = T1; // curGuard: local guard of running frame
static std::vector<Lit> throwLits;
static Lit fullG() { return And(ctxGuard, curGuard); }
static std::set<std::string> funcsSeen;
static std::vector<std::string> g_opaque; // functions that may only be entered by contract (prefixes)
struct CutRetry { std::string what; }; static std::map<std::string, std::set<int>> g_cutHavoc; static const std::vector<int>* g_cutAllocas; static std::string g_cutFn; static std::set<std::pair<int, int64_t>> g_cutFrame; // locals the loop writes: arbitrary at its head
static std::map<std::string, std::string> cutMap; // function -> loop-invariant hook (see cutLoop)
static std::map<std::string, std::string> replaceMap; static std::set<std::string> replUsed;
static std::vector<int64_t> params;
static uint64_t g_instr = 0; static double g_deadline = 1e18; static std::string curLoc;
static std::vector<std::string> g_skip; // obligations decided by another case of the same function (--skip PREFIX)
static void oblige(Lit fail, const std::string& id, Lit bad = T1) { for (auto& k : g_skip) if (id.compare(0, k.size(), k) == 0) return; obligs.push_back({fail, id, assumes.size(), curLoc, bad}); }

static Val readConst(const Constant* c);
static void initRegionFrom(Region& R, const Constant* c, int64_t off, std::vector<uint8_t>& buf) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* ci = dyn_cast<ConstantInt>(c)) { uint64_t n = DL->getTypeStoreSize(t); for (uint64_t i = 0; i < n; ++i) buf[off + i] = (ci->getValue().lshr(std::min<uint64_t>(8 * i, ci->getBitWidth()))).getLoBits(8).zextOrTrunc(64).getZExtValue(); return; }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt v = cf->getValueAPF().bitcastToAPInt(); for (unsigned i = 0; i < v.getBitWidth() / 8; ++i) buf[off + i] = v.lshr(8 * i).getLoBits(8).zextOrTrunc(64).getZExtValue(); return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = DL->getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); ++i) initRegionFrom(R, cd->getElementAsConstant(i), off + i * es, buf); return; }
    if (auto* ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); ++i) initRegionFrom(R, ca->getOperand(i), off + i * es, buf); return; }
    if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); ++i) initRegionFrom(R, cs->getOperand(i), off + sl->getElementOffset(i), buf); return; }
    if (auto* cv = dyn_cast<ConstantVector>(c)) { uint64_t es = DL->getTypeAllocSize(cv->getType()->getElementType()); for (unsigned i = 0; i < cv->getNumOperands(); ++i) initRegionFrom(R, cv->getOperand(i), off + i * es, buf); return; }
    if (isa<ConstantPointerNull>(c)) return;
    if (t->isPointerTy()) { R.slots[off] = readConst(c); return; }
    unsup("global initializer");
}
static std::vector<std::unique_ptr<std::vector<uint8_t>>> keepBufs;
static int globalRegion(const GlobalVariable* g);
static bool dumpPtr(uint64_t v, Val& out) { // a pointer of the native run, as a place here
    auto it = dumpAddr.upper_bound(v); if (it == dumpAddr.begin()) return false; --it; DumpBlk& b = it->second; if (v > it->first + b.size || (v == it->first + b.size && b.size)) return false;
    if (b.reg < 0) { if (b.heap) { b.reg = newRegion(b.name, b.size); regInfo[b.reg].img = &dumpMap[b.name]; } else { auto* g = M->getGlobalVariable(b.name, true); if (!g) return false; b.reg = globalRegion(g); } }
    out = VP(b.reg, (int64_t)(v - it->first)); return true;
}
static void ptrOffsets(Type* t, int64_t off, std::vector<int64_t>& out) {
    if (t->isPointerTy()) { out.push_back(off); return; }
    if (auto* st = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) ptrOffsets(st->getElementType(i), off + L->getElementOffset(i), out); }
    else if (auto* at = dyn_cast<ArrayType>(t)) { std::vector<int64_t> e; ptrOffsets(at->getElementType(), 0, e); if (e.empty()) return; int64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); ++i) for (auto x : e) out.push_back(off + i * es + x); }
}
static void imgPtrs(Region& R, std::vector<uint8_t>& buf, const std::vector<int64_t>& offs) { for (int64_t o : offs) { if (o + 8 > (int64_t)buf.size()) continue; uint64_t v; memcpy(&v, &buf[o], 8); Val p; if (v && dumpPtr(v, p)) { memset(&buf[o], 0, 8); R.slots[o] = p; } } }
static RegP baseRegion(int id) {
    auto it = baseMem.find(id); if (it != baseMem.end()) return it->second;
    auto R = std::make_shared<Region>(); int64_t sz = regInfo[id].size; R->pages.resize((sz + PG - 1) / PG);
    if (auto* gv = regInfo[id].gv) {
        bool sym = false; for (auto& s : g_symGlobals) if (gv->getName() == s) sym = true;
        auto buf = std::make_unique<std::vector<uint8_t>>(sz);
        auto d = dumpMap.find(gv->getName().str());
        if (sym) {}
        else if (d != dumpMap.end() && !gv->isConstant()) { *buf = d->second; buf->resize(sz); std::vector<int64_t> po; ptrOffsets(gv->getValueType(), 0, po); imgPtrs(*R, *buf, po); R->cb = buf->data(); }
        else if (gv->hasInitializer()) { initRegionFrom(*R, gv->getInitializer(), 0, *buf); R->cb = buf->data(); }
        keepBufs.push_back(std::move(buf));
    }
    else if (regInfo[id].img) { auto buf = std::make_unique<std::vector<uint8_t>>(*regInfo[id].img); buf->resize(sz); std::vector<int64_t> po; for (int64_t o = 0; o + 8 <= sz; o += 8) po.push_back(o); imgPtrs(*R, *buf, po); R->cb = buf->data(); keepBufs.push_back(std::move(buf)); }
    baseMem[id] = R; return R;
}
static RegP getR(Mem& m, int id) { if (RegP* p = m.find(id)) return *p; if (regInfo[id].gv || regInfo[id].img) return baseRegion(id); unsup("access to dead region " + regInfo[id].name); }
static Region& writable(Mem& m, int id) {
    RegP* p = m.find(id);
    if (!p) { RegP b = getR(m, id); m.set(id, std::make_shared<Region>(*b)); p = m.find(id); return **p; }
    if (p->use_count() > 1) *p = std::make_shared<Region>(**p);
    return **p;
}
static Page& readPage(Region& R, int pg, Page& tmp) {
    if (R.pages[pg]) return *R.pages[pg];
    if (R.cb) return tmp; // caller handles
    auto p = std::make_shared<Page>(); for (auto& l : p->b) l = UNI; R.pages[pg] = p; return *p;
}
static BV ptrToBits(const Val& v);
static BV readBytes(Region& R, int64_t off, int64_t n, int64_t size) {
    BV r; r.resize(n * 8);
    // pointer slots overlapping
    if (!R.slots.empty()) {
        for (auto it = R.slots.lower_bound(off - 7); it != R.slots.end() && it->first < off + n; ++it) {
            if (it->first == off && n == 8) return ptrToBits(it->second);
            BV pb = ptrToBits(it->second); // partial read: materialise below
            (void)pb;
        }
    }
    for (int64_t i = 0; i < n; ++i) {
        int64_t o = off + i; int pg = o / PG, in = o % PG;
        if (!R.pages[pg] && R.cb) { uint8_t c = o < size ? R.cb[o] : 0; for (int k = 0; k < 8; ++k) r[i * 8 + k] = (c >> k) & 1; }
        else { Page tmp; Page& P = readPage(R, pg, tmp); for (int k = 0; k < 8; ++k) { Lit& q = P.b[in * 8 + k]; if (q == UNI) q = newInput(); r[i * 8 + k] = q; } }
    }
    if (!R.slots.empty()) for (auto it = R.slots.lower_bound(off - 7); it != R.slots.end() && it->first < off + n; ++it) {
        BV pb = ptrToBits(it->second); for (int64_t i = 0; i < 8; ++i) { int64_t o = it->first + i - off; if (o >= 0 && o < n) for (int k = 0; k < 8; ++k) r[o * 8 + k] = pb[i * 8 + k]; }
    }
    return r;
}
static Page& writePage(Region& R, int pg, int64_t size) {
    auto& sp = R.pages[pg];
    if (!sp) { auto p = std::make_shared<Page>(); if (R.cb) { for (int i = 0; i < PG; ++i) { int64_t o = (int64_t)pg * PG + i; uint8_t c = o < size ? R.cb[o] : 0; for (int k = 0; k < 8; ++k) p->b[i * 8 + k] = (c >> k) & 1; } } else for (auto& l : p->b) l = UNI; sp = p; return *sp; }
    if (sp.use_count() > 1) sp = std::make_shared<Page>(*sp);
    return *sp;
}
static void writeBytes(Region& R, int64_t off, const BV& v, int64_t size) {
    int64_t n = v.size() / 8;
    if (!R.slots.empty()) {
        std::vector<int64_t> kill; for (auto it = R.slots.lower_bound(off - 7); it != R.slots.end() && it->first < off + n; ++it) kill.push_back(it->first);
        for (auto k : kill) { Val pv = R.slots[k]; R.slots.erase(k); if (!(k >= off && k + 8 <= off + n)) { BV pb = ptrToBits(pv); writeBytes(R, k, pb, size); } }
    }
    int64_t i = 0; while (i < n) { int64_t o = off + i; int pg = o / PG, in = o % PG; Page& P = writePage(R, pg, size); int64_t m = std::min<int64_t>(n - i, PG - in); for (int64_t j = 0; j < m * 8; ++j) P.b[in * 8 + j] = v[i * 8 + j]; i += m; }
}
// ------------------------------------------------------------------ pointers
static BV termOff(const PAlt& a) { BV r = cst(64, (uint64_t)a.off); for (auto& t : a.terms) { BV m = bvMul(t.first, cst(64, (uint64_t)t.second)); r = bvAdd(r, m, F0); } return r; }
static BV ptrToBits(const Val& v) {
    if (v.k != 1) return v.b;
    BV r; bool first = true;
    for (auto& a : v.p) { BV o = termOff(a); BV x = a.reg == 0 ? o : bvAdd(o, cst(64, (uint64_t)a.reg << 32), F0); if (first) { r = x; first = false; } else r = bvMux(a.g, x, r); }
    if (first) return cst(64, 0);
    return r;
}
static Val bitsToPtr(const BV& b) {
    if (!isC(b)) unsup("symbolic inttoptr");
    uint64_t v = cval(b); int reg = v >> 32; int64_t off = v & 0xffffffff;
    if (reg == 0) return VP(0, off);
    if (reg >= (int)regInfo.size()) return VP(0, 0x7fffffff);
    return VP(reg, off);
}
static Val muxVal(Lit c, const Val& t, const Val& e);
static Val muxPtr(Lit c, const Val& t, const Val& e) {
    if (c == T1) return t; if (c == F0) return e;
    Val r; r.k = 1;
    auto add = [&](const PAlt& a, Lit g) { Lit gg = And(a.g, g); if (gg == F0) return; for (auto& x : r.p) if (x.samePlace(a)) { x.g = Or(x.g, gg); return; } PAlt y = a; y.g = gg; r.p.push_back(y); };
    for (auto& a : t.p) add(a, c); for (auto& a : e.p) add(a, Not(c));
    if (r.p.size() == 1) r.p[0].g = T1;
    return r;
}
static Val asPtr(const Val& v) { if (v.k == 1) return v; if (v.k == 3) return VP(0, 0); return bitsToPtr(v.b); }
static Val muxVal(Lit c, const Val& t, const Val& e) {
    if (c == T1) return t; if (c == F0) return e;
    if (t.k == 3) return e; if (e.k == 3) return t;
    if (t.k == 1 || e.k == 1) return muxPtr(c, asPtr(t), asPtr(e));
    if (t.k == 2) { Val r; r.k = 2; for (size_t i = 0; i < t.a.size(); ++i) r.a.push_back(muxVal(c, t.a[i], e.a[i])); return r; }
    return VI(bvMux(c, t.b, e.b));
}
// relative condition: g1 xor-disjoint g2 ; return c with c&(g1|g2)==g1
static void flat(Lit g, std::vector<Lit>& v, int lim) { if ((int)v.size() < lim && isAnd(g)) { flat(N(g).a, v, lim); flat(N(g).b, v, lim); } else v.push_back(g); }
static Lit relCond(Lit g1, Lit g2) {
    if (g1 == T1 || g2 == F0) return T1; if (g1 == F0) return F0;
    std::vector<Lit> a, b; flat(g1, a, 64); flat(g2, b, 64); std::sort(b.begin(), b.end());
    for (Lit x : a) if (std::binary_search(b.begin(), b.end(), x ^ 1)) { // single complementary literal: enough
        return x; }
    Lit c = T1; for (Lit x : a) if (!std::binary_search(b.begin(), b.end(), x)) c = And(c, x);
    // symmetric choice: try the other side
    return c;
}
static void mergeMem(Mem& a, Lit ga, const Mem& b, Lit gb) { // a := ga? a : b
    Lit c = relCond(ga, gb); if (c == T1) return;
    Mem out; size_t i = 0, j = 0; Mem bb = b;
    while (i < a.r.size() || j < bb.r.size()) {
        int ia = i < a.r.size() ? a.r[i].first : INT32_MAX, ib = j < bb.r.size() ? bb.r[j].first : INT32_MAX;
        if (ia == ib && a.r[i].second == bb.r[j].second) { out.r.push_back(a.r[i]); ++i; ++j; continue; }
        int id = std::min(ia, ib); RegP ra = ia == id ? a.r[i].second : nullptr, rb = ib == id ? bb.r[j].second : nullptr;
        if (ia == id) ++i; if (ib == id) ++j;
        if (!ra || !rb) { if (regInfo[id].gv || regInfo[id].img) { if (!ra) ra = baseRegion(id); if (!rb) rb = baseRegion(id); } else { out.r.push_back({id, ra ? ra : rb}); continue; } }
        auto R = std::make_shared<Region>(*ra); int64_t sz = regInfo[id].size;
        // slots
        std::set<int64_t> ks; for (auto& s : ra->slots) ks.insert(s.first); for (auto& s : rb->slots) ks.insert(s.first);
        R->slots.clear();
        for (size_t p = 0; p < R->pages.size(); ++p) {
            if (ra->pages[p] == rb->pages[p]) continue;
            Page ta, tb; Page* pa; Page* pb;
            auto get = [&](Region& r, Page& t) -> Page* { if (r.pages[p]) return r.pages[p].get(); if (r.cb) { for (int k = 0; k < PG; ++k) { int64_t o = p * PG + k; uint8_t cc = o < sz ? r.cb[o] : 0; for (int q = 0; q < 8; ++q) t.b[k * 8 + q] = (cc >> q) & 1; } return &t; } return nullptr; };
            pa = get(*ra, ta); pb = get(*rb, tb);
            if (!pa) { R->pages[p] = rb->pages[p]; continue; } if (!pb) { continue; }
            auto np = std::make_shared<Page>(); bool same = true;
            for (int k = 0; k < PG * 8; ++k) { Lit x = pa->b[k], y = pb->b[k]; if (x != y) { if (x == UNI) x = pa->b[k] = newInput(); if (y == UNI) y = pb->b[k] = newInput(); } if (x == y) np->b[k] = x; else { np->b[k] = Mux(c, x, y); same = false; } }
            if (!same || !ra->pages[p]) R->pages[p] = np;
        }
        for (int64_t k : ks) {
            auto sa = ra->slots.find(k), sb = rb->slots.find(k); Val va, vb;
            auto fromBytes = [&](Region& r) -> Val { BV x = readBytes(r, k, 8, sz); if (isC(x)) return bitsToPtr(x); Val u; u.k = 3; return u; };
            va = sa != ra->slots.end() ? sa->second : fromBytes(*ra); vb = sb != rb->slots.end() ? sb->second : fromBytes(*rb);
            R->slots[k] = muxVal(c, va, vb);
        }
        out.r.push_back({id, R});
    }
    a = std::move(out);
}
// enumerate concrete offsets of an alternative: callback(off, cond)  ; returns lit of "no valid place"
static Lit enumOff(const PAlt& a, int64_t n, int64_t size, const std::function<void(int64_t, Lit)>& cb) {
    if (a.terms.empty()) { if (a.off < 0 || a.off + n > size) return T1; cb(a.off, T1); return F0; }
    // order: terms with few symbolic bits first
    struct TI { const BV* b; int64_t s; std::vector<int> sb; int64_t cpart; int64_t lim; };
    std::vector<TI> ts;
    for (auto& t : a.terms) { TI x; x.b = &t.first; x.s = t.second; x.lim = t.lim; uint64_t c = 0; for (int i = 0; i < 64; ++i) { Lit l = t.first[i]; if (l > 1) x.sb.push_back(i); else c |= (uint64_t)l << i; } x.cpart = (int64_t)c; ts.push_back(x); }
    std::sort(ts.begin(), ts.end(), [](const TI& x, const TI& y) { return x.sb.size() < y.sb.size(); });
    size_t budget = 200000;
    std::function<Lit(size_t, int64_t, Lit)> rec = [&](size_t k, int64_t off, Lit cond) -> Lit {
        if (cond == F0) return F0;
        if (k == ts.size()) { if (off < 0 || off + n > size) return cond; if (budget-- == 0) unsup("symbolic offset enumeration too large"); cb(off, cond); return F0; }
        TI& t = ts[k]; Lit inv = F0;
        // distinct literals count
        std::map<Lit, std::vector<std::pair<int, int>>> groups; for (int i : t.sb) groups[(*t.b)[i] & ~1u].push_back({i, (*t.b)[i] & 1});
        if (groups.size() <= 10) {
            std::vector<std::pair<Lit, std::vector<std::pair<int, int>>>> g(groups.rbegin(), groups.rend());
            std::function<Lit(size_t, uint64_t, Lit)> r2 = [&](size_t gi, uint64_t v, Lit c) -> Lit {
                if (c == F0) return F0;
                if (gi == g.size()) { if (t.lim && v >= (uint64_t)t.lim) return c; return rec(k + 1, off + (int64_t)v * t.s, c); }
                uint64_t v0 = v, v1 = v; for (auto& p : g[gi].second) { if (p.second) v0 |= 1ull << p.first; else v1 |= 1ull << p.first; }
                Lit i0 = r2(gi + 1, v0, And(c, Not(g[gi].first))); Lit i1 = r2(gi + 1, v1, And(c, g[gi].first)); return Or(i0, i1);
            };
            return r2(0, (uint64_t)t.cpart, cond);
        }
        if (k + 1 != ts.size()) unsup("two wide symbolic indices");
        // all v with 0 <= off+v*s, off+v*s+n<=size
        int64_t s = t.s; if (s <= 0) unsup("non-positive stride"); Lit any = F0;
        int64_t lo = -((off) / s) - 1; int64_t hi = (size - off) / s + 1; if (hi - lo > 100000) unsup("wide symbolic index over large region");
        for (int64_t v = lo; v <= hi; ++v) { int64_t o = off + v * s; if (o < 0 || o + n > size) continue; if (t.lim && (uint64_t)v >= (uint64_t)t.lim) continue; Lit e = And(cond, bvEq(*t.b, cst(64, (uint64_t)v))); if (e == F0) continue; any = Or(any, e); cb(o, e); }
        inv = And(cond, Not(any)); return inv;
    };
    return rec(0, a.off, T1);
}
static Val loadPtrAt(Region& R, int64_t off, int64_t size) {
    auto it = R.slots.find(off); if (it != R.slots.end()) return it->second;
    BV b = readBytes(R, off, 8, size); if (isC(b)) return bitsToPtr(b);
    Val u; u.k = 3; return u; // uninitialised / symbolic: unknown pointer
}
static BV bitsOfInt(const Val& v) { return v.k == 1 ? ptrToBits(v) : v.b; }
static Val loadT(Mem& m, const Val& ptr, Type* ty);
static void storeT(Mem& m, const Val& ptr, const Val& v, Type* ty);
static int64_t storeSize(Type* t) { return DL->getTypeStoreSize(t); }
static unsigned bitW(Type* t) { if (t->isPointerTy()) return 64; if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements() * bitW(v->getElementType()); return t->getPrimitiveSizeInBits(); }
static Val undefVal(Type* t) {
    if (t->isStructTy() || t->isArrayTy()) { Val r; r.k = 2; unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); for (unsigned i = 0; i < n; ++i) r.a.push_back(undefVal(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType())); return r; }
    if (t->isPointerTy()) { Val r; r.k = 3; return r; }
    BV b; b.resize(bitW(t), F0); return VI(b); // undef modelled as 0 bits: LLVM undef never flows out of defined programs here
}
static Val loadT(Mem& m, const Val& ptr0, Type* ty) {
    if (ty->isStructTy() || ty->isArrayTy()) unsup("aggregate load");
    Val ptr = asPtr(ptr0); int64_t n = storeSize(ty); bool isP = ty->isPointerTy(); Val res; bool first = true; Lit bad = F0;
    for (auto& a : ptr.p) {
        if (a.g == F0) continue;
        if (a.reg == 0 || regInfo[a.reg].fn) { bad = Or(bad, a.g); continue; }
        if (regInfo[a.reg].sink) unsup("load from sink");
        RegP R = getR(m, a.reg); int64_t size = regInfo[a.reg].size; Val av; bool af = true;
        if (!isP && regInfo[a.reg].gv && !g_ufGlobals.empty()) { auto uf = g_ufGlobals.find(regInfo[a.reg].gv->getName().str()); if (uf != g_ufGlobals.end()) {
            // the table is left uninterpreted: equal places hold equal values, nothing else is known
            Lit inv = enumOff(a, n, size, [&](int64_t, Lit) {}); bad = Or(bad, And(a.g, inv)); BV off = termOff(a); Lit gg = And(fullG(), a.g); const UfCall* hit = nullptr;
            for (auto& u : ufCalls) if (u.reg == a.reg && u.n == n && u.off == off) hit = &u;
            if (!hit) for (auto& u : ufCalls) if (u.reg == a.reg && u.n == n) { Lit d = And(gg, Not(bvEq(u.off, off))); if (d == F0 || !feasible(d)) { hit = &u; break; } }
            BV val; if (hit) val = hit->val; else { val.resize(n * 8, F0); for (int i = uf->second; i < n * 8; ++i) val[i] = newInput(); for (auto& u : ufCalls) if (u.reg == a.reg && u.n == n) { Lit e = bvEq(u.off, off); if (e != F0) assumes.push_back(Or(Not(e), bvEq(u.val, val))); } ufCalls.push_back({a.reg, n, off, val}); }
            av = VI(val); if (first) { res = av; first = false; } else res = muxVal(a.g, av, res); continue; } }
        if (!isP && !a.terms.empty()) {
            // accumulate bits with or-of-ands (conditions are exclusive)
            BV acc; std::vector<std::pair<int64_t, Lit>> leaves;
            Lit inv = enumOff(a, n, size, [&](int64_t o, Lit c) { leaves.push_back({o, c}); });
            bad = Or(bad, And(a.g, inv));
            // balanced: build mux by splitting; leaf conditions are exclusive so OR(AND) is exact on valid places
            acc.resize(n * 8, F0);
            for (auto& lf : leaves) { BV x = readBytes(*R, lf.first, n, size); for (unsigned i = 0; i < x.size(); ++i) if (x[i] != F0) acc[i] = Or(acc[i], And(lf.second, x[i])); }
            if (leaves.empty()) continue;
            av = VI(acc); af = false;
        } else {
            Lit inv = enumOff(a, n, size, [&](int64_t o, Lit c) { Val x = isP ? loadPtrAt(*R, o, size) : VI(readBytes(*R, o, n, size)); if (af) { av = x; af = false; } else av = muxVal(c, x, av); });
            bad = Or(bad, And(a.g, inv));
        }
        if (af) continue;
        if (first) { res = av; first = false; } else res = muxVal(a.g, av, res);
    }
    if (bad != F0) oblige(And(fullG(), bad), "memory-safety(load)", bad);
    if (first) return undefVal(ty);
    if (!isP) { unsigned w = bitW(ty); if (res.k == 0 && res.b.size() != w) res.b.resize(w); }
    return res;
}
static void storeT(Mem& m, const Val& ptr0, const Val& v, Type* ty) {
    if (ty->isStructTy() || ty->isArrayTy()) unsup("aggregate store");
    Val ptr = asPtr(ptr0); int64_t n = storeSize(ty); Lit bad = F0; bool isP = v.k == 1;
    BV bits; if (!isP) { if (v.k == 3) bits = cst(n * 8, 0); else { bits = v.b; bits.resize(n * 8, F0); } }
    for (auto& a : ptr.p) {
        if (a.g == F0) continue;
        if (a.reg == 0 || regInfo[a.reg].fn) { bad = Or(bad, a.g); continue; }
        if (regInfo[a.reg].sink) { events.push_back({And(fullG(), a.g), a.reg, a.off, isP ? ptrToBits(v) : bits}); continue; }
        if (regInfo[a.reg].gv && regInfo[a.reg].gv->isConstant()) { bad = Or(bad, a.g); continue; }
        Region& R = writable(m, a.reg); int64_t size = regInfo[a.reg].size;
        Lit inv = enumOff(a, n, size, [&](int64_t o, Lit c0) {
            Lit c = And(c0, a.g);
            if (isP) { if (c == T1) { writeBytes(R, o, cst(64, 0), size); R.slots[o] = v; } else { Val old = loadPtrAt(R, o, size); writeBytes(R, o, cst(64, 0), size); R.slots[o] = muxVal(c, v, old); } }
            else if (c == T1) writeBytes(R, o, bits, size);
            else if (n == 8 && R.slots.count(o)) { Val old = R.slots[o]; if (isC(bits)) { Val nv = bitsToPtr(bits); writeBytes(R, o, cst(64, 0), size); R.slots[o] = muxVal(c, nv, old); } else writeBytes(R, o, bvMux(c, bits, ptrToBits(old)), size); }
            else { BV old = readBytes(R, o, n, size); writeBytes(R, o, bvMux(c, bits, old), size); }
        });
        bad = Or(bad, And(a.g, inv));
    }
    if (bad != F0) oblige(And(fullG(), bad), "memory-safety(store)", bad);
}
static void memCopy(Mem& m, const Val& d0, const Val& s0, int64_t n) {
    Val d = asPtr(d0), s = asPtr(s0);
    if (n == 0) return;
    if (d.p.size() != 1 || s.p.size() != 1 || !d.p[0].terms.empty() || !s.p[0].terms.empty()) {
        // general: chunk through loads/stores
        for (int64_t i = 0; i < n;) { int64_t c = std::min<int64_t>(8, n - i); Type* t = IntegerType::get(M->getContext(), c * 8); Val dd = d, ss = s; for (auto& a : dd.p) a.off += i; for (auto& a : ss.p) a.off += i; if (c == 8 && false) {} Val x = loadT(m, ss, t); storeT(m, dd, x, t); i += c; }
        return;
    }
    PAlt &a = d.p[0], &b = s.p[0];
    if (a.reg && regInfo[a.reg].sink) { if (b.reg == 0) unsup("memcpy to sink"); RegP R = getR(m, b.reg); BV x = readBytes(*R, b.off, n, regInfo[b.reg].size); events.push_back({fullG(), a.reg, a.off, x}); return; }
    if (b.reg && regInfo[b.reg].sink) unsup("memcpy from sink");
    if (a.reg == 0 || b.reg == 0 || a.off < 0 || b.off < 0 || a.off + n > regInfo[a.reg].size || b.off + n > regInfo[b.reg].size) { oblige(fullG(), "memory-safety(memcpy)"); return; }
    RegP R = getR(m, b.reg); std::vector<std::pair<int64_t, Val>> sl;
    for (auto it = R->slots.lower_bound(b.off); it != R->slots.end() && it->first + 8 <= b.off + n; ++it) sl.push_back({it->first - b.off, it->second});
    Region tmpR = *R; for (auto& x : sl) tmpR.slots.erase(x.first + b.off);
    BV x = readBytes(tmpR, b.off, n, regInfo[b.reg].size); R->pages = tmpR.pages.size() == R->pages.size() ? tmpR.pages : R->pages;
    Region& W = writable(m, a.reg); writeBytes(W, a.off, x, regInfo[a.reg].size);
    for (auto& y : sl) W.slots[a.off + y.first] = y.second;
}
// ------------------------------------------------------------------ constants
static int funcRegion(const Function* f) { auto it = gvReg.find(f); if (it != gvReg.end()) return it->second; int id = newRegion("fn:" + f->getName().str(), 1); regInfo[id].fn = const_cast<Function*>(f); gvReg[f] = id; return id; }
static int globalRegion(const GlobalVariable* g) { auto it = gvReg.find(g); if (it != gvReg.end()) return it->second; int64_t sz = DL->getTypeAllocSize(g->getValueType()); int id = newRegion("@" + g->getName().str(), sz); regInfo[id].gv = g; gvReg[g] = id; return id; }
static Val gepConst(const GEPOperator* g, const std::function<Val(const Value*)>& ev);
static Val readConst(const Constant* c) {
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) return VI(cstAP(ci->getValue()));
    if (auto* cf = dyn_cast<ConstantFP>(c)) return VI(cstAP(cf->getValueAPF().bitcastToAPInt()));
    if (isa<ConstantPointerNull>(c)) return VP(0, 0);
    if (isa<UndefValue>(c)) return undefVal(t);
    if (auto* g = dyn_cast<GlobalVariable>(c)) return VP(globalRegion(g), 0);
    if (auto* f = dyn_cast<Function>(c)) return VP(funcRegion(f), 0);
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return readConst(ga->getAliasee());
    if (isa<ConstantAggregateZero>(c)) { if (t->isVectorTy()) return VI(cst(bitW(t), 0)); Val r; r.k = 2; unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); for (unsigned i = 0; i < n; ++i) r.a.push_back(readConst(c->getAggregateElement(i))); return r; }
    if (t->isVectorTy()) { BV r; unsigned n = cast<FixedVectorType>(t)->getNumElements(); for (unsigned i = 0; i < n; ++i) { Val e = readConst(c->getAggregateElement(i)); BV b = bitsOfInt(e); r.append(b.begin(), b.end()); } return VI(r); }
    if (t->isStructTy() || t->isArrayTy()) { Val r; r.k = 2; unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); for (unsigned i = 0; i < n; ++i) r.a.push_back(readConst(c->getAggregateElement(i))); return r; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        if (ce->getOpcode() == Instruction::GetElementPtr) return gepConst(cast<GEPOperator>(ce), [](const Value* v) { return readConst(cast<Constant>(v)); });
        if (ce->getOpcode() == Instruction::IntToPtr || ce->getOpcode() == Instruction::BitCast || ce->getOpcode() == Instruction::AddrSpaceCast) return readConst(ce->getOperand(0));
        if (ce->getOpcode() == Instruction::PtrToInt) return VI(ptrToBits(readConst(ce->getOperand(0))));
        if (ce->getOpcode() == Instruction::Sub) return VI(bvSub(bitsOfInt(readConst(ce->getOperand(0))), bitsOfInt(readConst(ce->getOperand(1)))));
        if (ce->getOpcode() == Instruction::Add) return VI(bvAdd(bitsOfInt(readConst(ce->getOperand(0))), bitsOfInt(readConst(ce->getOperand(1))), F0));
        if (ce->getOpcode() == Instruction::Trunc) { BV b = bitsOfInt(readConst(ce->getOperand(0))); b.resize(bitW(t)); return VI(b); }
    }
    std::string s; raw_string_ostream os(s); c->print(os); unsup("constant " + s);
}
static Val gepConst(const GEPOperator* g, const std::function<Val(const Value*)>& ev) {
    Val base = asPtr(ev(g->getPointerOperand())); int64_t off = 0; std::vector<Term> terms; bool firstIx = true; Type* prevTy = nullptr;
    for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
        const Value* op = gti.getOperand(); bool fi = firstIx; firstIx = false; Type* seqTy = prevTy; prevTy = gti.getIndexedType();
        if (StructType* st = gti.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue()); continue; }
        int64_t s = DL->getTypeAllocSize(gti.getIndexedType()); Val iv = ev(op); BV b = bitsOfInt(iv);
        if (isC(b)) off += csval(b) * s;
        else { Lit sg = b.back(); if (b.size() < 64) b.resize(64, sg); if (s == 0) continue;
            // pull a power-of-two shift out of the index so that known-zero low bits become stride
            int tz = 0; while (tz < 60 && b[0] == F0) { for (int i = 0; i < 63; ++i) b[i] = b[i + 1]; ++tz; }
            int64_t lim = 0; if (!fi) if (auto* at = dyn_cast_or_null<ArrayType>(seqTy)) { lim = (int64_t)at->getNumElements(); if (lim > 1) lim = ((lim - 1) >> tz) + 1; else lim = 0; }
            terms.push_back({b, s << tz, lim}); }
    }
    for (auto& a : base.p) {
        if (a.reg && regInfo[a.reg].sink) { int64_t o = (a.off + off) % regInfo[a.reg].sinkElem; if (o < 0) o += regInfo[a.reg].sinkElem; a.off = o; continue; }
        a.off += off; for (auto& t : terms) { bool f = false; for (auto& u : a.terms) if (u.first == t.first) { u.second += t.second; u.lim = u.lim && t.lim ? std::min(u.lim, t.lim) : std::max(u.lim, t.lim); f = true; } if (!f) a.terms.push_back(t); }
    }
    return base;
}
// ------------------------------------------------------------------ functions
struct FuncInfo { Function* F; std::unordered_map<const Value*, int> id; int n = 0; std::vector<BasicBlock*> order; std::unordered_map<const BasicBlock*, int> ord; std::vector<int> loopHeader; std::vector<std::vector<int>> phis;
    struct BBI { std::vector<Instruction*> ins; }; std::vector<bool> isHeader; std::vector<int> loopOf, loopParent, joinDom, exitOf;
    bool inLoop(int blk, int h) const { for (int l = loopOf[blk]; l >= 0; l = loopParent[l]) if (l == h) return true; return false; } };
static std::unordered_map<Function*, std::unique_ptr<FuncInfo>> finfo;
static FuncInfo& info(Function* F) {
    auto& p = finfo[F]; if (p) return *p; p = std::make_unique<FuncInfo>(); FuncInfo& I = *p; I.F = F;
    for (auto& a : F->args()) I.id[&a] = I.n++;
    for (auto& b : *F) for (auto& i : b) if (!i.getType()->isVoidTy()) I.id[&i] = I.n++;
    DominatorTree DT(*F); LoopInfo LI(DT);
    // contiguous topological order: DFS post-order visiting loop-exiting successors first
    std::set<BasicBlock*> vis; std::vector<BasicBlock*> post;
    std::function<void(BasicBlock*)> dfs = [&](BasicBlock* b) {
        vis.insert(b); std::vector<BasicBlock*> su(succ_begin(b), succ_end(b)); Loop* L = LI.getLoopFor(b);
        std::stable_sort(su.begin(), su.end(), [&](BasicBlock* x, BasicBlock* y) { int dx = 0, dy = 0; // number of loops of b that x leaves
            for (Loop* l = L; l; l = l->getParentLoop()) { if (!l->contains(x)) ++dx; if (!l->contains(y)) ++dy; } return dx > dy; });
        for (auto* s : su) if (!vis.count(s)) dfs(s); post.push_back(b); };
    dfs(&F->getEntryBlock()); I.order.assign(post.rbegin(), post.rend());
    // make loops contiguous: stable re-layout (recursive)
    std::function<void(std::vector<BasicBlock*>&, Loop*)> lay = [&](std::vector<BasicBlock*>& v, Loop* outer) {
        std::vector<BasicBlock*> out; std::set<Loop*> done;
        for (auto* b : v) { Loop* l = LI.getLoopFor(b); Loop* top = nullptr; for (Loop* x = l; x != outer; x = x->getParentLoop()) top = x; 
            if (!top) { out.push_back(b); continue; } if (done.count(top)) continue; done.insert(top);
            std::vector<BasicBlock*> sub; for (auto* c : v) if (top->contains(c)) sub.push_back(c); lay(sub, top); out.insert(out.end(), sub.begin(), sub.end()); }
        v.swap(out); };
    lay(I.order, nullptr);
    for (size_t i = 0; i < I.order.size(); ++i) I.ord[I.order[i]] = i;
    I.isHeader.resize(I.order.size()); for (size_t i = 0; i < I.order.size(); ++i) { Loop* l = LI.getLoopFor(I.order[i]); I.isHeader[i] = l && l->getHeader() == I.order[i]; }
    for (size_t i = 0; i < I.order.size(); ++i) for (auto* s : successors(I.order[i])) { size_t j = I.ord[s]; if (j <= i && !(I.isHeader[j] && DT.dominates(s, I.order[i]))) I.loopHeader.push_back(1); }
    I.loopOf.resize(I.order.size(), -1); for (size_t i = 0; i < I.order.size(); ++i) if (Loop* l = LI.getLoopFor(I.order[i])) I.loopOf[i] = I.ord[l->getHeader()];
    { // guards that need not be rebuilt from the incoming edges: a block that every path from its dominator reaches
      // inherits the dominator's guard; the only exit block of a loop inherits the guard the loop was entered with
        size_t nb = I.order.size(); I.joinDom.assign(nb, -1); I.exitOf.assign(nb, -1);
        for (size_t i = 1; i < nb; ++i) { if (I.isHeader[i]) continue; auto* nd = DT.getNode(I.order[i]); if (!nd || !nd->getIDom()) continue; BasicBlock* D = nd->getIDom()->getBlock(); size_t d = I.ord[D];
            Loop* LD = LI.getLoopFor(D); if (LD != LI.getLoopFor(I.order[i])) continue; bool esc = false; std::set<BasicBlock*> vs{I.order[i]}; std::vector<BasicBlock*> st{D}; bool first = true;
            while (!st.empty() && !esc) { BasicBlock* b = st.back(); st.pop_back(); if (!first && LD && b == LD->getHeader()) { esc = true; break; } first = false; if (!vs.insert(b).second) continue; auto* t = b->getTerminator(); if (isa<UnreachableInst>(t)) continue; if (t->getNumSuccessors() == 0) { esc = true; break; } for (auto* x : successors(b)) st.push_back(x); }
            if (!esc) I.joinDom[i] = d; }
        for (size_t h = 0; h < nb; ++h) if (I.isHeader[h]) { SmallVector<BasicBlock*, 8> ex; LI.getLoopFor(I.order[h])->getExitBlocks(ex); std::set<BasicBlock*> u; for (auto* b : ex) if (!isa<UnreachableInst>(b->getTerminator())) u.insert(b);
            if (u.size() == 1) { BasicBlock* b = *u.begin(); bool ded = true; for (auto* p : predecessors(b)) if (!LI.getLoopFor(I.order[h])->contains(p)) ded = false; if (ded && I.exitOf[I.ord[b]] < 0) I.exitOf[I.ord[b]] = h; } } }
    I.loopParent.resize(I.order.size(), -1); for (size_t i = 0; i < I.order.size(); ++i) if (I.isHeader[i]) if (Loop* p2 = LI.getLoopFor(I.order[i])->getParentLoop()) I.loopParent[i] = I.ord[p2->getHeader()];
    return I;
}
struct Marks { size_t ob, as, ev, co, nd, th, uf; };
static Marks marks() { return {obligs.size(), assumes.size(), events.size(), covers.size(), nondets.size(), throwLits.size(), ufCalls.size()}; }
struct EvIndex; static void dropEvIdx(); static void clearFeas();
static void rollback(const Marks& m) { if (assumes.size() != m.as) { g_aidx = AssumeIdx(); clearFeas(); } if (events.size() != m.ev) dropEvIdx(); obligs.resize(m.ob); assumes.resize(m.as); events.resize(m.ev); covers.resize(m.co); nondets.resize(m.nd); throwLits.resize(m.th); while (ufCalls.size() > m.uf) ufCalls.pop_back(); }
struct Loc { bool mem; int reg; int64_t off; int phi; int lane; bool disabled; int last; int width; };
struct Pend { bool has = false, hold = false; Lit g = F0; Mem mem; std::vector<Val> phis; };
struct LoopCtx { int frame; int hdr; Mem mem; Lit g; std::vector<Val> phis; std::vector<Loc>* locs; Marks mk; Lit ctx; std::vector<std::pair<int, Pend>> saved, savedD; };
static std::vector<LoopCtx> loopStack;
struct SplitEx { size_t loopIdx; Loc loc; };
static int g_frameId = 0; static int g_depth = 0;
static Val execFunction(Function* F, std::vector<Val>& args, Mem& mem, Lit& retGuard);
static size_t g_splitBase = 0; // loops of the contract text itself are not split on
static void trySplit(const BV& x) {
    // find the innermost active loop whose header state carries exactly this word
    for (size_t li = loopStack.size(); li-- > g_splitBase;) {
        LoopCtx& L = loopStack[li];
        for (size_t p = 0; p < L.phis.size(); ++p) if (L.phis[p].k == 0 && L.phis[p].b.size() % x.size() == 0) for (size_t ln = 0; ln < L.phis[p].b.size() / x.size(); ++ln) {
            bool eq = true; for (size_t i = 0; i < x.size() && eq; ++i) eq = L.phis[p].b[ln * x.size() + i] == x[i];
            if (eq) { for (auto& l : *L.locs) if (!l.mem && l.phi == (int)p && l.lane == (int)ln) goto next; throw SplitEx{li, Loc{false, 0, 0, (int)p, (int)ln, false, -1, (int)x.size()}}; } }
        for (auto& kv : L.mem.r) {
            Region& R = *kv.second; int64_t sz = regInfo[kv.first].size; if (sz > 4096) continue;
            for (int64_t o = 0; o + (int64_t)x.size() / 8 <= sz; o += x.size() / 8) {
                if (!R.pages[o / PG]) continue; bool eq = true; Lit* b = R.pages[o / PG]->b + (o % PG) * 8; for (size_t i = 0; i < x.size() && eq; ++i) eq = b[i] == x[i];
                if (eq) { bool known = false; for (auto& l : *L.locs) if (l.mem && l.reg == kv.first && l.off == o) known = true; if (known) continue; throw SplitEx{li, Loc{true, kv.first, o, 0, 0, false, -1, (int)x.size()}}; } } }
    next:;
    }
}
static std::string cstr(Mem& m, const Val& p) { Val q = asPtr(p); if (q.p.size() != 1 || !q.p[0].reg) return "?"; RegP R = getR(m, q.p[0].reg); std::string s; for (int64_t o = q.p[0].off; o < regInfo[q.p[0].reg].size; ++o) { BV b = readBytes(*R, o, 1, regInfo[q.p[0].reg].size); char c = (char)cval(b); if (!c) break; s += c; } return s; }
static BV lane(const BV& b, unsigned i, unsigned w) { BV r; r.append(b.begin() + i * w, b.begin() + (i + 1) * w); return r; }
static std::unordered_map<Lit, bool> g_feas; static void clearFeas() { g_feas.clear(); }
static bool feasible(Lit g) { if (g == F0) return false; if (g == T1) return true; auto fi = g_feas.find(g); if (fi != g_feas.end()) return fi->second; double t = now(); Sat cone; int r = cone.solve(relevant(g, assumes, assumes.size()), 200000); g_satTime += now() - t; ++g_satCalls; g_feas[g] = r != 0; return r != 0; }

static Lit icmpBits(CmpInst::Predicate p, const BV& a, const BV& b) {
    switch (p) {
    case CmpInst::ICMP_EQ: return bvEq(a, b); case CmpInst::ICMP_NE: return Not(bvEq(a, b));
    case CmpInst::ICMP_ULT: return bvUlt(a, b); case CmpInst::ICMP_UGT: return bvUlt(b, a); case CmpInst::ICMP_ULE: return Not(bvUlt(b, a)); case CmpInst::ICMP_UGE: return Not(bvUlt(a, b));
    case CmpInst::ICMP_SLT: return bvSlt(a, b); case CmpInst::ICMP_SGT: return bvSlt(b, a); case CmpInst::ICMP_SLE: return Not(bvSlt(b, a)); case CmpInst::ICMP_SGE: return Not(bvSlt(a, b));
    default: unsup("icmp pred"); }
}
static BV binop(unsigned op, const BV& a, const BV& b) {
    unsigned w = a.size(); BV r;
    switch (op) {
    case Instruction::Add: if (w == 64) return bvAddSub64(a, b, false); return bvAdd(a, b, F0); case Instruction::Sub: if (w == 64) return bvAddSub64(a, b, true); return bvSub(a, b); case Instruction::Mul: return bvMul(a, b);
    case Instruction::And: r.resize(w); for (unsigned i = 0; i < w; ++i) r[i] = And(a[i], b[i]); return r;
    case Instruction::Or: r.resize(w); for (unsigned i = 0; i < w; ++i) r[i] = Or(a[i], b[i]); return r;
    case Instruction::Xor: r.resize(w); for (unsigned i = 0; i < w; ++i) r[i] = Xor(a[i], b[i]); return r;
    case Instruction::Shl: return bvShift(a, b, 0); case Instruction::LShr: return bvShift(a, b, 1); case Instruction::AShr: return bvShift(a, b, 2);
    case Instruction::UDiv: case Instruction::URem: { if (isC(a) && isC(b) && w <= 64) { uint64_t x = cval(a), y = cval(b); if (!y) { oblige(fullG(), "division-by-zero"); return a; } return cst(w, op == Instruction::UDiv ? x / y : x % y); } Lit z = bvEq(b, cst(w, 0)); if (z != F0) oblige(And(fullG(), z), "division-by-zero"); BV q, m; bvUDivRem(a, b, q, m); return op == Instruction::UDiv ? q : m; }
    case Instruction::SDiv: case Instruction::SRem: { if (isC(a) && isC(b) && w <= 64) { int64_t x = csval(a), y = csval(b); if (!y) { oblige(fullG(), "division-by-zero"); return a; } return cst(w, (uint64_t)(op == Instruction::SDiv ? x / y : x % y)); } Lit z = bvEq(b, cst(w, 0)); if (z != F0) oblige(And(fullG(), z), "division-by-zero"); BV q, m; bvSDivRem(a, b, q, m); return op == Instruction::SDiv ? q : m; }
    default: unsup(std::string("binop ") + Instruction::getOpcodeName(op)); }
}
static double bitsToF(const BV& b) { if (b.size() == 32) { uint32_t u = cval(b); float f; memcpy(&f, &u, 4); return f; } uint64_t u = cval(b); double d; memcpy(&d, &u, 8); return d; }
static BV fToBits(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return cst(32, u); } uint64_t u; memcpy(&u, &d, 8); return cst(64, u); }

// events of a sink, indexed by their low 14 bits when those are constants
struct EvIndex { size_t n = 0; std::unordered_map<int, std::vector<int>> by; }; static std::map<int, EvIndex> evIdx;
static std::vector<int> eventsFor(int reg, const BV& want, const BV& mask) {
    EvIndex& X = evIdx[reg]; if (X.n > events.size()) X = EvIndex();
    for (; X.n < events.size(); ++X.n) { Event& e = events[X.n]; if (e.reg != reg || e.off != 0) continue; int key = 0; for (int i = 0; i < 14; ++i) if (e.v[i] > 1) { key = -1; break; } else key |= e.v[i] << i; X.by[key].push_back(X.n); }
    bool full = true; int key = 0; for (int i = 0; i < 14; ++i) { if (mask[i] != T1 || want[i] > 1) full = false; else key |= want[i] << i; }
    std::vector<int> r; if (full) { r = X.by[key]; auto& o = X.by[-1]; r.insert(r.end(), o.begin(), o.end()); std::sort(r.begin(), r.end()); } else for (size_t i = 0; i < events.size(); ++i) if (events[i].reg == reg && events[i].off == 0) r.push_back(i);
    return r;
}
static void dropEvIdx() { evIdx.clear(); }
static int sinkOf(const Val& v) { Val q = asPtr(v); for (auto& a : q.p) if (a.reg && regInfo[a.reg].sink) return a.reg; unsup("not a sink"); }
// returns true if handled
static bool callBuiltin(CallBase* cb, Function* callee, std::vector<Val>& args, Mem& mem, Val& res) {
    StringRef nm = callee->getName(); Type* rt = cb->getType();
    if (nm == "vc_nondet") { unsigned bits = cval(args[0].b); std::string n = cstr(mem, args[1]); BV b = cst(64, 0); for (unsigned i = 0; i < bits; ++i) { b[i] = newInput(); } nondets.push_back({n, b}); res = VI(b); return true; }
    if (nm == "vc_assume") { Lit c = args[0].b[0]; for (size_t i = 1; i < args[0].b.size(); ++i) {} Lit l = Or(Not(fullG()), c); if (l != T1) assumes.push_back(l); return true; }
    if (nm == "vc_sink_end") return true;
    if (nm == "vc_contract_loop") { g_splitBase = loopStack.size(); return true; }
    if (nm == "vc_assert") { oblige(And(fullG(), Not(args[0].b[0])), cstr(mem, args[1])); return true; }
    if (nm == "vc_cover") { covers.push_back({cstr(mem, args[0]), fullG()}); return true; }
    if (nm == "vc_param") { size_t i = cval(args[0].b); if (i >= params.size()) unsup("missing param"); res = VI(cst(64, (uint64_t)params[i])); return true; }
    if (nm == "vc_symbolic") { res = VI(cst(32, 1)); return true; }
    if (nm == "vc_sink_new") { int id = newRegion("sink", 1 << 30); regInfo[id].sink = true; regInfo[id].sinkElem = cval(args[0].b); res = VP(id, 0); return true; }
    if (nm == "vc_sink_has") { // (sink, i32 value, i32 mask): was a word with (v&mask)==value emitted?
        int id = sinkOf(args[0]); Lit r = F0; BV want = args[1].b, mask = args[2].b; 
        for (int ei : eventsFor(id, want, mask)) { Event& e = events[ei]; Lit c = e.g; for (unsigned i = 0; i < 32 && c != F0; ++i) c = And(c, Or(Not(mask[i]), Not(Xor(e.v[i], want[i])))); r = Or(r, c); }
        res = VI(BV{r}); if (rt->getIntegerBitWidth() != 1) { BV b = cst(rt->getIntegerBitWidth(), 0); b[0] = r; res = VI(b); } return true; }
    if (nm == "vc_sink_dup") { // two different emission sites produced the same (masked) word
        int id = sinkOf(args[0]); BV want = args[1].b, mask = args[2].b; Lit seen = F0, dup = F0;
        for (int ei : eventsFor(id, want, mask)) { Event& e = events[ei]; Lit c = e.g; for (unsigned i = 0; i < 32 && c != F0; ++i) c = And(c, Or(Not(mask[i]), Not(Xor(e.v[i], want[i])))); dup = Or(dup, And(seen, c)); seen = Or(seen, c); }
        BV b = cst(rt->getIntegerBitWidth(), 0); b[0] = dup; res = VI(b); return true; }
    if (nm == "vc_sink_other") { // some emitted word lies outside the shape described by the harness predicate table (mask of concrete bits)
        unsup("vc_sink_other"); }
    if (nm == "vc_sink_n") { int id = sinkOf(args[0]); int64_t n = 0; for (auto& e : events) if (e.reg == id && e.off == 0) ++n; res = VI(cst(64, n)); return true; }
    if (nm == "vc_sink_guard") { int id = sinkOf(args[0]); int64_t k = cval(args[1].b), n = 0; for (auto& e : events) if (e.reg == id && e.off == 0) { if (n++ == k) { BV b = cst(rt->getIntegerBitWidth(), 0); b[0] = e.g; res = VI(b); return true; } } unsup("sink index"); }
    if (nm == "vc_sink_value") { int id = sinkOf(args[0]); int64_t k = cval(args[1].b), n = 0; for (auto& e : events) if (e.reg == id && e.off == 0) { if (n++ == k) { BV b = e.v; b.resize(32); res = VI(b); return true; } } unsup("sink index"); }
    if (nm == "vc_is_const") { res = VI(cst(32, isC(args[0].b))); return true; }
    if (nm == "vc_feasible") { Lit c = And(fullG(), args[0].b[0]); res = VI(cst(32, feasible(c))); return true; }
    if (nm == "vc_threw") { Lit t = F0; for (Lit x : throwLits) t = Or(t, x); BV b = cst(rt->getIntegerBitWidth(), 0); b[0] = t; res = VI(b); return true; }
    if (nm == "vc_loop_local") { int64_t z = cval(args[0].b); int r = -1; if (g_cutAllocas) for (int q : g_cutHavoc[g_cutFn]) if (q < (int)g_cutAllocas->size() && regInfo[(*g_cutAllocas)[q]].size == z) { if (r >= 0) unsup("several loop locals of that size"); r = (*g_cutAllocas)[q]; } res = r < 0 ? VP(0, 0) : VP(r, 0); return true; }
    if (nm == "vc_frame") { Val p = asPtr(args[0]); int64_t n = cval(args[1].b); if (p.p.size() != 1) unsup("frame ptr"); for (int64_t i = 0; i < n; ++i) g_cutFrame.insert({p.p[0].reg, p.p[0].off + i}); return true; }
    if (nm == "vc_havoc") { Val p = asPtr(args[0]); int64_t n = cval(args[1].b); if (p.p.size() != 1) unsup("havoc ptr"); BV b; b.resize(n * 8); for (auto& l : b) l = newInput(); Region& R = writable(mem, p.p[0].reg); writeBytes(R, p.p[0].off, b, regInfo[p.p[0].reg].size); return true; }
    if (nm == "vc_log") { std::string s = cstr(mem, args[0]); fprintf(stderr, "[vc_log] %s", s.c_str()); if (args.size() > 1) { if (isC(args[1].b)) fprintf(stderr, " %lld", (long long)csval(args[1].b)); else fprintf(stderr, " <sym>"); } fprintf(stderr, " nodes=%zu instr=%llu t=%.1f\n", gnodes.size(), (unsigned long long)g_instr, now() - g_t0); return true; }
    switch (callee->getIntrinsicID()) {
    case Intrinsic::not_intrinsic: break;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::assume: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: return true;
    case Intrinsic::expect: res = args[0]; return true;
    case Intrinsic::is_constant: res = VI(cst(1, 0)); return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: { if (isC(args[2].b)) { memCopy(mem, args[0], args[1], cval(args[2].b)); return true; }
        // the size is symbolic: one copy per feasible size (at most 64 bytes), states merged
        const BV& z = args[2].b; if (feasible(And(fullG(), bvUlt(cst(z.size(), 64), z)))) unsup("symbolic memcpy size"); Lit g0 = curGuard; bool any = false; Mem acc; Lit ag = F0;
        for (unsigned n = 0; n <= 64; ++n) { Lit e = bvEq(z, cst(z.size(), n)); if (e == F0) continue; curGuard = And(g0, e); if (!feasible(fullG())) continue; Mem mm = mem; memCopy(mm, args[0], args[1], n); if (!any) { acc = std::move(mm); ag = curGuard; any = true; } else { mergeMem(mm, curGuard, acc, ag); acc = std::move(mm); ag = Or(ag, curGuard); } }
        curGuard = g0; if (any) mem = std::move(acc); return true; }
    case Intrinsic::memset: { if (!isC(args[2].b)) unsup("symbolic memset size"); int64_t n = cval(args[2].b); BV v; for (int64_t i = 0; i < n; ++i) v.append(args[1].b.begin(), args[1].b.begin() + 8); Val p = asPtr(args[0]); if (n == 0) return true; if (p.p.size() != 1 || !p.p[0].terms.empty()) unsup("memset ptr"); auto& a = p.p[0]; if (a.reg == 0 || a.off < 0 || a.off + n > regInfo[a.reg].size) { oblige(fullG(), "memory-safety(memset)"); return true; } Region& R = writable(mem, a.reg); writeBytes(R, a.off, v, regInfo[a.reg].size); return true; }
    case Intrinsic::abs: { BV a = args[0].b; res = VI(bvMux(a.back(), bvNeg(a), a)); return true; }
    case Intrinsic::ctpop: res = VI(bvPop(args[0].b)); return true;
    case Intrinsic::cttz: if (!isC(args[0].b)) { unsigned lo = 0; const BV& x = args[0].b; while (lo < x.size() && x[lo] == F0) ++lo; if (x[lo] != T1) trySplit(x); } res = VI(bvCtz(args[0].b, false)); return true;
    case Intrinsic::ctlz: res = VI(bvCtz(args[0].b, true)); return true;
    case Intrinsic::bswap: { BV a = args[0].b, r; for (int i = a.size() / 8 - 1; i >= 0; --i) r.append(a.begin() + i * 8, a.begin() + i * 8 + 8); res = VI(r); return true; }
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { if (rt->isVectorTy()) unsup("vector minmax"); const BV &a = args[0].b, &b = args[1].b; auto id = callee->getIntrinsicID(); Lit lt = (id == Intrinsic::umin || id == Intrinsic::umax) ? bvUlt(a, b) : bvSlt(a, b); res = VI((id == Intrinsic::umin || id == Intrinsic::smin) ? bvMux(lt, a, b) : bvMux(lt, b, a)); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: { if (!isC(args[2].b)) unsup("funnel shift"); unsigned w = args[0].b.size(), s = cval(args[2].b) % w; BV c = args[1].b; c.append(args[0].b.begin(), args[0].b.end()); unsigned st = callee->getIntrinsicID() == Intrinsic::fshl ? w - s : s; BV r; r.append(c.begin() + st, c.begin() + st + w); res = VI(r); return true; }
    case Intrinsic::usub_sat: { const BV &a = args[0].b, &b = args[1].b; res = VI(bvMux(bvUlt(a, b), cst(a.size(), 0), bvSub(a, b))); return true; }
    case Intrinsic::uadd_with_overflow: { BV s = bvAdd(args[0].b, args[1].b, F0); Val r; r.k = 2; r.a.push_back(VI(s)); r.a.push_back(VI(BV{bvUlt(s, args[0].b)})); res = r; return true; }
    case Intrinsic::umul_with_overflow: { BV a = args[0].b, b = args[1].b; unsigned w = a.size(); a.resize(2 * w, F0); b.resize(2 * w, F0); BV m = bvMul(a, b); BV hi = lane(m, 1, w), lo = lane(m, 0, w); Val r; r.k = 2; r.a.push_back(VI(lo)); r.a.push_back(VI(BV{Not(bvEq(hi, cst(w, 0)))})); res = r; return true; }
    case Intrinsic::x86_sse41_ptestz: { Lit r = T1; for (unsigned i = 0; i < 128; ++i) r = And(r, Not(And(args[0].b[i], args[1].b[i]))); BV b = cst(32, 0); b[0] = r; res = VI(b); return true; }
    case Intrinsic::x86_sse41_ptestc: { Lit r = T1; for (unsigned i = 0; i < 128; ++i) r = And(r, Not(And(Not(args[0].b[i]), args[1].b[i]))); BV b = cst(32, 0); b[0] = r; res = VI(b); return true; }
    case Intrinsic::x86_sse41_ptestnzc: unsup("ptestnzc");
    case Intrinsic::x86_ssse3_pshuf_b_128: case Intrinsic::x86_avx2_pshuf_b: { unsigned n = args[0].b.size() / 8; if (!isC(args[1].b)) unsup("symbolic pshufb"); BV r; r.resize(n * 8, F0); for (unsigned i = 0; i < n; ++i) { unsigned c = cval(lane(args[1].b, i, 8)); if (c & 0x80) continue; unsigned src = (i & ~15u) + (c & 15); for (int k = 0; k < 8; ++k) r[i * 8 + k] = args[0].b[src * 8 + k]; } res = VI(r); return true; }
    case Intrinsic::x86_sse2_psrli_q: case Intrinsic::x86_sse2_pslli_q: { BV r; BV sh = args[1].b; for (unsigned i = 0; i < args[0].b.size() / 64; ++i) { BV l = bvShift(lane(args[0].b, i, 64), sh, callee->getIntrinsicID() == Intrinsic::x86_sse2_pslli_q ? 0 : 1); r.append(l.begin(), l.end()); } res = VI(r); return true; }
    case Intrinsic::trap: oblige(fullG(), "trap"); curGuard = F0; return true;
    default: unsup("intrinsic " + nm.str());
    }
    if (nm == "_Znwm" || nm == "_Znam" || nm == "malloc" || nm == "_ZnwmSt11align_val_t" || nm == "__cxa_allocate_exception") { if (!isC(args[0].b)) unsup("symbolic allocation size"); int64_t n = cval(args[0].b); int id = newRegion("heap", n); auto R = std::make_shared<Region>(); R->pages.resize((n + PG - 1) / PG); mem.set(id, R); res = VP(id, 0); return true; }
    if (nm == "_ZdlPv" || nm == "_ZdlPvm" || nm == "_ZdaPv" || nm == "free" || nm == "__cxa_free_exception") return true;
    if (nm == "__cxa_throw" || nm.contains("__throw_") || nm == "_ZSt9terminatev" || nm == "abort" || nm == "exit" || nm == "_Unwind_Resume") { throwLits.push_back(fullG()); curGuard = F0; return true; }
    if (nm == "_ZNSt13runtime_errorC1EPKc" || nm == "_ZNSt13runtime_errorC2EPKc" || nm == "_ZNSt16invalid_argumentC1EPKc" || nm == "_ZNSt11logic_errorC1EPKc" || nm == "_ZNSt12out_of_rangeC1EPKc" || nm == "_ZNSt9exceptionD2Ev" || nm == "_ZNSt12domain_errorC1EPKc") return true;
    if (nm == "div" && rt->isIntegerTy(64)) { BV q = binop(Instruction::SDiv, args[0].b, args[1].b), r = binop(Instruction::SRem, args[0].b, args[1].b); q.append(r.begin(), r.end()); res = VI(q); return true; }
    if (nm == "abs" && rt->isIntegerTy(32)) { BV x = args[0].b; res = VI(bvMux(x.back(), bvNeg(x), x)); return true; }
    if (nm == "strlen") { std::string s = cstr(mem, args[0]); res = VI(cst(64, s.size())); return true; }
    if (nm == "memcmp" || nm == "bcmp") { if (!isC(args[2].b)) unsup("memcmp size"); int64_t n = cval(args[2].b); Lit eq = T1, lt = F0; Type* i8 = Type::getInt8Ty(M->getContext()); for (int64_t i = 0; i < n; ++i) { Val a = asPtr(args[0]), b = asPtr(args[1]); for (auto& x : a.p) x.off += i; for (auto& x : b.p) x.off += i; BV p = loadT(mem, a, i8).b, q = loadT(mem, b, i8).b; lt = Or(lt, And(eq, bvUlt(p, q))); eq = And(eq, bvEq(p, q)); } BV b; b.resize(32, lt); b[0] = Not(eq); res = VI(b); return true; } // 0, 1 or -1
    return false;
}
static std::map<std::string, uint64_t> g_prof, g_profN;
// Loop invariants.  hook(phase, n, a, ptrMask): a holds the n loop-carried variables (header phis), ptrMask tells which are pointers.
// phase 0: the invariant must hold on entry; phase 1: the hook overwrites a (and any memory the loop may write) with an arbitrary state
// satisfying the invariant; phase 2: the invariant must hold again after one iteration, and the path ends there.
static void runCut(const std::string& hook, int phase, BasicBlock* B, std::vector<Val>& phis, Mem& m) {
    Function* H = M->getFunction(hook); if (!H || H->arg_size() != 4) unsup("loop hook " + hook); std::vector<PHINode*> ph; for (auto& p : B->phis()) ph.push_back(&p);
    int n = ph.size(); int r = newRegion("loopvars", std::max(8, 8 * n)); auto R = std::make_shared<Region>(); R->pages.resize((std::max(8, 8 * n) + PG - 1) / PG); m.set(r, R); uint64_t mask = 0; Type* i64 = Type::getInt64Ty(M->getContext());
    for (int i = 0; i < n; ++i) { Type* t = ph[i]->getType(); if (t->isPointerTy()) { mask |= 1ull << i; storeT(m, VP(r, 8 * i), phis[i], t); } else { if (!t->isIntegerTy() || bitW(t) > 64) unsup("loop variable type"); BV b = bitsOfInt(phis[i]); b.resize(64, b.back()); storeT(m, VP(r, 8 * i), VI(b), i64); } }
    std::vector<Val> av{VI(cst(32, phase)), VI(cst(32, n)), VP(r, 0), VI(cst(64, mask))}; Lit rg; Lit c0 = curGuard, x0 = ctxGuard; execFunction(H, av, m, rg); curGuard = c0; ctxGuard = x0; if (rg == F0) unsup("loop hook does not return");
    if (phase == 1) for (int i = 0; i < n; ++i) { Type* t = ph[i]->getType(); if (t->isPointerTy()) phis[i] = loadT(m, VP(r, 8 * i), t); else { BV b = bitsOfInt(loadT(m, VP(r, 8 * i), i64)); b.resize(bitW(t)); phis[i] = VI(b); } }
    m.erase(r);
}
static bool regDiff(Region& a, Region& b, int64_t size, const std::function<void(int64_t)>& cb) { // bytes that differ structurally
    if (&a == &b) return false; bool any = false; for (int64_t o = 0; o < size; ++o) { BV x = readBytes(a, o, 1, size), y = readBytes(b, o, 1, size); if (!(x == y)) { cb(o); any = true; } } return any;
}
static Val execFunction(Function* F, std::vector<Val>& args, Mem& mem, Lit& retGuard) {
    if (F->isDeclaration()) unsup("call to external function " + F->getName().str());
    struct DepthGuard { DepthGuard() { ++g_depth; } ~DepthGuard() { --g_depth; } } dg; if (g_depth > 200) unsup("recursion depth");
    FuncInfo& I = info(F); if (!I.loopHeader.empty()) unsup("irreducible control flow in " + F->getName().str());
    funcsSeen.insert(F->getName().str());
    uint64_t instr0 = g_instr; size_t nodes0 = gnodes.size();
    int frame = ++g_frameId; std::vector<Val> env(I.n); for (size_t i = 0; i < args.size(); ++i) env[i] = args[i];
    std::vector<int> allocas; size_t nb = I.order.size(); std::vector<Pend> pend(nb), defer(nb); std::set<int> deferred; std::vector<std::vector<Loc>> hdrLocs(nb); std::vector<int> visits(nb, 0);
    Lit outerCtx = ctxGuard, outerCur = curGuard; Lit myCtx = And(ctxGuard, curGuard); ctxGuard = myCtx;
    size_t loopBase = loopStack.size();
    pend[0].has = true; pend[0].g = T1; pend[0].mem = std::move(mem);
    bool haveRet = false, lost = false; std::vector<Lit> gAt(nb, F0), gIn(nb, F0); std::vector<char> gOk(nb, 0), gInOk(nb, 0); Lit rg = F0; Val rv; Mem rmem;
    auto ev = [&](const Value* v) -> Val { auto it = I.id.find(v); if (it != I.id.end()) return env[it->second]; if (auto* c = dyn_cast<Constant>(v)) return readConst(c); unsup("operand"); };
    std::function<Val(const Value*)> evf = ev;
    std::string fname = F->getName().str(); struct Cut { Mem mem; std::set<std::pair<int, int64_t>> frame; }; std::map<int, Cut> cuts;
    auto loopName = [&](int h) { std::string nm; for (int q = h; q >= 0; q = I.loopParent[q]) { int k = 0; for (int i = 0; i < q; ++i) if (I.isHeader[i] && I.loopParent[i] == I.loopParent[q]) ++k; nm = (I.loopParent[q] < 0 ? "#" : ".") + std::to_string(k) + nm; } return nm; };
    auto cutHookOf = [&](int h) -> const std::string* { if (cutMap.empty()) return nullptr; auto it = cutMap.find(fname + loopName(h)); return it == cutMap.end() ? nullptr : &it->second; };
    while (true) {
        // a deferred "bit not set" state joins its header once nothing inside the loop is pending any more
        for (auto it = deferred.rbegin(); it != deferred.rend(); ++it) { int h = *it; bool busy = pend[h].has && pend[h].hold; for (size_t i = h + 1; i < nb && !busy; ++i) { if (pend[i].has && I.inLoop(i, h)) busy = true; if (defer[i].has && I.inLoop(i, h)) busy = true; }
            if (busy) continue; Pend D = std::move(defer[h]); defer[h] = Pend(); deferred.erase(h); Pend& Q = pend[h];
            if (!Q.has) Q = std::move(D); else { Lit rc = relCond(D.g, Q.g); for (size_t i = 0; i < D.phis.size(); ++i) Q.phis[i] = muxVal(rc, D.phis[i], Q.phis[i]); mergeMem(D.mem, D.g, Q.mem, Q.g); Q.mem = std::move(D.mem); Q.g = Or(D.g, Q.g); }
            break; }
        int cur = -1; for (size_t i = 0; i < nb; ++i) if (pend[i].has) { cur = i; break; }
        if (cur < 0) break;
        BasicBlock* B = I.order[cur];
        Pend P = std::move(pend[cur]); pend[cur] = Pend();
        // leave loops that do not contain this block
        while (loopStack.size() > loopBase && !I.inLoop(cur, loopStack.back().hdr)) loopStack.pop_back();
        if (I.exitOf[cur] >= 0 && gInOk[I.exitOf[cur]] && !lost) P.g = gIn[I.exitOf[cur]];
        else if (I.joinDom[cur] >= 0 && gOk[I.joinDom[cur]] && !lost) P.g = gAt[I.joinDom[cur]];
        if (I.isHeader[cur]) {
            if (loopStack.size() > loopBase && loopStack.back().frame == frame && loopStack.back().hdr == cur) { loopStack.pop_back(); }
            else { hdrLocs[cur].clear(); visits[cur] = 0; gIn[cur] = P.g; gInOk[cur] = !lost; }
            ++visits[cur];
            bool splitting = false; for (auto& L : hdrLocs[cur]) if (!L.disabled) splitting = true;
            if (P.g != T1 && (splitting ? visits[cur] % 90 == 0 : visits[cur] > 3)) { if (!feasible(And(myCtx, P.g))) continue; }
            if (visits[cur] > 50000) { g_unwindLimitHit = true; unsup("loop limit in " + fname); }
            if (const std::string* hook = P.hold ? nullptr : cutHookOf(cur)) {
                Cut& K = cuts[cur]; curGuard = P.g; ctxGuard = myCtx; lost = true; gInOk[cur] = 0; g_cutAllocas = &allocas; g_cutFn = fname + loopName(cur); const std::string cutName = g_cutFn;
                auto diff = [&](Mem& from, const std::function<void(int, int64_t)>& cb) { for (auto& pr : P.mem.r) { RegP* o = from.find(pr.first); RegP base; if (!o && (regInfo[pr.first].gv || regInfo[pr.first].img)) { base = baseRegion(pr.first); o = &base; } if (o && o->get() != pr.second.get()) regDiff(**o, *pr.second, regInfo[pr.first].size, [&](int64_t b) { cb(pr.first, b); }); } };
                if (visits[cur] == 1) { std::vector<Val> t = P.phis; runCut(*hook, 0, B, t, P.mem); Mem keep = P.mem; K.frame.clear();
                    for (int q : g_cutHavoc[cutName]) if (q < (int)allocas.size() && P.mem.find(allocas[q])) { int r = allocas[q]; Region& R = writable(P.mem, r); int64_t z = regInfo[r].size; R.slots.clear(); BV b; b.resize(z * 8); for (auto& l : b) l = newInput(); writeBytes(R, 0, b, z); for (int64_t o = 0; o < z; ++o) K.frame.insert({r, o}); }
                    g_cutFrame.clear(); runCut(*hook, 1, B, P.phis, P.mem); replUsed.insert(fname); K.frame.insert(g_cutFrame.begin(), g_cutFrame.end()); diff(keep, [&](int r, int64_t b) { K.frame.insert({r, b}); }); K.mem = P.mem; curGuard = P.g; ctxGuard = myCtx; }
                else { int outside = -1; diff(K.mem, [&](int r, int64_t b) { if (K.frame.count({r, b})) return; for (size_t q = 0; q < allocas.size(); ++q) if (allocas[q] == r) throw CutRetry{cutName + ":" + std::to_string(q)}; outside = r; }); if (outside >= 0) unsup("loop writes memory outside its frame: " + regInfo[outside].name); runCut(*hook, 2, B, P.phis, P.mem); continue; }
            }
            // bit-iteration: split the iterated word on its lowest undetermined bit
            for (auto& L : hdrLocs[cur]) {
                if (L.disabled) continue;
                BV w; if (L.mem) { RegP* R = P.mem.find(L.reg); if (!R) { L.disabled = true; continue; } w = readBytes(**R, L.off, L.width / 8, regInfo[L.reg].size); } else w = lane(P.phis[L.phi].b, L.lane, L.width);
                int s = 0; while (s < L.width && w[s] == F0) ++s; if (s == L.width) { continue; } if (w[s] == T1) { break; }
                if (s <= L.last) { L.disabled = true; continue; }
                L.last = s; Lit b = w[s];
                Pend Z = P; BV w0 = w, w1 = w; w0[s] = F0; w1[s] = T1;
                auto setw = [&](Pend& Q, const BV& x) { if (L.mem) { Region& R = writable(Q.mem, L.reg); writeBytes(R, L.off, x, regInfo[L.reg].size); } else for (int i = 0; i < L.width; ++i) Q.phis[L.phi].b[L.lane * L.width + i] = x[i]; };
                setw(Z, w0); setw(P, w1); Z.g = And(P.g, Not(b)); P.g = And(P.g, b);
                if (Z.g != F0) { Z.has = true; defer[cur] = std::move(Z); deferred.insert(cur); }
                break;
            }
            if (P.g == F0) continue;
            LoopCtx lc; lc.frame = frame; lc.hdr = cur; lc.mem = P.mem; lc.g = P.g; lc.phis = P.phis; lc.locs = &hdrLocs[cur]; lc.mk = marks(); lc.ctx = myCtx; for (size_t i = 0; i < nb; ++i) { if (pend[i].has) lc.saved.push_back({(int)i, pend[i]}); if (defer[i].has) lc.savedD.push_back({(int)i, defer[i]}); } loopStack.push_back(std::move(lc));
        }
        curGuard = P.g; Mem& m = P.mem; ctxGuard = myCtx; gAt[cur] = P.g; gOk[cur] = !lost;
        try {
            unsigned pi = 0; bool dead = false;
            auto edge = [&](BasicBlock* S, Lit c) {
                Lit g = And(curGuard, c); if (g == F0) return;
                if (And(myCtx, g) == F0) return;
                size_t si = I.ord[S]; std::vector<Val> ph; for (auto& p : S->phis()) ph.push_back(ev(p.getIncomingValueForBlock(B)));
                Pend& Q = pend[si];
                if (!Q.has) { Q.has = true; Q.g = g; Q.mem = m; Q.phis = std::move(ph); }
                else { Lit rc = relCond(g, Q.g); for (size_t i = 0; i < ph.size(); ++i) Q.phis[i] = muxVal(rc, ph[i], Q.phis[i]); Mem nm = m; mergeMem(nm, g, Q.mem, Q.g); Q.mem = std::move(nm); Q.g = Or(g, Q.g); }
            };
            for (Instruction& ins : *B) {
                if ((++g_instr & 0x3ff) == 0 && now() > g_deadline) unsup("time limit");
                if (auto* ph = dyn_cast<PHINode>(&ins)) { env[I.id[ph]] = P.phis[pi++]; continue; }
                int id = ins.getType()->isVoidTy() ? -1 : I.id[&ins];
                Type* T = ins.getType();
                if (auto* bo = dyn_cast<BinaryOperator>(&ins)) {
                    Val a = ev(bo->getOperand(0)), b = ev(bo->getOperand(1)); 
                    if (T->getScalarType()->isFloatingPointTy()) { if (!isC(a.b) || !isC(b.b) || T->isVectorTy()) unsup("symbolic float"); double x = bitsToF(a.b), y = bitsToF(b.b), z; switch (bo->getOpcode()) { case Instruction::FAdd: z = x + y; break; case Instruction::FSub: z = x - y; break; case Instruction::FMul: z = x * y; break; case Instruction::FDiv: z = x / y; break; default: unsup("fop"); } env[id] = VI(fToBits(z, bitW(T))); continue; }
                    BV x = bitsOfInt(a), y = bitsOfInt(b);
                    if (auto* vt = dyn_cast<FixedVectorType>(T)) { unsigned w = bitW(vt->getElementType()), n = vt->getNumElements(); BV r; for (unsigned i = 0; i < n; ++i) { BV q = binop(bo->getOpcode(), lane(x, i, w), lane(y, i, w)); r.append(q.begin(), q.end()); } env[id] = VI(std::move(r)); }
                    else env[id] = VI(binop(bo->getOpcode(), x, y));
                    continue;
                }
                switch (ins.getOpcode()) {
                case Instruction::Alloca: { auto* al = cast<AllocaInst>(&ins); Val nv = ev(al->getArraySize()); if (!isC(nv.b)) unsup("symbolic alloca"); int64_t n = DL->getTypeAllocSize(al->getAllocatedType()) * cval(nv.b); int r = newRegion("alloca", n); auto R = std::make_shared<Region>(); R->pages.resize((n + PG - 1) / PG); m.set(r, R); allocas.push_back(r); env[id] = VP(r, 0); break; }
                case Instruction::Load: env[id] = loadT(m, ev(ins.getOperand(0)), T); break;
                case Instruction::Store: storeT(m, ev(ins.getOperand(1)), ev(ins.getOperand(0)), ins.getOperand(0)->getType()); break;
                case Instruction::GetElementPtr: env[id] = gepConst(cast<GEPOperator>(&ins), evf); break;
                case Instruction::ICmp: { auto* ic = cast<ICmpInst>(&ins); Val a = ev(ic->getOperand(0)), b = ev(ic->getOperand(1));
                    if (auto* vt = dyn_cast<FixedVectorType>(ic->getOperand(0)->getType())) { unsigned w = bitW(vt->getElementType()), n = vt->getNumElements(); BV r; for (unsigned i = 0; i < n; ++i) r.push_back(icmpBits(ic->getPredicate(), lane(a.b, i, w), lane(b.b, i, w))); env[id] = VI(r); break; }
                    if (ic->getOperand(0)->getType()->isPointerTy()) { for (auto* v : {&a, &b}) for (auto& x : asPtr(*v).p) if (x.reg && regInfo[x.reg].sink && !isa<ConstantPointerNull>(ic->getOperand(1))) unsup("sink pointer comparison"); }
                    if (ic->getOperand(0)->getType()->isPointerTy() && ic->isEquality()) { Val x = asPtr(a), y = asPtr(b); if (x.p.size() == 1 && y.p.size() == 1 && x.p[0].reg && x.p[0].reg == y.p[0].reg && !x.p[0].terms.empty()) { PAlt z = y.p[0]; int64_t d = x.p[0].off - z.off; z.off = x.p[0].off; if (z.samePlace(x.p[0])) { env[id] = VI(BV{(ic->getPredicate() == CmpInst::ICMP_EQ) == (d == 0) ? T1 : F0}); break; } } }
                    if (ic->getOperand(0)->getType()->isPointerTy()) { a = asPtr(a); b = asPtr(b); } env[id] = VI(BV{icmpBits(ic->getPredicate(), bitsOfInt(a), bitsOfInt(b))}); break; }
                case Instruction::FCmp: { Val a = ev(ins.getOperand(0)), b = ev(ins.getOperand(1)); if (!isC(a.b) || !isC(b.b)) unsup("symbolic fcmp"); double x = bitsToF(a.b), y = bitsToF(b.b); bool r; switch (cast<FCmpInst>(&ins)->getPredicate()) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = x == y; break; case CmpInst::FCMP_UNE: case CmpInst::FCMP_ONE: r = x != y; break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = x < y; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = x > y; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = x <= y; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = x >= y; break; default: unsup("fcmp"); } env[id] = VI(cst(1, r)); break; }
                case Instruction::Select: { Val c = ev(ins.getOperand(0)); Val t = ev(ins.getOperand(1)), e = ev(ins.getOperand(2));
                    if (ins.getOperand(0)->getType()->isVectorTy()) { auto* vt = cast<FixedVectorType>(T); unsigned w = bitW(vt->getElementType()); BV r; for (unsigned i = 0; i < vt->getNumElements(); ++i) { BV q = bvMux(c.b[i], lane(t.b, i, w), lane(e.b, i, w)); r.append(q.begin(), q.end()); } env[id] = VI(r); }
                    else env[id] = muxVal(c.b[0], t, e); break; }
                case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: { Val a = ev(ins.getOperand(0)); Type* st = ins.getOperand(0)->getType(); bool sx = ins.getOpcode() == Instruction::SExt;
                    if (auto* vt = dyn_cast<FixedVectorType>(T)) { unsigned w = bitW(vt->getElementType()), sw = bitW(cast<FixedVectorType>(st)->getElementType()); BV r; for (unsigned i = 0; i < vt->getNumElements(); ++i) { BV q = lane(a.b, i, sw); q.resize(w, sx ? q.back() : F0); r.append(q.begin(), q.end()); } env[id] = VI(r); }
                    else { BV b = bitsOfInt(a); b.resize(bitW(T), sx ? b.back() : F0); env[id] = VI(b); } break; }
                case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: env[id] = ev(ins.getOperand(0)); break;
                case Instruction::PtrToInt: { BV b = ptrToBits(asPtr(ev(ins.getOperand(0)))); b.resize(bitW(T), F0); env[id] = VI(b); break; }
                case Instruction::IntToPtr: { Val a = ev(ins.getOperand(0)); env[id] = a.k == 1 ? a : bitsToPtr(a.b); break; }
                case Instruction::SIToFP: case Instruction::UIToFP: { Val a = ev(ins.getOperand(0)); if (isC(a.b)) { env[id] = VI(fToBits(ins.getOpcode() == Instruction::SIToFP ? (double)csval(a.b) : (double)cval(a.b), bitW(T))); break; }
                    if (a.b.size() == 1 && ins.getOpcode() == Instruction::UIToFP) { env[id] = VI(bvMux(a.b[0], fToBits(1, bitW(T)), fToBits(0, bitW(T)))); break; }
                    { unsigned e = effw(a.b); if (e > 10) unsup("symbolic int to float"); BV r = fToBits(0, bitW(T)); for (unsigned v = 1; v < (1u << e); ++v) { BV k = cst(a.b.size(), v); r = bvMux(bvEq(a.b, k), fToBits((double)v, bitW(T)), r); } env[id] = VI(r); } break; }
                case Instruction::FPToSI: case Instruction::FPToUI: { Val a = ev(ins.getOperand(0)); if (!isC(a.b)) unsup("symbolic fptoint"); env[id] = VI(cst(bitW(T), (uint64_t)(int64_t)bitsToF(a.b))); break; }
                case Instruction::FPExt: case Instruction::FPTrunc: { Val a = ev(ins.getOperand(0)); if (!isC(a.b)) unsup("symbolic fpcast"); env[id] = VI(fToBits(bitsToF(a.b), bitW(T))); break; }
                case Instruction::ExtractElement: { Val v = ev(ins.getOperand(0)), ix = ev(ins.getOperand(1)); unsigned w = bitW(T); unsigned n = v.b.size() / w; if (isC(ix.b)) env[id] = VI(lane(v.b, cval(ix.b), w)); else { BV r = lane(v.b, 0, w); for (unsigned i = 1; i < n; ++i) r = bvMux(bvEq(ix.b, cst(ix.b.size(), i)), lane(v.b, i, w), r); env[id] = VI(r); } break; }
                case Instruction::InsertElement: { Val v = ev(ins.getOperand(0)), x = ev(ins.getOperand(1)), ix = ev(ins.getOperand(2)); BV xb = bitsOfInt(x); unsigned w = xb.size(); if (!isC(ix.b)) unsup("symbolic insertelement"); unsigned k = cval(ix.b); BV r = v.b; for (unsigned i = 0; i < w; ++i) r[k * w + i] = xb[i]; env[id] = VI(r); break; }
                case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(&ins); Val a = ev(sv->getOperand(0)), b = ev(sv->getOperand(1)); unsigned w = bitW(cast<FixedVectorType>(T)->getElementType()); unsigned n = a.b.size() / w; BV r; for (int x : sv->getShuffleMask()) { BV q = x < 0 ? cst(w, 0) : (unsigned)x < n ? lane(a.b, x, w) : lane(b.b, x - n, w); r.append(q.begin(), q.end()); } env[id] = VI(r); break; }
                case Instruction::ExtractValue: { auto* e = cast<ExtractValueInst>(&ins); Val v = ev(e->getAggregateOperand()); for (unsigned i : e->indices()) { Val t = v.a[i]; v = t; } env[id] = v; break; }
                case Instruction::InsertValue: { auto* e = cast<InsertValueInst>(&ins); Val v = ev(e->getAggregateOperand()); Val* p = &v; if (p->k != 2) { Val u = undefVal(T); v = u; } for (unsigned i : e->indices()) p = &p->a[i]; *p = ev(e->getInsertedValueOperand()); env[id] = v; break; }
                case Instruction::Call: case Instruction::Invoke: {
                    auto* cb = cast<CallBase>(&ins); std::vector<Function*> targets; std::vector<Lit> tg;
                    if (Function* f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases())) { targets.push_back(f); tg.push_back(T1); }
                    else { Val fv = asPtr(ev(cb->getCalledOperand())); for (auto& a : fv.p) { if (a.reg == 0 || !regInfo[a.reg].fn) { if (fv.p.size() == 1) unsup("indirect call to unknown"); oblige(And(fullG(), a.g), "null-call"); continue; } targets.push_back(regInfo[a.reg].fn); tg.push_back(a.g); } if (targets.size() != 1) unsup("indirect call, several targets"); }
                    std::vector<Val> av; for (auto& u : cb->args()) av.push_back(u->getType()->isMetadataTy() ? Val() : ev(u));
                    // byval arguments: copy
                    for (unsigned i = 0; i < cb->arg_size(); ++i) if (cb->isByValArgument(i)) { int64_t n = DL->getTypeAllocSize(cb->getParamByValType(i)); int r = newRegion("byval", n); auto R = std::make_shared<Region>(); R->pages.resize((n + PG - 1) / PG); m.set(r, R); allocas.push_back(r); Val d = VP(r, 0); memCopy(m, d, av[i], n); av[i] = d; }
                    Function* callee = targets[0]; Val res;
                    auto rp = replaceMap.find(callee->getName().str()); if (rp == replaceMap.end()) for (auto& q : g_opaque) if (callee->getName().str().compare(0, q.size(), q) == 0) unsup("no contract for " + callee->getName().str()); if (rp != replaceMap.end() && fname != rp->second) { Function* g = M->getFunction(rp->second); if (!g) unsup("missing contract " + rp->second); if (g->arg_size() == callee->arg_size()) { replUsed.insert(rp->first); callee = g; } }
                    curLoc = fname;
                    if (!callBuiltin(cb, callee, av, m, res)) { Lit r; Lit cg = curGuard; res = execFunction(callee, av, m, r); curGuard = And(cg, r); ctxGuard = myCtx; if (r != T1) lost = true; } else if (curGuard == F0) lost = true;
                    curLoc = fname;
                    if (id >= 0) { if (res.k == 0 && res.b.empty() && curGuard != F0) unsup("no value from " + callee->getName().str()); if (res.k == 0 && res.b.empty()) res = undefVal(T); env[id] = std::move(res); }
                    if (curGuard == F0) dead = true;
                    else if (auto* iv = dyn_cast<InvokeInst>(&ins)) edge(iv->getNormalDest(), T1);
                    break; }
                case Instruction::Br: { auto* br = cast<BranchInst>(&ins); if (br->isUnconditional()) edge(br->getSuccessor(0), T1); else { Val c = ev(br->getCondition()); Lit l = c.b[0]; edge(br->getSuccessor(0), l); edge(br->getSuccessor(1), Not(l)); } break; }
                case Instruction::Switch: { auto* sw = cast<SwitchInst>(&ins); Val c = ev(sw->getCondition()); Lit rest = T1; std::vector<std::pair<BasicBlock*, Lit>> es; for (auto& cs : sw->cases()) { Lit e = bvEq(c.b, cstAP(cs.getCaseValue()->getValue())); rest = And(rest, Not(e)); bool f = false; for (auto& x : es) if (x.first == cs.getCaseSuccessor()) { x.second = Or(x.second, e); f = true; } if (!f) es.push_back({cs.getCaseSuccessor(), e}); }
                    bool f = false; for (auto& x : es) if (x.first == sw->getDefaultDest()) { x.second = Or(x.second, rest); f = true; } if (!f) es.push_back({sw->getDefaultDest(), rest}); for (auto& x : es) edge(x.first, x.second); break; }
                case Instruction::Ret: { Val v; if (ins.getNumOperands()) v = ev(ins.getOperand(0)); if (!haveRet) { haveRet = true; rg = curGuard; rv = v; rmem = m; } else { Lit rc = relCond(curGuard, rg); if (ins.getNumOperands()) rv = muxVal(rc, v, rv); Mem nm = m; mergeMem(nm, curGuard, rmem, rg); rmem = std::move(nm); rg = Or(curGuard, rg); } break; }
                case Instruction::Unreachable: { curLoc = fname; oblige(fullG(), "unreachable"); dead = true; break; }
                case Instruction::LandingPad: case Instruction::Resume: dead = true; break;
                case Instruction::Fence: break;
                case Instruction::AtomicRMW: { auto* rm = cast<AtomicRMWInst>(&ins); Val o = loadT(m, ev(rm->getPointerOperand()), T); BV x = bitsOfInt(ev(rm->getValOperand())); BV nv; switch (rm->getOperation()) { case AtomicRMWInst::Add: nv = bvAdd(o.b, x, F0); break; case AtomicRMWInst::Sub: nv = bvSub(o.b, x); break; case AtomicRMWInst::Xchg: nv = x; break; default: unsup("atomicrmw"); } storeT(m, ev(rm->getPointerOperand()), VI(nv), T); env[id] = o; break; }
                default: unsup(std::string("instruction ") + ins.getOpcodeName());
                }
                if (dead) break;
            }
        } catch (SplitEx& e) {
            if (!(e.loopIdx < loopStack.size() && loopStack[e.loopIdx].frame == frame)) { throw; }
            LoopCtx lc = std::move(loopStack[e.loopIdx]); loopStack.resize(e.loopIdx + 1); rollback(lc.mk);
            // restart this header visit with the new split location
            int h = lc.hdr; lc.locs->push_back(e.loc);
            for (auto& q : pend) q = Pend(); for (auto& q : lc.saved) pend[q.first] = q.second; for (auto& q : defer) q = Pend(); deferred.clear(); for (auto& q : lc.savedD) { defer[q.first] = q.second; deferred.insert(q.first); }
            if (pend[h].has) unsup("split restore: header pending");
            Pend Q; Q.has = true; Q.hold = true; Q.g = lc.g; Q.mem = std::move(lc.mem); Q.phis = std::move(lc.phis); pend[h] = std::move(Q); --visits[h];
            ctxGuard = myCtx;
        }
    }
    while (loopStack.size() > loopBase) loopStack.pop_back();
    ctxGuard = outerCtx; curGuard = outerCur;
    g_prof[fname] += g_instr - instr0; g_profN[fname] += gnodes.size() - nodes0;
    if (!haveRet) { retGuard = F0; mem = Mem(); return Val(); }
    for (int r : allocas) rmem.erase(r);
    mem = std::move(rmem); retGuard = lost ? rg : T1; return rv; // paths ended by an "unreachable" obligation are not subtracted: the obligation itself must hold
}

// ------------------------------------------------------------------ driver
static std::string jstr(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static void loadDump(const char* fn) {
    std::ifstream f(fn, std::ios::binary); if (!f) return; std::string name; uint32_t n; 
    while (f.read((char*)&n, 4)) { name.resize(n); f.read(&name[0], n); uint64_t ad; f.read((char*)&ad, 8); f.read((char*)&n, 4); std::vector<uint8_t> d(n); f.read((char*)d.data(), n); dumpAddr[ad] = {name, n, name.compare(0, 5, "heap#") == 0}; dumpMap[name] = std::move(d); }
}
static int mkdump(const char* in, const char* outbc, const char* outc) {
    // externalise every mutable global so that a native run can dump it by symbol
    std::ofstream c(outc); c << "#include <stdio.h>\n#include <string.h>\n#include <stdint.h>\n"; int k = 0; std::string tab;
    for (auto& g : M->globals()) {
        if (g.isDeclaration() || g.isThreadLocal() || g.getName().starts_with("llvm.") || g.getName().starts_with("_ZTI") || g.getName().starts_with("_ZTS") || g.getName().empty() || g.getName().starts_with("_ZTV") || g.getName().starts_with("_ZGV")) continue;
        std::string orig = g.getName().str(); if (g.hasLocalLinkage()) { g.setLinkage(GlobalValue::ExternalLinkage); g.setName("vcx_" + std::to_string(k)); } if (g.isConstant()) g.setUnnamedAddr(GlobalValue::UnnamedAddr::None);
        uint64_t sz = DL->getTypeAllocSize(g.getValueType());
        c << "extern char vcg" << k << "[] __asm__(\"" << g.getName().str() << "\");\n"; tab += "  w(f,\"" + orig + "\",vcg" + std::to_string(k) + "," + std::to_string(sz) + "u);\n"; ++k;
    }
    c << "static void w(FILE*f,const char*n,const char*p,uint32_t s){uint32_t l=strlen(n);uint64_t a=(uint64_t)p;fwrite(&l,4,1,f);fwrite(n,1,l,f);fwrite(&a,8,1,f);fwrite(&s,4,1,f);fwrite(p,1,s,f);}\n"
      // heap blocks of the initialisation, so that containers built there are visible
      << "#include <stdlib.h>\nstatic struct{char*p;size_t n;}hb[65536];static int hn;\nvoid*_Znwm(size_t n){char*p=malloc(n?n:1);if(hn<65536){hb[hn].p=p;hb[hn].n=n;++hn;}return p;}\nvoid _ZdlPv(void*p){for(int i=hn;i-->0;)if(hb[i].p==p){hb[i]=hb[--hn];break;}free(p);}\nvoid _ZdlPvm(void*p,size_t n){_ZdlPv(p);}\n"
      << "void vc_native_init(void);\nint main(int argc,char**argv){vc_native_init();FILE*f=fopen(argv[1],\"wb\");\n" << tab << "for(int i=0;i<hn;++i)if(hb[i].n<=(1u<<20)){char b[32];sprintf(b,\"heap#%d\",i);w(f,b,hb[i].p,hb[i].n);}\nfclose(f);return 0;}\n";
    std::error_code ec; raw_fd_ostream os(outbc, ec); M->print(os, nullptr); return 0;
}
int main(int argc, char** argv) {
    g_t0 = now(); std::string mod, dump, entry, json; std::vector<std::string> pos; double tl = 800; std::string mkd[2]; bool prof = false;
    for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--module") mod = nx(); else if (a == "--dump") dump = nx(); else if (a == "--entry") entry = nx(); else if (a == "--param") params.push_back(strtoll(nx().c_str(), 0, 0));
        else if (a == "--cut-havoc") { std::string x = nx(); auto p = x.rfind(':'); g_cutHavoc[x.substr(0, p)].insert(atoi(x.c_str() + p + 1)); }
        else if (a == "--cut") { std::string x = nx(); auto p = x.find('='); cutMap[x.substr(0, p)] = x.substr(p + 1); }
        else if (a == "--opaque") g_opaque.push_back(nx());
        else if (a == "--skip") g_skip.push_back(nx());
        else if (a == "--replace") { std::string x = nx(); auto p = x.find('='); replaceMap[x.substr(0, p)] = x.substr(p + 1); }
        else if (a == "--replace-file") { std::ifstream f(nx()); std::string x, y; while (f >> x >> y) replaceMap[x] = y; }
        else if (a == "--time") tl = atof(nx().c_str()); else if (a == "--kissat-time") g_kissatTimeout = atof(nx().c_str()); else if (a == "--budget") g_msBudget = atoll(nx().c_str());
        else if (a == "--uf-global") { std::string x = nx(); auto p = x.find(':'); g_ufGlobals[x.substr(0, p)] = p == std::string::npos ? 0 : atoi(x.c_str() + p + 1); }
        else if (a == "--symbolic-global") g_symGlobals.push_back(nx()); else if (a == "--json") json = nx(); else if (a == "--tmp") g_tmp = nx(); else if (a == "--kissat") g_kissat = nx();
        else if (a == "--mkdump") { mkd[0] = nx(); mkd[1] = nx(); } else if (a == "--prof") prof = true; else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 3; } }
    g_deadline = g_t0 + tl; LLVMContext ctx; SMDiagnostic err; auto mp = parseIRFile(mod, err, ctx); if (!mp) { err.print("irvc", errs()); return 3; }
    M = mp.get(); DL = &M->getDataLayout();
    if (!mkd[0].empty()) return mkdump(mod.c_str(), mkd[0].c_str(), mkd[1].c_str());
    loadDump(dump.c_str()); gnodes.push_back({N_CONST, 0, 0, 0}); gnodes.reserve(1 << 20); growHash(); regInfo.push_back({"null", 0}); g_sat = new Sat(true);
    std::string error; double tEx = 0; Function* E = M->getFunction(entry); if (!E) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    { struct rlimit rl; rl.rlim_cur = rl.rlim_max = 512u << 20; setrlimit(RLIMIT_STACK, &rl); }
    try { std::vector<Val> av; Mem mem; Lit rg; execFunction(E, av, mem, rg); } catch (Unsupported& u) { error = u.msg + " (in " + curLoc + ")"; } catch (SplitEx&) { error = "stray split"; } catch (CutRetry& c) { if (g_cutHavoc.size() > 40) error = "loop frame"; else { std::vector<char*> av(argv, argv + argc); std::string w = c.what; av.push_back((char*)"--cut-havoc"); av.push_back((char*)w.c_str()); av.push_back(nullptr); if (getenv("VC_DBG")) fprintf(stderr, "retry %s\n", w.c_str()); execv("/proc/self/exe", av.data()); error = "exec"; } } catch (std::bad_alloc&) { error = "out of memory"; }
    tEx = now() - g_t0;
    if (prof) { std::vector<std::pair<uint64_t, std::string>> v; for (auto& x : g_prof) v.push_back({x.second, x.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 40; ++i) fprintf(stderr, "%12llu %10llu %s\n", (unsigned long long)v[i].first, (unsigned long long)g_profN[v[i].second], v[i].second.c_str()); }
    // decide the obligations
    std::unordered_set<Lit> provedBad, triedBad;
    size_t nTriv = 0, nMs = 0, nKis = 0, nFail = 0, nUnk = 0; struct Fail { Oblig o; std::vector<std::pair<std::string, uint64_t>> model; std::string st; }; std::vector<Fail> fails; double tSolve0 = now(); double satMax = 0;
    std::map<std::string, size_t> byId;
    std::vector<Oblig*> open; for (auto& o : obligs) { ++byId[o.id]; if (o.fail == F0) ++nTriv; else open.push_back(&o); }
    auto model = [&](const std::function<int(Lit)>& val) { std::vector<std::pair<std::string, uint64_t>> r; for (auto& n : nondets) { uint64_t v = 0; for (int i = 0; i < 64; ++i) v |= (uint64_t)val(n.b[i]) << i; r.push_back({n.name, v}); } return r; };
    if (!gnodes.empty()) for (size_t i = 0; i < open.size(); ++i) {
        Oblig& o = *open[i]; std::vector<Lit> as(assumes.begin(), assumes.begin() + o.nAssume); as.push_back(o.fail); double t = now();
        if (t > g_deadline) { ++nUnk; if (fails.size() < 20) fails.push_back({o, {}, "undecided"}); continue; }
        int r = -1;
        if (o.bad != T1) { if (provedBad.count(o.bad)) r = 0; else if (!triedBad.count(o.bad)) { triedBad.insert(o.bad); Sat cone; if (cone.solve(relevant(o.bad, assumes, o.nAssume), 2000) == 0) { provedBad.insert(o.bad); r = 0; } } } // without its path condition
        if (r != 0) { Sat cone; r = cone.solve(relevant(o.fail, assumes, o.nAssume), g_msBudget); }
        if (getenv("IRVC_SLOW") && now() - t > atof(getenv("IRVC_SLOW"))) fprintf(stderr, "slow %s #%zu in %s: %.2f r=%d\n", o.id.c_str(), i, o.loc.c_str(), now() - t, r);
        if (r == 0) { ++nMs; satMax = std::max(satMax, now() - t); continue; }
        if (r == 1) { r = g_sat->solve(as, g_msBudget * 20); if (r == 0) { ++nMs; continue; } }
        if (r == 1) { ++nFail; if (fails.size() < 20) fails.push_back({o, model([&](Lit l) { return g_sat->val(l); }), "failed"}); }
        else { std::unordered_map<uint32_t, bool> km; r = kissatSolve(as, km, std::min(g_kissatTimeout, g_deadline - now() + 1)); if (r == 0) ++nKis; else if (r == 1) { ++nFail; if (fails.size() < 20) fails.push_back({o, model([&](Lit l) { if ((l >> 1) == 0) return (int)(l & 1); auto it = km.find(l >> 1); return (int)((it == km.end() ? 0 : it->second) ^ (l & 1)); }), "failed"}); } else { ++nUnk; if (fails.size() < 20) fails.push_back({o, {}, "undecided"}); } }
        satMax = std::max(satMax, now() - t);
        if (nFail >= 3) { nUnk += open.size() - i - 1; break; }
    }
    // vacuity: the assumptions are satisfiable and every cover point is reachable
    int vac = -1; std::vector<std::pair<std::string, int>> cov; { std::vector<Lit> as = assumes; vac = g_sat->solve(as, 2000000); if (vac < 0) { std::unordered_map<uint32_t, bool> km; vac = kissatSolve(as, km, 60); }
        std::map<std::string, Lit> cm; for (auto& c : covers) { auto it = cm.find(c.first); if (it == cm.end()) cm[c.first] = c.second; else it->second = Or(it->second, c.second); }
        for (auto& c : cm) { auto a2 = as; a2.push_back(c.second); int r = g_sat->solve(a2, 500000); if (r < 0) { std::unordered_map<uint32_t, bool> km; r = kissatSolve(a2, km, 60); } cov.push_back({c.first, r}); } }
    std::ostringstream o; o << "{\"entry\":" << jstr(entry) << ",\"params\":["; for (size_t i = 0; i < params.size(); ++i) o << (i ? "," : "") << params[i];
    o << "],\"error\":" << (error.empty() ? "null" : jstr(error)) << ",\"obligations\":" << obligs.size() << ",\"trivial\":" << nTriv << ",\"minisat\":" << nMs << ",\"kissat\":" << nKis << ",\"failed\":" << nFail << ",\"undecided\":" << nUnk
      << ",\"assumptions\":" << assumes.size() << ",\"consistent\":" << vac << ",\"nodes\":" << gnodes.size() << ",\"instr\":" << g_instr << ",\"exec_s\":" << tEx << ",\"solve_s\":" << (now() - tSolve0) << ",\"sat_max_s\":" << satMax << ",\"covers\":{";
    for (size_t i = 0; i < cov.size(); ++i) o << (i ? "," : "") << jstr(cov[i].first) << ":" << cov[i].second; o << "},\"by_id\":{"; { bool f = true; for (auto& x : byId) { o << (f ? "" : ",") << jstr(x.first) << ":" << x.second; f = false; } }
    o << "},\"replaced\":["; { bool f = true; for (auto& x : replUsed) { o << (f ? "" : ",") << jstr(x); f = false; } }
    o << "],\"functions\":["; { bool f = true; for (auto& x : funcsSeen) { o << (f ? "" : ",") << jstr(x); f = false; } }
    o << "],\"fails\":["; for (size_t i = 0; i < fails.size(); ++i) { auto& x = fails[i]; o << (i ? "," : "") << "{\"id\":" << jstr(x.o.id) << ",\"in\":" << jstr(x.o.loc) << ",\"status\":" << jstr(x.st) << ",\"model\":["; for (size_t k = 0; k < x.model.size(); ++k) o << (k ? "," : "") << "[" << jstr(x.model[k].first) << "," << x.model[k].second << "]"; o << "]}"; }
    o << "]}\n"; if (json.empty()) std::cout << o.str(); else { std::ofstream f(json); f << o.str(); }
    fflush(stdout); std::cout.flush(); _exit(nFail ? 1 : (!error.empty() || nUnk) ? 2 : 0);
}
