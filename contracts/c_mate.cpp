// Fixed-depth mate search (P19): the control structure of mateMoveInEvenPly / OddPly / OddPlyReturnMove / 3Ply, function by function, for
// any depth and any number of moves.  The lists enter by contract: at an attacking node legal moves that give check, at a defending node
// the legal answers; so do doMove/undoMove (P03, P04), moveGivesCheck (P06), isDraw (P14), mateMoveIn1Ply (P10) and the searches one ply
// deeper.  The loops over the lists are cut: the hooks see an arbitrary list member, or the end of the list.
//   attacking node: "mate" is claimed only for a member after which the defender loses by repetition or is mated in depth - 1
//   defending node: "mated" is claimed only if after every member the attacker wins by repetition or mates in depth - 1
#include "genspec.h"
#include "mate.h"
struct List { ExtMove m[MaxLegalMoves + 8]; };
static Position* g_p; static int g_level, g_depth, g_rep[3]; static uint32_t g_path[3]; static StateInfo* g_st[3]; static bool g_root; // g_root: the root is a defending node
struct El { ExtMove* at; ExtMove* end; uint32_t v; bool gives, empty, done, rep, sub; int level; int verdict; }; static El g_or, g_and; static Move g_ret;   // done: at the end of the list; sub: claimed by the search below
static bool defending() { return g_root == (g_level % 2 == 0); }
static void here(const Position* p) { vc_assert(p == g_p, "own-position"); }
static void draw(El& e) { e.v = (uint32_t)vc_nondet(24, "move"); vc_assume(e.v != 0); e.gives = vc_nondet(1, "gives"); e.rep = e.sub = false; e.verdict = (int)vc_nondet(3, "verdict"); vc_assume(e.verdict <= 5); }
static void list(El& e, void* self) { e.at = (ExtMove*)self; e.empty = vc_nondet(1, "empty"); e.done = false; e.level = g_level; draw(e); e.end = e.empty ? e.at : e.at + 1; }
// the picker object: the list, then the end pointer (as begin() and end() of the real class read them)
extern "C" void ct_pickOr(void* self, const Position* p) { here(p); vc_assert(!defending(), "attacking-list"); list(g_or, self); }
extern "C" void ct_pickOrChecked(void* self, const Position* p) { ct_pickOr(self, p); }
extern "C" void ct_pickAnd(void* self, const Position* p) { here(p); vc_assert(defending(), "defending-list"); list(g_and, self); }
static El& elOf(void* self) { return self == (void*)g_or.at ? g_or : g_and; }
extern "C" ExtMove* ct_pbegin(void* self) { bool o = self == (void*)g_or.at; vc_assert(o | (self == (void*)g_and.at), "loop-shape"); return o ? g_or.at : g_and.at; }
extern "C" ExtMove* ct_pend(void* self) { bool o = self == (void*)g_or.at; vc_assert(o | (self == (void*)g_and.at), "loop-shape"); return o ? g_or.end : g_and.end; }
extern "C" uint64_t ct_psize(const void* self) { bool o = self == (void*)g_or.at; vc_assert(o | (self == (void*)g_and.at), "loop-shape"); bool em = o ? g_or.empty : g_and.empty; uint64_t n = vc_nondet(9, "size"); vc_assume(n != 0); return em ? 0 : n; }
extern "C" void ct_ci(void* ci, const Position* p) {  here(p); ((uint32_t*)ci)[0] = (uint32_t)g_level; ((uint32_t*)ci)[1] = g_level ? g_path[g_level] : 0; ((uint32_t*)ci)[2] = g_level > 1 ? g_path[1] : 0; }
static void cur(const void* ci) { vc_assert((((const uint32_t*)ci)[0] == (uint32_t)g_level) & (((const uint32_t*)ci)[1] == (g_level ? g_path[g_level] : 0)) & (((const uint32_t*)ci)[2] == (g_level > 1 ? g_path[1] : 0)), "check-info-of-this-position"); }
static El& member(uint32_t v) { bool d = defending(); El& e = d ? g_and : g_or; vc_assert((v == e.v) & (e.level == g_level) & !e.done & !e.empty, "member-of-the-list"); return e; }
extern "C" bool ct_gives(const Position* p, const Move* m, const void* ci) { here(p); cur(ci); El& e = member(m->value_); return defending() ? e.gives : true; }
extern "C" void ct_do(Position* p, const Move* m, StateInfo* st, const void* ci, bool gives) {
    here(p); cur(ci); bool d = defending(); El& e = member(m->value_); vc_assert(gives == (d ? e.gives : true), "check-flag"); for (int i = 1; i <= g_level; ++i) vc_assert(st != g_st[i], "own-state-record"); if (g_level >= 2) { vc_assert(false, "loop-shape"); return; } ++g_level; g_path[g_level] = e.v; g_st[g_level] = st;
}
extern "C" void ct_undo(Position* p, const Move* m) { here(p); vc_assert(g_level > 0, "undo-order"); vc_assert(m->value_ == g_path[g_level > 0 ? g_level : 0], "undo-order"); if (g_level > 0) --g_level; }
extern "C" int ct_isDraw(const Position* p, int) { here(p); vc_assert(g_level > 0, "loop-shape"); El& e = defending() ? g_or : g_and; e.rep = true; return e.verdict; } // after the member of the node above
// the search below the member just played: attacker to move (odd) or defender to move (even)
static bool below(int plies, bool attacker, bool inCheck, bool known) { vc_assert(g_level > 0, "loop-shape"); El& e = attacker ? g_and : g_or; vc_assert(defending() != attacker, "search-below"); vc_assert((e.level == g_level - 1) & (g_path[g_level > 0 ? g_level : 0] == e.v), "search-below"); vc_assert(plies <= g_depth - g_level, "search-depth"); vc_assert(plies > 0, "search-depth"); if (known) vc_assert(inCheck == e.gives, "in-check-variant"); bool r = vc_nondet(1, "claim"); e.sub = r; return r; }
extern "C" bool ct_even(Position* p, int d) { here(p); vc_assert(d % 2 == 0, "search-depth"); return below(d, false, false, false); }
extern "C" bool ct_odd1(Position* p, int d) { here(p); vc_assert(d % 2 == 1, "search-depth"); return below(d, true, true, true); }
extern "C" bool ct_odd0(Position* p, int d) { here(p); vc_assert(d % 2 == 1, "search-depth"); return below(d, true, false, true); }
extern "C" bool ct_three1(Position* p) { here(p); return below(3, true, true, true); }
extern "C" bool ct_three0(Position* p) { here(p); return below(3, true, false, true); }
extern "C" void ct_mate1(Move* r, Position* p) { here(p); bool c = below(1, true, false, true); uint32_t v = (uint32_t)vc_nondet(24, "mate1"); vc_assume(v != 0); r->value_ = c ? v : 0; }
static bool wonOr(const El& e) { return e.rep ? (e.verdict == RepetitionLose) | (((e.verdict == NotRepetition) | (e.verdict == RepetitionInferior)) & e.sub) : e.sub; }      // the defender is lost after the member
static bool wonAnd(const El& e) { return e.rep ? (e.verdict == RepetitionWin) | (((e.verdict == NotRepetition) | (e.verdict == RepetitionSuperior)) & e.sub) : e.sub; }   // the attacker wins after the member
static void inv(El& e, int phase, int n, int64_t* a, uint64_t ptrs, int level, bool all) {
    int k = -1, c = 0; for (int i = 0; i < n; ++i) if (ptrs >> i & 1) { k = i; ++c; } vc_assert(c == 1, "loop-shape"); if (c != 1) return; ExtMove*& p = *(ExtMove**)&a[k]; vc_assert(g_level == level, "loop-level");
    if (phase == 0) vc_assert((p == e.at) & (e.level == level), "loop-start");
    if (phase == 1) { bool end = e.empty | vc_nondet(1, "end"); draw(e); e.done = end; e.at->move.value_ = e.v; p = end ? e.end : e.at; for (int i = 0; i < n; ++i) if (i != k) a[i] = (int64_t)vc_nondet(64, "carried"); vc_frame(&e, sizeof e); vc_havoc(&g_ret, sizeof g_ret); vc_frame(&g_ret, sizeof g_ret); vc_frame(e.at, sizeof(ExtMove)); vc_frame(g_path, sizeof g_path); vc_frame(g_st, sizeof g_st); if (level == 0) vc_frame(&g_and, sizeof g_and); }
    if (phase == 2) { vc_assert(p == e.at + 1, "loop-next"); if (all) vc_assert(wonAnd(e), "every-answer-loses"); }
}
extern "C" void inv_and(int phase, int n, int64_t* a, uint64_t ptrs) { inv(g_and, phase, n, a, ptrs, 0, true); }
extern "C" void inv_or(int phase, int n, int64_t* a, uint64_t ptrs) { inv(g_or, phase, n, a, ptrs, 0, false); }
extern "C" void inv_and2(int phase, int n, int64_t* a, uint64_t ptrs) { if (phase == 2) vc_assert(!g_and.gives, "counter-check-refutes"); inv(g_and, phase, n, a, ptrs, 1, true); }
static void start(bool root, int depth) { g_root = root; g_level = 0; g_depth = depth; alignas(64) static char mem[sizeof(Position)]; g_p = (Position*)mem; g_or.at = g_and.at = nullptr; g_or.level = g_and.level = -1; g_or.done = g_and.done = false; }
extern "C" void h_even() { // param: depth 2, 4, or 0 for any even depth from 6 on
    if (!vc_symbolic()) return; int d = (int)vc_param(0); if (d == 0) { d = 2 * (int)vc_nondet(20, "d"); vc_assume(d >= 6); } start(true, d); bool r = mateMoveInEvenPly(*g_p, d); vc_assert(g_level == 0, "position-restored"); vc_assert(!r | g_and.done, "all-answers-examined"); vc_cover("end");
}
extern "C" void h_odd() { // params: side to move in check, 0 verdict / 1 move
    if (!vc_symbolic()) return; int d = 2 * (int)vc_nondet(20, "d") + 1; vc_assume(d >= 3); start(false, d); bool ic = vc_param(0) != 0; bool r;
    if (vc_param(1) == 0) r = ic ? mateMoveInOddPly<true>(*g_p, d) : mateMoveInOddPly<false>(*g_p, d); else { if (ic) new (&g_ret) Move(mateMoveInOddPlyReturnMove<true>(*g_p, d)); else new (&g_ret) Move(mateMoveInOddPlyReturnMove<false>(*g_p, d)); r = g_ret.value_ != 0; vc_assert(!r | (g_ret.value_ == g_or.v), "returned-move"); }
    vc_assert(g_level == 0, "position-restored"); vc_assert(!r | (!g_or.done & !g_or.empty & wonOr(g_or)), "claimed-mate"); vc_cover("end");
}
template <bool INCHECK> bool mateMoveIn3Ply(Position& pos);
extern "C" void h_three() { if (!vc_symbolic()) return; start(false, 3); bool r = vc_param(0) ? mateMoveIn3Ply<true>(*g_p) : mateMoveIn3Ply<false>(*g_p); vc_assert(g_level == 0, "position-restored"); vc_assert(!r | (!g_or.done & !g_or.empty & (g_and.empty | g_and.done)), "claimed-mate"); vc_cover("end"); }
