// Copies of a board and the history container (P18, and the API layer of P03/P04).  The container std::deque and the map
// std::unordered_map enter by contract (ct_* below): a sequence of g_n records of which the loops see the one at the ghost index, and
// a partial map from records of the source to records of the copy.  A source history of any length is linked as doMove, doNullMove and
// clear leave it: every record points to an earlier one, to the start record or nowhere (the record of a pass), the position points to
// some record of its history or to its start record.
#include "genspec.h"
#define private public
#include "cshogi.h"
#undef private
typedef std::pair<Move, StateInfo> HRec; struct It { uint64_t tag, a, b, c; };   // iterator: container 1 (source), 2 (copy), 3 (end of source), 4 (end of copy)
static __Board *g_a, *g_b; static uint64_t g_n, g_i, g_k1, g_k2, g_pos[3], g_mapped; static bool g_start, g_live[3], g_copied; static HRec g_S[4], g_D[4], g_D0; static StateInfo* g_slot; static int g_link;  // [0] record g_i, [1] the record it points to (index g_k1), [2] the record the position points to (g_k2), [3] the record that one points to
static uint64_t tagOf(const void* d) { bool s = d == &g_a->history; bool c = d == &g_b->history; vc_assert(s | c, "loop-shape"); return s ? 1 : 2; }
extern "C" uint64_t ct_size(const void* d) { return tagOf(d) == 1 || g_copied ? g_n : 0; }
extern "C" bool ct_empty(const void* d) { return ct_size(d) == 0; }
extern "C" void ct_begin(It* r, const void* d) { uint64_t t = tagOf(d); vc_assert(!g_live[t] | (g_pos[t] == g_n), "loop-shape"); g_live[t] = true; g_pos[t] = 0; r->tag = t; r->a = r->b = r->c = 0; }
extern "C" void ct_end(It* r, const void* d) { r->tag = tagOf(d) + 2; r->a = r->b = r->c = 0; }
extern "C" bool ct_ne(const It* x, const It* y) { uint64_t t = x->tag; vc_assert(((t == 1) | (t == 2)) & ((y->tag == 3) | (y->tag == 4)), "loop-shape"); vc_assert(y->tag == t + 2, "same-container"); return g_pos[t == 1 ? 1 : 2] != g_n; }
extern "C" HRec* ct_arrow(const It* x) { uint64_t t = x->tag; vc_assert((t == 1) | (t == 2), "loop-shape"); t = t == 1 ? 1 : 2; vc_assert((g_pos[t] == g_i) & (g_i < g_n), "record-in-range"); return t == 1 ? &g_S[0] : &g_D[0]; }
extern "C" It* ct_inc(It* x) { uint64_t t = x->tag; vc_assert((t == 1) | (t == 2), "loop-shape"); t = t == 1 ? 1 : 2; g_pos[t] = g_pos[t] + 1; return x; }
extern "C" void ct_mapNew(void*) {}
extern "C" void ct_reserve(void*, uint64_t) {}
struct Ins { void* p; bool n; };
extern "C" Ins ct_emplace(void*, const StateInfo* const* k, StateInfo* const* v) { // as used: the start record once, then the records in order
    bool st = *k == &g_a->pos.startState_; if (st) { vc_assert(*v == &g_b->pos.startState_, "map-entry"); g_start = true; }
    else { vc_assert((*k == &g_S[0].second) & (*v == &g_D[0].second), "map-entry"); vc_assert(g_mapped == g_i, "loop-shape"); g_mapped = g_i + 1; }
    Ins r; r.p = nullptr; r.n = true; return r;
}
extern "C" StateInfo** ct_at(void*, const StateInfo* const* k) {
    const StateInfo* q = *k; StateInfo* r = nullptr; bool in = false; bool st = q == &g_a->pos.startState_, s0 = q == &g_S[0].second, s1 = q == &g_S[1].second, s2 = q == &g_S[2].second;
    r = st ? &g_b->pos.startState_ : s0 ? &g_D[0].second : s1 ? &g_D[1].second : &g_D[2].second; in = st ? g_start : s0 ? g_i < g_mapped : s1 ? g_k1 < g_mapped : s2 ? g_k2 < g_mapped : false; vc_assert(in, "map-lookup"); g_slot = r; return &g_slot;
}
static void symState(StateInfo& s) { vc_havoc(&s, sizeof s); s.previous = nullptr; }
static bool sameState(const StateInfo& a, const StateInfo& b) { return (a.boardKey == b.boardKey) & (a.handKey == b.handKey) & bbEq(a.checkersBB, b.checkersBB) & (a.pliesFromNull == b.pliesFromNull) & (a.continuousCheck[0] == b.continuousCheck[0]) & (a.continuousCheck[1] == b.continuousCheck[1]) & (a.hand.value_ == b.hand.value_); }
static void pickRec() { // the records around index g_i of the source, and the copies the container made of them
    for (int k = 0; k < 2; ++k) { symState(g_S[k].second); g_S[k].first.value_ = (uint32_t)vc_nondet(32, "move"); }
    g_k1 = vc_nondet(31, "k1"); g_link = (int)vc_nondet(2, "link"); vc_assume((g_link < 3) & ((g_link != 2) | (g_k1 < g_i))); g_S[0].second.previous = g_link == 0 ? nullptr : g_link == 1 ? &g_a->pos.startState_ : &g_S[1].second; g_D[0] = g_S[0]; g_D0 = g_D[0];
}
static void fr() { vc_frame(g_pos, sizeof g_pos); vc_frame(&g_mapped, 8); vc_frame(&g_i, 8); vc_frame(&g_k1, 8); vc_frame(&g_link, 4); vc_frame(g_S, sizeof g_S[0] * 2); vc_frame(g_D, sizeof g_D[0] * 2); vc_frame(&g_D0, sizeof g_D0); vc_frame(&g_slot, 8); }
extern "C" void inv_map(int phase, int n, int64_t*, uint64_t) {
    vc_assert(n == 0, "loop-shape"); if (n != 0) return;
    if (phase == 0) vc_assert((g_pos[1] == 0) & (g_pos[2] == 0) & (g_mapped == 0) & g_start & g_copied, "map-start");
    if (phase == 1) { g_i = vc_nondet(31, "i"); vc_assume(g_i <= g_n); g_pos[1] = g_pos[2] = g_mapped = g_i; pickRec(); fr(); }
    if (phase == 2) vc_assert((g_pos[1] == g_i + 1) & (g_pos[2] == g_i + 1) & (g_mapped == g_i + 1), "map-step");
}
extern "C" void inv_link(int phase, int n, int64_t*, uint64_t) {
    vc_assert(n == 0, "loop-shape"); if (n != 0) return;
    if (phase == 0) vc_assert((g_pos[1] == 0) & (g_pos[2] == 0) & (g_mapped == g_n) & g_start, "link-start");
    if (phase == 1) { g_i = vc_nondet(31, "i"); vc_assume(g_i <= g_n); g_pos[1] = g_pos[2] = g_i; g_mapped = g_n; pickRec(); g_D[2].second.previous = g_k2 < g_i ? &g_D[3].second : &g_S[3].second; fr(); vc_frame(&g_D[2], sizeof g_D[2]); }
    if (phase == 2) { vc_assert((g_pos[1] == g_i + 1) & (g_pos[2] == g_i + 1), "link-step"); StateInfo* want = g_link == 0 ? nullptr : g_link == 1 ? &g_b->pos.startState_ : &g_D[1].second; vc_assert(g_D[0].second.previous == want, "record-relinked"); vc_assert(sameState(g_D[0].second, g_D0.second) & (g_D[0].first.value_ == g_D0.first.value_), "record-kept"); vc_assert(sameState(g_S[0].second, g_D0.second) & (g_S[0].second.previous == g_D0.second.previous), "source-kept"); }
}
extern "C" void ct_dequeCopy(void* d, const void* s) { vc_assert((d == &g_b->history) & (s == &g_a->history), "history-copied"); g_copied = true; }
extern "C" void* ct_dequeAssign(void* d, const void* s) { ct_dequeCopy(d, s); return d; }
extern "C" void ct_dequeDtor(void*) {}
static bool sameBytes(const void* x, const void* y, int n) { bool r = true; for (int i = 0; i < n; ++i) r = r & (((const uint8_t*)x)[i] == ((const uint8_t*)y)[i]); return r; }
static bool samePos(const Position& x, const Position& y) { // everything but the links
    bool ok = (x.turn_ == y.turn_) & (x.gamePly_ == y.gamePly_); for (int s = 0; s < 81; ++s) ok = ok & (x.piece_[s] == y.piece_[s]); for (int t = 0; t <= 14; ++t) ok = ok & bbEq(x.byTypeBB_[t], y.byTypeBB_[t]); for (int c = 0; c < 2; ++c) ok = ok & bbEq(x.byColorBB_[c], y.byColorBB_[c]) & (x.hand_[c].value_ == y.hand_[c].value_) & (x.kingSquare_[c] == y.kingSquare_[c]); return ok & bbEq(x.goldsBB_, y.goldsBB_);
}
extern "C" void h_copy() { // param: 0 copy constructor, 1 assignment
    if (!vc_symbolic()) return; alignas(64) static char ma[sizeof(__Board)], mb[sizeof(__Board)], mc[sizeof(__Board)]; g_a = (__Board*)ma; g_b = (__Board*)mb; __Board* c = (__Board*)mc; vc_havoc(ma, sizeof(Position)); vc_havoc(mb, sizeof(Position));
    g_n = vc_nondet(31, "n"); g_i = 0; g_mapped = 0; g_start = g_copied = g_live[1] = g_live[2] = false; symState(g_S[2].second); g_S[2].second.previous = &g_S[3].second; g_S[2].first.value_ = (uint32_t)vc_nondet(32, "move"); g_D[2] = g_S[2]; Position& p = g_a->pos; symState(p.startState_); bool atStart = vc_nondet(1, "atStart"); g_k2 = vc_nondet(31, "k2"); vc_assume(atStart | (g_k2 < g_n)); p.st_ = atStart ? &p.startState_ : &g_S[2].second; g_b->pos.st_ = &g_b->pos.startState_; g_b->pos.startState_.previous = nullptr; memcpy(mc, ma, sizeof(Position)); StateInfo last = g_S[2].second;
    if (vc_param(0) == 0) new (mb) __Board(*g_a); else *g_b = *g_a; vc_assert(!vc_threw(), "no-exception");
    Position& q = g_b->pos; vc_assert(samePos(q, p) & sameState(q.startState_, p.startState_), "copy-equal"); vc_assert(q.startState_.previous == nullptr, "copy-start-link"); StateInfo* want = atStart ? &q.startState_ : &g_D[2].second; vc_assert(q.st_ == want, "copy-current-link"); vc_assert(atStart | ((g_D[2].second.previous == &g_D[3].second) & sameState(g_D[2].second, last) & (g_D[2].first.value_ == g_S[2].first.value_)), "copy-current-record");
    vc_assert(samePos(p, c->pos) & sameState(p.startState_, c->pos.startState_) & (p.st_ == c->pos.st_) & (p.startState_.previous == nullptr) & sameState(g_S[2].second, last) & (g_S[2].second.previous == &g_S[3].second), "source-unchanged"); vc_assert(g_copied & (g_mapped == g_n), "history-copied"); vc_cover("end");
}
extern "C" void h_self() { if (!vc_symbolic()) return; alignas(64) static char ma[sizeof(__Board)], mc[sizeof(__Board)]; g_a = g_b = (__Board*)ma; vc_havoc(ma, sizeof(Position)); __Board* c = (__Board*)mc; Position& p = g_a->pos; symState(p.startState_); p.st_ = &p.startState_; memcpy(mc, ma, sizeof(Position)); *g_a = *g_a; vc_assert(samePos(p, c->pos) & sameState(p.startState_, c->pos.startState_) & (p.st_ == &p.startState_), "self-assignment"); vc_cover("end"); }
// ---- the history kept by the board: making and taking back ----
static HRec g_new; static int g_size, g_done; static uint32_t g_mv; static bool g_pass;
extern "C" HRec* ct_emplaceInt(void* d, const int* m, const StateInfo*) { vc_assert(d == &g_a->history, "own-history"); g_new.first.value_ = (uint32_t)*m; symState(g_new.second); g_size = g_size + 1; return &g_new; }
extern "C" HRec* ct_emplaceMove(void* d, const Move* m, const StateInfo*) { vc_assert(d == &g_a->history, "own-history"); g_new.first.value_ = m->value_; symState(g_new.second); g_size = g_size + 1; return &g_new; }
extern "C" HRec* ct_back(void* d) { vc_assert((d == &g_a->history) & (g_size >= 1), "own-history"); return &g_new; }
extern "C" void ct_popBack(void* d) { vc_assert((d == &g_a->history) & (g_size >= 1) & (g_done == 1), "take-back-order"); g_size = g_size - 1; }
extern "C" void ct_doMove(Position* p, const Move* m, StateInfo* s) { vc_assert((p == &g_a->pos) & (m->value_ == g_mv) & (s == &g_new.second) & (g_size == 2) & (g_done == 0), "move-made-once"); g_done = g_done + 1; }
extern "C" void ct_undoMove(Position* p, const Move* m) { vc_assert((p == &g_a->pos) & (m->value_ == g_mv) & (g_size == 1) & (g_done == 0), "move-taken-back-once"); g_done = g_done + 1; }
extern "C" void ct_null(Position* p, StateInfo* s) { vc_assert((p == &g_a->pos) & (s == &g_new.second) & (g_size == 2) & (g_done == 0), "pass-made-once"); g_done = g_done + 1; }
extern "C" void ct_unnull(Position* p, StateInfo*) { vc_assert((p == &g_a->pos) & (g_size == 1) & (g_done == 0), "pass-taken-back-once"); g_done = g_done + 1; }
extern "C" void h_history() { // param: 0 push, 1 pop, 2 push_pass, 3 pop_pass
    if (!vc_symbolic()) return; alignas(64) static char ma[sizeof(__Board)]; g_a = (__Board*)ma; vc_havoc(ma, sizeof(Position)); g_done = 0; g_size = 1; int k = (int)vc_param(0); g_mv = (uint32_t)vc_nondet(32, "move"); symState(g_new.second); g_new.first.value_ = g_mv;
    if (k == 0) { g_a->push((int)g_mv); vc_assert((g_size == 2) & (g_done == 1) & (g_new.first.value_ == g_mv), "push"); }
    if (k == 1) { int r = g_a->pop(); vc_assert((g_size == 0) & (g_done == 1) & ((uint32_t)r == g_mv), "pop"); }
    if (k == 2) { g_a->push_pass(); vc_assert((g_size == 2) & (g_done == 1) & (g_new.first.value_ == Move::moveNull().value_), "push-pass"); }
    if (k == 3) { g_a->pop_pass(); vc_assert((g_size == 0) & (g_done == 1), "pop-pass"); }
    vc_cover("end");
}
