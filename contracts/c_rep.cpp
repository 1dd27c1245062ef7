// Repetition (P14).  A history is an arbitrary chain of state records; J is the distance of the first earlier record that gives a
// verdict (J beyond the limit: none), so every nearer record gives none.  The loop of isDraw / moveIsDraw is verified with an
// invariant (hook below): at its head the walker stands on the record at distance i-2, i is even, 4 <= i <= min(limit, J).
// h_*_unrolled: the same contract with the history written out, up to a bounded number of plies.
#include "genspec.h"
struct Rec { uint64_t bk, hk; uint8_t hand[7]; bool chk; };
static Rec g_cur; static int g_cc[2], g_turn, g_e, g_J, g_i, g_first; static StateInfo g_G[3]; static StateInfo* g_start; static bool g_gives; static Rec g_hit; static bool g_predict;
static Rec symRec() { Rec r; r.bk = vc_nondet(64, "boardKey"); r.hk = vc_nondet(64, "handKey"); for (int h = 0; h < 7; ++h) { r.hand[h] = (uint8_t)vc_nondet(HAND_BITS[h], "recHand"); vc_assume(r.hand[h] <= HAND_MAX[h]); } r.chk = vc_nondet(1, "recCheck"); return r; }
static bool sameKey(const Rec& r) { return r.bk + r.hk == g_cur.bk + g_cur.hk; }
// verdict of the record at the given distance for the judged position (side to move g_turn)
static int verdict(const Rec& r, int dist) {
    bool ge = true, le = true; for (int h = 0; h < 7; ++h) { ge = ge & (g_cur.hand[h] >= r.hand[h]); le = le & (g_cur.hand[h] <= r.hand[h]); }
    int v = dist <= g_cc[g_turn] ? RepetitionLose : dist <= g_cc[1 - g_turn] ? RepetitionWin : RepetitionDraw;
    int w = r.bk != g_cur.bk ? NotRepetition : ge ? RepetitionSuperior : le ? RepetitionInferior : NotRepetition; return sameKey(r) ? v : w;
}
static void fill(StateInfo& s, const Rec& r) { s.boardKey = r.bk; s.handKey = r.hk; s.hand = Hand(packHand(r.hand)); s.checkersBB = Bitboard(r.chk ? 1 : 0, 0); }
// what is known of the record at distance d: before J it gives no verdict, at J it is the hit; the same position has the same checks
static void assumeRec(const Rec& r, int d) { vc_assume(!((d < g_J) & (d <= g_e)) | (verdict(r, d) == NotRepetition)); vc_assume(!g_predict | !sameKey(r) | (r.chk == g_gives)); }
static Rec muxRec(bool c, const Rec& a, const Rec& b) { Rec r; r.bk = c ? a.bk : b.bk; r.hk = c ? a.hk : b.hk; for (int h = 0; h < 7; ++h) r.hand[h] = c ? a.hand[h] : b.hand[h]; r.chk = c ? a.chk : b.chk; return r; }
extern "C" void inv_rep(int phase, int n, int64_t* a, uint64_t ptrs) {
    vc_assert((n == 2) & ((ptrs == 1) | (ptrs == 2)), "loop-shape"); if (n != 2 || (ptrs != 1 && ptrs != 2)) return; int64_t& iv = a[ptrs == 1 ? 1 : 0]; StateInfo*& p = *(StateInfo**)&a[ptrs == 1 ? 0 : 1]; int i = (int)iv;
    if (phase == 1) { g_i = (int)vc_nondet(31, "i"); vc_assume((g_i >= 4) & (g_i % 2 == 0) & (g_i <= g_e) & (g_i <= g_J)); Rec r = symRec(); r = muxRec(g_i == g_J, g_hit, r); assumeRec(r, g_i); fill(g_G[2], r); g_G[0].previous = &g_G[1]; g_G[1].previous = &g_G[2]; g_G[2].previous = nullptr; iv = g_i; p = &g_G[0]; }
    else { vc_assert((i >= 4) & (i % 2 == 0) & (i <= g_e) & (i <= g_J), "loop-index"); vc_assert(phase == 0 ? (i == 4) & (p == g_start) : (i == g_i + 2) & (p == &g_G[2]), "loop-walker"); }
}
// position with arbitrary counters; records at distances 1 and 2 before the judged position exist
static void setup(Position& p, StateInfo* st, int turn, bool predict) {
    g_predict = predict; p.turn_ = (Color)turn; p.st_ = &st[0]; st[0].previous = &st[1]; st[1].previous = &st[2]; st[2].previous = nullptr; for (int c = 0; c < 2; ++c) { uint8_t h[7]; for (int i = 0; i < 7; ++i) { h[i] = (uint8_t)vc_nondet(HAND_BITS[i], "hand"); vc_assume(h[i] <= HAND_MAX[i]); } p.hand_[c] = Hand(packHand(h)); if (c == (predict ? 1 - turn : turn)) for (int i = 0; i < 7; ++i) g_cur.hand[i] = h[i]; }
    g_cur.bk = vc_nondet(64, "boardKey"); g_cur.hk = vc_nondet(64, "handKey"); g_cur.chk = false; int pl = (int)vc_nondet(30, "plies"), c0 = (int)vc_nondet(29, "cc0"), c1 = (int)vc_nondet(29, "cc1"); st[0].pliesFromNull = pl; st[0].continuousCheck[0] = c0; st[0].continuousCheck[1] = c1; g_cc[0] = c0; g_cc[1] = c1; g_gives = vc_nondet(1, "gives");
    if (!predict) { st[0].boardKey = g_cur.bk; st[0].handKey = g_cur.hk; st[0].hand = p.hand_[turn]; g_turn = turn; g_start = &st[2]; }
    else { g_turn = 1 - turn; g_cc[turn] = g_gives ? g_cc[turn] + 2 : 0; g_start = &st[1]; pl = pl + 1; }
    g_first = (int)vc_nondet(31, "limit"); g_e = pl < g_first ? pl : g_first;
}
extern "C" uint64_t ct_keyAfter(const Position*, Move) { return g_cur.bk + g_cur.hk; }
extern "C" uint64_t ct_boardKeyAfter(const Position*, Move) { return g_cur.bk; }
static void rep(bool predict) {
    int turn = (int)vc_param(0); Position p; StateInfo st[3]; setup(p, st, turn, predict); g_J = (int)vc_nondet(31, "J"); vc_assume((g_J >= 4) & (g_J % 2 == 0)); g_hit = symRec(); vc_assume((g_J > g_e) | (verdict(g_hit, g_J) != NotRepetition)); int want = g_J <= g_e ? verdict(g_hit, g_J) : NotRepetition;
    Move m; m.value_ = (uint32_t)vc_nondet(24, "move"); int got = predict ? p.moveIsDraw(m, g_first) : p.isDraw(g_first); vc_assert(got == want, predict ? "move-is-draw" : "is-draw"); vc_cover("end"); if (got == want) vc_cover("verdict");
}
extern "C" void h_rep() { if (vc_symbolic()) rep(false); }
extern "C" void h_rep_move() { if (vc_symbolic()) rep(true); }
// bounded: the whole history written out (n plies); also the form replayed natively
static void unrolled(bool predict) {
    int turn = (int)vc_param(0); const int n = (int)vc_param(1); Position p; StateInfo* st = new StateInfo[64]; setup(p, st, turn, predict); vc_assume(st[0].pliesFromNull <= n); int off = predict ? 1 : 0; int want = NotRepetition; g_J = 0; bool done = false;
    for (int d = 1; d <= n; ++d) { Rec r = symRec(); int dist = d + off; if (predict) vc_assume(!sameKey(r) | (r.chk == g_gives)); fill(st[d], r); st[d - 1].previous = &st[d]; st[d].previous = nullptr; if (dist >= 4 && dist % 2 == 0) { int v = verdict(r, dist); bool take = !done & (dist <= g_e) & (v != NotRepetition); want = take ? v : want; done = done | take; } }
    Move m; m.value_ = (uint32_t)vc_nondet(24, "move"); int got = predict ? p.moveIsDraw(m, g_first) : p.isDraw(g_first); vc_assert(got == want, predict ? "move-is-draw" : "is-draw"); vc_cover("end");
}
extern "C" void h_rep_unrolled() { unrolled(false); }
extern "C" void h_rep_move_unrolled() { if (vc_symbolic()) unrolled(true); }
// Hand::isEqualOrSuperior compares piece by piece
extern "C" void h_superior() { uint8_t a[7], b[7]; bool ge = true; for (int i = 0; i < 7; ++i) { a[i] = (uint8_t)vc_nondet(HAND_BITS[i], "a"); b[i] = (uint8_t)vc_nondet(HAND_BITS[i], "b"); vc_assume((a[i] <= HAND_MAX[i]) & (b[i] <= HAND_MAX[i])); ge = ge & (a[i] >= b[i]); } vc_assert(Hand(packHand(a)).isEqualOrSuperior(Hand(packHand(b))) == ge, "hand-superior"); vc_cover("end"); }
