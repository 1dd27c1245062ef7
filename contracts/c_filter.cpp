#include "genspec.h"
// The filter loop of the legal-move list (GenerateMoves<LegalAll>): of the moves handed over by the generators exactly those the king-safety test accepts
// remain, each once.  The generators and the test are replaced by their contracts; the list length is the case parameter (a bounded stand-in for the loop
// invariant: lengths 0..10, every verdict pattern).
static int g_len; static uint32_t g_mv[16]; static bool g_ok[16]; static int g_gen; static bool g_chk;
static ExtMove* fill(ExtMove* l, bool evasion) { vc_assert(evasion == g_chk, "generator-for-check-state"); g_gen += 1; for (int i = 0; i < g_len; ++i) { l->move.value_ = g_mv[i]; ++l; } return l; }
extern "C" ExtMove* ct_genEvasion(void*, ExtMove* l, const Position& pos) { return fill(l, true); }
extern "C" ExtMove* ct_genNonEvasion(void*, ExtMove* l, const Position& pos) { return fill(l, false); }
extern "C" bool ct_safe(const Position* p, Move m, const Bitboard& pinned) { uint32_t move = m.value_; bool r = false, known = false; for (int i = 0; i < g_len; ++i) { r = r | ((g_mv[i] == move) & g_ok[i]); known = known | (g_mv[i] == move); } vc_assert(known, "only-generated-moves-are-tested"); return r; }
extern "C" void h_filter_loop() {
    g_len = (int)vc_param(1); int us = (int)vc_param(0); if (!vc_symbolic()) return; g_gen = 0; Position p; StateInfo st; Cells C; symCells(C, 4, 76, us); buildPosition(p, C, st); st.checkersBB = Bitboard(vc_nondet(63, "chk0"), vc_nondet(18, "chk1")); g_chk = (st.checkersBB.p(0) | st.checkersBB.p(1)) != 0;
    for (int i = 0; i < g_len; ++i) { g_mv[i] = 8u << 16 | 100u + i; g_ok[i] = vc_nondet(1, "ok"); }
    ExtMove buf[16]; for (int i = 0; i < 16; ++i) buf[i].move.value_ = 0; ExtMove* e = generateMoves<LegalAll>(buf, p); int n = (int)(e - buf), want = 0; for (int i = 0; i < g_len; ++i) want += g_ok[i];
    vc_assert(g_gen == 1, "one-generator-asked"); vc_assert(n == want, "kept-exactly-once"); for (int i = 0; i < g_len; ++i) { bool in = false; for (int j = 0; j < g_len; ++j) in = in | ((j < n) & (buf[j].move.value_ == g_mv[i])); vc_assert(in == g_ok[i], "kept-exactly-once"); }
    vc_cover("end"); }
