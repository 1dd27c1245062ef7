// SFEN (P12).  Writer: every piece of text it emits is checked, as it is emitted, against the canonical SFEN text of the position.
// Reader: fed character by character with an arbitrary well-formed SFEN text of an arbitrary position (pieces in hand in any order),
// it rebuilds the position; its loops over the squares and over the hand are verified with invariants.  The libstdc++ stream
// operations enter as contracts (ct_*): << appends, get returns the next character, >> reads the decimal number that follows.
#include "genspec.h"
static Cells g_cells; static int g_r, g_f, g_st, g_hcur, g_pend, g_ply, g_strs; static bool g_lastInt; static const void* g_os;
static const char LET[] = ".PLNSBRGK"; static const int HORD[7] = {6, 5, 4, 3, 2, 1, 0}; // hand order R B G S N L P
static int cellAt(int r, int f) { int v = 0; for (int s = 0; s < 81; ++s) v = (s == (8 - f) * 9 + r) ? g_cells.pc[s] : v; return v; }
static int letter(int pc) { int t = pc & 15; int b = t > 8 ? t - 8 : t; int v = 0; for (int i = 1; i <= 8; ++i) v = b == i ? LET[i] : v; return (pc & 16) ? v + 32 : v; }
static bool promoted(int pc) { return (pc & 15) > 8; }
static int handLetter(int j) { return LET[HAND_PT[HORD[j % 7]]] + (j >= 7 ? 32 : 0); }
static int handCount(int j) { return g_cells.hand[j / 7][HORD[j % 7]]; }
// ---- writer ----
extern "C" void* ct_outInt(void* os, int n) {
    vc_assert(os == g_os, "one-stream");
    if (g_st == 0) { bool e = true; for (int c = 0; c < 9; ++c) e = e & (!((c >= g_f) & (c < g_f + n)) | (cellAt(g_r, c) == 0)); vc_assert((n >= 1) & (n <= 9) & (g_f + n <= 9) & !g_lastInt & e, "empty-run"); g_f += n; g_lastInt = true; }
    else if (g_st == 1) { vc_assert((g_pend == 0) & (n >= 2), "hand-count"); g_pend = n; }
    else { vc_assert((g_st == 2) & (n == g_ply), "ply-text"); g_st = 3; }
    return os;
}
extern "C" void* ct_outStr(void* os, const char* s) {
    vc_assert(os == g_os, "one-stream"); int c0 = s[0], c1 = c0 ? s[1] : 0, c2 = c1 ? s[2] : 0; int c3 = c2 ? s[3] : 0;
    if (g_st == 0 && vc_feasible(c0 == '/')) { vc_assert((c0 == '/') & (c1 == 0) & (g_f == 9) & (g_r < 8), "rank-separator"); ++g_r; g_f = 0; g_lastInt = false; }
    else if (g_st == 0 && vc_feasible(c0 == ' ')) { vc_assert((c0 == ' ') & (c1 == (g_cells.turn ? 'w' : 'b')) & (c2 == ' ') & (c3 == 0) & (g_r == 8) & (g_f == 9), "turn-text"); g_st = 1; }
    else if (g_st == 0) { int pc = cellAt(g_r, g_f); bool pro = promoted(pc); vc_assert((g_f <= 8) & (pc != 0) & (pro ? (c0 == '+') & (c1 == letter(pc)) & (c2 == 0) : (c0 == letter(pc)) & (c1 == 0)), "piece-text"); ++g_f; g_lastInt = false; }
    else if (g_st == 1 && vc_feasible(c0 == '-')) { bool z = true; for (int j = 0; j < 14; ++j) z = z & (handCount(j) == 0); vc_assert(z & (c0 == '-') & (c1 == ' ') & (c2 == 0) & (g_hcur == 0), "no-hand-text"); g_st = 2; }
    else if (g_st == 1 && vc_feasible(c0 == ' ')) { bool z = true; for (int j = 0; j < 14; ++j) z = z & ((j < g_hcur) | (handCount(j) == 0)); vc_assert(z & (c0 == ' ') & (c1 == 0) & (g_hcur > 0) & (g_pend == 0), "hand-complete"); g_st = 2; }
    else { bool ok = false; int nx = 14; for (int j = 13; j >= 0; --j) { bool gap = true; for (int i = 0; i < j; ++i) gap = gap & ((i < g_hcur) | (handCount(i) == 0)); bool m = (c0 == handLetter(j)) & (j >= g_hcur); ok = ok | (m & gap & (handCount(j) == (g_pend ? g_pend : 1))); nx = m ? j + 1 : nx; } vc_assert((g_st == 1) & ok & (c1 == 0), "hand-text"); g_hcur = nx; g_pend = 0; }
    return os;
}
extern "C" void ct_ssCtor(char* ss) { g_os = ss + 16; }
extern "C" void ct_ssDtor(char*) {}
extern "C" void ct_ssStr(std::string* out, const char* ss) { vc_assert((ss + 16 == g_os) & (g_st == 3), "text-complete"); ++g_strs; new (out) std::string(); }
static void symPos(int turn) { int k0 = (int)vc_nondet(7, "k0"), k1 = (int)vc_nondet(7, "k1"); vc_assume((k0 <= 81) & (k1 <= 81) & ((k0 != k1) | (k0 == 81))); symCells(g_cells, k0, k1, turn); assumeHandLimits(g_cells); }
#ifndef VC_IR
static std::string refSfen(const Cells& c, int ply) { std::string t; for (int r = 0; r < 9; ++r) { int e = 0; for (int f = 0; f < 9; ++f) { int pc = c.pc[(8 - f) * 9 + r]; if (!pc) { ++e; continue; } if (e) t += char('0' + e); e = 0; if (promoted(pc)) t += '+'; t += (char)letter(pc); } if (e) t += char('0' + e); if (r < 8) t += '/'; } t += c.turn ? " w " : " b "; std::string h; for (int j = 0; j < 14; ++j) if (handCount(j)) { if (handCount(j) > 1) h += std::to_string(handCount(j)); h += (char)handLetter(j); } return t + (h.empty() ? "-" : h) + " " + std::to_string(ply); }
static void native() { static Position p, q, r; StateInfo st, st2; buildPosition(p, g_cells, st); p.gamePly_ = g_ply; std::string want = refSfen(g_cells, g_ply), got = p.toSFEN(); vc_assert(got == want, "sfen-text"); memset((void*)&q, 0x5a, sizeof q); bool th = false; try { q.set(want); } catch (std::exception&) { th = true; } vc_assert(!th, "no-exception"); if (th) return; buildPosition(r, g_cells, st2);
    bool ok = (q.turn_ == r.turn_) & (q.gamePly_ == g_ply) & bbEq(q.goldsBB_, r.goldsBB_); for (int s = 0; s < 81; ++s) ok = ok & (q.piece_[s] == r.piece_[s]); for (int t = 0; t <= 14; ++t) ok = ok & bbEq(q.byTypeBB_[t], r.byTypeBB_[t]); for (int c = 0; c < 2; ++c) ok = ok & (q.hand_[c].value() == r.hand_[c].value()) & (q.kingSquare_[c] == r.kingSquare_[c]) & bbEq(q.byColorBB_[c], r.byColorBB_[c]); ok = ok & (q.st_->boardKey == r.computeBoardKey()) & (q.st_->handKey == r.computeHandKey()) & (q.st_->hand.value() == r.hand_[g_cells.turn].value()); r.findCheckers(); ok = ok & bbEq(q.st_->checkersBB, r.st_->checkersBB); vc_assert(ok, "read-position"); }
#else
static void native() {}
#endif
extern "C" void h_write() {
    symPos((int)vc_nondet(1, "turn")); g_ply = (int)vc_nondet(31, "ply"); if (!vc_symbolic()) return native(); Position p; StateInfo st; buildPosition(p, g_cells, st); p.gamePly_ = g_ply; g_r = g_f = g_st = g_hcur = g_pend = g_strs = 0; g_lastInt = false;
    { std::string s = p.toSFEN(); } vc_assert((g_st == 3) & (g_strs == 1), "text-complete"); vc_cover("end");
}
// ---- reader ----
static long g_vt[6]; static bool g_good; static int g_plus, g_hsel, g_hd, g_mask, g_dash, g_seen; static Position* g_p; static uint64_t g_bk, g_hk;
extern "C" void ct_isCtor(void** is, const std::string*, int) { g_os = is; g_vt[0] = 0; *is = (void*)&g_vt[3]; g_good = true; }
extern "C" void ct_isDtor(void*) {}
extern "C" bool ct_isBool(const void* is) { vc_assert(is == g_os, "one-stream"); return g_good; }
static int tens(int n) { return n >= 30 ? 3 : n >= 20 ? 2 : n >= 10 ? 1 : 0; }
static int selCount() { int v = 0; for (int j = 0; j < 14; ++j) v = g_hsel == j ? handCount(j) : v; return v; }
static int selLetter() { int v = 0; for (int j = 0; j < 14; ++j) v = g_hsel == j ? handLetter(j) : v; return v; }
static bool handsDone() { bool z = true; for (int j = 0; j < 14; ++j) z = z & (((g_mask >> j) & 1) | (handCount(j) == 0)); return z; }
// next character of the text: g_st 0 board (cursor g_r, g_f; g_plus: '+' already given), 1 turn, 2 blank after the turn, 3 hand, 4 rest
extern "C" void* ct_get(void* is, char* c) {
    vc_assert(is == g_os, "one-stream"); int st = g_st; for (int k = 0; k <= 4; ++k) if (!vc_feasible(st != k)) st = k; int ch = '?';
    if (st == 0) { bool rowEnd = g_f == 9; bool end = rowEnd & (g_r == 8); int pc = cellAt(g_r, g_f); int run = 0; for (int n = 9; n >= 1; --n) { bool e = (g_f + n <= 9); for (int c = 0; c < 9; ++c) e = e & (!((c >= g_f) & (c < g_f + n)) | (cellAt(g_r, c) == 0)); bool longer = false; for (int m = n + 1; m <= 9; ++m) longer = longer; run = e & (run == 0) ? n : run; }
        bool plus = !rowEnd & (pc != 0) & promoted(pc) & !g_plus; ch = end ? ' ' : rowEnd ? '/' : pc == 0 ? '0' + run : plus ? '+' : letter(pc);
        int f0 = g_f; g_f = rowEnd ? (end ? 9 : 0) : pc == 0 ? f0 + run : plus ? f0 : f0 + 1; g_r = rowEnd & !end ? g_r + 1 : g_r; g_plus = plus; g_st = end ? 1 : 0; }
    else if (st == 1) { ch = g_cells.turn ? 'w' : 'b'; g_st = 2; }
    else if (st == 2) { ch = ' '; g_st = 3; }
    else if (st == 3) { bool none = true; for (int j = 0; j < 14; ++j) none = none & (handCount(j) == 0); bool fin = handsDone() & ((g_dash != 0) | !none); int n = selCount(); bool two = n >= 10; bool digit = (n >= 2) & (g_hd < (two ? 2 : 1));
        ch = fin ? ' ' : none ? '-' : digit ? '0' + (two & (g_hd == 0) ? tens(n) : n - 10 * tens(n)) : selLetter(); bool emit = !fin & !none; g_mask = emit & !digit ? g_mask | 1 << g_hsel : g_mask; g_hd = emit ? (digit ? g_hd + 1 : 0) : g_hd; g_dash = none ? 1 : g_dash; g_st = fin ? 4 : 3; }
    else vc_assert(false, "reads-past-the-hand");
    *c = (char)ch; return is;
}
extern "C" void* ct_getInt(void* is, int* v) { int st = g_st; if (!vc_feasible(st != 4)) st = 4; vc_assert((is == g_os) & (st == 4), "ply-position"); *v = g_ply; g_st = 5; return is; }
extern "C" bool ct_isLegalChar(const void*, char c) { bool r = false; for (int i = 1; i <= 8; ++i) r = r | (c == LET[i]) | (c == LET[i] + 32); return r; }
extern "C" Piece ct_value(const void*, char c) { int v = 0; for (int i = 1; i <= 8; ++i) { v = c == LET[i] ? i : v; v = c == LET[i] + 32 ? i + 16 : v; } vc_assert(v != 0, "piece-letter"); return (Piece)v; }
extern "C" void h_letters() { for (int c = -128; c < 128; ++c) { int v = 0; for (int i = 1; i <= 8; ++i) { v = c == LET[i] ? i : v; v = c == LET[i] + 32 ? i + 16 : v; } vc_assert(g_charToPieceUSI.isLegalChar((char)c) == (v != 0), "is-piece-letter"); if (v) vc_assert(g_charToPieceUSI.value((char)c) == v, "piece-of-letter"); } vc_cover("end"); }
static bool before(int s, int r, int f) { int sr = s % 9, sf = 8 - s / 9; return (sr < r) | ((sr == r) & (sf < f)); }
static void expect(Position& w, StateInfo& st, int r, int f, int mask, int stage) { // stage 0: squares before (r, f); 1: all squares, hands in mask; 2: everything
    Cells c = g_cells; for (int s = 0; s < 81; ++s) c.pc[s] = before(s, r, f) ? c.pc[s] : 0; for (int j = 0; j < 14; ++j) { uint8_t& h = c.hand[j / 7][HORD[j % 7]]; h = (mask >> j) & 1 ? h : 0; }
    if (stage == 0) c.turn = 0; buildPosition(w, c, st); if (stage == 0) { w.goldsBB_ = Bitboard(0, 0); w.kingSquare_[0] = w.kingSquare_[1] = (Square)0; } w.gamePly_ = stage == 2 ? g_ply : 0;
}
static bool agree(const Position& p, const Position& w) {
    bool ok = (p.turn_ == w.turn_) & (p.gamePly_ == w.gamePly_) & (p.st_ == &p.startState_); for (int s = 0; s < 81; ++s) ok = ok & (p.piece_[s] == w.piece_[s]); for (int t = 0; t <= 14; ++t) ok = ok & bbEq(p.byTypeBB_[t], w.byTypeBB_[t]); for (int c = 0; c < 2; ++c) ok = ok & bbEq(p.byColorBB_[c], w.byColorBB_[c]) & (p.hand_[c].value() == w.hand_[c].value()) & (p.kingSquare_[c] == w.kingSquare_[c]);
    const StateInfo& s = p.startState_; return ok & bbEq(p.goldsBB_, w.goldsBB_) & (s.pliesFromNull == 0) & (s.continuousCheck[0] == 0) & (s.continuousCheck[1] == 0) & (s.previous == nullptr);
}
static void frames(Position* p) { vc_frame(p->byTypeBB_, sizeof p->byTypeBB_); vc_frame(p->byColorBB_, sizeof p->byColorBB_); vc_frame(p->piece_, sizeof p->piece_); vc_frame(p->hand_, sizeof p->hand_); vc_frame(&g_r, 4); vc_frame(&g_f, 4); vc_frame(&g_st, 4); vc_frame(&g_plus, 4); vc_frame(&g_hsel, 4); vc_frame(&g_hd, 4); vc_frame(&g_mask, 4); vc_frame(&g_dash, 4); }
static int g_r0, g_f0;
extern "C" void inv_board(int phase, int n, int64_t* a, uint64_t ptrs) {
    int* sq = (int*)vc_loop_local(4); vc_assert((n == 1) & (ptrs == 0) & (sq != nullptr), "loop-shape"); if (n != 1 || ptrs || !sq) return; Position* p = g_p; Position w; StateInfo st;
    if (phase == 0) { expect(w, st, 0, 0, 0, 0); vc_assert((*sq == 72) & (a[0] == 0) & agree(*p, w), "loop-entry"); }
    if (phase == 1) { g_r = (int)vc_range(9, "rank"); g_f = (int)vc_range(10, "col"); int pc = cellAt(g_r, g_f); g_plus = (int)vc_nondet(1, "plus"); vc_assume(!g_plus | ((g_f < 9) & (pc != 0) & promoted(pc))); g_st = 0; g_r0 = g_r; g_f0 = g_f; *sq = (8 - g_f) * 9 + g_r; a[0] = g_plus ? 8 : 0; expect(w, st, g_r, g_f, 0, 0);
        for (int s = 0; s < 81; ++s) p->piece_[s] = w.piece_[s]; for (int t = 0; t <= 14; ++t) p->byTypeBB_[t] = w.byTypeBB_[t]; for (int c = 0; c < 2; ++c) p->byColorBB_[c] = w.byColorBB_[c]; frames(p); }
    if (phase == 2) { expect(w, st, g_r, g_f, 0, 0); vc_assert(g_st == 0, "board-text-continues"); vc_assert(*sq == (8 - g_f) * 9 + g_r, "board-cursor"); vc_assert((int)a[0] == (g_plus ? 8 : 0), "promotion-flag"); vc_assert(agree(*p, w), "square-placed"); }
}
extern "C" void inv_hand(int phase, int n, int64_t* a, uint64_t ptrs) {
    vc_assert((n == 1) & (ptrs == 0), "loop-shape"); if (n != 1 || ptrs) return; Position* p = g_p; Position w; StateInfo st; bool none = true; for (int j = 0; j < 14; ++j) none = none & (handCount(j) == 0);
    if (phase == 0) { int s3 = g_st; if (!vc_feasible(s3 != 3)) s3 = 3; vc_assert((s3 == 3) & (a[0] == 0), "loop-entry"); expect(w, st, 8, 9, 0, 1); vc_assert(agree(*p, w), "squares-and-turn-done"); }
    if (phase == 1) { g_st = 3; g_mask = (int)vc_nondet(14, "mask"); g_hsel = (int)vc_range(14, "next"); g_hd = (int)vc_nondet(1, "hd"); g_dash = (int)vc_nondet(1, "dash"); int c = selCount(); for (int j = 0; j < 14; ++j) vc_assume(!((g_mask >> j) & 1) | (handCount(j) > 0)); vc_assume(handsDone() | ((c > 0) & !((g_mask >> g_hsel) & 1)));
        vc_assume((g_hd == 0) | (!handsDone() & (c >= 2))); vc_assume((g_dash == 0) | none); int dig = g_hd ? (c >= 10 ? tens(c) : c) : 0; a[0] = dig; expect(w, st, 8, 9, g_mask, 1); for (int c = 0; c < 2; ++c) p->hand_[c] = w.hand_[c]; frames(p); vc_assume((g_hd == 0) | (c < 10) | true); }
    if (phase == 2) { int c = selCount(); int dig = g_hd == 0 ? 0 : g_hd == 1 ? (c >= 10 ? tens(c) : c) : c; vc_assert(g_st == 3, "hand-text-continues"); vc_assert((int)a[0] == dig, "hand-digits"); expect(w, st, 8, 9, g_mask, 1); vc_assert(agree(*p, w), "hand-added"); }
}
static void complete(const Position* p) { Position w; StateInfo st; expect(w, st, 8, 9, (1 << 14) - 1, 2); vc_assert(agree(*p, w), "read-position"); }
extern "C" Key ct_computeBoardKey(const Position* p) { complete(p); g_seen |= 1; return g_bk; }
extern "C" Key ct_computeHandKey(const Position* p) { complete(p); g_seen |= 2; return g_hk; }
extern "C" void ct_findCheckers(Position* p) { complete(p); g_seen |= 4; p->st_->checkersBB = Bitboard(5, 7); }
static void finish(Position& p, bool) { complete(&p); const StateInfo& s = p.startState_; vc_assert((s.boardKey == g_bk) & (s.handKey == g_hk) & (s.hand.value() == packHand(g_cells.hand[g_cells.turn])) & bbEq(s.checkersBB, Bitboard(5, 7)) & (g_seen == 7), "state-record"); }
extern "C" void h_read() {
    symPos((int)vc_nondet(1, "turn")); g_ply = (int)vc_nondet(31, "ply"); if (!vc_symbolic()) return native(); Position p; vc_havoc(&p, sizeof p); g_p = &p; g_bk = vc_nondet(64, "bk"); g_hk = vc_nondet(64, "hk"); g_r = g_f = g_st = g_plus = g_hd = g_mask = g_dash = g_seen = 0;
    std::string s; p.set(s); vc_assert(!vc_threw(), "no-exception"); finish(p, false); vc_cover("end");
}
// ---- from arrays ----
static int g_sq;
static void expectArr(Position& w, StateInfo& st, int sq) { Cells c = g_cells; for (int s = 0; s < 81; ++s) c.pc[s] = s < sq ? c.pc[s] : 0; for (int i = 0; i < 14; ++i) c.hand[i / 7][i % 7] = 0; c.turn = 0; buildPosition(w, c, st); w.goldsBB_ = Bitboard(0, 0); w.kingSquare_[0] = w.kingSquare_[1] = (Square)0; w.gamePly_ = 0; }
extern "C" void inv_arr(int phase, int n, int64_t* a, uint64_t ptrs) {
    int* mem = n == 0 ? (int*)vc_loop_local(4) : nullptr; bool ok = mem || (n == 1 && ptrs == 0); vc_assert(ok, "loop-shape"); if (!ok) return; int sq = mem ? *mem : (int)a[0]; Position* p = g_p; Position w; StateInfo st;
    if (phase == 0) { expectArr(w, st, 0); vc_assert((sq == 0) & agree(*p, w), "loop-entry"); }
    if (phase == 1) { g_sq = (int)vc_nondet(7, "sq"); vc_assume(g_sq <= 81); if (mem) *mem = g_sq; else a[0] = g_sq; expectArr(w, st, g_sq); for (int s = 0; s < 81; ++s) p->piece_[s] = w.piece_[s]; for (int t = 0; t <= 14; ++t) p->byTypeBB_[t] = w.byTypeBB_[t]; for (int c = 0; c < 2; ++c) p->byColorBB_[c] = w.byColorBB_[c]; frames(p); }
    if (phase == 2) { expectArr(w, st, g_sq + 1); vc_assert(sq == g_sq + 1, "loop-index"); vc_assert(agree(*p, w), "square-placed"); }
}
extern "C" void h_arrays() {
    symPos((int)vc_param(0)); g_ply = (int)vc_nondet(31, "ply"); Position p; vc_havoc(&p, sizeof p); g_p = &p; p.turn_ = (Color)g_cells.turn; p.gamePly_ = g_ply; g_bk = vc_nondet(64, "bk"); g_hk = vc_nondet(64, "hk"); g_seen = 0; Piece a[81]; int h[2][7]; for (int s = 0; s < 81; ++s) a[s] = (Piece)g_cells.pc[s]; for (int c = 0; c < 2; ++c) for (int i = 0; i < 7; ++i) h[c][i] = g_cells.hand[c][i];
    p.set(a, h); if (vc_symbolic()) finish(p, true); else { Position w; StateInfo st; expect(w, st, 8, 9, (1 << 14) - 1, 2); vc_assert(agree(p, w), "read-position"); vc_assert((p.st_->boardKey == w.computeBoardKey()) & (p.st_->handKey == w.computeHandKey()) & (p.st_->hand.value() == w.hand_[g_cells.turn].value()), "state-record"); w.findCheckers(); vc_assert(bbEq(p.st_->checkersBB, w.st_->checkersBB), "state-record"); } vc_cover("end");
}
