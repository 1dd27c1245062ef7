// Contracts of the API layer (cshogi.h): declaration rule, move labels, move encodings, feature planes.
#include "genspec.h"
#define private public
#include "cshogi.h"
#undef private
static inline bool inCamp(int us, int s) { return us ? s % 9 >= 6 : s % 9 <= 2; }
static int countOf(const uint8_t* sel) { uint64_t a = 0, b = 0; for (int s = 0; s < 63; ++s) a |= (uint64_t)(sel[s] & 1) << s; for (int s = 63; s < 81; ++s) b |= (uint64_t)(sel[s] & 1) << (s - 63); return __builtin_popcountll(a) + __builtin_popcountll(b); }
// own pieces in the opponent's camp: others than the king, points (with the hand), and whether the king is there
static void camp(const Cells& C, int us, int& others, int& points, bool& king) {
    uint8_t all[81], big[81]; king = false;
    for (int s = 0; s < 81; ++s) { all[s] = big[s] = 0; if (!inCamp(us, s)) continue; int pc = C.pc[s], t = pc & 15; bool own = (pc != 0) & ((pc >> 4) == us); king = king | (own & (t == 8)); all[s] = own; big[s] = own & ((t == 5) | (t == 6) | (t == 13) | (t == 14)); }
    int k = king ? 1 : 0; others = countOf(all) - k; int nb = countOf(big); points = others - nb + C.hand[us][0] + C.hand[us][1] + C.hand[us][2] + C.hand[us][3] + C.hand[us][4] + (nb + C.hand[us][5] + C.hand[us][6]) * 5;
}
// ---- P15: the 27-point declaration ----
extern "C" void h_nyugyoku() {
    int us = (int)vc_param(0); int k0 = (int)vc_nondet(7, "k0"), k1 = (int)vc_nondet(7, "k1"); vc_assume((k0 <= 81) & (k1 <= 81)); vc_assume((k0 != k1) | (k0 == 81));
    Cells C; symCells(C, k0, k1, us); assumeHandLimits(C); Position p; StateInfo st; buildPosition(p, C, st); bool chk = vc_nondet(1, "incheck"); st.checkersBB = Bitboard(chk ? vc_nondet(63, "checkers") | 1 : 0, 0);
    int others, points; bool king; camp(C, us, others, points, king);
    bool want = !chk & king & (others >= 10) & (points >= (us ? 27 : 28));
    vc_assert(nyugyoku(p) == want, "declaration-rule"); vc_cover("end");
}
// ---- P17: labels ----
extern "C" void h_label_range() { // every move a piece can make, or drop
    int us = (int)vc_param(0); int f = (int)vc_nondet(7, "from"), t = (int)vc_nondet(7, "to"); bool pro = vc_nondet(1, "pro"); uint32_t hi = (uint32_t)vc_nondet(8, "hi"); vc_assume((t < 81) & (f < 88)); vc_assume(f != t); vc_assume(!pro | (f < 81));
    uint32_t v = (uint32_t)t | (uint32_t)f << 7 | (uint32_t)pro << 14 | hi << 16; int l = __dlshogi_make_move_label((int)v, us); int to = us ? 80 - t : t;
    vc_assert((l >= 0) & (l < 27 * 81), "label-range"); vc_assert(l % 81 == to, "label-square");
    bool drop = f >= 81; int cls = l / 81; vc_assert(drop ? cls == 20 + f - 81 : ((cls < 20) & ((cls >= 10) == pro)), "label-class");
    // direction seen from the mover: forward, its two diagonals, sideways, backwards, its two diagonals, knight jumps (left first)
    if (!drop) { int from = us ? 80 - f : f; int dl = to / 9 - from / 9, dr = to % 9 - from % 9; int al = dl < 0 ? -dl : dl, ar = dr < 0 ? -dr : dr; bool kn = (al == 1) & (dr == -2); bool line = (dl == 0) | (dr == 0) | (al == ar);
        int d = kn ? (dl > 0 ? 8 : 9) : dr < 0 ? (dl == 0 ? 0 : dl > 0 ? 1 : 2) : dr == 0 ? (dl > 0 ? 3 : 4) : (dl == 0 ? 5 : dl > 0 ? 6 : 7); vc_assert(!(kn | line) | (cls == d + (pro ? 10 : 0)), "label-direction"); }
    vc_cover("end");
}
struct LM { int from, pt; bool pro; uint32_t v; };
static LM symFrom(const Cells& C, int us, int to, const char* nf, const char* np) { LM m; m.from = (int)vc_nondet(7, nf); vc_assume(m.from < 81); m.pt = 0; for (int s = 0; s < 81; ++s) m.pt = m.from == s ? C.pc[s] & 15 : m.pt; bool own = false; for (int s = 0; s < 81; ++s) own = own | ((m.from == s) & (C.pc[s] != 0) & ((C.pc[s] >> 4) == us)); vc_assume(own); m.pro = vc_nondet(1, np); vc_assume(!m.pro | (m.pt <= 6));
    vc_assume(reaches(C, us, m.pt, m.from, to)); m.v = (uint32_t)to | (uint32_t)m.from << 7 | (uint32_t)m.pro << 14 | (uint32_t)m.pt << 16; return m; }
// two different moves of own pieces to the same square have different labels (drops differ by class, other destinations by the square: label-square, label-class)
extern "C" void h_label_inj() {
    int us = (int)vc_param(0), to = (int)vc_param(1); int k0 = (int)vc_nondet(7, "k0"), k1 = (int)vc_nondet(7, "k1"); vc_assume((k0 <= 81) & (k1 <= 81)); vc_assume((k0 != k1) | (k0 == 81)); Cells C; symCells(C, k0, k1, us);
    LM a = symFrom(C, us, to, "from1", "pro1"), b = symFrom(C, us, to, "from2", "pro2"); vc_assume((a.from != b.from) | (a.pro != b.pro));
    vc_assert(__dlshogi_make_move_label((int)a.v, us) != __dlshogi_make_move_label((int)b.v, us), "labels-differ"); vc_cover("end");
}
// ---- P13: encodings ----
extern "C" void h_fields() { // any value of every field
    int to = (int)vc_range(81, "to"); bool drop = vc_nondet(1, "drop"); int from = (int)vc_range(81, "from"); int pt = (int)vc_nondet(4, "pt"), cap = (int)vc_nondet(4, "cap"); bool pro = vc_nondet(1, "pro"); int hp = (int)vc_range(7, "hand");
    vc_assume((pt >= 1) & (pt <= 14) & (cap <= 14)); int dp = 0; for (int i = 0; i < 7; ++i) dp = hp == i ? HAND_PT[i] : dp; bool pr = pro & !drop & (pt <= 6);
    Move m = drop ? makeDropMove((PieceType)dp, (Square)to) : (capturedPieceType2Move((PieceType)cap) | makeMove((PieceType)pt, (Square)from, (Square)to)); if (pr) m |= promoteFlag(); uint32_t v = m.value();
    uint32_t e = drop ? ((uint32_t)to | (uint32_t)(80 + dp) << 7) : ((uint32_t)to | (uint32_t)from << 7 | (uint32_t)pr << 14 | (uint32_t)pt << 16 | (uint32_t)cap << 20); vc_assert(v == e, "encode");
    vc_assert(m.to() == to, "Move::to"); vc_assert(m.isDrop() == drop, "Move::isDrop"); vc_assert((m.isPromotion() != 0) == pr, "Move::isPromotion"); vc_assert(m.cap() == (drop ? 0 : cap), "Move::cap"); vc_assert(m.isCapture() == (!drop & (cap != 0)), "Move::isCapture");
    if (drop) { vc_assert(m.pieceTypeDropped() == dp, "Move::pieceTypeDropped"); vc_assert(m.handPieceDropped() == hp, "Move::handPieceDropped"); vc_assert(m.pieceTypeTo() == dp, "Move::pieceTypeTo"); vc_assert(m.pieceTypeFromOrDropped() == dp, "Move::pieceTypeFromOrDropped"); vc_assert(__move_drop_hand_piece((int)v) == hp, "move_drop_hand_piece"); }
    else { vc_assert(m.from() == from, "Move::from"); vc_assert(m.pieceTypeFrom() == pt, "Move::pieceTypeFrom"); vc_assert(m.pieceTypeTo() == (pr ? pt + 8 : pt), "Move::pieceTypeTo"); vc_assert(m.pieceTypeFromOrDropped() == pt, "Move::pieceTypeFromOrDropped"); vc_assert(__move_from_piece_type((int)v) == pt, "move_from_piece_type"); vc_assert(__move_from((int)v) == from, "move_from"); }
    vc_assert(__move_to((int)v) == to, "move_to"); vc_assert(__move_cap((int)v) == (drop ? 0 : cap), "move_cap"); vc_assert(__move_is_promotion((int)v) == pr, "move_is_promotion"); vc_assert(__move_is_drop((int)v) == drop, "move_is_drop"); vc_assert(__move16((int)v) == (v & 0xffff), "move16");
    // training-data form: bit 14 drop, bit 15 promotion, from field = piece type for drops
    uint16_t q = __move16_to_psv((uint16_t)v), w = (uint16_t)(drop ? (to | dp << 7 | 1 << 14) : (to | from << 7 | (pr ? 1 << 15 : 0))); vc_assert(q == w, "move16_to_psv"); vc_assert(__move16_from_psv(q) == (uint16_t)v, "psv-roundtrip");
    // rotation by 180 degrees keeps everything but the squares, and is its own inverse
    uint32_t r = (uint32_t)__move_rotate((int)v), re = (v & ~0x3fffu) | (uint32_t)(80 - to) | (uint32_t)(drop ? 80 + dp : 80 - from) << 7; vc_assert(r == re, "move_rotate"); vc_assert((uint32_t)__move_rotate((int)r) == v, "rotate-twice"); vc_cover("end");
}
// the 16-bit form determines the move in its position; Board.move and Board.drop_move build the same value
extern "C" void h_move16() {
    int us = (int)vc_param(0); bool drop = vc_param(1); int k0 = (int)vc_nondet(7, "k0"), k1 = (int)vc_nondet(7, "k1"); vc_assume((k0 <= 81) & (k1 <= 81)); vc_assume((k0 != k1) | (k0 == 81)); Cells C; symCells(C, k0, k1, us); SymMove m = symMove(C, us, drop); alignas(64) char buf[sizeof(__Board)]; __Board* b = (__Board*)buf; StateInfo st; Position& p = b->pos; buildPosition(p, C, st);
    vc_assert((uint32_t)b->move_from_move16((uint16_t)m.v) == m.v, "move_from_move16"); vc_assert((uint32_t)b->move_from_psv(__move16_to_psv((uint16_t)m.v)) == m.v, "move_from_psv");
    if (drop) vc_assert((uint32_t)b->drop_move(m.to, m.pt) == m.v, "drop_move"); else vc_assert((uint32_t)b->move(m.from, m.to, m.pro) == m.v, "move"); vc_cover("end");
}
// ---- P16: feature planes (float 1.0 or 0.0, compared bit by bit) ----
static const uint32_t ONE = 0x3f800000u;
static void anyMem(uint32_t* b, int n) { if (vc_symbolic()) vc_havoc(b, (int64_t)n * 4); else for (int i = 0; i < n; ++i) b[i] = 0x40e00000u; }
extern "C" void h_planes() {
    int us = (int)vc_param(0); bool rot = vc_param(1); int k0 = (int)vc_nondet(7, "k0"), k1 = (int)vc_nondet(7, "k1"); vc_assume((k0 <= 81) & (k1 <= 81)); vc_assume((k0 != k1) | (k0 == 81)); Cells C; symCells(C, k0, k1, us); alignas(64) char buf[sizeof(__Board)]; __Board* b = (__Board*)buf; StateInfo st; buildPosition(b->pos, C, st);
    uint32_t* out = new uint32_t[28 * 81]; for (int i = 0; i < 28 * 81; ++i) out[i] = 0;
    if (rot) b->piece_planes_rotate((char*)out); else b->piece_planes((char*)out);
    bool r = rot && us;
    for (int c = 0; c < 2; ++c) for (int pt = 1; pt <= 14; ++pt) { bool ok = true; for (int s = 0; s < 81; ++s) { uint32_t w = out[(c * 14 + pt - 1) * 81 + s]; int pc = C.pc[r ? 80 - s : s]; int want = (r ? 1 - c : c) << 4 | pt; ok = ok & (w == (pc == want ? ONE : 0)); } vc_assert(ok, "piece-plane"); }
    vc_cover("end");
}
static Bitboard g_A[81]; static const Position* g_pos; static const Cells* g_FC;
extern "C" Bitboard ct_fAttacksFrom(PieceType pt, Color c, Square sq, const Bitboard& occ) { int pc = g_FC->pc[sq]; vc_assert((pc == ((int)c << 4 | (int)pt)) & bbEq(occ, g_pos->byTypeBB_[0]), "attacksFrom:pre"); return g_A[sq]; }
extern "C" Bitboard ct_fAttackersTo(const Position* p, Color c, Square sq, const Bitboard& occ) { vc_assert((p == g_pos) & bbEq(occ, g_pos->byTypeBB_[0]), "attackersTo:pre"); uint8_t sel[81]; for (int s = 0; s < 81; ++s) { int pc = g_FC->pc[s]; sel[s] = (pc != 0) & ((pc >> 4) == c) & bbAt(g_A[s], sq); } return bbWhere(*g_FC, sel); }
static void attackTable(const Cells& C) { for (int s = 0; s < 81; ++s) { uint8_t sel[81]; int pt = C.pc[s] & 15, w = C.pc[s] >> 4; for (int t = 0; t < 81; ++t) { sel[t] = 0; if (t == s) continue; bool a = false; unsigned st0 = stepMask(0, s, t), st1 = stepMask(1, s, t), sl0 = slideMask(0, s, t), sl1 = slideMask(1, s, t); if (!(st0 | st1 | sl0 | sl1)) continue; a = ((w ? st1 : st0) >> pt) & 1; if (sl0 | sl1) a = a | ((((w ? sl1 : sl0) >> pt) & 1) & clearBetween(s, t, OccOf{&C})); sel[t] = a & (pt != 0); } g_A[s] = bbWhere(C, sel); } }
static int nAtt(const Cells& C, int c, int t) { int n = 0; for (int s = 0; s < 81; ++s) n += ((C.pc[s] != 0) & ((C.pc[s] >> 4) == c) & bbAt(g_A[s], t)) ? 1 : 0; return n; }
extern "C" void h_features() {
    int us = (int)vc_param(0); bool ny = vc_param(1); int part = (int)vc_param(2); int k0 = (int)vc_nondet(7, "k0"), k1 = (int)vc_nondet(7, "k1"); vc_assume((k0 <= 81) & (k1 <= 81)); vc_assume((k0 != k1) | (k0 == 81)); Cells C; symCells(C, k0, k1, us); assumeHandLimits(C); alignas(64) char buf[sizeof(__Board)]; __Board* b = (__Board*)buf; StateInfo st; buildPosition(b->pos, C, st);
    bool chk = vc_nondet(1, "incheck"); st.checkersBB = Bitboard(chk ? vc_nondet(63, "checkers") | 1 : 0, 0); g_FC = &C; g_pos = &b->pos; attackTable(C);
    int n2 = ny ? 57 + 62 : 57; uint32_t* f1 = new uint32_t[62 * 81]; uint32_t* f2 = new uint32_t[n2 * 81]; anyMem(f1, 62 * 81); anyMem(f2, n2 * 81); use_nyugyoku_features = ny;
    vc_assert(__dlshogi_get_features1_num() == 62, "features1-num"); vc_assert(__dlshogi_get_features2_num() == n2, "features2-num");
    vc_log("start", 0);
    b->_dlshogi_make_input_features((char*)f1, (char*)f2);
    vc_log("done", 0);
    Bitboard U[2][15]; for (int c = 0; c < 2; ++c) for (int t = 0; t < 15; ++t) U[c][t] = Bitboard(0, 0); for (int x = 0; x < 81; ++x) if (C.pc[x] != 0) U[C.pc[x] >> 4][C.pc[x] & 15] |= g_A[x];   // union of the attack sets per side and type
    static const int HM[7] = {8, 4, 4, 4, 4, 2, 2};
    for (int c2 = 0; c2 < 2; ++c2) { int c = us ? 1 - c2 : c2; uint32_t* F = f1 + c2 * 31 * 81;
        for (int pt = 1; pt <= 14; ++pt) { if (part != 10 + pt) continue; bool ok = true, oka = true; for (int q = 0; q < 81; ++q) { int s = us ? 80 - q : q; ok = ok & (F[(pt - 1) * 81 + q] == (C.pc[s] == (c << 4 | pt) ? ONE : 0)); bool a = bbAt(U[c][pt], s); oka = F[(14 + pt - 1) * 81 + q] == (a ? ONE : 0); vc_assert(oka, "attack-plane"); } vc_assert(ok, "piece-plane"); }
        if (part == 1) for (int q = 0; q < 81; ++q) { int s = us ? 80 - q : q; int n = nAtt(C, c, s); bool ok = true; for (int k = 0; k < 3; ++k) ok = ok & (F[(28 + k) * 81 + q] == (n > k ? ONE : 0)); vc_assert(ok, "attack-count-plane"); }
        if (part == 2 && !ny) { int off = 0; for (int h = 0; h < 7; ++h) for (int i = 0; i < HM[h]; ++i) { bool ok = true; for (int q = 0; q < 81; ++q) ok = ok & (f2[(c2 * 28 + off) * 81 + q] == (C.hand[c][h] > i ? ONE : 0)); vc_assert(ok, "hand-plane"); ++off; } }
        if (ny && part == 2) { int others, points; bool king; camp(C, c, others, points, king);
            int ro = 10 - others; int rp = (c ? 27 : 28) - points; uint32_t* N = f2 + (57 + c2 * 31) * 81;
            for (int i = 0; i < 31; ++i) { bool on = i == 0 ? king : i <= 10 ? ro == i - 1 : rp == i - 11; bool ok = true; for (int q = 0; q < 81; ++q) ok = ok & (N[i * 81 + q] == (on ? ONE : 0)); vc_assert(ok, "nyugyoku-plane"); } } }
    if (part == 2 && !ny) { bool ok = true; for (int q = 0; q < 81; ++q) ok = ok & (f2[56 * 81 + q] == (chk ? ONE : 0)); vc_assert(ok, "check-plane"); }
    vc_cover("end");
}
