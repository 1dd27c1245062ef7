#include "symmove.h"
// Position hash.  K(C) = (sum over the occupied squares of z[type][square][colour]) xor (1 if White is to move) + sum over hands count * h[piece][colour],
// with every z and h even.  Proved: the tables are even; computeBoardKey/computeHandKey compute K; one inductive step per square shows that
// changing the squares of a move changes K by exactly the amount doMove adds (contract key-after-move in c_domove).
static uint64_t Z(int pt, int s, int c) { return Position::zobrist_[pt][s][c]; }
extern "C" void h_zob_even() {   // the concrete tables produced by the real initialisation
    bool ok = true; for (int pt = 1; pt <= 14; ++pt) for (int s = 0; s < 81; ++s) for (int c = 0; c < 2; ++c) ok = ok & ((Z(pt, s, c) & 1) == 0);
    for (int h = 0; h < 7; ++h) for (int c = 0; c < 2; ++c) ok = ok & ((Position::zobHand_[h][c] & 1) == 0);
    vc_assert(ok, "zobrist-entries-leave-the-turn-bit"); 
    // no entry is zero and no two entries coincide: one-square changes are visible in the key
    static uint64_t v[2400]; int n = 0; for (int pt = 1; pt <= 14; ++pt) for (int s = 0; s < 81; ++s) for (int c = 0; c < 2; ++c) v[n++] = Z(pt, s, c); for (int h = 0; h < 7; ++h) for (int c = 0; c < 2; ++c) v[n++] = Position::zobHand_[h][c];
    bool dist = true; if (vc_param(0)) for (int i = 0; i < n; ++i) { if (v[i] == 0) dist = false; for (int j = 0; j < i; ++j) if (v[i] == v[j]) dist = false; }
    vc_assert(dist, "zobrist-entries-distinct"); vc_cover("end"); }
extern "C" void h_compute_board() { int us = (int)vc_param(0); Cells C; int k0 = (int)vc_nondet(7, "k0"), k1 = (int)vc_nondet(7, "k1"); vc_assume((k0 <= 81) & (k1 <= 81)); vc_assume((k0 != k1) | (k0 == 81)); symCells(C, k0, k1, us); Position p; StateInfo st; buildPosition(p, C, st);
    uint64_t e = 0; for (int s = 0; s < 81; ++s) { if (p.piece_[s]) e += Z(C.pc[s] & 15, s, C.pc[s] >> 4); } if (us) e ^= 1;
    vc_assert(p.computeBoardKey() == e, "computeBoardKey"); vc_cover("end"); }
extern "C" void h_compute_hand() { Cells C; symCells(C, 81, 81, 0); assumeHandLimits(C); Position p; StateInfo st; buildPosition(p, C, st);
    uint64_t e = 0; for (int h = 0; h < 7; ++h) for (int c = 0; c < 2; ++c) { int n = C.hand[c][h]; for (int i = 0; i < n; ++i) e += Position::zobHand_[h][c]; }
    vc_assert(p.computeHandKey() == e, "computeHandKey"); vc_cover("end"); }
// induction over the squares: a = partial sum for the position before, b = partial sum after, d = accumulated difference of the changed squares
extern "C" void h_key_step() { uint64_t a = vc_nondet(64, "a"), d = vc_nondet(64, "d"), z0 = vc_nondet(64, "z0"), z1 = vc_nondet(64, "z1"); uint64_t b = a + d; bool changed = vc_nondet(1, "changed");
    uint64_t a2 = a + z0, b2 = b + (changed ? z1 : z0), d2 = changed ? d - z0 + z1 : d; vc_assert(b2 == a2 + d2, "sum-step");
    uint64_t S = vc_nondet(63, "S") << 1, D = vc_nondet(63, "D") << 1; int t = (int)vc_nondet(1, "t"); vc_assert(((S ^ t ^ 1) + D) == ((S + D) ^ (t ^ 1)), "turn-bit"); vc_cover("end"); }
// pass and taking it back
extern "C" void h_null() {
    int us = (int)vc_param(0); int k0 = (int)vc_nondet(7, "k0"), k1 = (int)vc_nondet(7, "k1"); vc_assume((k0 <= 81) & (k1 <= 81)); vc_assume((k0 != k1) | (k0 == 81));
    Cells C, D; symCells(C, k0, k1, us); D = C; D.turn = 1 - us; Position p, p0, q; StateInfo st, st0, sq, bk; buildPosition(p, C, st); buildPosition(p0, C, st0); buildPosition(q, D, sq);
    uint64_t b = vc_nondet(64, "boardKey"), h = vc_nondet(64, "handKey"); int ply = (int)vc_nondet(31, "ply"), pfn = (int)vc_nondet(30, "pliesFromNull"), cc0 = (int)vc_nondet(30, "cc0"), cc1 = (int)vc_nondet(30, "cc1");
    st.boardKey = b; st.handKey = h; st.pliesFromNull = pfn; st.continuousCheck[0] = cc0; st.continuousCheck[1] = cc1; p.gamePly_ = ply; StateInfo* prev = &st0; st.previous = prev;
    p.doNullMove<true>(bk);
    samePosition(p, q, "pass-flips-turn-only"); vc_assert(p.st_->boardKey == (b ^ 1), "key-after-pass"); vc_assert(p.st_->handKey == h, "key-after-pass"); vc_assert(p.getKey() == (b ^ 1) + h, "key-after-pass");
    vc_assert(p.st_->hand.value_ == p.hand_[1 - us].value_, "pass-flips-turn-only"); vc_assert(p.st_->pliesFromNull == 0, "pass-starts-new-history"); vc_assert(!p.inCheck(), "pass-flips-turn-only");
    p.doNullMove<false>(bk);
    samePosition(p, p0, "pass-undo"); vc_assert((p.st_ == &st) & (p.st_->previous == prev), "pass-undo"); vc_assert(p.gamePly_ == ply, "pass-undo"); vc_assert((st.boardKey == b) & (st.handKey == h), "pass-undo"); vc_assert(st.pliesFromNull == pfn, "pass-undo"); vc_assert((st.continuousCheck[0] == cc0) & (st.continuousCheck[1] == cc1), "pass-undo"); vc_assert(st.hand.value_ == st0.hand.value_, "pass-undo"); vc_assert(!p.inCheck(), "pass-undo"); vc_cover("end"); }
// opening-book key
static uint64_t BP(int pc, int s) { return Book::ZobPiece[pc][s]; }
static uint64_t handFold(uint64_t k, const uint8_t* h) { for (int i = 0; i < 7; ++i) k ^= Book::ZobHand[i][h[i]]; return k; }
extern "C" void h_book() { int us = (int)vc_param(0); Cells C; int k0 = (int)vc_nondet(7, "k0"), k1 = (int)vc_nondet(7, "k1"); vc_assume((k0 <= 81) & (k1 <= 81)); vc_assume((k0 != k1) | (k0 == 81)); symCells(C, k0, k1, us); assumeHandLimits(C); Position p; StateInfo st; buildPosition(p, C, st);
    uint64_t e = 0; for (int i = 0; i < 81; ++i) { int s = i; if (bbAt(p.byTypeBB_[0], s)) e ^= BP(p.piece_[s], s); } for (int i = 0; i < 7; ++i) e ^= Book::ZobHand[i][p.hand_[us].numOf((HandPiece)i)]; if (us) e ^= Book::ZobTurn; uint64_t got = Book::bookKey(p); for (int i = 0; i < 64; ++i) vc_assert(((got ^ e) >> i & 1) == 0, "bookKey"); vc_cover("end"); }
extern "C" void h_book_after() { int us = (int)vc_param(0); bool drop = vc_param(1); Cells C; int k0 = (int)vc_nondet(7, "k0"), k1 = (int)vc_nondet(7, "k1"); vc_assume((k0 <= 81) & (k1 <= 81)); vc_assume((k0 != k1) | (k0 == 81)); symCells(C, k0, k1, us); assumeHandLimits(C); SymMove m = symMove(C, us, drop); Position p; StateInfo st; buildPosition(p, C, st);
    uint64_t key = vc_nondet(64, "key"), e = key; int npc = us << 4 | (m.pro ? m.pt + 8 : m.pt); e ^= BP(npc, m.to); if (!drop) { e ^= BP(us << 4 | m.pt, m.from); uint64_t z = BP((1 - us) << 4 | m.cap, m.to); e ^= m.cap ? z : 0; }
    e = handFold(e, C.hand[us]); e = handFold(e, C.hand[1 - us]); e ^= Book::ZobTurn; Move mv; mv.value_ = m.v; vc_assert(Book::bookKeyAfter(p, key, mv) == e, "bookKeyAfter"); vc_cover("end"); }
