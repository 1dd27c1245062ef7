// An arbitrary consistent position: 81 independent cells (any piece, any colour, or empty), at most one king per
// side on given squares (81 = none), arbitrary hands; the redundant representation (piece sets, gold set,
// occupancy, king squares) is derived from the cells.  Nothing else is assumed.
#pragma once
#ifndef VC_NO_REPO
#include "repo.h"
#endif
#include "spec.h"
static const int HAND_MAX[7] = {18, 4, 4, 4, 4, 2, 2};                       // P L N S G B R
static const int HAND_SHIFT[7] = {0, 6, 10, 14, 18, 22, 25};
static const int HAND_BITS[7] = {5, 3, 3, 3, 3, 2, 2};
static const int HAND_PT[7] = {spec::PAWN, spec::LANCE, spec::KNIGHT, spec::SILVER, spec::GOLD, spec::BISHOP, spec::ROOK};
static inline int handIdx(int pt) { switch (pt & 15) { case 1: case 9: return 0; case 2: case 10: return 1; case 3: case 11: return 2; case 4: case 12: return 3; case 7: return 4; case 5: case 13: return 5; case 6: case 14: return 6; default: return -1; } }
struct Cells {
    uint8_t pc[81];          // piece codes
    int k[2];                // king squares, 81 = none
    uint8_t hand[2][7];
    int turn;
    bool occ(int s) const { return pc[s] != 0; }
};
struct OccOf { const Cells* c; bool operator()(int s) const { return c->pc[s] != 0; } };
static inline bool deadAt(int pc, int s) { // no pawn, lance or knight where it can never move again
    int t = pc & 15, co = pc >> 4, r = s % 9; int rr = co ? 8 - r : r; bool d = false;
    if (rr == 0) d = d | (t == spec::PAWN) | (t == spec::LANCE); if (rr <= 1) d = d | (t == spec::KNIGHT); return d;
}
// flags
enum { SP_NODEAD = 1 };
static inline void symCells(Cells& c, int k0, int k1, int turn, int flags = 0) {
    c.k[0] = k0; c.k[1] = k1; c.turn = turn;
    for (int s = 0; s < 81; ++s) {
        unsigned v = (unsigned)vc_nondet(5, "cell"); unsigned t = v & 15;
        bool none = t == 0 | t == 8 | t == 15;
        if (flags & SP_NODEAD) none = none | deadAt((int)v, s);
        v = none ? 0 : v;
        v = s == k0 ? 8u : v; v = s == k1 ? 24u : v;
        c.pc[s] = (uint8_t)v;
    }
    for (int co = 0; co < 2; ++co) for (int h = 0; h < 7; ++h) c.hand[co][h] = (uint8_t)vc_nondet(HAND_BITS[h], "hand");
}
static inline void assumeHandLimits(const Cells& c) { for (int co = 0; co < 2; ++co) for (int h = 0; h < 7; ++h) vc_assume(c.hand[co][h] <= HAND_MAX[h]); }
static inline void assumeNoDead(const Cells& c) { for (int s = 0; s < 81; ++s) { int rr = s % 9; if (rr <= 1 || rr >= 7) vc_assume(!deadAt(c.pc[s], s)); } }
static inline Bitboard bbWhere(const Cells& c, const uint8_t* sel) { uint64_t a = 0, b = 0; for (int s = 0; s < 63; ++s) a |= (uint64_t)(sel[s] & 1) << s; for (int s = 63; s < 81; ++s) b |= (uint64_t)(sel[s] & 1) << (s - 63); return Bitboard(a, b); }
static inline uint32_t packHand(const uint8_t* h) { uint32_t v = 0; for (int i = 0; i < 7; ++i) v |= (uint32_t)h[i] << HAND_SHIFT[i]; return v; }
#ifndef VC_NO_REPO
static inline void buildPosition(Position& p, const Cells& c, StateInfo& st) {
    uint8_t sel[81];
    for (int t = 1; t <= 14; ++t) { for (int s = 0; s < 81; ++s) sel[s] = (c.pc[s] & 15) == t; p.byTypeBB_[t] = bbWhere(c, sel); }
    for (int s = 0; s < 81; ++s) sel[s] = c.pc[s] != 0; p.byTypeBB_[0] = bbWhere(c, sel);
    for (int s = 0; s < 81; ++s) sel[s] = (c.pc[s] != 0) & ((c.pc[s] >> 4) == 0); p.byColorBB_[0] = bbWhere(c, sel);
    for (int s = 0; s < 81; ++s) sel[s] = (c.pc[s] >> 4) & 1; p.byColorBB_[1] = bbWhere(c, sel);
    for (int s = 0; s < 81; ++s) { int t = c.pc[s] & 15; sel[s] = (t == 7) | (t == 9) | (t == 10) | (t == 11) | (t == 12); } p.goldsBB_ = bbWhere(c, sel);
    for (int s = 0; s < 81; ++s) p.piece_[s] = (Piece)c.pc[s];
    p.kingSquare_[0] = (Square)c.k[0]; p.kingSquare_[1] = (Square)c.k[1];
    for (int co = 0; co < 2; ++co) p.hand_[co] = Hand(packHand(c.hand[co]));
    p.turn_ = (Color)c.turn; p.st_ = &st; p.gamePly_ = 1;
    st.hand = p.hand_[c.turn]; st.previous = nullptr; st.pliesFromNull = 0; st.continuousCheck[0] = st.continuousCheck[1] = 0; st.boardKey = 0; st.handKey = 0; st.checkersBB = Bitboard(0, 0);
}
#endif
static inline bool bbAt(const Bitboard& b, int s) { return s < 63 ? (b.p(0) >> s) & 1 : (b.p(1) >> (s - 63)) & 1; }
static inline bool bbEq(const Bitboard& a, const Bitboard& b) { return (a.p(0) == b.p(0)) & (a.p(1) == b.p(1)); }
// rules: does the piece standing on 'from' attack 'to' in c?
template <class Occ> static inline bool cellAttacks(int pc, int from, int to, Occ occ) {
    bool r = false; int t = pc & 15, co = (pc >> 4) & 1;
    for (int cc = 0; cc < 2; ++cc) for (int pt = 1; pt <= 14; ++pt) { bool a = spec::attacks(pt, cc, from, to, occ); r = r | (a & (t == pt) & (co == cc)); }
    return r;
}
// is 'to' attacked by side 'by' (pieces of c)?
template <class Occ, class Pc> static inline bool attackedBy(Pc pcAt, int by, int to, Occ occ) {
    bool r = false;
    for (int s = 0; s < 81; ++s) { if (s == to) continue; int df = spec::fileOf(to) - spec::fileOf(s), dr = spec::rankOf(to) - spec::rankOf(s); int af = df < 0 ? -df : df, ar = dr < 0 ? -dr : dr;
        if (!(df == 0 || dr == 0 || af == ar || (af == 1 && ar == 2))) continue;
        int pc = pcAt(s); bool mine = (pc != 0) & (((pc >> 4) & 1) == by); bool a = false;
        for (int pt = 1; pt <= 14; ++pt) { bool q = spec::attacks(pt, by, s, to, occ); a = a | (q & ((pc & 15) == pt)); }
        r = r | (mine & a); }
    return r;
}
