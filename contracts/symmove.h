#pragma once
#include "sympos.h"
// A move that moves a piece of the side to move (or drops one), with all its fields consistent with the position.
struct SymMove { int from, to, pt, cap; bool pro, drop; uint32_t v; };
static SymMove symMove(const Cells& C, int us, bool drop, int to = -1) {
    SymMove m; m.drop = drop; if (to >= 0) m.to = to; else { m.to = (int)vc_nondet(7, "to"); vc_assume(m.to < 81); } m.pt = (int)vc_nondet(4, "pt"); m.cap = 0; m.pro = false;
    if (drop) { vc_assume(m.pt >= 1 & m.pt <= 7); m.from = 80 + m.pt; bool has = false; for (int h = 0; h < 7; ++h) has = has | ((HAND_PT[h] == m.pt) & (C.hand[us][h] != 0)); vc_assume(has); vc_assume(C.pc[m.to] == 0); m.v = (uint32_t)m.to | (uint32_t)m.from << 7; }
    else { m.from = (int)vc_nondet(7, "from"); vc_assume(m.from < 81); vc_assume(m.from != m.to); m.cap = (int)vc_nondet(4, "cap"); m.pro = vc_nondet(1, "pro");
        vc_assume(C.pc[m.from] == (us << 4 | m.pt)); vc_assume(m.pt != 0); vc_assume(m.cap != 8); vc_assume(C.pc[m.to] == (m.cap ? ((1 - us) << 4 | m.cap) : 0)); vc_assume(!m.pro | (m.pt <= 6));
        m.v = (uint32_t)m.to | (uint32_t)m.from << 7 | (uint32_t)m.pro << 14 | (uint32_t)m.pt << 16 | (uint32_t)m.cap << 20; }
    return m;
}
static int handOf(int pt) { int r = 0; for (int t = 1; t <= 14; ++t) { int h = handIdx(t); if (h >= 0) r = t == pt ? h : r; } return r; }
static void successor(const Cells& C, const SymMove& m, int us, Cells& D) {
    D = C; int ptTo = m.pro ? m.pt + 8 : m.pt; int npc = us << 4 | ptTo;
    for (int s = 0; s < 81; ++s) { int v = C.pc[s]; if (!m.drop) v = s == m.from ? 0 : v; v = s == m.to ? npc : v; D.pc[s] = (uint8_t)v; }
    for (int h = 0; h < 7; ++h) { int d = 0; if (m.drop) d = HAND_PT[h] == m.pt ? -1 : 0; else for (int t = 1; t <= 14; ++t) if (handIdx(t) == h) d = m.cap == t ? 1 : d; D.hand[us][h] = (uint8_t)(C.hand[us][h] + d); }
    if (!m.drop) D.k[us] = m.pt == 8 ? m.to : C.k[us]; D.turn = 1 - us;
}
static void bbSame(const Bitboard& a, const Bitboard& b, const char* id) { uint64_t d0 = a.p(0) ^ b.p(0), d1 = a.p(1) ^ b.p(1); for (int i = 0; i < 63; i += 3) vc_assert(((d0 >> i) & 7) == 0, id); for (int i = 0; i < 18; i += 3) vc_assert(((d1 >> i) & 7) == 0, id); vc_assert(((d0 >> 63) | (d1 >> 18)) == 0, id); }
#ifndef VC_NO_REPO
static void samePosition(const Position& p, const Position& q, const char* id) {
    for (int t = 0; t <= 14; ++t) bbSame(p.byTypeBB_[t], q.byTypeBB_[t], id);
    for (int c = 0; c < 2; ++c) { bbSame(p.byColorBB_[c], q.byColorBB_[c], id); vc_assert(p.kingSquare_[c] == q.kingSquare_[c], id); vc_assert(p.hand_[c].value_ == q.hand_[c].value_, id); }
    bbSame(p.goldsBB_, q.goldsBB_, id);
    for (int s = 0; s < 81; ++s) vc_assert(p.piece_[s] == q.piece_[s], id);
    vc_assert(p.turn_ == q.turn_, id);
}

#endif
// geometry of the rules: bit pt of stepMask/slideMask says that a piece of type pt and colour c on f attacks t (slideMask: if the squares between are empty)
static unsigned stepMask(int c, int f, int t) { unsigned m = 0; int df = t / 9 - f / 9, dr = t % 9 - f % 9; if (c) { df = -df; dr = -dr; } for (int pt = 1; pt <= 14; ++pt) if (spec::stepOf(pt, df, dr)) m |= 1u << pt; return m; }
static unsigned slideMask(int c, int f, int t) { unsigned m = 0; int df = t / 9 - f / 9, dr = t % 9 - f % 9; if (!(df == 0 || dr == 0 || df == dr || df == -dr)) return 0; int sf = spec::sgn(df), sr = spec::sgn(dr); if (c) { sf = -sf; sr = -sr; } for (int pt = 1; pt <= 14; ++pt) if (spec::slides(pt, sf, sr)) m |= 1u << pt; return m; }
template <class Occ> static bool clearBetween(int f, int t, Occ occ) { int df = t / 9 - f / 9, dr = t % 9 - f % 9; int sf = spec::sgn(df), sr = spec::sgn(dr); bool c = true; int x = f / 9 + sf, y = f % 9 + sr; while (!(x == t / 9 && y == t % 9)) { c = c & !occ(x * 9 + y); x += sf; y += sr; } return c; }
// can a piece of type pt and colour c go from 'from' to 'to' (all symbolic) on the board C?
static bool reaches(const Cells& C, int c, int pt, int from, int to) {
    bool r = false;
    for (int f = 0; f < 81; ++f) { bool isF = from == f; if (vc_is_const(isF) && !isF) continue; bool any = false;
        for (int df = -8; df <= 8; ++df) for (int dr = -8; dr <= 8; ++dr) { int x = f / 9 + df, y = f % 9 + dr; if ((df == 0 && dr == 0) || x < 0 || x > 8 || y < 0 || y > 8) continue; int ad = df < 0 ? -df : df, ar = dr < 0 ? -dr : dr; if (!(df == 0 || dr == 0 || ad == ar || (ad == 1 && ar == 2))) continue;
            int t = x * 9 + y; bool isT = to == t; if (vc_is_const(isT) && !isT) continue; unsigned st = stepMask(c, f, t), sl = slideMask(c, f, t); if (!(st | sl)) continue;
            bool a = (st >> pt) & 1; if (sl) a = a | (((sl >> pt) & 1) & clearBetween(f, t, OccOf{&C})); any = any | (isT & a); }
        r = r | (isF & any); }
    return r;
}
// all squares of side 'by' that attack 'k' (concrete) on D; out[s]
static void attackersSpec(const Cells& D, int by, int k, bool* out) {
    for (int s = 0; s < 81; ++s) { out[s] = false; if (s == k) continue; unsigned st = stepMask(by, s, k), sl = slideMask(by, s, k); if (!(st | sl)) continue; int pc = D.pc[s], pt = pc & 15; bool mine = (pc != 0) & (((pc >> 4) & 1) == by);
        bool a = (st >> pt) & 1; if (sl) a = a | (((sl >> pt) & 1) & clearBetween(s, k, OccOf{&D})); out[s] = mine & a; }
}
