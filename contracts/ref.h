// Reference rules engine for concrete positions, written from the rules of shogi only (native use: replay and bounded stand-ins).
#pragma once
#include "symmove.h"
#include <vector>
namespace ref {
struct M { int from, to, pt, cap; bool pro, drop; uint32_t v() const { return drop ? (uint32_t)to | (uint32_t)(80 + pt) << 7 : (uint32_t)to | (uint32_t)from << 7 | (uint32_t)pro << 14 | (uint32_t)pt << 16 | (uint32_t)cap << 20; } };
static bool pieceAttacks(const Cells& C, int s, int t) { int pc = C.pc[s]; return pc && spec::attacks(pc & 15, pc >> 4, s, t, OccOf{&C}); }
static bool attacked(const Cells& C, int by, int t) { for (int s = 0; s < 81; ++s) if (C.pc[s] && (C.pc[s] >> 4) == by && pieceAttacks(C, s, t)) return true; return false; }
static bool inCheck(const Cells& C, int side) { return C.k[side] < 81 && attacked(C, 1 - side, C.k[side]); }
static void apply(Cells& C, const M& m) {
    int us = C.turn; int npc = us << 4 | (m.pro ? m.pt + 8 : m.pt);
    if (m.drop) { for (int h = 0; h < 7; ++h) if (HAND_PT[h] == m.pt) --C.hand[us][h]; }
    else { C.pc[m.from] = 0; if (m.cap && handIdx(m.cap) >= 0) ++C.hand[us][handIdx(m.cap)]; if (m.pt == 8) C.k[us] = m.to; if (m.cap == 8) C.k[1 - us] = 81; }
    C.pc[m.to] = (uint8_t)npc; C.turn = 1 - us;
}
static int relRank(int us, int s) { return us ? 8 - s % 9 : s % 9; }
static bool dead(int us, int pt, int s) { int r = relRank(us, s); return (r == 0 && (pt == 1 || pt == 2)) || (r <= 1 && pt == 3); }
static bool nifu(const Cells& C, int us, int to) { for (int r = 0; r < 9; ++r) if (C.pc[to / 9 * 9 + r] == (us << 4 | 1)) return true; return false; }
// moves allowed by movement, promotion, drop-square and double-pawn rules, without king safety and pawn-drop mate
static void pseudo(const Cells& C, std::vector<M>& out) {
    int us = C.turn;
    for (int f = 0; f < 81; ++f) { int pc = C.pc[f]; if (!pc || (pc >> 4) != us) continue; int pt = pc & 15;
        for (int t = 0; t < 81; ++t) { if (C.pc[t] && (C.pc[t] >> 4) == us) continue; if (!pieceAttacks(C, f, t)) continue; int cap = C.pc[t] & 15;
            if (pt <= 6 && (relRank(us, f) <= 2 || relRank(us, t) <= 2)) out.push_back({f, t, pt, cap, true, false});
            if (!dead(us, pt, t)) out.push_back({f, t, pt, cap, false, false}); } }
    for (int h = 0; h < 7; ++h) if (C.hand[us][h]) for (int t = 0; t < 81; ++t) { int pt = HAND_PT[h]; if (C.pc[t] || dead(us, pt, t)) continue; if (pt == 1 && nifu(C, us, t)) continue; out.push_back({80 + pt, t, pt, 0, false, true}); }
}
static bool safe(const Cells& C, const M& m) { Cells D = C; apply(D, m); return !inCheck(D, C.turn); }
static bool hasEscape(const Cells& C) { std::vector<M> v; pseudo(C, v); for (auto& m : v) if (safe(C, m)) return true; return false; } // C.turn in check from a pawn in front: no drop can help but none is excluded
static bool dropMate(const Cells& C, int us, int to) { Cells D = C; D.turn = us; M m{81, to, 1, 0, false, true}; D.hand[us][0] += 1; apply(D, m); int k = D.k[1 - us]; return k < 81 && (us ? to + 1 == k : to - 1 == k) && k / 9 == to / 9 && !hasEscape(D); }
static void legal(const Cells& C, std::vector<M>& out) { std::vector<M> v; pseudo(C, v); for (auto& m : v) if (safe(C, m) && !(m.drop && m.pt == 1 && dropMate(C, C.turn, m.to))) out.push_back(m); }
static bool mated(const Cells& C) { if (!inCheck(C, C.turn)) return false; std::vector<M> v; legal(C, v); return v.empty(); }
}
