#include "symmove.h"
// isPawnDropCheckMate(us, sq): us drops a pawn on the empty square in front of the enemy king; mate iff the king has no safe square and no other piece can
// take the pawn without exposing its king.  (The pawn is the only checker, since the king was not in check; it stands next to the king, so nothing can be interposed.)
static bool attackedAfter(const Cells& D, int by, int sq) { bool att[81]; attackersSpec(D, by, sq, att); bool a = false; for (int s = 0; s < 81; ++s) a = a | att[s]; return a; }
extern "C" void h_dropmate() {
    int us = (int)vc_param(0), k = (int)vc_param(1), them = 1 - us; int sq = us ? k - 1 : k + 1; if (us ? k % 9 == 0 : k % 9 == 8) return;
    int ok = (int)vc_nondet(7, "ownking"); vc_assume(ok <= 81); vc_assume((ok != k) & (ok != sq)); for (int s = 0; s < 81; ++s) if (stepMask(us, k, s) >> 8 & 1) vc_assume(ok != s);
    Cells C; symCells(C, us ? k : ok, us ? ok : k, us); C.pc[sq] = 0; Position p; StateInfo st; buildPosition(p, C, st);
    vc_assume(!attackedAfter(C, us, k));
    Cells D = C; D.pc[sq] = (uint8_t)(us << 4 | 1);
    bool escape = false, capture = false;
    for (int t = 0; t < 81; ++t) if (stepMask(them, k, t) >> 8 & 1) { bool free = (D.pc[t] == 0) | ((D.pc[t] >> 4) != them); Cells E = D; E.pc[k] = 0; E.pc[t] = (uint8_t)(them << 4 | 8); escape = escape | (free & !attackedAfter(E, us, t)); }
    for (int f = 0; f < 81; ++f) { if (f == k || f == sq) continue; unsigned sm = stepMask(them, f, sq), sl = slideMask(them, f, sq); sm &= ~(1u << 8); sl &= ~(1u << 8); if (!(sm | sl)) continue; int pt = D.pc[f] & 15; bool mine = (D.pc[f] != 0) & ((D.pc[f] >> 4) == them); bool a = (sm >> pt) & 1; if (sl) a = a | (((sl >> pt) & 1) & clearBetween(f, sq, OccOf{&D}));
        Cells E = D; E.pc[sq] = D.pc[f]; E.pc[f] = 0; capture = capture | (mine & a & !attackedAfter(E, us, k)); }
    bool got = p.isPawnDropCheckMate((Color)us, (Square)sq); bool exp = !escape & !capture;
    vc_assert(!(got & !exp), "claimed-mate-has-no-answer"); vc_assert(!(!got & exp), "mate-is-recognised"); vc_cover("end"); if (exp) vc_cover("mate");
}
