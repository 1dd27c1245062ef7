#pragma once
#include "symmove.h"
#ifndef VC_IR
#include "ref.h"
#endif
// pseudo-legality by the rules (drops: ownership, emptiness, dead squares, nifu; pawn-drop mate via the given predicate)
static bool fwdRank(int us, int s) ; 
static inline int relRank(int us, int s) { int r = s % 9; return us ? 8 - r : r; }
static inline bool canPromo(int pt) { return pt >= 1 && pt <= 6; }
static int g_dropMateCalls; static bool g_dropMate; static int g_us; static const Cells* g_C;
// contract of isPawnDropCheckMate as seen by the generator: only asked about an empty square in front of the enemy king
extern "C" bool ct_isPawnDropCheckMate(const Position* p, int us, int sq) {
    vc_assert(us == g_us, "isPawnDropCheckMate:pre"); int k = g_C->k[1 - us];
    vc_assert((sq == (us ? k - 1 : k + 1)) & (g_C->pc[sq] == 0) & (k < 81), "isPawnDropCheckMate:pre");
    return g_dropMate;
}
static void nativeDropMate(const Cells& C, int us) {   // natively the real isPawnDropCheckMate runs, so the rules supply the verdict
#ifndef VC_IR
    if (!vc_symbolic()) { int k = C.k[1 - us]; int to = us ? k - 1 : k + 1; bool edge = us ? k % 9 == 0 : k % 9 == 8; g_dropMate = k < 81 && !edge && C.pc[to] == 0 && ref::dropMate(C, us, to); }
#endif
}
static uint32_t mv(int from, int to, bool pro, int pt, int cap) { return (uint32_t)to | (uint32_t)from << 7 | (uint32_t)pro << 14 | (uint32_t)pt << 16 | (uint32_t)cap << 20; }
