// Contracts of the text forms of moves (P13): exact USI and CSA notation, and reading it back in the position the move was made from.
// The legality tests called by the readers enter as a verdict chosen freely by the contract (they are decided by P07).
#include "genspec.h"
#define private public
#include "cshogi.h"
#undef private
static bool g_legal;
extern "C" bool ct_pseudo(const Position*, Move) { return g_legal; }
extern "C" bool ct_safeAll(const Position*, Move, const Bitboard&) { return true; }
extern "C" Bitboard ct_pinned(const Position*) { return Bitboard(0, 0); }
static const char* CSAN[15] = {"", "FU", "KY", "KE", "GI", "KA", "HI", "KI", "OU", "TO", "NY", "NK", "NG", "UM", "RY"};
static SymMove textMove(Cells& C, int us, bool drop, int pt, bool pro, int file) {
    int k0 = (int)vc_nondet(7, "k0"), k1 = (int)vc_nondet(7, "k1"); vc_assume((k0 <= 81) & (k1 <= 81)); vc_assume((k0 != k1) | (k0 == 81)); symCells(C, k0, k1, us); SymMove m; m.drop = drop; m.to = (int)vc_range(81, "to"); m.pro = pro; m.cap = 0;
    if (drop) { m.pt = pt; m.from = 80 + pt; m.v = (uint32_t)m.to | (uint32_t)m.from << 7; vc_assume(C.pc[m.to] == 0); return m; }
    m.from = file < 9 ? file * 9 + (int)vc_range(9, "rank") : file - 9; vc_assume(m.from != m.to); m.pt = pt ? pt : (int)vc_nondet(4, "pt"); vc_assume((m.pt >= 1) & (m.pt <= 14)); if (pro) vc_assume(m.pt <= 6); m.cap = (int)vc_nondet(4, "cap"); vc_assume(m.cap != 8);
    vc_assume(C.pc[m.from] == (us << 4 | m.pt)); vc_assume(C.pc[m.to] == (m.cap ? ((1 - us) << 4 | m.cap) : 0)); m.v = (uint32_t)m.to | (uint32_t)m.from << 7 | (uint32_t)pro << 14 | (uint32_t)m.pt << 16 | (uint32_t)m.cap << 20; return m;
}
// h_usi(us, kind, x): kind 0/1 board move without/with promotion from file x; kind 2 drop of piece type x
extern "C" void h_usi() {
    int us = (int)vc_param(0), kind = (int)vc_param(1), x = (int)vc_param(2); Cells C; SymMove m = textMove(C, us, kind == 2, kind == 2 ? x : 0, kind == 1, x); alignas(64) char buf[sizeof(__Board)]; __Board* b = (__Board*)buf; StateInfo st; buildPosition(b->pos, C, st);
    std::string s = __move_to_usi((int)m.v); char e[6] = {0, 0, 0, 0, 0, 0}; if (kind == 2) { e[0] = " PLNSBRG"[x]; e[1] = '*'; } else { e[0] = (char)('1' + m.from / 9); e[1] = (char)('a' + m.from % 9); if (kind == 1) e[4] = '+'; } e[2] = (char)('1' + m.to / 9); e[3] = (char)('a' + m.to % 9);
    int n = kind == 1 ? 5 : 4; vc_assert(s.size() == n, "usi-length"); bool ok = true; for (int i = 0; i < n; ++i) ok = ok & (s[i] == e[i]); vc_assert(ok, "usi-text");
    g_legal = vc_nondet(1, "legal"); if (!vc_symbolic()) g_legal = b->moveIsLegal((int)m.v); vc_assert((uint32_t)b->move_from_usi(s) == (g_legal ? m.v : 0), "usi-roundtrip"); vc_cover("end");
}
// h_csa(us, kind, pt)
extern "C" void h_csa() {
    int us = (int)vc_param(0), kind = (int)vc_param(1), pt = (int)vc_param(2); Cells C; SymMove m = textMove(C, us, kind == 2, pt, kind == 1, (int)vc_param(3)); alignas(64) char buf[sizeof(__Board)]; __Board* b = (__Board*)buf; StateInfo st; buildPosition(b->pos, C, st);
    std::string s = __move_to_csa((int)m.v); char e[7] = {'0', '0', 0, 0, 0, 0, 0}; if (kind != 2) { e[0] = (char)('1' + m.from / 9); e[1] = (char)('1' + m.from % 9); } e[2] = (char)('1' + m.to / 9); e[3] = (char)('1' + m.to % 9); const char* nm = CSAN[kind == 1 ? pt + 8 : pt]; e[4] = nm[0]; e[5] = nm[1];
    vc_assert(s.size() == 6, "csa-length"); bool ok = true; for (int i = 0; i < 6; ++i) ok = ok & (s[i] == e[i]); vc_assert(ok, "csa-text");
    g_legal = vc_nondet(1, "legal"); if (!vc_symbolic()) g_legal = b->moveIsLegal((int)m.v); vc_assert((uint32_t)b->move_from_csa(s) == (g_legal ? m.v : 0), "csa-roundtrip"); vc_cover("end");
}
