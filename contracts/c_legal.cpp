#include "symmove.h"
#ifndef VC_IR
#include "ref.h"
#endif
// Rules: is the well-formed move value legal in the position?  Own king on 'k' (81: none).  Pawn-drop mate is the predicate 'mate'
// (contract of isPawnDropCheckMate, proved separately); king capture cannot arise because the opponent is not in check.
static bool g_mate; static const Cells* g_C; static int g_us;
extern "C" bool ct_isPawnDropCheckMate(const Position* p, int us, int sq) {
    int k = g_C->k[1 - g_us]; vc_assert(us == g_us, "isPawnDropCheckMate:pre");
    vc_assert((sq < 81) & (g_C->pc[sq] == 0) & (k == (us ? sq + 1 : sq - 1)), "isPawnDropCheckMate:pre");
    return g_mate;
}
static bool deadSq(int us, int pt, int to) { int r = to % 9; int rr = us ? 8 - r : r; return ((rr == 0) & ((pt == 1) | (pt == 2))) | ((rr <= 1) & (pt == 3)); }
static bool inZone(int us, int s) { int r = s % 9; int rr = us ? 8 - r : r; return rr <= 2; }
static bool isDeadSym(int us, int pt, int to) { bool r = false; for (int t = 0; t < 81; ++t) if (deadSq(us, 1, t) | deadSq(us, 3, t)) r = r | ((to == t) & deadSq(us, pt, t)); return r; }
static bool zoneSym(int us, int s) { bool r = false; for (int t = 0; t < 81; ++t) if (inZone(us, t)) r = r | (s == t); return r; }

static void setCheckers(StateInfo& st, const bool* b81) { uint64_t a = 0, b = 0; for (int s = 0; s < 63; ++s) a |= (uint64_t)b81[s] << s; for (int s = 63; s < 81; ++s) b |= (uint64_t)b81[s] << (s - 63); st.checkersBB = Bitboard(a, b); }
static bool attackedAfter(const Cells& D, int by, int sq) { bool att[81]; attackersSpec(D, by, sq, att); bool a = false; for (int s = 0; s < 81; ++s) a = a | att[s]; return a; }

// contract of attacksFrom (proved in c_attacks for every type, colour, square and occupancy): under irvc the callee is replaced by an
// arbitrary set of squares, used by rules and code alike; natively the rules compute it.
static Bitboard g_reach; static int g_rpt, g_rfrom;
extern "C" Bitboard ct_attacksFrom(PieceType pt, Color c, Square sq, const Bitboard& occ) { vc_assert((pt == g_rpt) & (c == g_us) & (sq == g_rfrom), "attacksFrom:pre"); return g_reach; }
static void nativeMate(const Cells& C, int us) {   // natively the real isPawnDropCheckMate runs, so the rules supply the verdict
#ifndef VC_IR
    if (!vc_symbolic()) { int k = C.k[1 - us]; int to = us ? k - 1 : k + 1; bool edge = us ? k % 9 == 0 : k % 9 == 8; g_mate = k < 81 && !edge && C.pc[to] == 0 && ref::dropMate(C, us, to); }
#endif
}
struct Ctx { Cells C; Position p; StateInfo st; bool ck[81]; int us, k, ok; };
static void setup(Ctx& X, int us, int k) {
    X.us = us; X.k = k; X.ok = (int)vc_nondet(7, "oppking"); vc_assume(X.ok <= 81); vc_assume((X.ok != k) | (X.ok == 81)); int ok = X.ok;
    Cells& C = X.C; symCells(C, us ? ok : k, us ? k : ok, us); g_C = &C; g_us = us; g_mate = vc_nondet(1, "dropmate"); nativeMate(C, us);
    buildPosition(X.p, C, X.st);
    // checkersBB as maintained by doMove / findCheckers (contract proved there); the kings do not touch
    if (k < 81) attackersSpec(C, 1 - us, k, X.ck); else for (int s = 0; s < 81; ++s) X.ck[s] = false;
    for (int s = 0; s < 81; ++s) if (k < 81 && (stepMask(1 - us, s, k) >> 8 & 1)) vc_assume(!(X.ck[s] & (C.pc[s] == ((1 - us) << 4 | 8))));
    setCheckers(X.st, X.ck);
}
static bool ask(Ctx& X, uint32_t v) { Move mv; mv.value_ = v; return X.p.moveIsPseudoLegal<false>(mv) && X.p.pseudoLegalMoveIsLegal<false, false>(mv, X.p.pinnedBB()); }
static void verdict(bool got, bool exp) { vc_assert(!(got & !exp), "accepted-move-is-legal"); vc_assert(!(!got & exp), "legal-move-is-accepted"); if (exp) vc_cover("legal"); vc_cover("end"); }
static void legalDrop(int us, int k) {
    Ctx X; setup(X, us, k); Cells& C = X.C; int ok = X.ok; SymMove m; m.drop = true; m.to = (int)vc_nondet(7, "to"); vc_assume(m.to < 81); m.cap = 0; m.pro = false; int toPc = C.pc[m.to];
    m.from = (int)vc_nondet(7, "dropcode"); vc_assume((m.from >= 81) & (m.from <= 94)); m.pt = m.from - 80; m.v = (uint32_t)m.to | (uint32_t)m.from << 7;
    bool has = false; for (int h = 0; h < 7; ++h) has = has | ((HAND_PT[h] == m.pt) & (C.hand[us][h] != 0));
    bool nifu = false; for (int f = 0; f < 9; ++f) { bool any = false; for (int r = 0; r < 9; ++r) any = any | (C.pc[f * 9 + r] == (us << 4 | 1)); nifu = nifu | (any & (m.to / 9 == f)); }
    bool front = (ok < 81) & (us ? (m.to + 1 == ok) & (m.to % 9 != 8) : (m.to - 1 == ok) & (m.to % 9 != 0));
    bool pseudo = has & (toPc == 0) & !isDeadSym(us, m.pt, m.to) & !((m.pt == 1) & (nifu | (front & g_mate)));
    Cells D; successor(C, m, us, D); bool exp = pseudo & (k == 81 || !attackedAfter(D, 1 - us, k));
    verdict(ask(X, m.v), exp);
}
static bool aligned3(int a, int b, int c) { int x1 = b / 9 - a / 9, y1 = b % 9 - a % 9, x2 = c / 9 - a / 9, y2 = c % 9 - a % 9; return x1 * y2 == x2 * y1 && (x1 == 0 || y1 == 0 || x1 == y1 || x1 == -y1); }
// a piece other than the king moves (any value of the encoding's fields)
static void legalBoard(int us, int k, int lo, int hi, bool modular) {
    Ctx X; setup(X, us, k); Cells& C = X.C; SymMove m; m.drop = false; m.to = (int)vc_nondet(7, "to"); m.from = (int)vc_nondet(7, "from"); m.pt = (int)vc_nondet(4, "pt"); m.cap = (int)vc_nondet(4, "cap"); m.pro = vc_nondet(1, "pro");
    vc_assume(m.to < 81); vc_assume((m.from >= lo) & (m.from < hi)); vc_assume(m.from != k); vc_assume((m.to != X.ok) | (X.ok == 81));
    if (modular) { g_rpt = m.pt; g_rfrom = m.from; g_reach = Bitboard(vc_nondet(63, "reach0"), vc_nondet(18, "reach1")); }
    int toPc = C.pc[m.to]; bool reach; if (modular && vc_symbolic()) { reach = false; for (int s = 0; s < 81; ++s) reach = reach | ((m.to == s) & bbAt(g_reach, s)); } else reach = reaches(C, us, m.pt, m.from, m.to);
    // rules lemma (h_reach_lemma): a move along a line through the king jumps over nothing
    if (modular && vc_symbolic() && k < 81) for (int f = 0; f < 81; ++f) for (int t = 0; t < 81; ++t) if (f != t && f != k && t != k && aligned3(f, t, k)) vc_assume(!((m.from == f) & (m.to == t) & reach & !clearBetween(f, t, OccOf{&C})));
    bool field = (m.pt != 0) & (C.pc[m.from] == (us << 4 | m.pt)) & ((toPc == 0) | ((toPc >> 4) != us)) & (m.cap == (toPc & 15)) & (m.from != m.to);
    bool zone = zoneSym(us, m.from) | zoneSym(us, m.to), dead = isDeadSym(us, m.pt, m.to);
    bool pseudo = field & reach & ((m.pro & (m.pt <= 6) & zone) | (!m.pro & !dead));
    m.v = (uint32_t)m.to | (uint32_t)m.from << 7 | (uint32_t)m.pro << 14 | (uint32_t)m.pt << 16 | (uint32_t)m.cap << 20;
    Cells D; successor(C, m, us, D); bool exp = pseudo & (k == 81 || !attackedAfter(D, 1 - us, k));
    verdict(ask(X, m.v), exp);
}
static void legalKing(int us, int k) {
    Ctx X; setup(X, us, k); Cells& C = X.C; int pt = (int)vc_nondet(4, "pt"), cap = (int)vc_nondet(4, "cap"); bool pro = vc_nondet(1, "pro");
    for (int t = 0; t < 81; ++t) {
        vc_contract_loop(); SymMove m; m.drop = false; m.from = k; m.to = t; m.pt = pt; m.cap = cap; m.pro = pro; m.v = (uint32_t)t | (uint32_t)k << 7 | (uint32_t)pro << 14 | (uint32_t)pt << 16 | (uint32_t)cap << 20;
        bool adj = stepMask(us, k, t) >> 8 & 1; int toPc = C.pc[t]; bool exp = false;
        if (adj) { bool pseudo = (pt == 8) & ((toPc == 0) | ((toPc >> 4) != us)) & (cap == (toPc & 15)) & !pro;
            Cells D = C; D.pc[k] = 0; D.pc[t] = (uint8_t)(us << 4 | 8); exp = pseudo & !attackedAfter(D, 1 - us, t); }
        bool pre = (t != X.ok) | (X.ok == 81); bool got = ask(X, m.v);
        vc_assert(!(pre & got & !exp), "accepted-move-is-legal"); vc_assert(!(pre & !got & exp), "legal-move-is-accepted"); if (adj) { if (exp) vc_cover("legal"); vc_cover("end"); }
    }
}
extern "C" void h_legal_drop() { legalDrop((int)vc_param(0), (int)vc_param(1)); }
extern "C" void h_legal_board() { legalBoard((int)vc_param(0), (int)vc_param(1), (int)vc_param(2), (int)vc_param(3), false); }
extern "C" void h_legal_board_mod() { legalBoard((int)vc_param(0), (int)vc_param(1), 0, 81, true); }
extern "C" void h_legal_king() { legalKing((int)vc_param(0), (int)vc_param(1)); }
// lemma over the rules: whatever moves from f to t on a common line finds the squares between empty
extern "C" void h_reach_lemma() { int f = (int)vc_param(0); Cells C; symCells(C, 81, 81, 0); int pt = (int)vc_nondet(4, "pt");
    for (int t = 0; t < 81; ++t) { int df = t / 9 - f / 9, dr = t % 9 - f % 9; if (t == f || !(df == 0 || dr == 0 || df == dr || df == -dr)) continue; for (int c = 0; c < 2; ++c) vc_assert(!(reaches(C, c, pt, f, t) & !clearBetween(f, t, OccOf{&C})), "line-moves-do-not-jump"); }
    vc_cover("end"); }

// ---- the filter applied to generated moves: pseudoLegalMoveIsLegal<false,false>(move, pinnedBB()) on a move that is pseudo-legal and, in check, answers the check
static bool answers(const Ctx& X, int to) { bool any = false, two = false; for (int s = 0; s < 81; ++s) { two = two | (any & X.ck[s]); any = any | X.ck[s]; }
    bool ans = false; for (int t = 0; t < 81; ++t) { if (t == X.k) continue; bool b = X.ck[t]; int df = t / 9 - X.k / 9, dr = t % 9 - X.k % 9; if (df == 0 || dr == 0 || df == dr || df == -dr) { int sf = spec::sgn(df), sr = spec::sgn(dr); for (int x = t / 9 + sf, y = t % 9 + sr; x >= 0 && x < 9 && y >= 0 && y < 9; x += sf, y += sr) b = b | X.ck[x * 9 + y]; } ans = ans | ((to == t) & b); }
    return !any | (ans & !two); }
static bool filter(Ctx& X, uint32_t v) { Move mv; mv.value_ = v; return X.p.pseudoLegalMoveIsLegal<false, false>(mv, X.p.pinnedBB()); }
static void keep(bool got, bool exp) { vc_assert(!(got & !exp), "kept-move-is-legal"); vc_assert(!(!got & exp), "legal-move-is-kept"); }
extern "C" void h_filter_board() { int us = (int)vc_param(0), k = (int)vc_param(1); Ctx X; setup(X, us, k); Cells& C = X.C; SymMove m; m.drop = false; m.to = (int)vc_nondet(7, "to"); m.from = (int)vc_nondet(7, "from"); m.pt = (int)vc_nondet(4, "pt"); m.cap = (int)vc_nondet(4, "cap"); m.pro = vc_nondet(1, "pro"); vc_assume((m.to < 81) & (m.from < 81)); vc_assume((m.from != k) & (m.from != m.to)); vc_assume((m.to != X.ok) | (X.ok == 81));
    int toPc = C.pc[m.to]; vc_assume((m.pt != 0) & (C.pc[m.from] == (us << 4 | m.pt)) & ((toPc == 0) | ((toPc >> 4) != us)) & (m.cap == (toPc & 15))); vc_assume(!m.pro | (m.pt <= 6)); vc_assume(answers(X, m.to));
    for (int f = 0; f < 81; ++f) for (int t = 0; t < 81; ++t) if (f != t && f != k && t != k && aligned3(f, t, k)) vc_assume(!((m.from == f) & (m.to == t) & !clearBetween(f, t, OccOf{&C})));   // a move along a line through the king jumps over nothing (h_reach_lemma); no other movement rule is needed
    m.v = (uint32_t)m.to | (uint32_t)m.from << 7 | (uint32_t)m.pro << 14 | (uint32_t)m.pt << 16 | (uint32_t)m.cap << 20; Cells D; successor(C, m, us, D); keep(filter(X, m.v), !attackedAfter(D, 1 - us, k)); vc_cover("end"); }
// the side to move is not in check: a move of another piece leaves the king attacked only if isPinnedIllegal (either variant) says so
extern "C" void h_pin_safe() { int us = (int)vc_param(0), k = (int)vc_param(1); Ctx X; setup(X, us, k); Cells& C = X.C; for (int s = 0; s < 81; ++s) vc_assume(!X.ck[s]); SymMove m; m.drop = false; m.to = (int)vc_nondet(7, "to"); m.from = (int)vc_nondet(7, "from"); m.pt = (int)vc_nondet(4, "pt"); m.cap = (int)vc_nondet(4, "cap"); m.pro = vc_nondet(1, "pro"); vc_assume((m.to < 81) & (m.from < 81)); vc_assume((m.from != k) & (m.from != m.to)); vc_assume((m.to != X.ok) | (X.ok == 81));
    int toPc = C.pc[m.to]; vc_assume((m.pt != 0) & (C.pc[m.from] == (us << 4 | m.pt)) & ((toPc == 0) | ((toPc >> 4) != us)) & (m.cap == (toPc & 15))); vc_assume(!m.pro | (m.pt <= 6));
    for (int f = 0; f < 81; ++f) for (int t = 0; t < 81; ++t) if (f != t && f != k && t != k && aligned3(f, t, k)) vc_assume(!((m.from == f) & (m.to == t) & !clearBetween(f, t, OccOf{&C})));
    Cells D; successor(C, m, us, D); Bitboard pins = X.p.pinnedBB(); bool bad = attackedAfter(D, 1 - us, k); vc_assert(!bad | X.p.isPinnedIllegal<false>((Square)m.from, (Square)m.to, (Square)k, pins), "exposing-move-is-refused"); vc_assert(!bad | X.p.isPinnedIllegal<true>((Square)m.from, (Square)m.to, (Square)k, pins), "exposing-move-is-refused"); vc_cover("end"); if (bad) vc_cover("exposing"); }
extern "C" void h_filter_drop() { int us = (int)vc_param(0), k = (int)vc_param(1); Ctx X; setup(X, us, k); Cells& C = X.C; SymMove m; m.drop = true; m.to = (int)vc_nondet(7, "to"); vc_assume(m.to < 81); m.cap = 0; m.pro = false; m.pt = (int)vc_nondet(3, "pt"); vc_assume(m.pt != 0); m.from = 80 + m.pt; m.v = (uint32_t)m.to | (uint32_t)m.from << 7; vc_assume(C.pc[m.to] == 0); vc_assume(answers(X, m.to)); Cells D; successor(C, m, us, D); keep(filter(X, m.v), !attackedAfter(D, 1 - us, k)); vc_cover("end"); }
extern "C" void h_filter_king() { int us = (int)vc_param(0), k = (int)vc_param(1); Ctx X; setup(X, us, k); Cells& C = X.C; bool any = false; for (int s = 0; s < 81; ++s) any = any | X.ck[s];
    for (int t = 0; t < 81; ++t) { if (!(stepMask(us, k, t) >> 8 & 1)) continue; vc_contract_loop(); int toPc = C.pc[t]; bool pre = ((toPc == 0) | ((toPc >> 4) != us)) & (t != X.ok); uint32_t v = (uint32_t)t | (uint32_t)k << 7 | 8u << 16 | (uint32_t)(toPc & 15) << 20; bool got = filter(X, v);
        Cells D = C; D.pc[k] = 0; D.pc[t] = (uint8_t)(us << 4 | 8); bool a1 = attackedAfter(D, 1 - us, t), a0 = attackedAfter(C, 1 - us, t);
        vc_assert(!(pre & (got == a0)), "king-move-kept-iff-target-not-attacked"); vc_assert(!(pre & !any & (a0 != a1)), "own-king-shields-nothing-when-not-in-check"); vc_assert(!(pre & a0 & !a1), "attacked-target-stays-attacked"); }
    vc_cover("end"); }
