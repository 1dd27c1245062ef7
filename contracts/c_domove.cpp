#include "symmove.h"
// state after a move (and after taking it back) for every position and move; check information is a separate contract
static void doState(int us, bool drop, int to) {
    int k0 = (int)vc_nondet(7, "k0"), k1 = (int)vc_nondet(7, "k1"); vc_assume(k0 <= 81); vc_assume(k1 <= 81); vc_assume(k0 != k1 | k0 == 81);
    Cells C, D; symCells(C, k0, k1, us); SymMove m = symMove(C, us, drop, to);
    for (int h = 0; h < 7; ++h) vc_assume(C.hand[us][h] <= HAND_MAX[h]);
    if (!drop) for (int t = 1; t <= 14; ++t) if (handIdx(t) >= 0) vc_assume((m.cap != t) | (C.hand[us][handIdx(t)] < HAND_MAX[handIdx(t)]));
    successor(C, m, us, D);
    Position p, p0, q; StateInfo st, st0, st2, sq; buildPosition(p, C, st); buildPosition(p0, C, st0); buildPosition(q, D, sq);
    uint64_t bk = vc_nondet(64, "boardKey"), hk = vc_nondet(64, "handKey"); st.boardKey = bk; st.handKey = hk; int ply = (int)vc_nondet(31, "ply"); vc_assume(ply < 0x7ffffff0); p.gamePly_ = ply;
    int pfn = (int)vc_nondet(30, "pliesFromNull"), cc0 = (int)vc_nondet(30, "cc0"), cc1 = (int)vc_nondet(30, "cc1"); st.pliesFromNull = pfn; st.continuousCheck[0] = cc0; st.continuousCheck[1] = cc1;
    CheckInfo* ci = (CheckInfo*)__builtin_alloca(sizeof(CheckInfo)); 
    Move mv; mv.value_ = m.v;
    uint64_t ka = p.getKeyAfter(mv), kba = p.getBoardKeyAfter(mv);
    p.doMove(mv, st2, *ci, false);
    samePosition(p, q, "state-after-move");
    vc_assert(p.st_ == &st2, "state-after-move"); vc_assert(st2.previous == &st, "state-after-move"); vc_assert(st2.hand.value_ == p.hand_[1 - us].value_, "state-after-move");
    vc_assert(p.gamePly_ == ply + 1, "state-after-move"); vc_assert(st2.pliesFromNull == pfn + 1, "history-counters");
    vc_assert(st2.continuousCheck[us] == 0, "history-counters"); vc_assert(st2.continuousCheck[1 - us] == (us ? cc0 : cc1), "history-counters");
    // keys: the additive Zobrist sum changes exactly by the squares and hands that changed
    int ptTo = m.pro ? m.pt + 8 : m.pt; uint64_t eb = (bk ^ 1), eh = hk;
    if (drop) { eb += Position::zobrist_[m.pt][m.to][us]; eh -= Position::zobHand_[handOf(m.pt)][us]; }
    else { eb += Position::zobrist_[ptTo][m.to][us]; eb -= Position::zobrist_[m.pt][m.from][us]; if (m.cap) { eb -= Position::zobrist_[m.cap][m.to][1 - us]; eh += Position::zobHand_[handOf(m.cap)][us]; } }
    vc_assert(st2.boardKey == eb, "key-after-move"); vc_assert(st2.handKey == eh, "key-after-move");
    vc_assert(ka == st2.boardKey + st2.handKey, "getKeyAfter"); vc_assert(kba == st2.boardKey, "getBoardKeyAfter");
    p.undoMove(mv);
    samePosition(p, p0, "undo-restores"); vc_assert(p.st_ == &st, "undo-restores"); vc_assert(p.gamePly_ == ply, "undo-restores");
    vc_assert(st.boardKey == bk, "undo-restores"); vc_assert(st.handKey == hk, "undo-restores"); vc_assert(st.pliesFromNull == pfn, "undo-restores"); vc_assert((st.continuousCheck[0] == cc0) & (st.continuousCheck[1] == cc1), "undo-restores"); vc_assert(st.hand.value_ == st0.hand.value_, "undo-restores");
    vc_cover("end");
}
extern "C" void h_do() { doState((int)vc_param(0), vc_param(1) != 0, (int)vc_param(2)); }

// check information: doMove(move, state) records exactly the pieces that give check, and moveGivesCheck agrees
static void doCheck(int us, bool drop, int ksq) {
    int ok = (int)vc_nondet(7, "ownking"); vc_assume(ok <= 81); vc_assume(ok != ksq | ok == 81);
    Cells C, D; symCells(C, us ? ksq : ok, us ? ok : ksq, us); SymMove m = symMove(C, us, drop);
    if (!drop) { vc_assume(reaches(C, us, m.pt, m.from, m.to)); for (int t = 1; t <= 14; ++t) if (handIdx(t) >= 0) vc_assume((m.cap != t) | (C.hand[us][handIdx(t)] < HAND_MAX[handIdx(t)])); }
    bool att[81]; 
    if (ksq < 81) { attackersSpec(C, us, ksq, att); bool any = false; for (int s = 0; s < 81; ++s) any = any | att[s]; vc_assume(!any); }   // the side not to move is not in check
    successor(C, m, us, D);
    Position p; StateInfo st, st2; buildPosition(p, C, st); int cc0 = (int)vc_nondet(30, "cc0"), cc1 = (int)vc_nondet(30, "cc1"); st.continuousCheck[0] = cc0; st.continuousCheck[1] = cc1;
    bool exp = false; for (int s = 0; s < 81; ++s) att[s] = false; if (ksq < 81) { attackersSpec(D, us, ksq, att); for (int s = 0; s < 81; ++s) { exp = exp | att[s]; if (stepMask(us, s, ksq) >> 8 & 1) vc_assume(!(att[s] & (D.pc[s] == (us << 4 | 8)))); } }  // the kings do not touch
    Move mv; mv.value_ = m.v;
    bool g = p.moveGivesCheck(mv);
    p.doMove(mv, st2);
    vc_assert(g == exp, "moveGivesCheck");
    for (int s = 0; s < 81; ++s) vc_assert(bbAt(st2.checkersBB, s) == att[s], "checkers-after-move");
    vc_assert(((st2.checkersBB.p(0) >> 63) | (st2.checkersBB.p(1) >> 18)) == 0, "checkers-after-move");
    vc_assert(p.inCheck() == exp, "checkers-after-move");
    int cu = us ? cc1 : cc0, ct = us ? cc0 : cc1; vc_assert(st2.continuousCheck[us] == (exp ? cu + 2 : 0), "continuous-check"); vc_assert(st2.continuousCheck[1 - us] == ct, "continuous-check");
    vc_cover("end");
}
extern "C" void h_docheck() { doCheck((int)vc_param(0), vc_param(1) != 0, (int)vc_param(2)); }
// the continuous-check counters follow the check verdict (which is P06's), links and plies as for other moves
static bool g_gives; extern "C" bool ct_gives(const Position*, Move, const CheckInfo&) { return g_gives; }
extern "C" void h_docount() {
    int us = (int)vc_param(0); bool drop = vc_param(1) != 0; int ksq = (int)vc_param(2); int ok = (int)vc_nondet(7, "ownking"); vc_assume(ok <= 81); vc_assume(ok != ksq | ok == 81);
    Cells C; symCells(C, us ? ksq : ok, us ? ok : ksq, us); SymMove m = symMove(C, us, drop); if (!drop) for (int t = 1; t <= 14; ++t) if (handIdx(t) >= 0) vc_assume((m.cap != t) | (C.hand[us][handIdx(t)] < HAND_MAX[handIdx(t)]));
    Position p; StateInfo st, st2; buildPosition(p, C, st); int pl = (int)vc_nondet(30, "plies"), cc0 = (int)vc_nondet(30, "cc0"), cc1 = (int)vc_nondet(30, "cc1"); st.continuousCheck[0] = cc0; st.continuousCheck[1] = cc1; st.pliesFromNull = pl; g_gives = vc_nondet(1, "gives"); Move mv; mv.value_ = m.v; if (!vc_symbolic()) g_gives = p.moveGivesCheck(mv);
    p.doMove(mv, st2); int cu = us ? cc1 : cc0, ct = us ? cc0 : cc1; vc_assert(st2.continuousCheck[us] == (g_gives ? cu + 2 : 0), "continuous-check"); vc_assert(st2.continuousCheck[1 - us] == ct, "continuous-check"); vc_assert((st2.previous == &st) & (p.st_ == &st2) & (st2.pliesFromNull == pl + 1), "history-counters"); vc_cover("end");
}
