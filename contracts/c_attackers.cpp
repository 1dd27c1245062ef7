#include "symmove.h"
// Who attacks a square, for every arrangement of pieces (kings anywhere or absent), and the sets derived from it.
static bool any81(const bool* b) { bool r = false; for (int s = 0; s < 81; ++s) r = r | b[s]; return r; }
extern "C" void h_attackers() {
    int sq = (int)vc_param(0), c = (int)vc_param(1);
    int k0 = (int)vc_nondet(7, "k0"), k1 = (int)vc_nondet(7, "k1"); vc_assume(k0 <= 81); vc_assume(k1 <= 81); vc_assume((k0 != k1) | (k0 == 81));
    Cells C; symCells(C, k0, k1, 0); Position p; StateInfo st; buildPosition(p, C, st);
    Bitboard a = p.attackersTo((Color)c, (Square)sq), b = p.attackersToExceptKing((Color)c, (Square)sq);
    Bitboard o = p.occupiedBB(); Bitboard all = p.attackersTo((Square)sq, o); bool any = p.attackersToIsAny((Color)c, (Square)sq);
    bool x[81], y[81]; attackersSpec(C, c, sq, x); attackersSpec(C, 1 - c, sq, y);
    for (int s = 0; s < 81; ++s) {
        vc_assert(bbAt(a, s) == x[s], "attackersTo"); vc_assert(bbAt(b, s) == (x[s] & ((C.pc[s] & 15) != 8)), "attackersToExceptKing"); vc_assert(bbAt(all, s) == (x[s] | y[s]), "attackersTo(both)");
    }
    vc_assert(any == any81(x), "attackersToIsAny");
    vc_assert(((a.p(0) | b.p(0) | all.p(0)) >> 63) == 0 && ((a.p(1) | b.p(1) | all.p(1)) >> 18) == 0, "attackersTo");
    vc_cover("end");
}
// the same question with an arbitrary set of blocking squares (used when a piece is imagined gone or added)
extern "C" void h_attackers_occ() {
    int sq = (int)vc_param(0), c = (int)vc_param(1);
    int k0 = (int)vc_nondet(7, "k0"), k1 = (int)vc_nondet(7, "k1"); vc_assume(k0 <= 81); vc_assume(k1 <= 81); vc_assume((k0 != k1) | (k0 == 81));
    Cells C; symCells(C, k0, k1, 0); Position p; StateInfo st; buildPosition(p, C, st);
    uint64_t o0 = vc_nondet(63, "occ0"), o1 = vc_nondet(18, "occ1"); Bitboard occ(o0, o1); Bitboard a = p.attackersTo((Color)c, (Square)sq, occ); bool any = p.attackersToIsAny((Color)c, (Square)sq, occ); bool e = false;
    auto oc = [&](int s) -> bool { return s < 63 ? (o0 >> s) & 1 : (o1 >> (s - 63)) & 1; };
    for (int s = 0; s < 81; ++s) { bool x = false; if (s != sq) { unsigned sm = stepMask(c, s, sq), sl = slideMask(c, s, sq); if (sm | sl) { int pc = C.pc[s], pt = pc & 15; bool mine = (pc != 0) & ((pc >> 4) == c); bool at = (sm >> pt) & 1; if (sl) at = at | (((sl >> pt) & 1) & clearBetween(s, sq, oc)); x = mine & at; } }
        vc_assert(bbAt(a, s) == x, "attackersTo(occ)"); e = e | x; }
    vc_assert(any == e, "attackersToIsAny(occ)"); vc_cover("end");
}
// pinned pieces and discovered-check candidates: the only piece between a king and a long-range attacker of it
extern "C" void h_pins() {
    int k = (int)vc_param(0), us = (int)vc_param(1); int ok = (int)vc_nondet(7, "oppking"); vc_assume(ok <= 81); vc_assume((ok != k) | (ok == 81));
    for (int own = 0; own < 2; ++own) { // own: the king on k is the mover's (pins), else the opponent's (discovered checks)
        vc_contract_loop(); int kc = own ? us : 1 - us; Cells C; symCells(C, kc == 0 ? k : ok, kc == 0 ? ok : k, us); Position p; StateInfo st; buildPosition(p, C, st);
        Bitboard got = own ? p.pinnedBB() : p.discoveredCheckBB<true>(); int att = 1 - kc; bool exp[81]; for (int s = 0; s < 81; ++s) exp[s] = false;
        if (k < 81) for (int df = -1; df <= 1; ++df) for (int dr = -1; dr <= 1; ++dr) { if (!df && !dr) continue; // walk the ray: the first piece, then the second
            bool none = true, one = false; bool firstAt[81]; for (int s = 0; s < 81; ++s) firstAt[s] = false; int x = k / 9 + df, y = k % 9 + dr;
            while (x >= 0 && x <= 8 && y >= 0 && y <= 8) { int s = x * 9 + y; bool oc = C.pc[s] != 0; unsigned sl = slideMask(att, s, k); bool slider = ((C.pc[s] >> 4) == att) & ((sl >> (C.pc[s] & 15)) & 1) & oc;
                for (int q = 0; q < 81; ++q) if (vc_is_const(firstAt[q]) == 0 || firstAt[q]) exp[q] = exp[q] | (firstAt[q] & one & slider);
                for (int q = 0; q < 81; ++q) firstAt[q] = firstAt[q] & !(one & oc); firstAt[s] = none & oc; one = (one & !oc) | (none & oc); none = none & !oc; x += df; y += dr; } }
        for (int s = 0; s < 81; ++s) vc_assert(bbAt(got, s) == (exp[s] & (C.pc[s] != 0) & ((C.pc[s] >> 4) == us)), own ? "pinned" : "discovered-check");
        if (!own) continue; p.findCheckers(); bool ck[81]; for (int s = 0; s < 81; ++s) ck[s] = false; if (k < 81) attackersSpec(C, 1 - us, k, ck);
        for (int s = 0; s < 81; ++s) vc_assert(bbAt(st.checkersBB, s) == (ck[s] & ((C.pc[s] & 15) != 8)), "findCheckers"); // touching kings cannot arise
    }
    vc_cover("end");
}
