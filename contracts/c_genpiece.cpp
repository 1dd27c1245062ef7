#include "genspec.h"
#include "generateMoves.cpp"   // the real source: its internal generators are under contract here
// GeneratePieceMoves<Evasion, PT, US, true> and generateDropMoves<US> for an arbitrary target set: exactly the moves of that kind of piece into the target.
static Bitboard symTarget(const Cells& C, int us, bool emptyOnly, bool* T) { uint64_t a = 0, b = 0; for (int s = 0; s < 81; ++s) { bool t = vc_nondet(1, "target"); t = t & (emptyOnly ? C.pc[s] == 0 : ((C.pc[s] == 0) | ((C.pc[s] >> 4) != us))); T[s] = t; if (s < 63) a |= (uint64_t)t << s; else b |= (uint64_t)t << (s - 63); } return Bitboard(a, b); }
template <PieceType PT, Color US> static void piece(int slice, int ns) {
    const int us = US; int k = (int)vc_nondet(7, "ownking"), ok = (int)vc_nondet(7, "oppking"); vc_assume((k < 81) & (ok < 81)); vc_assume(k != ok); Cells C; symCells(C, us ? ok : k, us ? k : ok, us, SP_NODEAD); Position p; StateInfo st; buildPosition(p, C, st);
    bool T[81]; Bitboard target = symTarget(C, us, false, T);
    ExtMove* lst = (ExtMove*)vc_sink_new(sizeof(ExtMove)); vc_sink_end(lst, GeneratePieceMoves<Evasion, PT, US, true>()(lst, p, target, (Square)k));
    bool off = false; for (int code = 81; code < 128; ++code) off = off | vc_sink_has(lst, (uint32_t)code, 0x7f) | vc_sink_has(lst, (uint32_t)code << 7, 0x3f80); vc_assert(!off, "no-other-move");
    for (int from = 0; from < 81; ++from) { if (from % ns != slice) continue; vc_contract_loop(); bool other = false; for (int to = 0; to < 81; ++to) {
        int df = to / 9 - from / 9, dr = to % 9 - from % 9; int af = df < 0 ? -df : df, ar = dr < 0 ? -dr : dr; bool geo = from != to && (df == 0 || dr == 0 || af == ar || (af == 1 && ar == 2)), zone = relRank(us, from) <= 2 || relRank(us, to) <= 2; 
        uint32_t n15 = mv(from, to, false, 0, 0), p15 = mv(from, to, true, 0, 0); bool hn = vc_sink_has(lst, n15, 0x7fff), hp = vc_sink_has(lst, p15, 0x7fff); if (!geo) { other = other | hn | hp; continue; }
        int pt = C.pc[from] & 15; bool kind = PT == GoldHorseDragon ? (pt == 7) | ((pt >= 9) & (pt <= 14)) : pt == (int)PT; bool own = kind & ((C.pc[from] >> 4) == us); bool reach = own & T[to] & cellAttacks(C.pc[from], from, to, OccOf{&C}); bool dead = ((relRank(us, to) == 0) & ((pt == 1) | (pt == 2))) | ((relRank(us, to) <= 1) & (pt == 3)); bool nx = reach & !dead, px = reach & zone & (pt >= 1) & (pt <= 6);
        bool bad = vc_sink_dup(lst, n15, 0x7fff) | vc_sink_dup(lst, p15, 0x7fff) | (hn != nx) | (hp != px) | (vc_sink_has(lst, mv(from, to, false, pt, C.pc[to] & 15), 0xffffffffu) != nx); if (zone) bad = bad | (vc_sink_has(lst, mv(from, to, true, pt, C.pc[to] & 15), 0xffffffffu) != px); vc_assert(!bad, "piece-move"); }
        vc_assert(!other, "no-other-move"); }
    vc_cover("end");
}
template <Color US> static void drops() {
    const int us = US; int k = (int)vc_nondet(7, "ownking"), ok = (int)vc_nondet(7, "oppking"); vc_assume((k < 81) & (ok < 81)); vc_assume(k != ok); Cells C; symCells(C, us ? ok : k, us ? k : ok, us, SP_NODEAD); Position p; StateInfo st; buildPosition(p, C, st);
    bool T[81]; Bitboard target = symTarget(C, us, true, T); g_dropMate = vc_nondet(1, "dropmate"); nativeDropMate(C, us); g_us = us; g_C = &C;
    ExtMove* lst = (ExtMove*)vc_sink_new(sizeof(ExtMove)); vc_sink_end(lst, generateDropMoves<US>(lst, p, target));
    bool off = false; for (int code = 81; code < 128; ++code) off = off | vc_sink_has(lst, (uint32_t)code, 0x7f); for (int code = 88; code < 128; ++code) off = off | vc_sink_has(lst, (uint32_t)code << 7, 0x3f80); for (int code = 0; code < 81; ++code) off = off | vc_sink_has(lst, (uint32_t)code << 7, 0x3f80); vc_assert(!off, "no-other-move");
    for (int to = 0; to < 81; ++to) { bool bad = false; for (int h = 0; h < 7; ++h) { int pt = HAND_PT[h]; bool nifu = false; if (pt == 1) for (int r = 0; r < 9; ++r) nifu = nifu | (C.pc[to / 9 * 9 + r] == (us ? 17 : 1)); bool dead = (relRank(us, to) == 0 && (pt == 1 || pt == 2)) || (relRank(us, to) <= 1 && pt == 3); bool mate = false; if (pt == 1) mate = (to == (us ? ok - 1 : ok + 1)) & (to / 9 == ok / 9);
            bool legal = (C.hand[us][h] != 0) & T[to] & !nifu & !dead & !(mate & g_dropMate); uint32_t v = (uint32_t)to | (uint32_t)(pt + 80) << 7; bad = bad | (vc_sink_has(lst, v, 0xffffffffu) != legal) | (vc_sink_has(lst, v, 0x3fff) != legal) | vc_sink_dup(lst, v, 0x3fff); }
        vc_assert(!bad, "drop"); }
    vc_cover("end");
}
template <Color US> static void sel(int kind) { switch (kind) { case 0: piece<Pawn, US>(0, 1); break; case 1: piece<Lance, US>(0, 1); break; case 2: piece<Knight, US>(0, 1); break; case 3: piece<Silver, US>(0, 1); break; case 4: piece<Bishop, US>(0, 1); break; case 5: piece<Rook, US>(0, 1); break; case 6: piece<GoldHorseDragon, US>((int)vc_param(2), 4); break; default: drops<US>(); } }
extern "C" void h_genpiece() { if (vc_param(0)) sel<White>((int)vc_param(1)); else sel<Black>((int)vc_param(1)); }
