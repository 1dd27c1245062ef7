#include "genspec.h"
template <MoveType MT> static void gen(int us, int k, int slice, int ns) {
    if (k < 0) { k = (int)vc_nondet(7, "ownking"); vc_assume(k < 81); }
    Cells C; int ok = (int)vc_nondet(7, "oppking"); vc_assume(ok < 81); vc_assume(ok != k);
    symCells(C, us ? ok : k, us ? k : ok, us, SP_NODEAD); Position p; StateInfo st; buildPosition(p, C, st);
    g_dropMate = vc_nondet(1, "dropmate"); nativeDropMate(C, us); g_us = us; g_C = &C;
    ExtMove* lst = (ExtMove*)vc_sink_new(sizeof(ExtMove));
    vc_sink_end(lst, generateMoves<MT>(lst, p));
    // board moves
    for (int from = 0; from < 81; ++from) for (int to = 0; to < 81; ++to) {
        if (from % ns != slice) continue; int df = spec::fileOf(to) - spec::fileOf(from), dr = spec::rankOf(to) - spec::rankOf(from); int af = df < 0 ? -df : df, ar = dr < 0 ? -dr : dr;
        bool geo = from != to && (df == 0 || dr == 0 || af == ar || (af == 1 && ar == 2)), zone = relRank(us, from) <= 2 || relRank(us, to) <= 2;
        uint32_t n15 = mv(from, to, false, 0, 0), p15 = mv(from, to, true, 0, 0);
        if (!geo) { vc_assert(!vc_sink_has(lst, n15, 0x7fff), "no-other-move"); vc_assert(!vc_sink_has(lst, p15, 0x7fff), "no-other-move"); continue; }
        bool own = (C.pc[from] != 0) & ((C.pc[from] >> 4) == us), toOk = (C.pc[to] == 0) | ((C.pc[to] >> 4) != us);
        int pt = C.pc[from] & 15; bool reach = own & toOk & cellAttacks(C.pc[from], from, to, OccOf{&C});
        bool dead = ((relRank(us, to) == 0) & ((pt == 1) | (pt == 2))) | ((relRank(us, to) <= 1) & (pt == 3));
        bool nx = reach & !dead, px = reach & zone & (pt >= 1) & (pt <= 6);
        vc_assert(vc_sink_has(lst, mv(from, to, false, pt, C.pc[to] & 15), 0xffffffffu) == nx, "board-move"); vc_assert(vc_sink_has(lst, n15, 0x7fff) == nx, "board-move");
        if (zone) vc_assert(vc_sink_has(lst, mv(from, to, true, pt, C.pc[to] & 15), 0xffffffffu) == px, "promotion-move"); vc_assert(vc_sink_has(lst, p15, 0x7fff) == px, "promotion-move");
        vc_assert(!vc_sink_dup(lst, n15, 0x7fff), "dup"); if (zone) vc_assert(!vc_sink_dup(lst, p15, 0x7fff), "dup");
    }
    if (slice == 0) { for (int code = 81; code < 128; ++code) vc_assert(!vc_sink_has(lst, (uint32_t)code, 0x7f), "no-other-move"); // destination off the board
        for (int code = 88; code < 128; ++code) vc_assert(!vc_sink_has(lst, (uint32_t)code << 7, 0x3f80), "no-other-move"); }    // no such piece in hand
    for (int to = 0; to < 81; ++to) for (int h = 0; h < 7; ++h) {
        if (to % ns != slice) continue;
        int pt = HAND_PT[h]; bool nifu = false; if (pt == 1) for (int r = 0; r < 9; ++r) nifu = nifu | (C.pc[to / 9 * 9 + r] == (us ? 17 : 1));
        bool dead = (relRank(us, to) == 0 && (pt == 1 || pt == 2)) || (relRank(us, to) <= 1 && pt == 3);
        bool mate = pt == 1 & to == (us ? ok - 1 : ok + 1) & (ok < 81);
        if (pt == 1) mate = mate & (to / 9 == ok / 9) ;
        bool legal = (C.hand[us][h] != 0) & (C.pc[to] == 0) & !nifu & !dead & !(mate & g_dropMate);
        uint32_t v = (uint32_t)to | (uint32_t)(pt + 80) << 7;
        vc_assert(vc_sink_has(lst, v, 0xffffffffu) == legal, "drop"); vc_assert(vc_sink_has(lst, v, 0x3fff) == legal, "drop"); vc_assert(!vc_sink_dup(lst, v, 0x3fff), "dup");
    }
    vc_cover("end");
}
extern "C" void h_gen() { gen<NonEvasion>((int)vc_param(0), (int)vc_param(1), (int)vc_param(2), (int)vc_param(3)); }

// in check: what is generated.  A move of another piece or a drop is generated exactly when it is pseudo-legal and answers a single check (captures the
// checker or lands between); every adjacent square the king could legally go to is generated, only adjacent squares not held by own pieces are, and a generated
// king move whose target is not attacked while the king still stands on its old square is legal (that is what the legality filter tests, contract h_filter_king).
// Modular form: the piece and drop generators are replaced by their contracts (proved in c_genpiece for every target set); here each must be asked exactly once,
// with the target set the rules give.
static bool g_tgt[81], g_drp[81]; static bool g_single, g_anyDrop; static int g_k; static int g_n[8];
static void chkTarget(const Position* pos, const Bitboard& t, const bool* exp, const char* id) { vc_assert(pos != nullptr, id); bool bad = ((t.p(0) >> 63) | (t.p(1) >> 18)) != 0; for (int s = 0; s < 81; ++s) { bad = bad | (bbAt(t, s) != exp[s]); if (s % 27 == 26) { vc_assert(!bad, id); bad = false; } } }
#define CT_PIECE(N) extern "C" ExtMove* ct_piece##N(void*, ExtMove* l, const Position& pos, const Bitboard& target, Square ksq) { vc_assert(g_single, "piece-generator:pre"); chkTarget(&pos, target, g_tgt, "piece-generator:pre"); g_n[N] += 1; return l; }
CT_PIECE(0) CT_PIECE(1) CT_PIECE(2) CT_PIECE(3) CT_PIECE(4) CT_PIECE(5) CT_PIECE(6)
extern "C" ExtMove* ct_drops(ExtMove* l, const Position& pos, const Bitboard& target) { vc_assert(g_single, "drop-generator:pre"); chkTarget(&pos, target, g_drp, "drop-generator:pre"); g_n[7] += 1; return l; }
static void evasion(int us, int k, bool mod) {
    Cells C; int ok = (int)vc_nondet(7, "oppking"); vc_assume(ok < 81); vc_assume(ok != k);
    symCells(C, us ? ok : k, us ? k : ok, us, SP_NODEAD); Position p; StateInfo st; buildPosition(p, C, st);
    for (int s = 0; s < 81; ++s) if (stepMask(us, k, s) >> 8 & 1) vc_assume(ok != s);
    bool ck[81]; attackersSpec(C, 1 - us, k, ck); uint64_t a = 0, b = 0; for (int s = 0; s < 63; ++s) a |= (uint64_t)ck[s] << s; for (int s = 63; s < 81; ++s) b |= (uint64_t)ck[s] << (s - 63); st.checkersBB = Bitboard(a, b);
    bool any = false, two = false; for (int s = 0; s < 81; ++s) { two = two | (any & ck[s]); any = any | ck[s]; } vc_assume(any); 
    // which squares answer the check: the checker itself, or a square strictly between a sliding checker and the king
    bool capOk[81], blk[81]; bool anyDrop = false;
    for (int to = 0; to < 81; ++to) { bool blocks = false; int df = to / 9 - k / 9, dr = to % 9 - k % 9; bool line = to != k && (df == 0 || dr == 0 || df == dr || df == -dr);
        if (line) { int sf = spec::sgn(df), sr = spec::sgn(dr); for (int x = to / 9 + sf, y = to % 9 + sr; x >= 0 && x < 9 && y >= 0 && y < 9; x += sf, y += sr) blocks = blocks | ck[x * 9 + y]; }
        capOk[to] = ck[to] & !two; blk[to] = blocks & !two; anyDrop = anyDrop | blk[to]; }
    if (mod) { for (int s = 0; s < 81; ++s) { g_tgt[s] = capOk[s] | blk[s]; g_drp[s] = blk[s]; } g_single = !two; for (int i = 0; i < 8; ++i) g_n[i] = 0; }
    g_dropMate = vc_nondet(1, "dropmate"); nativeDropMate(C, us); g_us = us; g_C = &C;
    ExtMove* lst = (ExtMove*)vc_sink_new(sizeof(ExtMove)); vc_sink_end(lst, generateMoves<PseudoLegal>(lst, p));
    if (mod) { for (int i = 0; i < 7; ++i) vc_assert(g_n[i] == (two ? 0 : 1), "each-piece-generator-asked-once"); vc_assert(g_n[7] <= 1, "drop-generator-asked-once"); vc_assert(!anyDrop | (g_n[7] == 1), "drop-generator-asked-once"); }
    bool off = false; for (int code = 81; code < 128; ++code) off = off | vc_sink_has(lst, (uint32_t)code, 0x7f); for (int code = mod ? 81 : 88; code < 128; ++code) off = off | vc_sink_has(lst, (uint32_t)code << 7, 0x3f80); vc_assert(!off, "no-other-move");
    for (int to = 0; to < 81; ++to) {
        vc_contract_loop(); bool other = false, wrong = false;
        for (int from = 0; from < 81; ++from) { int ef = to / 9 - from / 9, er = to % 9 - from % 9; int af = ef < 0 ? -ef : ef, ar = er < 0 ? -er : er; bool geo = from != to && (ef == 0 || er == 0 || af == ar || (af == 1 && ar == 2)), zone = relRank(us, from) <= 2 || relRank(us, to) <= 2;
            uint32_t n15 = mv(from, to, false, 0, 0), p15 = mv(from, to, true, 0, 0); bool hn = vc_sink_has(lst, n15, 0x7fff), hp = vc_sink_has(lst, p15, 0x7fff); bool bad = vc_sink_dup(lst, n15, 0x7fff) | vc_sink_dup(lst, p15, 0x7fff);
            if (from == k) { if (stepMask(us, k, to) >> 8 & 1) { bool toOk = (C.pc[to] == 0) | ((C.pc[to] >> 4) != us); Cells D = C; D.pc[k] = 0; D.pc[to] = (uint8_t)(us << 4 | 8); bool att[81]; attackersSpec(D, 1 - us, to, att); bool att1 = false; for (int s = 0; s < 81; ++s) att1 = att1 | att[s]; attackersSpec(C, 1 - us, to, att); bool att0 = false; for (int s = 0; s < 81; ++s) att0 = att0 | att[s];
                    vc_assert(!(toOk & !att1 & !hn), "legal-king-move-generated"); vc_assert(!(hn & !toOk), "king-move-generated-is-possible"); vc_assert(!(hn & att1 & !att0), "king-move-off-the-checked-line"); vc_assert(vc_sink_has(lst, mv(k, to, false, 8, C.pc[to] & 15), 0xffffffffu) == hn, "king-move-generated-is-possible"); other = other | hp | bad; } else other = other | hn | hp; continue; }
            unsigned g1 = stepMask(1 - us, to, k) | slideMask(1 - us, to, k); int df = to / 9 - k / 9, dr = to % 9 - k % 9; bool line = to != k && (df == 0 || dr == 0 || df == dr || df == -dr);
            if (mod || !geo || (!line && !g1)) { other = other | hn | hp; continue; }
            bool own = (C.pc[from] != 0) & ((C.pc[from] >> 4) == us), toOk = (C.pc[to] == 0) | ((C.pc[to] >> 4) != us); int pt = C.pc[from] & 15; bool reach = own & toOk & (capOk[to] | blk[to]) & cellAttacks(C.pc[from], from, to, OccOf{&C}); bool dead = ((relRank(us, to) == 0) & ((pt == 1) | (pt == 2))) | ((relRank(us, to) <= 1) & (pt == 3));
            bool nx = reach & !dead, px = reach & zone & (pt >= 1) & (pt <= 6);
            bad = bad | (hn != nx) | (hp != px) | (vc_sink_has(lst, mv(from, to, false, pt, C.pc[to] & 15), 0xffffffffu) != nx); if (zone) bad = bad | (vc_sink_has(lst, mv(from, to, true, pt, C.pc[to] & 15), 0xffffffffu) != px); wrong = wrong | bad; }
        if (!mod) { bool bad = false; for (int h = 0; h < 7; ++h) { int pt = HAND_PT[h]; bool nifu = false; if (pt == 1) for (int r = 0; r < 9; ++r) nifu = nifu | (C.pc[to / 9 * 9 + r] == (us ? 17 : 1)); bool dead = (relRank(us, to) == 0 && (pt == 1 || pt == 2)) || (relRank(us, to) <= 1 && pt == 3); bool mate = false; if (pt == 1) mate = (to == (us ? ok - 1 : ok + 1)) & (to / 9 == ok / 9);
            bool legal = (C.hand[us][h] != 0) & (C.pc[to] == 0) & blk[to] & !nifu & !dead & !(mate & g_dropMate); uint32_t v = (uint32_t)to | (uint32_t)(pt + 80) << 7; bad = bad | (vc_sink_has(lst, v, 0xffffffffu) != legal) | (vc_sink_has(lst, v, 0x3fff) != legal) | vc_sink_dup(lst, v, 0x3fff); }
        vc_assert(!bad, "evasion-drop"); vc_assert(!wrong, "evasion-move"); }
        vc_assert(!other, "no-other-move");
    }
    vc_cover("end");
}
extern "C" void h_evasion() { evasion((int)vc_param(0), (int)vc_param(1), false); }
extern "C" void h_evasion_mod() { evasion((int)vc_param(0), (int)vc_param(1), vc_symbolic() != 0); }
