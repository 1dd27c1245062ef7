// mateMoveIn1Ply: whatever move it returns is legal and mates, and the position is as before.
// Modular: the attack functions, pin functions and the escape/capture helpers enter by contract (each contract is discharged on the real function by
// another entry of this file, or by attack-sets, attackers-occ and pins-and-checkers).  firstOneFromSQ11 enters as "any member of the set": one arbitrary
// iteration of every loop is executed; iterations that do not return only shorten the set and restore the position (same-position is an obligation on
// every path, hence also on paths through such iterations).
// Focus: the move returned is from F (arbitrary) to T (parameter); a contract only promises facts about F and T and the squares of the focus list.
#include "symmove.h"
#include "position.cpp"
static Cells C; static int US_, THEM, K, T, F, OWNK; static bool V; static Bitboard PIN; static bool LIGHT; // LIGHT: contracts promise nothing (their preconditions, the frame and memory safety are checked)
// geometry tables (computed natively from the rules, constants for the verifier): rays and knight squares around every square
struct Geo { uint16_t st[2][81][81], sl[2][81][81]; uint8_t ray[81][8][9], al[81][81]; uint8_t kn[2][81][3]; // kn[c][t]: squares from which a knight of colour c attacks t, 255 ends
    Geo() { static const int D[8][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}, {1, 1}, {1, -1}, {-1, 1}, {-1, -1}}; for (int c = 0; c < 2; ++c) for (int a = 0; a < 81; ++a) for (int b = 0; b < 81; ++b) { st[c][a][b] = a == b ? 0 : stepMask(c, a, b); sl[c][a][b] = a == b ? 0 : slideMask(c, a, b); }
        for (int a = 0; a < 81; ++a) for (int d = 0; d < 8; ++d) { int n = 0; for (int x = a / 9 + D[d][0], y = a % 9 + D[d][1]; x >= 0 && x < 9 && y >= 0 && y < 9; x += D[d][0], y += D[d][1]) ray[a][d][n++] = x * 9 + y; ray[a][d][n] = 255; }
        for (int c = 0; c < 2; ++c) for (int t = 0; t < 81; ++t) { int n = 0; for (int a = 0; a < 81; ++a) if (a != t && (stepMask(c, a, t) >> 3 & 1)) kn[c][t][n++] = a; kn[c][t][n] = 255; } } };
static Geo G;
struct BB { uint64_t a, b; };
static BB bbs(const Bitboard& x) { return BB{x.p(0), x.p(1)}; }
static bool at(const BB& x, int s) { return s < 63 ? (x.a >> s) & 1 : (x.b >> (s - 63)) & 1; }
static void put(BB& x, int s, bool v) { if (s < 63) x.a = (x.a & ~(1ull << s)) | (uint64_t)v << s; else x.b = (x.b & ~(1ull << (s - 63))) | (uint64_t)v << (s - 63); }
static Bitboard fresh(const char* n) { uint64_t a = vc_nondet(63, n), b = vc_nondet(18, n); return Bitboard(a, b); }
// the pieces of one colour, by the sets of movement rules that matter on a line: steps and slides towards a target
struct Side { int c; BB t[15]; BB un[24]; unsigned mk[24]; int n; };
static void side(const Position& p, int c, Side& S) { S.c = c; S.n = 0; BB col = bbs(p.byColorBB_[c]); for (int t = 1; t <= 14; ++t) { BB b = bbs(p.byTypeBB_[t]); S.t[t] = BB{b.a & col.a, b.b & col.b}; } BB g = bbs(p.goldsBB_); S.t[7] = BB{g.a & col.a, g.b & col.b}; for (int t = 9; t <= 12; ++t) S.t[t] = BB{0, 0}; } // gold movers: the gold set
static const BB& unionOf(Side& S, unsigned mask) { for (int i = 0; i < S.n; ++i) if (S.mk[i] == mask) return S.un[i]; BB u{0, 0}; for (int t = 1; t <= 14; ++t) if (mask >> t & 1) { u.a |= S.t[t].a; u.b |= S.t[t].b; } S.mk[S.n] = mask; S.un[S.n] = u; return S.un[S.n++]; }
static bool has(Side& S, int s, unsigned mask) { return mask ? at(unionOf(S, mask), s) : false; }
// every piece of S that attacks t under occ: out[i], on squares sq[i]
static int attackersOf(Side& S, int t, const BB& occ, unsigned types, uint8_t* sq, bool* out) { int n = 0; for (int d = 0; d < 8; ++d) { bool clear = true; for (const uint8_t* r = G.ray[t][d]; *r != 255; ++r) { int s = *r; bool a = has(S, s, G.st[S.c][s][t] & types); unsigned sl = G.sl[S.c][s][t] & types & ~G.st[S.c][s][t]; if (sl) a = a | (clear & has(S, s, sl)); if ((G.st[S.c][s][t] | G.sl[S.c][s][t]) & types) { sq[n] = s; out[n++] = a; } clear = clear & !at(occ, s); } }
    if (types >> 3 & 1) for (const uint8_t* r = G.kn[S.c][t]; *r != 255; ++r) { sq[n] = *r; out[n++] = at(S.t[3], *r); } return n; }
static bool attackedX(Side& S, int t, const BB& occ, int avoid, bool av) { uint8_t sq[64]; bool o[64]; int n = attackersOf(S, t, occ, 0xffff, sq, o); bool r = false; for (int i = 0; i < n; ++i) r = r | (av ? o[i] & (avoid != sq[i]) : o[i]); return r; }
static bool nbr(int t) { return G.st[0][K][t] >> 8 & 1; }
static BB occWith(BB o, int set, int clr) { put(o, set, true); put(o, clr, false); return o; }
static bool aligned(int a, int b, int c) { if (a == b || a == c) return false; int x1 = c / 9 - a / 9, y1 = c % 9 - a % 9, x2 = b / 9 - a / 9, y2 = b % 9 - a % 9; return x1 * y2 == x2 * y1 && (x1 == 0 || y1 == 0 || x1 == y1 || x1 == -y1); } // one line (either side), as the code's relation table has it
// ---- contracts, shared by the stubs and by the entries that discharge them on the real helpers
static bool kSafe(const Position& p, int us, int sq, const Bitboard& bb) { Side S; side(p, us, S); BB occ = occWith(bbs(p.byTypeBB_[0]), sq, K), b = bbs(bb), th = bbs(p.byColorBB_[1 - us]); bool ok = true; for (int t = 0; t < 81; ++t) if (nbr(t) && t != sq) ok = ok & (at(b, t) | at(th, t) | attackedX(S, t, occ, 127, false)); return ok; }
static bool kGoto(const Position& p, int us, int from, int to, const Bitboard& avoid, const Bitboard& slide) { Side S; side(p, us, S); BB occ = bbs(slide); bool kk = at(occ, K); put(occ, to, true); put(occ, K, !kk); BB b = bbs(avoid), th = bbs(p.byColorBB_[1 - us]); bool ok = true; for (int t = 0; t < 81; ++t) if (nbr(t)) { bool a = attackedX(S, t, occ, from, true); ok = ok & (t == to ? a : (a | at(b, t) | at(th, t))); } return ok; }
static bool noCapt(const Position& p, int them, int sq, const Bitboard& pins, const Bitboard& occ, int avoid, bool av) { Side S; side(p, them, S); uint8_t q[64]; bool o[64]; int n = attackersOf(S, sq, bbs(occ), ~(1u << 8), q, o); BB pi = bbs(pins), kg = bbs(p.byTypeBB_[8]); bool ok = true; for (int i = 0; i < n; ++i) { bool a = (av ? o[i] & (avoid != q[i]) : o[i]) & !at(kg, q[i]); bool st = aligned(q[i], sq, K) ? false : at(pi, q[i]); ok = ok & (!a | st); } return ok; }
extern "C" Square ct_pick(Bitboard* b) { int s = (int)vc_nondet(7, "pick"); BB x = bbs(*b); bool m = s < 63 ? (x.a >> (s & 63)) & 1 : (x.b >> ((s - 63) & 63)) & 1; vc_assume((s < 81) & m); *b = Bitboard(0, 0); return (Square)s; }
// what a helper needs of the (partly taken apart) position: the king on K; its piece sets are taken as they are
static bool pawnOnLast(const Position& p);
static bool inv(const Position& p) { return p.kingSquare_[THEM] == K; }
extern "C" bool ct_canKingEscape(const Position* p, int us, int sq, const Bitboard* bb) { vc_assert((us == US_) & inv(*p), "canKingEscape:pre"); if (LIGHT) return vc_nondet(1, "r"); bool r = vc_nondet(1, "kesc"); vc_assume(r | (sq != T) | kSafe(*p, us, T, *bb)); return r; }
extern "C" bool ct_canPieceCapture(const Position* p, int them, int sq, const Bitboard* dc) { vc_assert((them == THEM) & inv(*p), "canPieceCapture:pre"); if (LIGHT) return vc_nondet(1, "r"); bool r = vc_nondet(1, "pcap"); vc_assume(r | (sq != T) | noCapt(*p, them, T, *dc, p->byTypeBB_[0], 127, false)); return r; }
extern "C" bool ct_cangoto(const Position* p, int them, int from, int to, const Bitboard* avoid, const Bitboard* slide) { vc_assert((them == THEM) & inv(*p), "can_king_escape_cangoto:pre"); if (LIGHT) return vc_nondet(1, "r"); bool r = vc_nondet(1, "kgoto"); vc_assume(r | (to != T) | kGoto(*p, US_, from, T, *avoid, *slide)); return r; }
extern "C" bool ct_capture5(const Position* p, int them, int sq, const Bitboard* pins, const Bitboard* occ) { vc_assert((them == THEM) & inv(*p), "can_piece_capture:pre"); if (LIGHT) return vc_nondet(1, "r"); bool r = vc_nondet(1, "pcap"); vc_assume(r | (sq != T) | noCapt(*p, them, T, *pins, *occ, 127, false)); return r; }
extern "C" bool ct_capture6(const Position* p, int them, int sq, int avoid, const Bitboard* pins, const Bitboard* occ) { vc_assert((them == THEM) & inv(*p), "can_piece_capture:pre"); if (LIGHT) return vc_nondet(1, "r"); bool r = vc_nondet(1, "pcap"); vc_assume(r | (sq != T) | noCapt(*p, them, T, *pins, *occ, avoid, true)); return r; }
// attackersTo: exact at T; always a set of pieces of that colour
extern "C" Bitboard ct_attackersTo(const Position* p, int c, int sq, const Bitboard* occ) { if (LIGHT) return fresh("att") & p->byColorBB_[c]; Bitboard f = fresh("att") & p->byColorBB_[c]; Side S; side(*p, c, S); uint8_t q[64]; bool o[64]; int n = attackersOf(S, T, bbs(*occ), 0xffff, q, o); BB e{0, 0}; for (int i = 0; i < n; ++i) put(e, q[i], o[i]); BB g = bbs(f); bool h = sq == T; return Bitboard(h ? e.a : g.a, h ? e.b : g.b); }
// slider attacks from sq: exact if sq is T or K, and exact about T for every sq
static BB slideFrom(int pt, int c, int q, const BB& occ) { BB e{0, 0}; for (int d = 0; d < 8; ++d) { bool clear = true; for (const uint8_t* r = G.ray[q][d]; *r != 255; ++r) { int t = *r; bool a = (G.st[c][q][t] >> pt & 1) ? true : (G.sl[c][q][t] >> pt & 1) ? clear : false; put(e, t, a); clear = clear & !at(occ, t); } } return e; }
static Bitboard slideSet(int pt, int c, int sq, const Bitboard& occ_) { if (LIGHT) return fresh("reach"); BB occ = bbs(occ_); bool isK = sq == K; if (vc_is_const(isK) && isK) { BB e = slideFrom(pt, c, K, occ); return Bitboard(e.a, e.b); }
    BB g = bbs(fresh("reach")); bool hitT = false; for (int d = 0; d < 8; ++d) { bool clear = true; for (const uint8_t* r = G.ray[T][d]; *r != 255; ++r) { int q = *r; bool a = (G.st[c][q][T] >> pt & 1) ? true : (G.sl[c][q][T] >> pt & 1) ? clear : false; hitT = hitT | (a & (sq == q)); clear = clear & !at(occ, q); } } put(g, T, hitT);
    BB e = slideFrom(pt, c, T, occ); bool h = sq == T; return Bitboard(h ? e.a : g.a, h ? e.b : g.b); }
extern "C" Bitboard ct_rook(int sq, const Bitboard* o) { return slideSet(6, 0, sq, *o); }
extern "C" Bitboard ct_bishop(int sq, const Bitboard* o) { return slideSet(5, 0, sq, *o); }
extern "C" Bitboard ct_horse(int sq, const Bitboard* o) { return slideSet(13, 0, sq, *o); }
extern "C" Bitboard ct_dragon(int sq, const Bitboard* o) { return slideSet(14, 0, sq, *o); }
extern "C" Bitboard ct_lance(int c, int sq, const Bitboard* o) { return slideSet(2, c, sq, *o); }
// pieces of colour 'own' standing alone between the king on K and a slider of US
static Bitboard betweens(const Position& p, int own) { Side S; side(p, US_, S); BB occ = bbs(p.byTypeBB_[0]), ow = bbs(p.byColorBB_[own]), e{0, 0};
    for (int d = 0; d < 8; ++d) { bool before = true; for (const uint8_t* r = G.ray[K][d]; *r != 255; ++r) { bool o = at(occ, *r), hit = false, clear = true; for (const uint8_t* q = r + 1; *q != 255; ++q) { hit = hit | (clear & has(S, *q, G.sl[US_][*q][K])); clear = clear & !at(occ, *q); } put(e, *r, before & o & hit & at(ow, *r)); before = before & !o; } }
    return Bitboard(e.a, e.b); }
extern "C" Bitboard ct_dcThem(const Position* p) { vc_assert(inv(*p) & (p->turn_ == US_), "discoveredCheckBB:pre"); return betweens(*p, THEM); }
extern "C" Bitboard ct_dcUs(const Position* p) { vc_assert(inv(*p) & (p->turn_ == US_), "discoveredCheckBB:pre"); return betweens(*p, US_); }
extern "C" Bitboard ct_pinned(const Position* p) { return PIN; }
extern "C" Bitboard ct_pinnedPieces(const Position* p, int us, int from, int to) { return fresh("pins"); }
extern "C" bool ct_illegal(const Position* p, int from, int to, int k, const Bitboard* pins) { vc_assert(bbEq(*pins, PIN) & (k == OWNK), "isPinnedIllegal:pre"); bool r = vc_nondet(1, "pinill"); return ((from == F) & (to == T)) ? V | r : r; }
extern "C" bool ct_aligned(int a, int b, int c) { bool r = vc_nondet(1, "aligned"), e = false, ray = false; for (int d = 0; d < 8; ++d) for (const uint8_t* q = G.ray[K][d]; *q != 255; ++q) { ray = ray | (a == *q); if (aligned(*q, T, K)) e = e | (a == *q); } return (b == T) & (c == K) & (a != T) & ray ? e : r; } // known for pieces on the king's lines only
extern "C" Square ct_next(int a, int b) { int e = 81; bool known = false; for (int d = 0; d < 8; ++d) { int prev = K; for (const uint8_t* q = G.ray[K][d]; *q != 255; ++q) { bool h = (b == *q) & ((a == K) | (a == prev)); known = known | h; e = h ? (q[1] == 255 ? 81 : q[1]) : e; prev = *q; } } bool kk = (a == K) & (b < 81); if (vc_is_const(known | kk) && (known | kk)) return (Square)e; int r = (int)vc_nondet(7, "next"); vc_assume(r <= 81); return (Square)(known | kk ? e : r); } // on the rays of K
static bool pawnHits(Side& S, int t) { bool r = false; for (int d = 0; d < 8; ++d) if (G.ray[t][d][0] != 255) r = r | has(S, G.ray[t][d][0], G.st[S.c][G.ray[t][d][0]][t] & 2); return r; } // a pawn's square counts even where the moved piece is left out
static Bitboard around(const Position* p, const Bitboard& occ, int avoid, bool av, bool pawns = false) { if (LIGHT) return fresh("around"); BB r = bbs(fresh("around")); Side S; side(*p, US_, S); BB o = bbs(occ); bool ok = true; for (int t = 0; t < 81; ++t) if (nbr(t)) ok = ok & (!at(r, t) | attackedX(S, t, o, avoid, av) | (pawns ? pawnHits(S, t) : false)); vc_assume(ok); return Bitboard(r.a, r.b); }
extern "C" Bitboard ct_akns(const Position* p) { vc_assert(inv(*p) & !pawnOnLast(*p), "attacksAroundKing:pre"); return around(p, p->byTypeBB_[0], 127, false); }
extern "C" Bitboard ct_slider(const Position* p, int us, const Bitboard* occ) { vc_assert((us == US_) & inv(*p), "attacksSlider:pre"); return around(p, *occ, 127, false); }
extern "C" Bitboard ct_sliderAvoid(const Position* p, int us, int from, const Bitboard* occ) { vc_assert((us == US_) & inv(*p), "attacksSlider:pre"); return around(p, *occ, from, true); }
extern "C" Bitboard ct_aknsAvoid(const Position* p, int from) { vc_assert(inv(*p) & !pawnOnLast(*p), "attacksAroundKing:pre"); return around(p, p->byTypeBB_[0], from, true, true); }

static bool attackedAfter(const Cells& D, int by, int sq) { bool att[81]; attackersSpec(D, by, sq, att); bool a = false; for (int s = 0; s < 81; ++s) a = a | att[s]; return a; }
static bool deadSq(int us, int pt, int to) { int r = to % 9; int rr = us ? 8 - r : r; return ((rr == 0) & ((pt == 1) | (pt == 2))) | ((rr <= 1) & (pt == 3)); }
static bool zone(int us, int s) { bool r = false; for (int t = 0; t < 81; ++t) { int rr = us ? 8 - t % 9 : t % 9; if (rr <= 2) r = r | (s == t); } return r; }
static void setup(int us, int k, int t, bool drop) {
    US_ = us; THEM = 1 - us; K = k; T = t; OWNK = (int)vc_nondet(7, "ownking"); vc_assume(OWNK <= 81); vc_assume(OWNK != K);
    symCells(C, us ? k : OWNK, us ? OWNK : k, us, SP_NODEAD); vc_assume(!attackedAfter(C, us, K));
    V = vc_nondet(1, "exposes"); PIN = fresh("pinned"); if (drop) F = 127; else { F = (int)vc_nondet(7, "from"); vc_assume(F < 81); }
}
static Position P0, P; static StateInfo ST0, ST;
// frame: the position is as before, every helper is called with what it needs, no access out of bounds
extern "C" void h_frame() { int us = (int)vc_param(0), k = (int)vc_param(1); LIGHT = true; setup(us, k, 0, false); buildPosition(P0, C, ST0); buildPosition(P, C, ST); P.st_ = P0.st_ = &ST; P.mateMoveIn1Ply<true>(); samePosition(P, P0, "position-unchanged"); vc_cover("end"); }
extern "C" void h_contact() {
    int us = (int)vc_param(0), k = (int)vc_param(1), t = (int)vc_param(2); bool drop = vc_param(3); setup(us, k, t, drop);
    buildPosition(P0, C, ST0); buildPosition(P, C, ST); P.st_ = P0.st_ = &ST;
    Move mv = P.mateMoveIn1Ply<true>(); uint32_t v = mv.value_; samePosition(P, P0, "position-unchanged");
    SymMove m; m.v = v; m.to = v & 127; m.from = (v >> 7) & 127; m.pro = (v >> 14) & 1; m.drop = drop; m.cap = (v >> 20) & 15; m.pt = drop ? m.from - 80 : (v >> 16) & 15;
    vc_assume(v != 0); vc_assume(m.to == T); if (drop) vc_assume(m.from > 80); else vc_assume(m.from == F); m.to = T;
    int tp = C.pc[T]; bool dead = deadSq(us, m.pt, T);
    if (drop) { bool has = false; for (int h = 0; h < 7; ++h) has = has | ((HAND_PT[h] == m.pt) & (C.hand[us][h] != 0)); vc_assert((m.pt >= 2) & (m.pt <= 7) & (v < 16384), "drop-fields"); vc_assert(has & (tp == 0) & !dead, "drop-is-legal"); m.cap = 0; m.pro = false; }
    else { vc_assert((m.pt != 0) & (m.pt != 8) & (C.pc[m.from] == (us << 4 | m.pt)), "moves-own-piece"); vc_assert((m.cap == (tp & 15)) & ((tp == 0) | ((tp >> 4) == THEM)) & (m.cap != 8), "capture-field"); vc_assert((v >> 24) == 0, "fields"); vc_assert((v & 0x8000) == 0, "fields");
        bool z = zone(us, m.from) | zone(us, T); vc_assert(m.pro ? (m.pt <= 6) & z : !dead, "promotion"); vc_assert(reaches(C, us, m.pt, m.from, T), "piece-reaches"); }
    Cells D; successor(C, m, us, D); if (!vc_symbolic()) V = OWNK < 81 && attackedAfter(D, THEM, OWNK); if (!drop) vc_assert(!V, "own-king-safe");
    // the piece arriving on T gives check from next to the king or by a knight's jump
    bool direct = false; { unsigned st = stepMask(us, T, K), sl = slideMask(us, T, K); int dp = D.pc[T] & 15; direct = ((st | sl) >> dp) & 1; }
    vc_assume(direct);
    for (int q = 0; q < 81; ++q) if (nbr(q)) { bool free = (D.pc[q] == 0) | ((D.pc[q] >> 4) == us); Cells E = D; E.pc[K] = 0; E.pc[q] = (uint8_t)(THEM << 4 | 8); vc_assert(!free | attackedAfter(E, us, q), "king-cannot-escape"); }
    for (int f = 0; f < 81; ++f) { if (f == K || f == T) continue; unsigned sm = stepMask(THEM, f, T) & ~256u, sl = slideMask(THEM, f, T) & ~256u; if (!(sm | sl)) continue; int pt = D.pc[f] & 15; bool mine = (D.pc[f] != 0) & ((D.pc[f] >> 4) == THEM); bool a = (sm >> pt) & 1; if (sl) a = a | (((sl >> pt) & 1) & clearBetween(f, T, OccOf{&D})); Cells E = D; E.pc[T] = D.pc[f]; E.pc[f] = 0; vc_assert(!(mine & a) | attackedAfter(E, us, K), "checker-cannot-be-taken"); }
    vc_cover("end");
}

// ---- the helpers' contracts on the real helpers
static Bitboard arb(const char* n) { uint64_t a = vc_nondet(63, n), b = vc_nondet(18, n); return Bitboard(a, b); }
static void helperPos(int us, int k, int t) { // any contents of the piece sets whatsoever
    US_ = us; THEM = 1 - us; K = k; T = t; for (int i = 0; i <= 14; ++i) P.byTypeBB_[i] = arb("type"); for (int c = 0; c < 2; ++c) P.byColorBB_[c] = arb("colour"); P.goldsBB_ = arb("golds"); P.kingSquare_[THEM] = (Square)k; int ok = (int)vc_nondet(7, "ownking"); vc_assume(ok <= 81); P.kingSquare_[US_] = (Square)ok; P.turn_ = (Color)us; P.st_ = &ST; }
static bool pawnOnLast(const Position& p) { BB b = bbs(p.byTypeBB_[1]), c = bbs(p.byColorBB_[US_]); bool r = false; for (int f = 0; f < 9; ++f) { int s = f * 9 + (US_ ? 8 : 0); r = r | (at(b, s) & at(c, s)); } return r; }
extern "C" void h_escape() { helperPos((int)vc_param(0), (int)vc_param(1), (int)vc_param(2)); Bitboard bb = arb("bb"); bool r = canKingEscape(P, (Color)US_, (Square)T, bb); if (!r) vc_cover("claimed"); vc_assert(r | kSafe(P, US_, T, bb), "canKingEscape:no-safe-square-left"); vc_cover("end"); }
extern "C" void h_cangoto() { helperPos((int)vc_param(0), (int)vc_param(1), (int)vc_param(2)); Bitboard bb = arb("bb"), occ = arb("occ"); int from = (int)vc_nondet(7, "from"); vc_assume(from < 81); bool r = can_king_escape_cangoto(P, (Color)THEM, (Square)from, (Square)T, bb, occ); vc_assert(r | kGoto(P, US_, from, T, bb, occ), "can_king_escape_cangoto:no-safe-square-left"); vc_cover("end"); }
extern "C" void h_capture() { helperPos((int)vc_param(0), (int)vc_param(1), (int)vc_param(2)); int kind = (int)vc_param(3); Bitboard pins = arb("pins"), occ = arb("occ"); int av = (int)vc_nondet(7, "avoid"); vc_assume(av < 81);
    bool r = kind == 0 ? canPieceCapture(P, (Color)THEM, (Square)T, pins) : kind == 1 ? can_piece_capture(P, (Color)THEM, (Square)T, pins, occ) : can_piece_capture(P, (Color)THEM, (Square)T, (Square)av, pins, occ);
    vc_assert(r | noCapt(P, THEM, T, pins, kind ? occ : P.byTypeBB_[0], kind == 2 ? av : 127, kind == 2), "canPieceCapture:nothing-takes"); vc_cover("end"); }
extern "C" void h_hidden() { helperPos((int)vc_param(0), (int)vc_param(1), 127); vc_assert(bbEq(P.discoveredCheckBB<false>(), betweens(P, THEM)), "pinned-by-us"); vc_assert(bbEq(P.discoveredCheckBB<true>(), betweens(P, US_)), "discovered-check"); vc_cover("end"); }
extern "C" void h_lines() { K = (int)vc_param(0); int a = (int)vc_nondet(7, "a"), b = (int)vc_nondet(7, "b"); vc_assume((a < 81) & (b < 81) & (a != K) & (b != K) & (a != b)); bool got = isAligned<true>((Square)a, (Square)b, (Square)K); int n1 = nextSquare((Square)K, (Square)b), n2 = nextSquare((Square)a, (Square)b); vc_assert(n1 <= 81, "next-square"); bool on = false;
    for (int d = 0; d < 8; ++d) { int prev = K; for (const uint8_t* q = G.ray[K][d]; *q != 255; ++q) { bool e = false; for (int t = 0; t < 81; ++t) if (t != K && t != *q && aligned(*q, t, K)) e = e | (b == t); vc_assert(!((a == *q) & (got != e)), "aligned"); int x = q[1] == 255 ? 81 : q[1]; vc_assert(!((b == *q) & (n1 != x)), "next-square"); vc_assert(!((b == *q) & (a == prev) & (n2 != x)), "next-square"); on = on | (b == *q); prev = *q; } }
    vc_assert(on | (n1 == 81), "next-square"); vc_cover("end"); }
// attack unions around the king: whatever square next to the king they contain is attacked
static void limit(const BB& x, int n) { int c = 0; for (int s = 0; s < 81; ++s) c += at(x, s); vc_assume(c <= n); }
extern "C" void h_around() { int kind = (int)vc_param(3); helperPos((int)vc_param(0), (int)vc_param(1), (int)vc_param(2)); Side S; side(P, US_, S); vc_assume(!pawnOnLast(P)); Bitboard occ = arb("occ"), r; int av = (int)vc_nondet(7, "avoid"); vc_assume(av < 81);
    if (kind < 3) { limit(S.t[2], 4); limit(unionOf(S, 1 << 5 | 1 << 13), 2); limit(unionOf(S, 1 << 6 | 1 << 14), 2); }
    if (kind == 0) r = P.attacksSlider((Color)US_, occ); else if (kind == 1) r = P.attacksSlider((Color)US_, (Square)av, occ); else if (kind == 2) r = US_ ? P.attacksAroundKingSlider<Black>() : P.attacksAroundKingSlider<White>(); else if (kind == 3) r = US_ ? P.attacksAroundKingNonSlider<Black>() : P.attacksAroundKingNonSlider<White>(); else r = US_ ? P.attacksAroundKingNonSliderInAvoiding<Black>((Square)av) : P.attacksAroundKingNonSliderInAvoiding<White>((Square)av);
    bool avoids = kind == 1 || kind == 4; vc_assert(!at(bbs(r), T) | attackedX(S, T, bbs(kind < 2 ? occ : P.byTypeBB_[0]), av, avoids) | (kind == 4 ? pawnHits(S, T) : false), "attack-union"); vc_cover("end"); }
