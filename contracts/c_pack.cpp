// Packed positions (P11).  fmt 0: Huffman coded position, 1: packed sfen.
// A packed position is the token sequence  turn(1) blackKing(7) whiteKing(7)  code(square) for the 79 squares without a king in order,
// then one token per piece in hand and per piece in the box.  The writer is proved to emit exactly that sequence (loop invariant over the
// squares), the reader to reconstruct the position from any such sequence (loop invariants over squares and hand tokens), the bit stream
// to store and return bits at every position, and the code tables to be prefix-free, of matching lengths and inverted by the lookup maps.
#include "genspec.h"
static int g_fmt; static const Position* g_p; static int g_stage, g_calls, g_sq, g_k, g_len, g_rem, g_seen; static const BitStream* g_bs; static uint8_t g_buf[40]; static bool g_bad;
static int g_cnt[7], g_tHand[2][7], g_tBox[7]; static Cells g_cells; static int g_hc[2][7]; static int g_tok; static uint64_t g_bk, g_hk; static int g_final;
static const HuffmanCode& bcode(int pc) { return g_fmt ? PackedSfen::boardCodeTable[pc] : HuffmanCodedPos::boardCodeTable[pc]; }
static const HuffmanCode& hcode(int h, int c) { return g_fmt ? PackedSfen::handCodeTable[h][c] : HuffmanCodedPos::handCodeTable[h][c]; }
static const HuffmanCode& xcode(int h) { return g_fmt ? PackedSfen::pieceBoxCodeTable[h] : HuffmanCodedPos::pieceBoxCodeTable[h]; }
static bool isPc(int pc) { int t = pc & 15; return pc == 0 || (t != 0 && t != 8 && t != 15); }
static int codeOf(int pc) { int v = 0; for (int q = 0; q < 31; ++q) if (isPc(q)) v = pc == q ? bcode(q).code : v; return v; }
static int lenOf(int pc) { int v = 0; for (int q = 0; q < 31; ++q) if (isPc(q)) v = pc == q ? bcode(q).numOfBits : v; return v; }
static int pcAt(int sq) { int v = 0; for (int s = 0; s < 81; ++s) v = sq == s ? g_cells.pc[s] : v; return v; }
static bool king(int pc) { return (pc & 15) == 8; }
// ---- code tables and lookup maps ----
extern "C" void h_tables() {
    g_fmt = (int)vc_param(0); int tot = 1 + 7 + 7 + 79;
    for (int a = 0; a < 31; ++a) if (isPc(a)) { int la = bcode(a).numOfBits; vc_assert(la >= 1 && la <= 8 && (bcode(a).code >> la) == 0, "code-length"); if (a) { int h = handIdx(a & 15), c = a >> 4; vc_assert(hcode(h, c).numOfBits == la - 1 && xcode(h).numOfBits == la - 1, "hand-code-length"); } else vc_assert(la == 1, "empty-code-length");
        for (int b = 0; b < 31; ++b) if (isPc(b) && b != a) { int l = la < bcode(b).numOfBits ? la : bcode(b).numOfBits; vc_assert(((bcode(a).code ^ bcode(b).code) & ((1 << l) - 1)) != 0, "board-codes-prefix-free"); } }
    for (int a = 0; a < 21; ++a) { const HuffmanCode& x = a < 14 ? hcode(a % 7, a / 7) : xcode(a - 14); vc_assert(x.numOfBits >= 1 && x.numOfBits <= 8 && (x.code >> x.numOfBits) == 0, "code-length");
        for (int b = 0; b < 21; ++b) if (b != a) { const HuffmanCode& y = b < 14 ? hcode(b % 7, b / 7) : xcode(b - 14); int l = x.numOfBits < y.numOfBits ? x.numOfBits : y.numOfBits; vc_assert(((x.code ^ y.code) & ((1 << l) - 1)) != 0, "hand-codes-prefix-free"); } }
    for (int h = 0; h < 7; ++h) tot += HAND_MAX[h] * xcode(h).numOfBits; vc_assert(tot == 256, "256-bits"); vc_cover("end");
}
extern "C" void h_maps() { // the real maps, built by the real initialisation, for every code a reader can form
    g_fmt = (int)vc_param(0); const HuffmanCodeToPieceHash& B = g_fmt ? PackedSfen::boardCodeToPieceHash : HuffmanCodedPos::boardCodeToPieceHash; const HuffmanCodeToPieceHash& H = g_fmt ? PackedSfen::handCodeToPieceHash : HuffmanCodedPos::handCodeToPieceHash;
    for (int n = 1; n <= 9; ++n) for (int c = 0; c < 256; ++c) { HuffmanCode k; k.code = (u8)c; k.numOfBits = (u8)n; int wb = PieceNone, wh = PieceNone;
        for (int q = 0; q < 31; ++q) if (isPc(q) && bcode(q).key == k.key) wb = q; for (int h = 0; h < 7; ++h) { for (int co = 0; co < 2; ++co) if (hcode(h, co).key == k.key) wh = HAND_PT[h] + 16 * co; if (xcode(h).key == k.key) wh = 0; }
        vc_assert(B.value(k.key) == wb, "board-map"); vc_assert(H.value(k.key) == wh, "hand-map"); } vc_cover("end");
}
// ---- bit stream at every position ----
extern "C" void h_bits() {
    int by = (int)vc_param(0); uint8_t d[34];
    for (int cu = 0; cu < 8; ++cu) for (int n = 1; n <= 8; ++n) { if (by * 8 + cu + n > 256) continue; for (int i = 0; i < 34; ++i) d[i] = i < by ? (uint8_t)vc_nondet(8, "b") : i == by ? (uint8_t)(vc_nondet(8, "b") & ((1 << cu) - 1)) : 0; uint8_t o[34]; for (int i = 0; i < 34; ++i) o[i] = d[i];
        unsigned v = (unsigned)vc_nondet(8, "v") & ((1u << n) - 1); BitStream bs(d); bs.data_ = d + by; bs.curr_ = cu; if (n == 1) bs.putBit((u8)v); else bs.putBits((u8)v, n); int e = by * 8 + cu + n; vc_assert(bs.data() == d + e / 8 && bs.curr() == e % 8, "put-advances");
        bool ok = true; for (int i = 0; i < 34; ++i) { unsigned w = o[i]; if (i == by) w |= (v << cu) & 255; if (i == by + 1) w |= (v << cu) >> 8; ok = ok & (d[i] == w); } vc_assert(ok, "put-writes-exactly-the-bits");
        for (int i = 0; i < 34; ++i) d[i] = (uint8_t)vc_nondet(8, "b"); BitStream br(d); br.data_ = d + by; br.curr_ = cu; for (int i = 0; i < 34; ++i) o[i] = d[i]; unsigned g = n == 1 ? br.getBit() : br.getBits(n); unsigned w = ((d[by] | d[by + 1] << 8) >> cu) & ((1u << n) - 1); ok = g == w; for (int i = 0; i < 34; ++i) ok = ok & (o[i] == d[i]); vc_assert(ok, "get-reads-exactly-the-bits"); vc_assert(br.data() == d + e / 8 && br.curr() == e % 8, "get-advances"); }
    BitStream b0(d); vc_assert(b0.data() == d && b0.curr() == 0, "stream-starts-at-bit-0"); vc_cover("end");
}
// ---- writer ----
static void put(const BitStream* b, unsigned v, int n) {
    if (g_stage == 0) { bool z = true; for (int i = 0; i < 32; ++i) z = z & (g_buf[i] == 0); vc_assert(z & (b->data_ == g_buf) & (b->curr_ == 0), "writer-starts-on-zeroed-buffer"); vc_assert((v == (unsigned)g_cells.turn) & (n == 1), "turn-token"); g_bs = b; g_stage = 1; return; }
    vc_assert(b == g_bs, "one-stream");
    if (g_stage <= 2) { vc_assert((v == (unsigned)g_cells.k[g_stage - 1]) & (n == 7), "king-token"); ++g_stage; return; }
    ++g_calls; bool board = g_sq < 81; int pc = pcAt(g_sq); g_bad = g_bad | (board & !((v == (unsigned)codeOf(pc)) & (n == lenOf(pc)) & !king(pc)));
    bool any = false; for (int h = 0; h < 7; ++h) { for (int c = 0; c < 2; ++c) { bool m = (v == hcode(h, c).code) & (n == hcode(h, c).numOfBits); g_tHand[c][h] += m & !board; any = any | m; } bool m = (v == xcode(h).code) & (n == xcode(h).numOfBits); g_tBox[h] += m & !board; any = any | m; }
    g_bad = g_bad | (!board & !any);
}
extern "C" void ct_putBit(BitStream* b, u8 v) { put(b, v, 1); }
extern "C" void ct_putBits(BitStream* b, u8 v, int n) { put(b, v, n); }
// the loop's square counter: a loop-carried register, or the one 4-byte local the loop writes (null until the verifier has found which locals it writes)
struct Ctr { int* mem; int64_t* reg; bool ok() const { return mem || reg; } int get() const { return mem ? *mem : (int)*reg; } void set(int v) const { if (mem) *mem = v; else *reg = v; } };
static Ctr counter(int n, int64_t* a, uint64_t ptrs) { Ctr c = {nullptr, nullptr}; if (n == 1 && ptrs == 0) c.reg = a; else if (n == 0) c.mem = (int*)vc_loop_local(4); vc_assert(c.ok(), "loop-shape"); return c; }
extern "C" void inv_enc(int phase, int n, int64_t* a, uint64_t ptrs) {
    Ctr i = counter(n, a, ptrs); int* hp = (int*)vc_loop_local(32); vc_assert(hp != nullptr, "loop-shape"); if (!i.ok() || !hp) return; int sq = i.get();
    if (phase == 0) { bool ok = sq == 0; for (int h = 0; h < 7; ++h) ok = ok & (hp[h] == HAND_MAX[h]); vc_assert(ok & (g_stage == 3), "loop-entry"); }
    if (phase == 1) { g_sq = (int)vc_nondet(7, "sq"); vc_assume(g_sq <= 81); i.set(g_sq); for (int h = 0; h < 7; ++h) { g_cnt[h] = (int)vc_nondet(7, "onBoard"); vc_assume(g_cnt[h] <= 81); hp[h] = HAND_MAX[h] - g_cnt[h]; } hp[7] = (int)vc_nondet(32, "spare");
        vc_assume((g_sq < 81) | ((g_cnt[0] + g_cells.hand[0][0] + g_cells.hand[1][0] <= HAND_MAX[0]) & (g_cnt[1] + g_cells.hand[0][1] + g_cells.hand[1][1] <= HAND_MAX[1]) & (g_cnt[2] + g_cells.hand[0][2] + g_cells.hand[1][2] <= HAND_MAX[2]) & (g_cnt[3] + g_cells.hand[0][3] + g_cells.hand[1][3] <= HAND_MAX[3]) & (g_cnt[4] + g_cells.hand[0][4] + g_cells.hand[1][4] <= HAND_MAX[4]) & (g_cnt[5] + g_cells.hand[0][5] + g_cells.hand[1][5] <= HAND_MAX[5]) & (g_cnt[6] + g_cells.hand[0][6] + g_cells.hand[1][6] <= HAND_MAX[6])));
        g_calls = 0; g_bad = false; for (int h = 0; h < 7; ++h) g_tHand[0][h] = g_tHand[1][h] = g_tBox[h] = 0; vc_frame(&g_calls, 4); vc_frame(&g_bad, 1); vc_frame(g_tHand, sizeof g_tHand); vc_frame(g_tBox, sizeof g_tBox); vc_frame(hp, 32); }
    if (phase == 2) { int pc = pcAt(g_sq); vc_assert(sq == g_sq + 1, "loop-index"); vc_assert(!g_bad & (g_calls == (king(pc) ? 0 : 1)), "square-token"); bool ok = true; for (int h = 0; h < 7; ++h) ok = ok & (hp[h] == HAND_MAX[h] - g_cnt[h] - ((pc != 0) & !king(pc) & (handIdx(pc & 15) == h) ? 1 : 0)); vc_assert(ok, "box-count"); }
}
static void kings(int turn) { int k0 = (int)vc_nondet(7, "k0"), k1 = (int)vc_nondet(7, "k1"); vc_assume((k0 < 81) & (k1 < 81) & (k0 != k1)); symCells(g_cells, k0, k1, turn); assumeHandLimits(g_cells); }
// native replay: the pieces of the counterexample beyond the standard set are taken off, then the position goes through writer and reader
static void roundTrip() {
    Cells c = g_cells; int n[7] = {}; for (int s = 0; s < 81; ++s) if (c.pc[s] && !king(c.pc[s])) { int h = handIdx(c.pc[s] & 15); if (n[h] == HAND_MAX[h]) c.pc[s] = 0; else ++n[h]; }
    for (int co = 0; co < 2; ++co) for (int h = 0; h < 7; ++h) { while (n[h] + c.hand[co][h] > HAND_MAX[h]) --c.hand[co][h]; n[h] += c.hand[co][h]; }
    static Position p, q, r; StateInfo st; buildPosition(p, c, st); memset(g_buf, 0xa5, sizeof g_buf); memset((void*)&q, 0x5a, sizeof q); if (g_fmt) p.toPackedSfen(g_buf); else p.toHuffmanCodedPos(g_buf);
    vc_assert(g_buf[32] == 0xa5, "writes-32-bytes"); bool threw = false; try { if (g_fmt) q.set_psfen((const char*)g_buf); else q.set_hcp((const char*)g_buf); } catch (std::exception&) { threw = true; } vc_assert(!threw, "no-exception"); if (threw) return;
    StateInfo st2; buildPosition(r, c, st2); bool ok = true; for (int s = 0; s < 81; ++s) ok = ok & (q.piece_[s] == r.piece_[s]); for (int t = 0; t <= 14; ++t) ok = ok & bbEq(q.byTypeBB_[t], r.byTypeBB_[t]); for (int co = 0; co < 2; ++co) ok = ok & (q.hand_[co].value() == r.hand_[co].value()) & (q.kingSquare_[co] == r.kingSquare_[co]) & bbEq(q.byColorBB_[co], r.byColorBB_[co]);
    ok = ok & (q.turn_ == r.turn_) & (q.gamePly_ == 1) & bbEq(q.goldsBB_, r.goldsBB_) & (q.st_->boardKey == r.computeBoardKey()) & (q.st_->handKey == r.computeHandKey()) & (q.st_->hand.value() == r.hand_[c.turn].value()); r.st_->checkersBB = Bitboard(0, 0); r.findCheckers(); ok = ok & bbEq(q.st_->checkersBB, r.st_->checkersBB); vc_assert(ok, "decoded-position");
}
extern "C" void h_enc() {
    g_fmt = (int)vc_param(0); kings((int)vc_nondet(1, "turn")); Position p; StateInfo st; buildPosition(p, g_cells, st); g_p = &p; g_stage = 0; g_sq = 0; if (!vc_symbolic()) return roundTrip(); for (int i = 0; i < 40; ++i) g_buf[i] = (uint8_t)vc_nondet(8, "junk"); uint8_t o[8]; for (int i = 0; i < 8; ++i) o[i] = g_buf[32 + i];
    if (g_fmt) p.toPackedSfen(g_buf); else p.toHuffmanCodedPos(g_buf);
    vc_assert(!g_bad, "hand-token"); for (int h = 0; h < 7; ++h) { for (int c = 0; c < 2; ++c) vc_assert(g_tHand[c][h] == g_cells.hand[c][h], "hand-tokens"); vc_assert(g_tBox[h] == HAND_MAX[h] - g_cnt[h] - g_cells.hand[0][h] - g_cells.hand[1][h], "box-tokens"); }
    bool z = true; for (int i = 0; i < 8; ++i) z = z & (g_buf[32 + i] == o[i]); vc_assert(z, "writes-32-bytes"); vc_cover("end");
}
// ---- reader ----
static int tokCode(int t) { int v = 0; for (int i = 0; i < 21; ++i) { const HuffmanCode& x = i < 14 ? hcode(i % 7, i / 7) : xcode(i - 14); v = t == i ? x.code : v; } return v; }
static int tokLen(int t) { int v = 0; for (int i = 0; i < 21; ++i) { const HuffmanCode& x = i < 14 ? hcode(i % 7, i / 7) : xcode(i - 14); v = t == i ? x.numOfBits : v; } return v; }
static void stream(const BitStream* b) { if (g_stage == 0) { bool z = true; for (int i = 0; i < 32; ++i) z = z & (b->data_[i] == g_buf[i]); vc_assert(z & (b->curr_ == 0), "reader-starts-on-the-data"); g_bs = b; } vc_assert(b == g_bs, "one-stream"); }
extern "C" u8 ct_getBit(BitStream* b) {
    stream(b); if (g_stage == 0) { g_stage = 1; return (u8)g_cells.turn; }
    vc_assert(g_stage >= 3, "getBit-order"); int code = g_stage == 3 ? codeOf(pcAt(g_sq)) : tokCode(g_tok); u8 r = (u8)((code >> (g_k < 8 ? g_k : 7)) & 1); ++g_k; return r;
}
extern "C" u8 ct_getBits(BitStream* b, int n) { stream(b); vc_assert(((g_stage == 1) | (g_stage == 2)) & (n == 7), "king-token"); u8 r = (u8)g_cells.k[g_stage - 1]; ++g_stage; return r; }
extern "C" u8* ct_data(const BitStream* b) { stream(b); return g_rem == 0 ? b->data_ + 32 : b->data_; }
extern "C" Piece ct_value(const HuffmanCodeToPieceHash* m, u16 key) {
    const HuffmanCodeToPieceHash* B = g_fmt ? &PackedSfen::boardCodeToPieceHash : &HuffmanCodedPos::boardCodeToPieceHash; const HuffmanCodeToPieceHash* H = g_fmt ? &PackedSfen::handCodeToPieceHash : &HuffmanCodedPos::handCodeToPieceHash;
    vc_assert(((key >> 8) >= 1) & ((key >> 8) <= 9), "map-key"); int v = PieceNone; bool hand = m == H; vc_assert(hand | (m == B), "which-map");
    if (hand) for (int h = 0; h < 7; ++h) { for (int c = 0; c < 2; ++c) v = key == hcode(h, c).key ? HAND_PT[h] + 16 * c : v; v = key == xcode(h).key ? 0 : v; } else for (int q = 0; q < 31; ++q) if (isPc(q)) v = key == bcode(q).key ? q : v;
    return (Piece)v;
}
// the position as the reader has built it when it has read the squares below sq and the hand counts hc
static void expect(Position& w, StateInfo& st, int sq, const int hc[2][7], bool fin) {
    Cells c = g_cells; for (int s = 0; s < 81; ++s) { bool in = (s < sq) | (s == c.k[0]) | (s == c.k[1]); c.pc[s] = in ? c.pc[s] : 0; } for (int co = 0; co < 2; ++co) for (int h = 0; h < 7; ++h) c.hand[co][h] = (uint8_t)hc[co][h];
    buildPosition(w, c, st); if (!fin) { w.goldsBB_ = Bitboard(0, 0); w.kingSquare_[0] = w.kingSquare_[1] = (Square)0; w.gamePly_ = 0; }
}
static bool agree(const Position& p, const Position& w) {
    bool ok = (p.turn_ == w.turn_) & (p.gamePly_ == w.gamePly_) & (p.st_ == &p.startState_); for (int s = 0; s < 81; ++s) ok = ok & (p.piece_[s] == w.piece_[s]); for (int t = 0; t <= 14; ++t) ok = ok & bbEq(p.byTypeBB_[t], w.byTypeBB_[t]); for (int c = 0; c < 2; ++c) ok = ok & bbEq(p.byColorBB_[c], w.byColorBB_[c]) & (p.hand_[c].value() == w.hand_[c].value()) & (p.kingSquare_[c] == w.kingSquare_[c]); return ok & bbEq(p.goldsBB_, w.goldsBB_);
}
static bool freshState(const StateInfo& s) { return (s.pliesFromNull == 0) & (s.continuousCheck[0] == 0) & (s.continuousCheck[1] == 0) & (s.previous == nullptr); }
static const int ZERO[2][7] = {};
static void install(Position* p, const Position& w) { for (int s = 0; s < 81; ++s) p->piece_[s] = w.piece_[s]; for (int t = 0; t <= 14; ++t) p->byTypeBB_[t] = w.byTypeBB_[t]; for (int c = 0; c < 2; ++c) { p->byColorBB_[c] = w.byColorBB_[c]; p->hand_[c] = w.hand_[c]; } }
static void frames(Position* p) { vc_frame(p->byTypeBB_, sizeof p->byTypeBB_); vc_frame(p->byColorBB_, sizeof p->byColorBB_); vc_frame(p->piece_, sizeof p->piece_); vc_frame(p->hand_, sizeof p->hand_); vc_frame(&g_k, 4); vc_frame(&g_rem, 4); }
extern "C" void inv_sq(int phase, int n, int64_t* a, uint64_t ptrs) {
    Ctr i = counter(n, a, ptrs); if (!i.ok()) return; Position* p = (Position*)g_p; Position w; StateInfo st;
    if (phase == 0) { expect(w, st, 0, ZERO, false); vc_assert((i.get() == 0) & (g_stage == 3) & agree(*p, w) & freshState(p->startState_), "loop-entry"); }
    if (phase == 1) { g_sq = (int)vc_nondet(7, "sq"); vc_assume(g_sq <= 81); i.set(g_sq); expect(w, st, g_sq, ZERO, false); install(p, w); g_k = 0; frames(p); }
    if (phase == 2) { expect(w, st, g_sq + 1, ZERO, false); int pc = pcAt(g_sq); vc_assert(i.get() == g_sq + 1, "loop-index"); vc_assert(g_k == (king(pc) ? 0 : lenOf(pc)), "square-token-consumed"); vc_assert(agree(*p, w) & freshState(p->startState_), "square-placed"); }
}
extern "C" void inv_tok(int phase, int n, int64_t* a, uint64_t ptrs) {
    vc_assert(n == 0, "loop-shape"); if (n) return; Position* p = (Position*)g_p; Position w; StateInfo st;
    if (phase == 0) { expect(w, st, 81, ZERO, false); vc_assert(agree(*p, w) & freshState(p->startState_), "squares-done"); }
    if (phase == 1) { g_stage = 4; g_rem = (int)vc_nondet(6, "tokensLeft"); for (int c = 0; c < 2; ++c) for (int h = 0; h < 7; ++h) { g_hc[c][h] = (int)vc_nondet(HAND_BITS[h], "read"); vc_assume(g_hc[c][h] <= g_cells.hand[c][h]); vc_assume((g_rem != 0) | (g_hc[c][h] == g_cells.hand[c][h])); }
        g_tok = (int)vc_range(21, "token"); for (int i = 0; i < 14; ++i) vc_assume((g_rem == 0) | (g_tok != i) | (g_hc[i / 7][i % 7] < g_cells.hand[i / 7][i % 7])); expect(w, st, 81, g_hc, false); install(p, w); g_k = 0; frames(p); }
    if (phase == 2) { int hc[2][7]; for (int i = 0; i < 14; ++i) hc[i / 7][i % 7] = g_hc[i / 7][i % 7] + (g_tok == i); expect(w, st, 81, hc, false); vc_assert((g_rem != 0) & (g_k == tokLen(g_tok)), "hand-token-consumed"); vc_assert(agree(*p, w) & freshState(p->startState_), "hand-token-added"); }
}
static void complete(const Position* p, int step) { Position w; StateInfo st; int hc[2][7]; for (int i = 0; i < 14; ++i) hc[i / 7][i % 7] = g_cells.hand[i / 7][i % 7]; expect(w, st, 81, hc, true); if (step < 2) w.gamePly_ = p->gamePly_; vc_assert(agree(*p, w), step == 2 ? "decoded-position" : "position-complete-before-use"); }
extern "C" Key ct_computeBoardKey(const Position* p) { complete(p, 0); g_seen |= 1; return g_bk; }
extern "C" Key ct_computeHandKey(const Position* p) { complete(p, 0); g_seen |= 2; return g_hk; }
extern "C" void ct_findCheckers(Position* p) { complete(p, 1); g_seen |= 4; p->st_->checkersBB = Bitboard(5, 7); }
extern "C" void h_dec() {
    g_fmt = (int)vc_param(0); kings((int)vc_nondet(1, "turn")); Position p; vc_havoc(&p, sizeof p); g_p = &p; g_stage = 0; g_sq = 0; g_seen = 0; g_bk = vc_nondet(64, "bk"); g_hk = vc_nondet(64, "hk"); for (int i = 0; i < 40; ++i) g_buf[i] = (uint8_t)vc_nondet(8, "data");
    if (!vc_symbolic()) return roundTrip(); if (g_fmt) p.set_psfen((const char*)g_buf); else p.set_hcp((const char*)g_buf);
    vc_assert(!vc_threw(), "no-exception"); complete(&p, 2); vc_assert(p.gamePly_ == 1, "ply-1"); const StateInfo& s = p.startState_; vc_assert(freshState(s) & (s.boardKey == g_bk) & (s.handKey == g_hk) & (s.hand.value() == packHand(g_cells.hand[g_cells.turn])) & bbEq(s.checkersBB, Bitboard(5, 7)) & (g_seen == 7), "state-record"); vc_cover("end");
}
