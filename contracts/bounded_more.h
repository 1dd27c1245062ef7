// further sections of the bounded stand-in (see bounded.cpp)
static vector<ref::M> legalOf(const Cells& C) { vector<ref::M> v; ref::legal(C, v); return v; }
static string usiOf(const ref::M& m) { string s; if (m.drop) { s += PCH[m.pt]; s += '*'; } else { s += char('1' + m.from / 9); s += char('a' + m.from % 9); } s += char('1' + m.to / 9); s += char('a' + m.to % 9); if (m.pro) s += '+'; return s; }
static string csaOf(const ref::M& m) { static const char* N[15] = {"", "FU", "KY", "KE", "GI", "KA", "HI", "KI", "OU", "TO", "NY", "NK", "NG", "UM", "RY"}; string s; if (m.drop) s = "00"; else { s += char('1' + m.from / 9); s += char('1' + m.from % 9); } s += char('1' + m.to / 9); s += char('1' + m.to % 9); return s + N[m.pro ? m.pt + 8 : m.pt]; }
static void sText(Rng&, const Cells& C, __Board& b) {
    for (auto& m : legalOf(C)) { int v = (int)m.v(); string u = usiOf(m), c = csaOf(m); need(__move_to_usi(v) == u && __to_usi(v) == u, "usi-text", "USI text of " + hex(v) + " is " + __move_to_usi(v)); need(__move_to_csa(v) == c && __to_csa(v) == c, "csa-text", "CSA text of " + hex(v) + " is " + __move_to_csa(v));
        need(b.move_from_usi(u) == v, "usi-roundtrip", "move read from " + u); need(b.move_from_csa(c) == v, "csa-roundtrip", "move read from " + c); unsigned short w = __move16(v); need(w == (m.v() & 0xffff), "move16", "move16 of " + hex(v)); need(b.move_from_move16(w) == v, "move16-roundtrip", "move16 of " + hex(v)); unsigned short q = __move16_to_psv(w); need(__move16_from_psv(q) == w && b.move_from_psv(q) == v, "psv-roundtrip", "training-data form of " + hex(v));
        need(q == (unsigned short)(m.drop ? m.to | m.pt << 7 | 1 << 14 : m.to | m.from << 7 | (m.pro ? 1 << 15 : 0)), "psv-value", "training-data form of " + hex(v)); if (m.drop) need(b.drop_move(m.to, m.pt) == v, "drop_move", "drop_move " + hex(v)); else need(b.move(m.from, m.to, m.pro) == v, "move", "move " + hex(v)); need(__move_to(v) == m.to && __move_is_drop(v) == m.drop && __move_is_promotion(v) == m.pro && __move_cap(v) == m.cap, "fields", "fields of " + hex(v)); if (!m.drop) need(__move_from(v) == m.from && __move_from_piece_type(v) == m.pt, "fields", "fields of " + hex(v)); else need(HAND_PT[__move_drop_hand_piece(v)] == m.pt, "fields", "hand piece of " + hex(v)); need(__move_rotate(__move_rotate(v)) == v, "rotate", "rotation of " + hex(v)); int rv = __move_rotate(v); need(__move_to(rv) == 80 - m.to && (m.drop || __move_from(rv) == 80 - m.from), "rotate", "rotation of " + hex(v)); }
    vector<ref::M> pv; ref::pseudo(C, pv); std::set<uint32_t> L; for (auto& m : legalOf(C)) L.insert(m.v()); for (auto& m : pv) if (!L.count(m.v())) { need(b.move_from_usi(usiOf(m)) == 0, "usi-illegal", "illegal move accepted: " + usiOf(m)); need(b.move_from_csa(csaOf(m)) == 0, "csa-illegal", "illegal move accepted: " + csaOf(m)); }
}
static void sNyugyoku(Rng& g, const Cells& C0, __Board&) { // positions around the thresholds: own pieces pushed into the camp
    Cells C = C0; int us = C.turn; auto camp = [&](int s) { return us ? s % 9 >= 6 : s % 9 <= 2; };
    { int k = C.k[us]; int t = rnd(g, 9) * 9 + (us ? 6 + rnd(g, 3) : rnd(g, 3)); if (rnd(g, 8)) { if (C.pc[t] == 0) { C.pc[k] = 0; C.pc[t] = us << 4 | 8; C.k[us] = t; } } int n = rnd(g, 16); for (int i = 0; i < n; ++i) { int s = rnd(g, 81), d = rnd(g, 9) * 9 + (us ? 6 + rnd(g, 3) : rnd(g, 3)); if (C.pc[s] && (C.pc[s] & 15) != 8 && !C.pc[d]) { int pc = (us << 4) | (C.pc[s] & 15); if (ref::dead(us, pc & 15, d) || ((pc & 15) == 1 && ref::nifu(C, us, d))) pc += 8; C.pc[d] = pc; C.pc[s] = 0; } } }
    if (!okPos(C)) return; __Board b(sfenOf(C)); if (!isKnownBoard(b, C)) return; int others = 0, pts = 0; bool king = false; for (int s = 0; s < 81; ++s) if (C.pc[s] && (C.pc[s] >> 4) == us && camp(s)) { int t = C.pc[s] & 15; if (t == 8) king = true; else { ++others; pts += (t == 5 || t == 6 || t == 13 || t == 14) ? 5 : 1; } } for (int h = 0; h < 7; ++h) pts += C.hand[us][h] * (h >= 5 ? 5 : 1);
    bool w = king && others >= 10 && pts >= (us ? 27 : 28) && !ref::inCheck(C, us); need(b.is_nyugyoku() == w, "declaration", "is_nyugyoku should be " + std::to_string(w) + " (others " + std::to_string(others) + ", points " + std::to_string(pts) + ")" + " in " + sfenOf(C));
}
static void sPlanes(Rng& g, const Cells& C, __Board& b) {
    int us = C.turn; vector<float> a(28 * 81 + 64, 0.f); for (int i = 28 * 81; i < 28 * 81 + 64; ++i) a[i] = 7.f; auto r = a; b.piece_planes((char*)a.data()); b.piece_planes_rotate((char*)r.data());
    for (int c = 0; c < 2; ++c) for (int t = 1; t <= 14; ++t) for (int s = 0; s < 81; ++s) { need(a[(c * 14 + t - 1) * 81 + s] == (C.pc[s] == (c << 4 | t) ? 1.f : 0.f), "piece-plane", "piece_planes"); int rs = us ? 80 - s : s, rc = us ? 1 - c : c; need(r[(c * 14 + t - 1) * 81 + s] == (C.pc[rs] == (rc << 4 | t) ? 1.f : 0.f), "piece-plane-rotate", "piece_planes_rotate"); } for (int i = 28 * 81; i < 28 * 81 + 64; ++i) need(a[i] == 7.f && r[i] == 7.f, "plane-overrun", "written past the planes");
    static std::mutex mu; std::lock_guard<std::mutex> lk(mu); // one global switch
    bool ny = rnd(g, 2); __dlshogi_use_nyugyoku_features(ny); int n1 = __dlshogi_get_features1_num(), n2 = __dlshogi_get_features2_num(); need(n1 == 62 && n2 == (ny ? 119 : 57), "feature-count", "number of planes"); vector<float> f(n1 * 81 + 64, 7.f), h(n2 * 81 + 64, 7.f); b._dlshogi_make_input_features((char*)f.data(), (char*)h.data());
    for (int i = 0; i < 64; ++i) need(f[n1 * 81 + i] == 7.f && h[n2 * 81 + i] == 7.f, "plane-overrun", "written past the planes"); static const int HM[7] = {8, 4, 4, 4, 4, 2, 2};
    for (int c2 = 0; c2 < 2; ++c2) { int c = us ? 1 - c2 : c2; float* F = &f[c2 * 31 * 81]; vector<int> cnt(81, 0); vector<vector<int>> un(15, vector<int>(81, 0)); for (int s = 0; s < 81; ++s) if (C.pc[s] && (C.pc[s] >> 4) == c) for (int t = 0; t < 81; ++t) if (ref::pieceAttacks(C, s, t)) { ++cnt[t]; un[C.pc[s] & 15][t] = 1; }
        for (int q = 0; q < 81; ++q) { int s = us ? 80 - q : q; for (int t = 1; t <= 14; ++t) { need(F[(t - 1) * 81 + q] == (C.pc[s] == (c << 4 | t)), "feature-piece", "piece plane"); need(F[(13 + t) * 81 + q] == un[t][s], "feature-attack", "attack plane"); } for (int k = 0; k < 3; ++k) need(F[(28 + k) * 81 + q] == (cnt[s] > k), "feature-count-plane", "attack-count plane"); int off = 0; for (int i = 0; i < 7; ++i) for (int j = 0; j < HM[i]; ++j, ++off) need(h[(c2 * 28 + off) * 81 + q] == (C.hand[c][i] > j), "feature-hand", "hand plane"); }
        if (ny) { int others = 0, pts = 0; bool king = false; for (int s = 0; s < 81; ++s) if (C.pc[s] && (C.pc[s] >> 4) == c && (c ? s % 9 >= 6 : s % 9 <= 2)) { int t = C.pc[s] & 15; if (t == 8) king = true; else { ++others; pts += (t == 5 || t == 6 || t == 13 || t == 14) ? 5 : 1; } } for (int i = 0; i < 7; ++i) pts += C.hand[c][i] * (i >= 5 ? 5 : 1); int ro = 10 - others, rp = (c ? 27 : 28) - pts; for (int i = 0; i < 31; ++i) { bool on = i == 0 ? king : i <= 10 ? ro == i - 1 : rp == i - 11; for (int q = 0; q < 81; ++q) need(h[(57 + c2 * 31 + i) * 81 + q] == (on ? 1.f : 0.f), "feature-nyugyoku", "entering-king plane"); } } }
    for (int q = 0; q < 81; ++q) need(h[56 * 81 + q] == (ref::inCheck(C, us) ? 1.f : 0.f), "feature-check", "check plane"); __dlshogi_use_nyugyoku_features(false);
}
static void sLabels(Rng&, const Cells& C, __Board&) {
    int us = C.turn; std::map<int, uint32_t> seen; for (auto& m : legalOf(C)) { int l = __dlshogi_make_move_label((int)m.v(), us); need(l >= 0 && l < 27 * 81, "label-range", "label of " + hex(m.v())); if (seen.count(l)) need(false, "label-shared", "label shared by " + hex(m.v()) + " and " + hex(seen[l])); seen[l] = m.v(); int to = us ? 80 - m.to : m.to, from = us ? 80 - m.from : m.from; int cls; if (m.drop) cls = 20 + m.pt - 1; else { int dl = to / 9 - from / 9, dr = to % 9 - from % 9; bool kn = abs(dl) == 1 && dr == -2; cls = kn ? (dl > 0 ? 8 : 9) : dr < 0 ? (dl == 0 ? 0 : dl > 0 ? 1 : 2) : dr == 0 ? (dl > 0 ? 3 : 4) : (dl == 0 ? 5 : dl > 0 ? 6 : 7); if (m.pro) cls += 10; } need(l == 81 * cls + to, "label-value", "label of " + hex(m.v())); }
}
static bool same40(const Cells& C) { int n[7] = {0, 0, 0, 0, 0, 0, 0}, k = 0; for (int s = 0; s < 81; ++s) if (C.pc[s]) { int h = handIdx(C.pc[s]); if (h >= 0) ++n[h]; else ++k; } for (int c = 0; c < 2; ++c) for (int h = 0; h < 7; ++h) n[h] += C.hand[c][h]; for (int h = 0; h < 7; ++h) if (n[h] != HAND_MAX[h]) return false; return k == 2; }
static void sPacked(Rng& g, const Cells& C, __Board& b) {
    if (!same40(C)) return; for (int f = 0; f < 2; ++f) { char d[32 + 16]; memset(d, 0x55, sizeof d); auto enc = [&](__Board& x, char* p) { if (f) x.toPackedSfen(p); else x.toHuffmanCodedPos(p); }; const char* nm = f ? "psfen" : "hcp"; enc(b, d); for (int i = 32; i < 48; ++i) need(d[i] == 0x55, "packed-overrun", string(nm) + " writes more than 32 bytes");
        __Board o; if (rnd(g, 2)) { o.push(o.move_from_usi("7g7f")); } char in[32]; memcpy(in, d, 32); if (f) o.set_psfen(in); else o.set_hcp(in); need(sameCells(readBack(o), C), "packed-roundtrip", string(nm) + " round trip"); need(o.getKey() == b.getKey() && o.inCheck() == b.inCheck() && o.kingSquare(0) == C.k[0] && o.kingSquare(1) == C.k[1], "packed-key", string(nm) + " round trip: hash or check"); char e[32]; enc(o, e); need(!memcmp(d, e, 32), "packed-stable", string(nm) + " re-encoding"); string s1 = o.toSFEN(), s2 = sfenOf(C); need(s1.substr(0, s1.rfind(' ')) == s2.substr(0, s2.rfind(' ')), "packed-sfen", string(nm) + " sfen");
        auto v = legalOf(C); if (!v.empty()) { auto m = v[rnd(g, (int)v.size())]; Cells D = C; ref::apply(D, m); __Board x(sfenOf(D)); char q[32]; enc(x, q); need(memcmp(q, d, 32) != 0, "packed-distinct", string(nm) + " of different positions equal"); o.push((int)m.v()); need(sameCells(readBack(o), D), "packed-push", "push after decoding"); o.pop(); } }
}
static Cells flipped(const Cells& C) { Cells D = C; for (int s = 0; s < 81; ++s) D.pc[80 - s] = C.pc[s] ? C.pc[s] ^ 16 : 0; for (int h = 0; h < 7; ++h) { D.hand[0][h] = C.hand[1][h]; D.hand[1][h] = C.hand[0][h]; } D.turn = 1 - C.turn; D.k[0] = C.k[1] < 81 ? 80 - C.k[1] : 81; D.k[1] = C.k[0] < 81 ? 80 - C.k[0] : 81; return D; }
static void sSfen(Rng& g, const Cells& C, __Board&) {
    int ply = 1 + rnd(g, 500); string s = sfenOf(C, ply); __Board b(s); need(sameCells(readBack(b), C), "sfen-read", "position read from SFEN"); need(b.ply() == ply, "sfen-ply", "ply read from SFEN"); need(b.kingSquare(0) == C.k[0] && b.kingSquare(1) == C.k[1], "sfen-king", "king squares"); need(b.toSFEN() == s, "sfen-write", "SFEN written: " + b.toSFEN()); need(b.inCheck() == ref::inCheck(C, C.turn), "sfen-check", "check"); { auto p = b.pieces(); for (int q = 0; q < 81; ++q) need(p[q] == C.pc[q], "sfen-pieces", "piece list"); }
    __Board o; if (rnd(g, 2)) o.push(o.move_from_usi("2g2f")); o.set(s); need(o.toSFEN() == s && o.getKey() == b.getKey() && sameCells(readBack(o), C), "sfen-set", "set on a used board"); need(o.get_history().empty() && o.isDraw(1000) == 0, "sfen-history", "history after set");
    { int pcs[81], hd[2][7]; for (int q = 0; q < 81; ++q) pcs[q] = C.pc[q]; for (int c = 0; c < 2; ++c) for (int h = 0; h < 7; ++h) hd[c][h] = C.hand[c][h]; Cells T = C; T.turn = 1 - T.turn; __Board a(sfenOf(startPos())); a.setTurn(C.turn); a.set_pieces(pcs, hd); need(sameCells(readBack(a), C), "pieces-set", "set_pieces"); need(a.getKey() == b.getKey() && a.inCheck() == b.inCheck() && a.kingSquare(0) == C.k[0] && a.kingSquare(1) == C.k[1], "pieces-key", "set_pieces: hash or check"); }
    { string r = __rotate_sfen(s); need(r == sfenOf(flipped(C), ply) || [&] { __Board x(r); return sameCells(readBack(x), flipped(C)) && x.ply() == ply; }(), "sfen-rotate", "rotated SFEN " + r); }
    { Cells D = C; string cmd = "sfen " + s + " moves"; int n = rnd(g, 6); vector<int> mv; for (int i = 0; i < n; ++i) { auto v = legalOf(D); if (v.empty()) break; auto m = v[rnd(g, (int)v.size())]; cmd += " " + usiOf(m); mv.push_back((int)m.v()); ref::apply(D, m); } __Board x; x.set_position(cmd); need(sameCells(readBack(x), D) && x.get_history() == mv && x.ply() == ply + (int)mv.size(), "position-command", "position command " + cmd); }
    b.reset(); need(sameCells(readBack(b), startPos()), "reset", "reset");
}
// ---- histories ----
struct Hist { vector<Cells> st; vector<bool> chk; size_t base = 0; vector<int> mv; };   // st[0] start; chk[i]: move i -> st[i] gives check; base: index after the last pass
static bool sameBoard(const Cells& a, const Cells& b) { return !memcmp(a.pc, b.pc, 81); }
static int refDraw(const Hist& H, int maxPly) { // 0 not, 1 draw, 2 win, 3 lose, 4 superior, 5 inferior
    size_t n = H.st.size() - 1; const Cells& C = H.st[n]; int us = C.turn; for (int i = 4; i <= (int)(n - H.base) && i <= maxPly; i += 2) { const Cells& E = H.st[n - i]; if (!sameBoard(C, E)) continue; bool sameHands = !memcmp(C.hand, E.hand, 14); if (sameHands) { bool mine = true, his = true; for (int j = 0; j < i; ++j) { size_t k = n - j; bool byUs = H.st[k].turn != us; if (!H.chk[k]) (byUs ? mine : his) = false; } return mine ? 3 : his ? 2 : 1; }
        bool ge = true, le = true; for (int h = 0; h < 7; ++h) { if (C.hand[us][h] < E.hand[us][h]) ge = false; if (C.hand[us][h] > E.hand[us][h]) le = false; } if (ge) return 4; if (le) return 5; } return 0;
}
static int refCode(int r) { static const int T[6] = {NotRepetition, RepetitionDraw, RepetitionWin, RepetitionLose, RepetitionSuperior, RepetitionInferior}; return T[r]; }
static void sRep(Rng& g, const Cells& C0, __Board& b) {
    Hist H; H.st.push_back(C0); H.chk.push_back(false); int n = 10 + rnd(g, 60); ref::M last[2] = {{0, 0, 0, 0, false, true}, {0, 0, 0, 0, false, true}}; int style = rnd(g, 4);
    for (int i = 0; i < n; ++i) { Cells C = H.st.back(); if (i > 4 && rnd(g, 40) == 0 && !ref::inCheck(C, C.turn)) { Cells D = C; D.turn = 1 - C.turn; if (!ref::inCheck(D, 1 - D.turn)) { b.push_pass(); H.st.push_back(D); H.chk.push_back(false); H.base = H.st.size() - 1; continue; } }
        auto v = legalOf(C); if (v.empty()) break; int us = C.turn; vector<ref::M> w; ref::M& l = last[us];
        if (style == 3) { for (auto& m : v) { Cells D = C; ref::apply(D, m); if (ref::inCheck(D, D.turn)) w.push_back(m); } if (!w.empty() && rnd(g, 6)) { for (auto& m : w) if (!l.drop && m.from == l.to && m.to == l.from) { w.assign(1, m); break; } } else w.clear(); }
        if (w.empty() && rnd(g, 8)) { for (auto& m : v) { Cells D = C; ref::apply(D, m); bool seen = false; for (size_t k = 0; k + 3 < H.st.size() && !seen; ++k) seen = H.st[k].turn == D.turn && sameBoard(H.st[k], D); if (seen) w.push_back(m); } if (w.empty()) for (auto& m : v) if (!l.drop && !m.drop && m.from == l.to && m.to == l.from) w.push_back(m); if (w.empty()) for (auto& m : v) if (!m.drop && !m.pro && !m.cap && m.pt != 1) w.push_back(m); }
        if (w.empty()) w = v; auto m = w[rnd(g, (int)w.size())];
        int maxPly = rnd(g, 3) ? 1000000 : rnd(g, 12);
        int pred = b.moveIsDraw((int)m.v(), maxPly); b.push((int)m.v()); Cells D = C; ref::apply(D, m); H.st.push_back(D); H.chk.push_back(ref::inCheck(D, D.turn)); last[us] = m; int want = refCode(refDraw(H, maxPly)); string mvs; 
        need(b.isDraw(maxPly) == want, "is-draw", "repetition verdict " + std::to_string(b.isDraw(maxPly)) + " instead of " + std::to_string(want) + " after " + std::to_string(H.st.size() - 1) + " plies (limit " + std::to_string(maxPly) + "), last position " + sfenOf(D)); need(pred == want, "move-is-draw", "predicted repetition verdict " + std::to_string(pred) + " instead of " + std::to_string(want) + ", last position " + sfenOf(D)); }
}
static void sCopy(Rng& g, const Cells& C0, __Board& b0) { // two boards evolve independently after a copy; each must behave like its own model
    struct Bd { std::unique_ptr<__Board> b; vector<Cells> st; vector<int> mv; vector<unsigned long long> key; }; auto chk = [&](Bd& x, const char* w) { need(sameCells(readBack(*x.b), x.st.back()), "copy-state", string("position of ") + w); need(x.b->getKey() == x.key.back(), "copy-key", string("hash of ") + w); vector<int> h = x.b->get_history(); need(h == x.mv, "copy-history", string("history of ") + w); need(x.b->inCheck() == ref::inCheck(x.st.back(), x.st.back().turn), "copy-check", string("check of ") + w); };
    auto step = [&](Bd& x) { Cells C = x.st.back(); int k = rnd(g, 4); const int nul = (int)Move::moveNull().value(); if (k == 0 && x.mv.size()) { if (x.mv.back() == nul) x.b->pop_pass(); else { int m = x.b->pop(); need(m == x.mv.back(), "copy-pop", "move taken back"); } x.mv.pop_back(); x.st.pop_back(); x.key.pop_back(); } else if (k == 1 && rnd(g, 3) == 0 && !ref::inCheck(C, C.turn)) { x.b->push_pass(); C.turn ^= 1; x.st.push_back(C); x.mv.push_back(nul); x.key.push_back(x.b->getKey()); } else { auto v = legalOf(C); if (v.empty()) return; auto m = v[rnd(g, (int)v.size())]; x.b->push((int)m.v()); ref::apply(C, m); x.st.push_back(C); x.mv.push_back((int)m.v()); x.key.push_back(x.b->getKey()); } };
    Bd A; A.b.reset(new __Board(b0)); A.st.push_back(C0); A.key.push_back(b0.getKey()); int n = rnd(g, 20); for (int i = 0; i < n; ++i) step(A); chk(A, "original"); vector<Bd> all; all.push_back(std::move(A));
    for (int i = 0; i < 30; ++i) { int k = rnd(g, (int)all.size()); if (rnd(g, 5) == 0 && all.size() < 5) { Bd c; if (rnd(g, 2)) c.b.reset(new __Board(*all[k].b)); else { c.b.reset(new __Board()); if (rnd(g, 2)) c.b->push(c.b->move_from_usi("7g7f")); *c.b = *all[k].b; } c.st = all[k].st; c.mv = all[k].mv; c.key = all[k].key; need(c.b->isDraw(1000) == all[k].b->isDraw(1000), "copy-draw", "repetition verdict of the copy"); need(c.b->toSFEN() == all[k].b->toSFEN(), "copy-sfen", "sfen of the copy"); all.push_back(std::move(c)); } else if (rnd(g, 9) == 0 && all.size() > 1) { all.erase(all.begin() + k); } else step(all[k]); for (auto& x : all) chk(x, "a board after operations on another"); }
    for (auto& x : all) { while (x.mv.size()) { if (x.mv.back() == (int)Move::moveNull().value()) x.b->pop_pass(); else need(x.b->pop() == x.mv.back(), "copy-pop", "move taken back"); x.mv.pop_back(); x.st.pop_back(); x.key.pop_back(); chk(x, "a board while taking back its history"); } }
}
// ---- mate search: forced mate within n plies (n odd: side to move attacks; n even: side to move defends), checks only ----
static bool declinesPromotion(const Cells& C, const ref::M& m) { return !m.drop && !m.pro && (m.pt == 1 || m.pt == 2 || m.pt == 5 || m.pt == 6) && (ref::relRank(C.turn, m.from) <= 2 || ref::relRank(C.turn, m.to) <= 2); }
static bool mateIn(const Cells& C, int n); 
static bool matedIn(const Cells& C, int n) { auto v = legalOf(C); if (v.empty()) return ref::inCheck(C, C.turn); if (n < 2) return false; for (auto& m : v) { if (declinesPromotion(C, m)) continue; Cells D = C; ref::apply(D, m); if (!mateIn(D, n - 1)) return false; } return true; }
static bool mateIn(const Cells& C, int n) { for (auto& m : legalOf(C)) { Cells D = C; ref::apply(D, m); if (ref::inCheck(D, D.turn) && matedIn(D, n - 1)) return true; } return false; }
static Cells thinPos(Rng& g) { // a king with few defenders and an attacker with material
    for (;;) { Cells C; memset(&C, 0, sizeof C); int at = rnd(g, 2), df = 1 - at; C.turn = at; int kd = rnd(g, 9) * 9 + (df ? rnd(g, 3) : 8 - rnd(g, 3)), ka = rnd(g, 9) * 9 + (df ? 8 - rnd(g, 3) : rnd(g, 3)); C.k[df] = kd; C.k[at] = ka; C.pc[kd] = df << 4 | 8; C.pc[ka] = at << 4 | 8; int left[7] = {18, 4, 4, 4, 4, 2, 2}; int n = 3 + rnd(g, 10); for (int i = 0; i < n; ++i) { int h = rnd(g, 7); if (!left[h]) continue; int f = kd / 9 + rnd(g, 7) - 3, r = kd % 9 + rnd(g, 7) - 3; if (f < 0 || f > 8 || r < 0 || r > 8 || C.pc[f * 9 + r]) continue; int co = rnd(g, 5) < 3 ? at : df, pt = HAND_PT[h]; if (pt != 7 && rnd(g, 3) == 0) pt += 8; int s = f * 9 + r; if (ref::dead(co, pt, s) || (pt == 1 && ref::nifu(C, co, s))) continue; C.pc[s] = co << 4 | pt; --left[h]; } int m = 1 + rnd(g, 3); for (int i = 0; i < m; ++i) { int h = rnd(g, 7); if (left[h]) { --left[h]; ++C.hand[at][h]; } } for (int h = 0; h < 7; ++h) if (rnd(g, 3)) { C.hand[df][h] += left[h]; } if (okPos(C)) return C; }
}
static void sMate(Rng& g, const Cells&, __Board&) {
    Cells C = thinPos(g); __Board b(sfenOf(C)); if (!isKnownBoard(b, C)) return; auto key = b.getKey();
    if (!ref::inCheck(C, C.turn)) { int m = b.mateMoveIn1Ply(); if (m) { bool ok = false; for (auto& x : legalOf(C)) if (x.v() == (uint32_t)m) { Cells D = C; ref::apply(D, x); ok = ref::mated(D); } need(ok, "mate1-false", "claimed mate in one " + hex(m) + " in " + sfenOf(C)); } need(sameCells(readBack(b), C), "mate1-state", "position changed"); }
    int n = rnd(g, 4) ? 3 : 5; int handn = 0; for (int h = 0; h < 7; ++h) handn += C.hand[C.turn][h]; if (handn > 2) n = 3; int m = b.mateMove(n); need(sameCells(readBack(b), C) && b.getKey() == key, "mate-state", "position changed by the mate search"); if (m) { bool ok = false; for (auto& x : legalOf(C)) if (x.v() == (uint32_t)m) { Cells D = C; ref::apply(D, x); ok = ref::inCheck(D, D.turn) && matedIn(D, n - 1); if (ok && D.turn != C.turn) { __Board d(sfenOf(D)); if (isKnownBoard(d, D)) { bool e = d.is_mate(n - 1); need(!e || matedIn(D, n - 1), "is-mate-false", "is_mate"); need(sameCells(readBack(d), D), "mate-state", "position changed by is_mate"); } } } need(ok, "mate-false", "claimed mate in " + std::to_string(n) + " by " + hex(m) + " in " + sfenOf(C)); }
    else { for (auto& x : legalOf(C)) { Cells D = C; ref::apply(D, x); if (!ref::inCheck(D, D.turn) || rnd(g, 4)) continue; __Board d(sfenOf(D)); if (!isKnownBoard(d, D)) continue; int k = rnd(g, 3) ? 2 : 4; if (d.is_mate(k)) need(matedIn(D, k), "is-mate-false", "is_mate(" + std::to_string(k) + ") in " + sfenOf(D)); need(sameCells(readBack(d), D), "mate-state", "position changed by is_mate"); break; } }
}
// ---- one-move mate: positions built around an exposed king (discovered lines, distant checks, few defenders, pawn-only hands), and single-piece perturbations of every claimed mate ----
static bool putRand(Rng& g, Cells& C, int left[7], int s, int co) { if (s < 0 || s > 80 || C.pc[s]) return false; int h = rnd(g, 7); if (rnd(g, 3) == 0) h = rnd(g, 2) ? 5 : 6; if (!left[h]) return false; int pt = HAND_PT[h]; if (pt != 7 && rnd(g, 3) == 0) pt += 8; if (ref::dead(co, pt, s) || (pt == 1 && ref::nifu(C, co, s))) return false; C.pc[s] = co << 4 | pt; --left[h]; return true; }
static bool putWeak(Rng& g, Cells& C, int left[7], int s, int co) { int h = rnd(g, 8); h = h < 3 ? 0 : h < 5 ? 1 : h < 7 ? 2 : 3; int pt = HAND_PT[h]; if (C.pc[s] || !left[h] || ref::dead(co, pt, s) || (pt == 1 && ref::nifu(C, co, s))) return false; C.pc[s] = co << 4 | pt; --left[h]; return true; }
static int nearSq(Rng& g, int k, int d) { int f = k / 9 + rnd(g, 2 * d + 1) - d, r = k % 9 + rnd(g, 2 * d + 1) - d; return f < 0 || f > 8 || r < 0 || r > 8 ? -1 : f * 9 + r; }
static bool matePos(Rng& g, Cells& C, int left[7]) {
    memset(&C, 0, sizeof C); for (int h = 0; h < 7; ++h) left[h] = HAND_MAX[h]; int at = rnd(g, 2), df = 1 - at; C.turn = at; int kd = rnd(g, 81); int kq = rnd(g, 4); if (kq < 2) kd = rnd(g, 9) * 9 + (df ? rnd(g, 3) : 8 - rnd(g, 3)); else if (kq == 2) kd = rnd(g, 2) * 72 + (df ? rnd(g, 2) : 8 - rnd(g, 2)); C.k[df] = kd; C.pc[kd] = df << 4 | 8;
    int ka = rnd(g, 81); if (ka == kd) return false; C.k[at] = ka; C.pc[ka] = at << 4 | 8;
    if (rnd(g, 3)) { static const int D8[8][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}, {1, 1}, {1, -1}, {-1, 1}, {-1, -1}}; int d = rnd(g, 8), n = 1 + rnd(g, 3), m = n + 1 + rnd(g, 4); int f1 = kd / 9 + D8[d][0] * n, r1 = kd % 9 + D8[d][1] * n, f2 = kd / 9 + D8[d][0] * m, r2 = kd % 9 + D8[d][1] * m; if (f2 >= 0 && f2 < 9 && r2 >= 0 && r2 < 9) { int s1 = f1 * 9 + r1, s2 = f2 * 9 + r2; if (!C.pc[s1] && !C.pc[s2]) { int h = d >= 4 ? 5 : 6; if (d < 4 && D8[d][1] == (at ? -1 : 1) && rnd(g, 2)) h = 1; C.pc[s2] = at << 4 | (HAND_PT[h] + (h != 1 && rnd(g, 2) ? 8 : 0)); --left[h]; if (ref::dead(at, C.pc[s2] & 15, s2)) return false; for (int i = 0; i < 9 && !putRand(g, C, left, s1, rnd(g, 5) ? at : df); ++i) ; } } }
    int n = 1 + rnd(g, 6); if (rnd(g, 2)) { int p = 5 + rnd(g, 5); bool weak = rnd(g, 2); for (int t = 0; t < 81; ++t) if (t != kd && !C.pc[t] && std::abs(t / 9 - kd / 9) <= 1 && std::abs(t % 9 - kd % 9) <= 1 && (int)rnd(g, 10) < p) { int co = rnd(g, 8) ? df : at; if (!weak || co == at || !(putWeak(g, C, left, t, co) || putWeak(g, C, left, t, co) || putWeak(g, C, left, t, co))) putRand(g, C, left, t, co); } } else // a king hemmed in by its own pieces
    for (int i = 0; i < n; ++i) putRand(g, C, left, nearSq(g, kd, 1), rnd(g, 5) < 3 ? df : at); n = rnd(g, 8); for (int i = 0; i < n; ++i) putRand(g, C, left, nearSq(g, kd, 3), rnd(g, 4) ? at : df); n = rnd(g, 5); for (int i = 0; i < n; ++i) putRand(g, C, left, rnd(g, 81), rnd(g, 2));
    n = rnd(g, 3); for (int i = 0; i < n; ++i) { int h = rnd(g, 7); if (left[h]) { --left[h]; ++C.hand[at][h]; } } int q = rnd(g, 4); if (q == 0) for (int h = 0; h < 7; ++h) { C.hand[df][h] += left[h]; left[h] = 0; } else if (q == 1 && left[0]) { int x = 1 + rnd(g, left[0]); C.hand[df][0] += x; left[0] -= x; } 
    return okPos(C) && !ref::inCheck(C, C.turn);
}
static bool perturb(Rng& g, Cells& C, int left[7]) { // one local edit near the defender's king
    int df = 1 - C.turn, kd = C.k[df]; int k = rnd(g, 6); int s = nearSq(g, kd, 2 + 2 * rnd(g, 2)); if (s < 0) return false; int h;
    if (k == 0) return putRand(g, C, left, s, rnd(g, 2)); if (k == 1) { if (!C.pc[s] || (C.pc[s] & 15) == 8) return false; ++left[handIdx(C.pc[s])]; C.pc[s] = 0; return true; }
    if (k == 2) { int t = nearSq(g, s, 1); if (t < 0 || C.pc[t] || !C.pc[s] || (C.pc[s] & 15) == 8) return false; int pc = C.pc[s]; if (ref::dead(pc >> 4, pc & 15, t) || (((pc & 15) == 1) && t / 9 != s / 9 && ref::nifu(C, pc >> 4, t))) return false; C.pc[t] = pc; C.pc[s] = 0; return true; }
    if (k == 3) { int pc = C.pc[s]; if (!pc || (pc & 15) == 8) return false; pc ^= 16; C.pc[s] = 0; if (ref::dead(pc >> 4, pc & 15, s) || (((pc & 15) == 1) && ref::nifu(C, pc >> 4, s))) return false; C.pc[s] = pc; return true; }
    if (k == 4) { int pc = C.pc[s], t = pc & 15; if (!pc || t == 7 || t == 8) return false; pc ^= 8; C.pc[s] = 0; if (ref::dead(pc >> 4, pc & 15, s) || (((pc & 15) == 1) && ref::nifu(C, pc >> 4, s))) return false; C.pc[s] = pc; return true; }
    h = rnd(g, 7); if (rnd(g, 2)) { if (!left[h]) return false; --left[h]; ++C.hand[rnd(g, 2)][h]; } else { int c = rnd(g, 2); if (!C.hand[c][h]) return false; --C.hand[c][h]; ++left[h]; } return true;
}
static void sMateNear(Rng& g, const Cells&, __Board&) {
    for (int it = 0; it < 60; ++it) { Cells C; int left[7]; if (!matePos(g, C, left)) continue; int life = 1;
        while (life-- > 0) { __Board b(sfenOf(C)); if (!isKnownBoard(b, C)) break; int m = b.mateMoveIn1Ply(); need(sameCells(readBack(b), C), "mate1-state", "position changed by the mate test, " + sfenOf(C));
            if (m) { bool ok = false, leg = false; for (auto& x : legalOf(C)) if (x.v() == (uint32_t)m) { leg = true; Cells D = C; ref::apply(D, x); ok = ref::mated(D); } need(leg, "mate1-illegal", "claimed mate " + hex(m) + " is illegal in " + sfenOf(C)); need(ok, "mate1-not-mate", "claimed mate " + hex(m) + " does not mate in " + sfenOf(C)); life = 6; }
            Cells D; int l2[7]; bool got = false; for (int t = 0; t < 8 && !got; ++t) { D = C; memcpy(l2, left, sizeof l2); got = perturb(g, D, l2) && okPos(D) && !ref::inCheck(D, D.turn); } if (!got) break; C = D; memcpy(left, l2, sizeof l2); } }
}
#define MORE_SECS {"text", sText, false}, {"nyugyoku", sNyugyoku, false}, {"planes", sPlanes, true}, {"labels", sLabels, false}, {"packed", sPacked, false}, {"sfen", sSfen, true}, {"rep", sRep, false}, {"copy", sCopy, false}, {"mate", sMate, false}, {"mate1n", sMateNear, false}
