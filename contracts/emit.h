// Test vectors for the Python layer (pybind.py): a session of operations on a board, with what every query answers after each of them.
static string jl(const vector<int>& v) { string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
static string hx(const unsigned char* p, int n) { string s; char b[3]; for (int i = 0; i < n; ++i) { snprintf(b, 3, "%02x", p[i]); s += b; } return s; }
static string nz(const vector<float>& f) { vector<int> v; for (size_t i = 0; i < f.size(); ++i) if (f[i] != 0.f) v.push_back((int)i); return jl(v); }
static string dumpOf(Rng& g, __Board& b, bool full, bool ny) {
    string s = "{\"sfen\":\"" + b.toSFEN() + "\",\"key\":" + std::to_string(b.getKey()) + ",\"check\":" + (b.inCheck() ? "true" : "false") + ",\"over\":" + (b.is_game_over() ? "true" : "false") + ",\"turn\":" + std::to_string(b.turn()) + ",\"ply\":" + std::to_string(b.ply()) + ",\"draw\":" + std::to_string(b.isDraw(2147483647)) + ",\"draw8\":" + std::to_string(b.isDraw(8)) + ",\"nyu\":" + (b.is_nyugyoku() ? "true" : "false") + ",\"book\":" + std::to_string(b.bookKey()) + ",\"k\":[" + std::to_string(b.kingSquare(0)) + "," + std::to_string(b.kingSquare(1)) + "]";
    auto pc = b.pieces(); s += ",\"pieces\":" + jl(vector<int>(pc.begin(), pc.end())); auto h0 = b.pieces_in_hand(0), h1 = b.pieces_in_hand(1); s += ",\"hands\":[" + jl(vector<int>(h0.begin(), h0.end())) + "," + jl(vector<int>(h1.begin(), h1.end())) + "]"; auto hi = b.get_history(); s += ",\"history\":" + jl(vector<int>(hi.begin(), hi.end()));
    vector<int> L, P; for (__LegalMoveList l(b); !l.end(); l.next()) L.push_back(l.move()); for (__PseudoLegalMoveList l(b); !l.end(); l.next()) P.push_back(l.move()); s += ",\"legal\":" + jl(L) + ",\"pseudo\":" + jl(P); if (!b.inCheck()) s += ",\"m1\":" + std::to_string(b.mateMoveIn1Ply());
    if (full) {
        s += ",\"m3\":" + std::to_string(b.mateMove(3)); if (b.inCheck()) s += string(",\"is2\":") + (b.is_mate(2) ? "true" : "false"); unsigned char buf[64]; memset(buf, 0, 64); b.toHuffmanCodedPos((char*)buf); s += ",\"hcp\":\"" + hx(buf, 32) + "\""; memset(buf, 0, 64); b.toPackedSfen((char*)buf); s += ",\"psfen\":\"" + hx(buf, 32) + "\",\"rot\":\"" + __rotate_sfen(b.toSFEN()) + "\"";
        vector<float> a(28 * 81, 0.f), r = a; b.piece_planes((char*)a.data()); b.piece_planes_rotate((char*)r.data()); __dlshogi_use_nyugyoku_features(ny); vector<float> f(__dlshogi_get_features1_num() * 81, 0.f), q(__dlshogi_get_features2_num() * 81, 0.f); b._dlshogi_make_input_features((char*)f.data(), (char*)q.data()); __dlshogi_use_nyugyoku_features(false); s += string(",\"ny\":") + (ny ? "true" : "false") + ",\"pp\":" + nz(a) + ",\"pr\":" + nz(r) + ",\"f1\":" + nz(f) + ",\"f2\":" + nz(q) + ",\"n2\":" + std::to_string(q.size() / 81);
        s += ",\"moves\":["; for (size_t i = 0, n = 0; i < L.size() && n < 12; ++i) { if (L.size() > 12 && rnd(g, (int)L.size()) > 14) continue; int v = L[i]; s += (n++ ? "," : "") + string("[") + std::to_string(v) + ",\"" + __move_to_usi(v) + "\",\"" + __move_to_csa(v) + "\"," + std::to_string(__move16(v)) + "," + std::to_string(__move16_to_psv(__move16(v))) + "," + std::to_string(__dlshogi_make_move_label(v, b.turn())) + "," + std::to_string(__move_rotate(v)) + "," + jl({__move_to(v), __move_from(v), __move_cap(v), __move_is_promotion(v), __move_is_drop(v)}) + "," + std::to_string(__move_is_drop(v) ? __move_drop_hand_piece(v) : __move_from_piece_type(v)) + "," + std::to_string(b.bookKeyAfter(b.bookKey(), v)) + "," + std::to_string(b.moveIsDraw(v, 2147483647)) + "]"; }
        s += "],\"md\":["; for (size_t i = 0; i < L.size(); ++i) s += (i ? "," : "") + std::to_string(b.moveIsDraw(L[i], 2147483647)); s += "],\"words\":["; for (int i = 0; i < 12; ++i) { int w; if (P.size() && rnd(g, 3)) { w = P[rnd(g, (int)P.size())]; if (rnd(g, 2)) w ^= 1 << rnd(g, 15); } else w = (int)(g() & 0xff7fff); int to = w & 127, from = (w >> 7) & 127; if (to > 80 || from > 87) { to = from = 0; w = 0; } if (!w || to == b.kingSquare((1 - b.turn()))) { w = P.empty() ? 0 : P[0]; if (!w) continue; } s += (s.back() == ']' ? "," : "") + string("[") + std::to_string(w) + "," + (b.moveIsLegal(w) ? "true" : "false") + "]"; } s += "]";
    }
    return s + "}";
}
static void emitVectors(uint64_t seed, int n) {
    Rng g(seed * 7919 + 5); for (int e = 0; e < n; ++e) { Cells C = rnd(g, 4) ? randomPos(g) : thinPos(g); string sf = sfenOf(C, 1 + rnd(g, 300)); __Board b; vector<string> usi; bool pos = rnd(g, 3) == 0;
        try { b.set(sf); } catch (std::exception&) { continue; } if (!isKnownBoard(b, C)) continue; printf("{\"op\":\"set\",\"arg\":\"%s\",\"d\":%s}\n", sf.c_str(), dumpOf(g, b, true, rnd(g, 2)).c_str());
        auto step = [&](__Board& x, vector<bool>& st) { string op; int arg = 0; if (!st.empty() && rnd(g, 4) == 0) { if (st.back()) { x.pop_pass(); op = "pop_pass"; } else { arg = x.pop(); op = "pop"; } st.pop_back(); } else { vector<int> L; for (__LegalMoveList l(x); !l.end(); l.next()) L.push_back(l.move()); if (!x.inCheck() && rnd(g, 8) == 0) { x.push_pass(); op = "pass"; st.push_back(true); } else if (L.empty()) return; else { arg = L[rnd(g, (int)L.size())]; if (rnd(g, 3) == 0) for (int m : L) if (__move_to(m) == __move_from(x.peek()) && !__move_is_drop(m) && !__move_cap(m)) arg = m; x.push(arg); static const char* W[5] = {"push", "push_usi", "push_csa", "push_move16", "push_psv"}; op = W[rnd(g, 5)]; st.push_back(false); } }
            printf("{\"op\":\"%s\",\"arg\":%d,\"d\":%s}\n", op.c_str(), arg, dumpOf(g, x, rnd(g, 4) == 0, rnd(g, 2)).c_str()); };
        vector<bool> st; int m = 2 + rnd(g, 9); for (int i = 0; i < m; ++i) step(b, st); { __Board c(b); vector<bool> s2 = st; printf("{\"op\":\"fork\",\"arg\":%d,\"d\":%s}\n", rnd(g, 3), dumpOf(g, c, false, false).c_str()); int k = rnd(g, 6); for (int i = 0; i < k; ++i) step(c, s2); printf("{\"op\":\"join\",\"arg\":0,\"d\":%s}\n", dumpOf(g, b, false, false).c_str()); }
        while (!st.empty()) { if (st.back()) b.pop_pass(); else b.pop(); printf("{\"op\":\"%s\",\"arg\":0,\"d\":%s}\n", st.back() ? "pop_pass" : "pop", dumpOf(g, b, false, false).c_str()); st.pop_back(); }
        if (rnd(g, 2)) { // pieces go out and come back: repetitions some plies ago
            vector<int> mv; int n = 2 + 2 * rnd(g, 5); auto legal = [&](int m) { for (__LegalMoveList l(b); !l.end(); l.next()) if (l.move() == m) return true; return false; }; auto play = [&](int m) { b.push(m); printf("{\"op\":\"push\",\"arg\":%d,\"d\":%s}\n", m, dumpOf(g, b, true, false).c_str()); }; auto back = [&](int m) { return (m & ~0x3fff) | (m & 127) << 7 | ((m >> 7) & 127); };
            for (int i = 0; i < n; ++i) { vector<int> L; for (__LegalMoveList l(b); !l.end(); l.next()) { int m = l.move(); if (!__move_is_drop(m) && !__move_cap(m) && !__move_is_promotion(m)) L.push_back(m); } if (L.empty()) break; mv.push_back(L[rnd(g, (int)L.size())]); play(mv.back()); }
            for (int i = (int)mv.size() - 2; i >= 0; i -= 2) { bool ok = true; for (int j = 0; j < 2 && ok; ++j) { int m = back(mv[i + j]); ok = legal(m); if (ok) play(m); } if (!ok) break; } }
        if (pos) { string p = rnd(g, 3) ? "sfen " + sf : "startpos"; __Board d; if (p[0] == 's' && p[1] == 'f') d.set(sf); int k = rnd(g, 12); string mv; for (int i = 0; i < k; ++i) { vector<int> L; for (__LegalMoveList l(d); !l.end(); l.next()) L.push_back(l.move()); if (L.empty()) break; int v = L[rnd(g, (int)L.size())]; d.push(v); mv += " " + __move_to_usi(v); } if (!mv.empty()) p += " moves" + mv; printf("{\"op\":\"position\",\"arg\":\"%s\",\"d\":%s}\n", p.c_str(), dumpOf(g, d, false, false).c_str()); } }
}
