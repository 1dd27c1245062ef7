// Bounded stand-in: the public API run natively on generated positions and compared with the reference rules (ref.h).
// Everything here is a sample, labelled bounded in the evidence; nothing here counts as proved.
#include "cshogi.h"
#include "spec.h"
#include <random>
#include <set>
#include <map>
#include <chrono>
#include <thread>
#include <mutex>
#include <unordered_set>
#include <atomic>
#include <cstring>
extern "C" { uint64_t vc_nondet(unsigned, const char*) { return 0; } void vc_assume(bool) {} void vc_assert(bool, const char*) {} void vc_cover(const char*) {} int vc_is_const(uint64_t) { return 1; } void vc_contract_loop() {} int vc_symbolic() { return 0; } int64_t vc_param(int) { return 0; } }
#define VC_NO_REPO 1
#include "ref.h"
using std::string; using std::vector;
typedef std::mt19937_64 Rng;
static int rnd(Rng& g, int n) { return (int)(g() % (uint64_t)n); }
static const char* PCH = "?PLNSBRGK";
static string sfenOf(const Cells& C, int ply = 1) {
    string s; for (int r = 0; r < 9; ++r) { int e = 0; for (int f = 8; f >= 0; --f) { int pc = C.pc[f * 9 + r]; if (!pc) { ++e; continue; } if (e) { s += char('0' + e); e = 0; } int t = pc & 15; if (t > 8) { s += '+'; t -= 8; } char c = PCH[t]; s += (pc >> 4) ? (char)tolower(c) : c; } if (e) s += char('0' + e); if (r < 8) s += '/'; }
    s += C.turn ? " w " : " b "; string h; static const int ord[7] = {6, 5, 4, 3, 2, 1, 0}; for (int co = 0; co < 2; ++co) for (int i : ord) { int n = C.hand[co][i]; if (!n) continue; if (n > 1) h += std::to_string(n); char c = PCH[HAND_PT[i]]; h += co ? (char)tolower(c) : c; }
    return s + (h.empty() ? "-" : h) + " " + std::to_string(ply);
}
static Cells readBack(__Board& b) { Cells C; C.k[0] = C.k[1] = 81; for (int s = 0; s < 81; ++s) { C.pc[s] = (uint8_t)b.piece(s); if (C.pc[s] == 8) C.k[0] = s; if (C.pc[s] == 24) C.k[1] = s; } for (int c = 0; c < 2; ++c) { auto h = b.pieces_in_hand(c); for (int i = 0; i < 7; ++i) C.hand[c][i] = (uint8_t)h[i]; } C.turn = b.turn(); return C; }
static bool sameCells(const Cells& a, const Cells& b) { return !memcmp(a.pc, b.pc, 81) && !memcmp(a.hand, b.hand, 14) && a.turn == b.turn; }
static Cells startCells() { __Board b; return readBack(b); }
static Cells startPos() { // written out, not read from the library
    Cells C; memset(&C, 0, sizeof C); static const int back[9] = {2, 3, 4, 7, 8, 7, 4, 3, 2}; for (int f = 0; f < 9; ++f) { C.pc[f * 9 + 8] = back[f]; C.pc[f * 9 + 0] = 16 | back[f]; C.pc[f * 9 + 6] = 1; C.pc[f * 9 + 2] = 17; } C.pc[1 * 9 + 7] = 6; C.pc[7 * 9 + 7] = 5; C.pc[7 * 9 + 1] = 22; C.pc[1 * 9 + 1] = 21; C.k[0] = 4 * 9 + 8; C.k[1] = 4 * 9; C.turn = 0; return C;
}
static bool okPos(const Cells& C) { if (ref::inCheck(C, 1 - C.turn)) return false; if (C.k[0] < 81 && C.k[1] < 81) { int a = abs(C.k[0] / 9 - C.k[1] / 9), b = abs(C.k[0] % 9 - C.k[1] % 9); if (a <= 1 && b <= 1) return false; } return true; }
static Cells playout(Rng& g) { for (;;) { Cells C = startPos(); int n = rnd(g, 160); bool ok = true; for (int i = 0; i < n; ++i) { vector<ref::M> v; ref::legal(C, v); if (v.empty()) { ok = false; break; } vector<ref::M> w; if (rnd(g, 3) == 0) { for (auto& m : v) if (m.cap || m.pro) w.push_back(m); } if (w.empty()) w = v; ref::apply(C, w[rnd(g, (int)w.size())]); } if (ok) return C; } }
// fixed set of 40 pieces (or fewer), thrown on the board
static Cells scatter(Rng& g, bool kingless) {
    for (;;) {
        Cells C; memset(&C, 0, sizeof C); C.turn = rnd(g, 2); C.k[0] = C.k[1] = 81; int mode = rnd(g, 4); static const int cnt[7] = {18, 4, 4, 4, 4, 2, 2};
        for (int co = 0; co < 2; ++co) { if (kingless && rnd(g, 3) == 0) continue; int s; do { s = rnd(g, 81); if (mode >= 2) { int r = rnd(g, 3); s = rnd(g, 9) * 9 + (co ? r : 8 - r); } } while (C.pc[s]); C.pc[s] = co ? 24 : 8; C.k[co] = s; }
        for (int h = 0; h < 7; ++h) for (int i = 0; i < cnt[h]; ++i) {
            int x = rnd(g, 10); int handp = mode == 0 ? 2 : mode == 1 ? 5 : 6; if (x < handp) { ++C.hand[rnd(g, 2)][h]; continue; }
            int s = rnd(g, 81); if (mode == 3 && rnd(g, 2)) { int kk = C.k[rnd(g, 2)]; if (kk < 81) { int f = kk / 9 + rnd(g, 7) - 3, r = kk % 9 + rnd(g, 7) - 3; if (f >= 0 && f < 9 && r >= 0 && r < 9) s = f * 9 + r; } }
            if (C.pc[s]) { ++C.hand[rnd(g, 2)][h]; continue; } int pt = HAND_PT[h], co = rnd(g, 2); if (pt != 7 && rnd(g, 3) == 0) pt += 8;
            if (ref::dead(co, pt, s) || (pt == 1 && ref::nifu(C, co, s))) { ++C.hand[co][h]; continue; } C.pc[s] = (uint8_t)(co << 4 | pt);
        }
        if (okPos(C)) return C;
    }
}
static Cells randomPos(Rng& g) { int x = rnd(g, 10); Cells C = x < 4 ? playout(g) : scatter(g, false); if (rnd(g, 4) == 0) { vector<ref::M> v; ref::legal(C, v); vector<ref::M> w; for (auto& m : v) { Cells D = C; ref::apply(D, m); if (ref::inCheck(D, D.turn)) w.push_back(m); } if (!w.empty()) ref::apply(C, w[rnd(g, (int)w.size())]); } return C; }
struct Fail { string key, what; };
static void need(bool c, const char* key, const string& what) { if (!c) throw Fail{key, what}; }
static string hex(uint32_t v) { char b[16]; snprintf(b, 16, "%06x", v); return b; }
struct Ctx { Rng g; std::unordered_set<string>* seen; };
static bool isKnownBoard(__Board& b, const Cells& C) { return sameCells(readBack(b), C); }
static vector<int> listLegal(__Board& b) { vector<int> r; __LegalMoveList ml(b); while (!ml.end()) { r.push_back(ml.move()); ml.next(); } return r; }
// ---- sections: each takes a position; 'b' was set from its SFEN and reads back as C ----
static void sLegal(Rng&, const Cells& C, __Board& b) {
    vector<ref::M> v; ref::legal(C, v); std::set<uint32_t> want; for (auto& m : v) want.insert(m.v()); auto got = listLegal(b); std::set<uint32_t> gs(got.begin(), got.end());
    need(gs.size() == got.size(), "legal-dup", "duplicate legal move"); for (auto x : gs) need(want.count(x), "legal-extra", "illegal move generated " + hex(x)); for (auto x : want) need(gs.count(x), "legal-missing", "legal move missing " + hex(x));
    __LegalMoveList ml(b); need(ml.size() == (int)want.size(), "legal-size", "size"); need(b.is_game_over() == want.empty(), "game-over", "is_game_over");
    __PseudoLegalMoveList pl(b); std::set<uint32_t> ps; int n = 0; while (!pl.end()) { ps.insert(pl.move()); ++n; pl.next(); } need((int)ps.size() == n, "pseudo-dup", "duplicate pseudo-legal move"); for (auto x : want) need(ps.count(x), "pseudo-missing", "legal move missing from pseudo-legal list " + hex(x));
    std::set<uint32_t> pref; vector<ref::M> pv; ref::pseudo(C, pv); for (auto& m : pv) pref.insert(m.v()); for (auto x : ps) need(pref.count(x), "pseudo-extra", "pseudo-legal move breaks movement rules " + hex(x));
}
static void sIsLegal(Rng& g, const Cells& C, __Board& b) {
    vector<ref::M> v; ref::legal(C, v); std::set<uint32_t> want; for (auto& m : v) want.insert(m.v()); for (auto x : want) need(b.moveIsLegal((int)x), "islegal-rejects", "legal move rejected " + hex(x));
    vector<ref::M> pv; ref::pseudo(C, pv); for (auto& m : pv) if (!want.count(m.v())) need(!b.moveIsLegal((int)m.v()), "islegal-accepts", "illegal move accepted " + hex(m.v()));
    for (int i = 0; i < 400; ++i) { uint32_t x; int k = rnd(g, 3); if (k == 0 || pv.empty()) x = (uint32_t)g() & 0xffffff; else { x = pv[rnd(g, (int)pv.size())].v(); x ^= 1u << rnd(g, 24); if (k == 2) x ^= 1u << rnd(g, 24); } x &= ~0x8000u; int to = x & 127, from = (x >> 7) & 127; if (to > 80 || from > 94 || to == C.k[1 - C.turn]) continue; if (from >= 81 && (x >> 14)) continue; need(b.moveIsLegal((int)x) == (want.count(x) > 0), want.count(x) ? "islegal-rejects" : "islegal-accepts", "is_legal wrong for " + hex(x)); }
}
static void sPush(Rng& g, const Cells& C, __Board& b) {
    vector<ref::M> v; ref::legal(C, v); for (auto& m : v) { Cells D = C; ref::apply(D, m); unsigned long long k0 = b.getKey(); int ply = b.ply(); string s0 = b.toSFEN(); b.push((int)m.v()); Cells R = readBack(b);
        need(sameCells(R, D), "push-state", "position after " + hex(m.v())); need(b.kingSquare(0) == D.k[0] && b.kingSquare(1) == D.k[1], "push-king", "king squares after " + hex(m.v())); need(b.ply() == ply + 1, "push-ply", "ply"); 
        { auto p = b.pieces(); for (int s = 0; s < 81; ++s) need(p[s] == D.pc[s], "push-pieces", "piece list after " + hex(m.v())); } need(b.peek() == (int)m.v(), "push-peek", "peek");
        if (rnd(g, 4) == 0) { __Board f(sfenOf(D)); need(f.getKey() == b.getKey(), "push-key", "hash after " + hex(m.v())); need(f.bookKey() == b.bookKey(), "push-bookkey", "book hash after " + hex(m.v())); }
        need(b.inCheck() == ref::inCheck(D, D.turn), "push-check", "in-check after " + hex(m.v())); int pm = b.pop(); need(pm == (int)m.v() && sameCells(readBack(b), C) && b.getKey() == k0 && b.ply() == ply && b.toSFEN() == s0 && b.inCheck() == ref::inCheck(C, C.turn), "pop-restore", "position after taking back " + hex(m.v())); }
}
static void sUndo(Rng& g, const Cells& C0, __Board& b) { // longer histories with passes
    struct S { Cells C; unsigned long long key; string sfen; int ply; bool chk; int rep; }; vector<S> st; vector<bool> pass; Cells C = C0; auto snap = [&]() { return S{C, b.getKey(), b.toSFEN(), b.ply(), b.inCheck(), b.isDraw(1000)}; };
    int n = 2 + rnd(g, 30); for (int i = 0; i < n; ++i) { st.push_back(snap()); if (!b.inCheck() && rnd(g, 6) == 0) { Cells D = C; D.turn = 1 - D.turn; if (ref::inCheck(D, C.turn)) { st.pop_back(); break; } b.push_pass(); C = D; pass.push_back(true); need(sameCells(readBack(b), C), "pass-state", "position after a pass"); need(b.inCheck() == ref::inCheck(C, C.turn), "pass-check", "check after a pass"); __Board f(sfenOf(C)); need(f.getKey() == b.getKey(), "pass-key", "hash after a pass"); }
        else { vector<ref::M> v; ref::legal(C, v); if (v.empty()) { st.pop_back(); break; } auto m = v[rnd(g, (int)v.size())]; b.push((int)m.v()); ref::apply(C, m); pass.push_back(false); need(sameCells(readBack(b), C), "push-state", "position after " + hex(m.v())); } }
    while (!pass.empty()) { if (pass.back()) b.pop_pass(); else b.pop(); pass.pop_back(); S s = st.back(); st.pop_back(); C = s.C; need(sameCells(readBack(b), s.C), "undo-state", "position after taking back"); need(b.getKey() == s.key, "undo-key", "hash after taking back"); need(b.toSFEN() == s.sfen && b.ply() == s.ply && b.inCheck() == s.chk, "undo-sfen", "sfen/ply/check after taking back"); need(b.isDraw(1000) == s.rep, "undo-rep", "repetition state after taking back"); int nck = 0; for (int q = 0; q < 81; ++q) nck += s.C.k[s.C.turn] < 81 && (s.C.pc[q] >> 4) != s.C.turn && ref::pieceAttacks(s.C, q, s.C.k[s.C.turn]); if (nck <= 2) need(b.isOK(), "undo-ok", "isOK"); }
}
static void sKeys(Rng& g, const Cells& C, __Board& b) {
    vector<ref::M> v; ref::legal(C, v); unsigned long long k0 = b.getKey(), bk = b.bookKey(); { __Board f(sfenOf(C, 77)); need(f.getKey() == k0, "key-function", "key depends on more than the position"); need(f.bookKey() == bk, "bookkey-function", "book key"); }
    for (auto& m : v) { unsigned long long pk = b.pos.getKeyAfter(Move(m.v())), pbk = b.pos.getBoardKeyAfter(Move(m.v())), bka = b.bookKeyAfter(bk, (int)m.v()); b.push((int)m.v()); need(b.getKey() == pk, "key-after", "predicted key after " + hex(m.v())); need(b.pos.getBoardKey() == pbk, "boardkey-after", "predicted board key after " + hex(m.v())); need(b.bookKey() == bka, "bookkey-after", "predicted book key after " + hex(m.v())); Cells D = C; ref::apply(D, m); if (rnd(g, 3) == 0) { __Board f(sfenOf(D)); need(f.getKey() == b.getKey(), "key-incremental", "incremental key after " + hex(m.v())); } need(b.getKey() != k0, "key-distinct", "key unchanged by " + hex(m.v())); b.pop(); need(b.getKey() == k0, "key-undo", "key after undo"); }
    { Cells D = C; D.turn = 1 - D.turn; if (okPos(D)) { __Board f(sfenOf(D)); need((f.getKey() ^ k0) == 1, "key-turn", "side to move in the key"); } }
}
static void sCheck(Rng&, const Cells& C, __Board& b) { need(b.inCheck() == ref::inCheck(C, C.turn), "in-check", "is_check"); vector<ref::M> v; ref::legal(C, v); for (auto& m : v) { Cells D = C; ref::apply(D, m); bool e = ref::inCheck(D, D.turn); need(b.pos.moveGivesCheck(Move(m.v())) == e, "gives-check", "gives-check of " + hex(m.v())); b.push((int)m.v()); need(b.inCheck() == e, "check-after", "check after " + hex(m.v())); Bitboard cb = b.pos.checkersBB(); for (int s = 0; s < 81; ++s) need(cb.isSet((Square)s) == (D.k[D.turn] < 81 && (D.pc[s] >> 4) == C.turn && ref::pieceAttacks(D, s, D.k[D.turn])), "checkers", "checking pieces after " + hex(m.v())); b.pop(); } }
static void sAttackers(Rng&, const Cells& C, __Board& b) { for (int c = 0; c < 2; ++c) for (int t = 0; t < 81; ++t) { Bitboard a = b.pos.attackersTo((Color)c, (Square)t); for (int s = 0; s < 81; ++s) need(a.isSet((Square)s) == (C.pc[s] && (C.pc[s] >> 4) == c && ref::pieceAttacks(C, s, t)), "attackers", "attackers of square " + std::to_string(t)); } need(b.inCheck() == ref::inCheck(C, C.turn), "in-check", "is_check"); }
static void sAttacks(Rng& g, const Cells& C, __Board& b) { Bitboard occ = b.pos.occupiedBB(); for (int s = 0; s < 81; ++s) for (int c = 0; c < 2; ++c) { int pt = 1 + rnd(g, 14); Bitboard a = b.pos.attacksFrom((PieceType)pt, (Color)c, (Square)s, occ); for (int t = 0; t < 81; ++t) need(a.isSet((Square)t) == spec::attacks(pt, c, s, t, OccOf{&C}), "attacks", "attack set of piece type " + std::to_string(pt) + " on " + std::to_string(s)); } }
static void sDropMate(Rng&, const Cells& C0, __Board&) { for (int us = 0; us < 2; ++us) { Cells C = C0; C.turn = us; if (!okPos(C)) continue; int k = C.k[1 - us]; if (k == 81) continue; int to = us ? k - 1 : k + 1; if (us ? k % 9 == 0 : k % 9 == 8) continue; if (C.pc[to] || ref::inCheck(C, us)) continue; for (int r = 0; r < 9; ++r) if (C.pc[to / 9 * 9 + r] == (us << 4 | 1)) C.pc[to / 9 * 9 + r] = 0; if (!okPos(C) || ref::inCheck(C, us)) continue; if (!C.hand[us][0]) C.hand[us][0] = 1; __Board b(sfenOf(C)); if (!isKnownBoard(b, C)) continue; need(b.pos.isPawnDropCheckMate((Color)us, (Square)to) == ref::dropMate(C, us, to), "dropmate", "pawn-drop mate verdict, side " + std::to_string(us) + " square " + std::to_string(to)); ref::M m{81, to, 1, 0, false, true}; if (!ref::safe(C, m)) continue; bool e = !ref::dropMate(C, us, to); need(b.moveIsLegal((int)m.v()) == e, "dropmate-legal", "legality of the pawn drop"); auto l = listLegal(b); need((std::count(l.begin(), l.end(), (int)m.v()) > 0) == e, "dropmate-list", "pawn drop in the move list"); } }
static void sMate1(Rng&, const Cells& C, __Board& b) { if (ref::inCheck(C, C.turn)) return; int m = b.mateMoveIn1Ply(); need(sameCells(readBack(b), C), "mate1-state", "position changed by the mate test"); if (!m) return; vector<ref::M> v; ref::legal(C, v); for (auto& x : v) if (x.v() == (uint32_t)m) { Cells D = C; ref::apply(D, x); need(ref::mated(D), "mate1-not-mate", "claimed mate " + hex(m) + " does not mate"); return; } need(false, "mate1-illegal", "claimed mate " + hex(m) + " is illegal"); }
#include "bounded_more.h"
#include "emit.h"
struct Sec { const char* name; void (*f)(Rng&, const Cells&, __Board&); bool kingless; };
static const Sec SECS[] = { {"legal", sLegal, false}, {"islegal", sIsLegal, false}, {"push", sPush, false}, {"undo", sUndo, false}, {"keys", sKeys, false}, {"check", sCheck, true}, {"attackers", sAttackers, true}, {"attacks", sAttacks, true}, {"dropmate", sDropMate, false}, {"mate1", sMate1, false}, MORE_SECS };
int main(int argc, char** argv) {
    string secs = "legal", one; int nemit = 0; uint64_t seed = 1; double seconds = 5; int threads = 2; for (int i = 1; i + 1 < argc; i += 2) { string a = argv[i]; if (a == "--section") secs = argv[i + 1]; else if (a == "--seed") seed = strtoull(argv[i + 1], 0, 10); else if (a == "--seconds") seconds = atof(argv[i + 1]); else if (a == "--threads") threads = atoi(argv[i + 1]); else if (a == "--sfen") one = argv[i + 1]; else if (a == "--emit") nemit = atoi(argv[i + 1]); }
    initTable(); Position::initZobrist(); HuffmanCodedPos_init(); PackedSfen_init(); Book_init(); if (nemit) { emitVectors(seed, nemit); return 0; }
    vector<const Sec*> use; { std::stringstream ss(secs); string x; while (std::getline(ss, x, ',')) for (auto& s : SECS) if (x == s.name) use.push_back(&s); } if (use.empty()) { fprintf(stderr, "no section\n"); return 2; }
    std::mutex mu; std::unordered_set<uint64_t> distinct; std::atomic<uint64_t> evals{0}, skipped{0}; vector<string> samples; std::map<string, string> fails; std::atomic<bool> stop{false}; auto t0 = std::chrono::steady_clock::now();
    auto work = [&](int id) {
        Rng g(seed * 1000003 + id);
        while (!stop) { double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); if (el > seconds) break;
            Cells C; bool kl = rnd(g, 12) == 0; bool all = true; for (auto* s : use) all = all && s->kingless; C = kl && all ? scatter(g, true) : randomPos(g); string sf = sfenOf(C);
            if (!one.empty()) { sf = one; __Board q(sf); C = readBack(q); }
            for (auto* s : use) { try { __Board b(sf); if (!isKnownBoard(b, C)) { ++skipped; continue; } s->f(g, C, b); ++evals; } catch (Fail& f) { std::lock_guard<std::mutex> l(mu); fails.emplace(f.key, f.what + " in " + sf); if (fails.size() > 3) stop = true; } catch (std::exception& e) { std::lock_guard<std::mutex> l(mu); fails.emplace(string("exception-") + s->name, string(e.what()) + " in " + sf); stop = true; } }
            { std::lock_guard<std::mutex> l(mu); distinct.insert(std::hash<string>()(sf)); if (samples.size() < 3) samples.push_back(sf); } if (!one.empty()) break; }
    };
    vector<std::thread> th; for (int i = 0; i < threads; ++i) th.emplace_back(work, i); for (auto& t : th) t.join();
    for (auto& f : fails) printf("FAIL %s %s\n", f.first.c_str(), f.second.c_str());
    if (evals == 0 && fails.empty()) printf("FAIL no-position no generated position could be set up (every SFEN reads back differently), e.g. %s\n", samples.empty() ? "" : samples[0].c_str());
    printf("STATS {\"evaluations\": %llu, \"distinct\": %zu, \"skipped\": %llu, \"rule\": \"random playouts and random placements of the 40 pieces, side to move not able to take the king; distinct by SFEN\", \"samples\": [", (unsigned long long)evals, distinct.size(), (unsigned long long)skipped); for (size_t i = 0; i < samples.size(); ++i) printf("%s\"%s\"", i ? ", " : "", samples[i].c_str()); printf("]}\n");
    return fails.empty() ? 0 : 1;
}
