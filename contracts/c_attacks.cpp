// Contracts on the attack functions: for every square, colour and occupancy the returned set is the
// geometric attack set of the rules (and no bit outside the 81 squares is ever set).
#include "repo.h"
#include "spec.h"
static bool bbHas(const Bitboard& b, int s) { return s < 63 ? (b.p(0) >> s) & 1 : (b.p(1) >> (s - 63)) & 1; }
static void same(const Bitboard& a, int pt, int c, int sq, uint64_t o0, uint64_t o1, const char* id) {
    auto occ = [&](int s) -> bool { return s < 63 ? (o0 >> s) & 1 : (o1 >> (s - 63)) & 1; };
    for (int to = 0; to < 81; ++to) vc_assert(bbHas(a, to) == spec::attacks(pt, c, sq, to, occ), id);
    vc_assert((a.p(0) >> 63) == 0 && (a.p(1) >> 18) == 0, id);
}
extern "C" void h_attacks() {
    int sq = (int)vc_param(0);
    uint64_t o0 = vc_nondet(63, "occ0"), o1 = vc_nondet(18, "occ1");
    Bitboard occ(o0, o1);
    Square s = (Square)sq;
    for (int c = 0; c < 2; ++c) {
        same(lanceAttack((Color)c, s, occ), spec::LANCE, c, sq, o0, o1, "lanceAttack");
        same(pawnAttack((Color)c, s), spec::PAWN, c, sq, o0, o1, "pawnAttack");
        same(knightAttack((Color)c, s), spec::KNIGHT, c, sq, o0, o1, "knightAttack");
        same(silverAttack((Color)c, s), spec::SILVER, c, sq, o0, o1, "silverAttack");
        same(goldAttack((Color)c, s), spec::GOLD, c, sq, o0, o1, "goldAttack");
    }
    same(bishopAttack(s, occ), spec::BISHOP, 0, sq, o0, o1, "bishopAttack");
    same(rookAttack(s, occ), spec::ROOK, 0, sq, o0, o1, "rookAttack");
    same(horseAttack(s, occ), spec::HORSE, 0, sq, o0, o1, "horseAttack");
    same(dragonAttack(s, occ), spec::DRAGON, 0, sq, o0, o1, "dragonAttack");
    same(kingAttack(s), spec::KING, 0, sq, o0, o1, "kingAttack");
    for (int c = 0; c < 2; ++c) for (int pt = 1; pt <= 14; ++pt) same(Position::attacksFrom((PieceType)pt, (Color)c, s, occ), pt, c, sq, o0, o1, "attacksFrom");
    vc_cover("end");
}
