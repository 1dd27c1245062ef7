// The rules of shogi, written from the rules and not from the code under verification.
// Squares: file*9+rank, file 0 = file "1", rank 0 = rank "a"; Black moves towards rank 0.
#pragma once
#include "vc.h"
namespace spec {
enum { EMPTY = 0, PAWN = 1, LANCE, KNIGHT, SILVER, BISHOP, ROOK, GOLD, KING, PROPAWN, PROLANCE, PROKNIGHT, PROSILVER, HORSE, DRAGON };
static inline int fileOf(int s) { return s / 9; }
static inline int rankOf(int s) { return s % 9; }
static inline int typeOf(int pc) { return pc & 15; }
static inline int colorOf(int pc) { return (pc >> 4) & 1; }
static inline bool okPiece(int pc) { int t = pc & 15; return pc == 0 || (t >= 1 && t <= 14 && (pc >> 5) == 0); }
// one-step part of a piece's movement: (df,dr) seen from Black (forward = -1)
static inline bool stepOf(int pt, int df, int dr) {
    int af = df < 0 ? -df : df;
    switch (pt) {
    case PAWN: return df == 0 && dr == -1;
    case KNIGHT: return af == 1 && dr == -2;
    case SILVER: return af <= 1 && (dr == -1 || (dr == 1 && af == 1));
    case GOLD: case PROPAWN: case PROLANCE: case PROKNIGHT: case PROSILVER: return af <= 1 && (dr == -1 || (dr == 0 && af == 1) || (dr == 1 && af == 0));
    case KING: case HORSE: case DRAGON: return af <= 1 && dr >= -1 && dr <= 1 && (df != 0 || dr != 0);
    default: return false;
    }
}
static inline bool slides(int pt, int sf, int sr) { // unit direction seen from Black
    switch (pt) {
    case LANCE: return sf == 0 && sr == -1;
    case BISHOP: case HORSE: return sf != 0 && sr != 0;
    case ROOK: case DRAGON: return (sf == 0) != (sr == 0);
    default: return false;
    }
}
static inline int sgn(int x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
// does a piece of type pt and colour c standing on 'from' attack 'to', given occupancy occ(sq)?
template <class Occ> static inline bool attacks(int pt, int c, int from, int to, Occ occ) {
    if (from == to) return false;
    int df = fileOf(to) - fileOf(from), dr = rankOf(to) - rankOf(from);
    int bf = c ? -df : df, br = c ? -dr : dr;
    if (stepOf(pt, bf, br)) return true;
    if (!(df == 0 || dr == 0 || df == dr || df == -dr)) return false;
    int sf = sgn(df), sr = sgn(dr);
    if (!slides(pt, c ? -sf : sf, c ? -sr : sr)) return false;
    bool clear = true;
    int f = fileOf(from) + sf, r = rankOf(from) + sr;
    while (!(f == fileOf(to) && r == rankOf(to))) { clear = clear & !occ(f * 9 + r); f += sf; r += sr; }
    return clear;
}
}
