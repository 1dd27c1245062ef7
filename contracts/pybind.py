"""Python layer: replays the sessions written by bounded --emit through cshogi.Board of the current tree and compares every answer.
usage: pybind.py PROPERTY VECTORS   (PYTHONPATH: the freshly built package)"""
import sys, json, copy
import numpy as np, cshogi
from cshogi import Board
import cshogi.dlshogi as dl
prop = sys.argv[1]; n = 0; fails = {}
def chk(p, what, got, want, ctx):
    global n
    if p != prop: return
    n += 1
    if got != want and what not in fails: fails[what] = '%s: %r, expected %r, after %s' % (what, got, want, ctx)
def nzl(a): return [int(i) for i in np.nonzero(a.reshape(-1))[0]]
def compare(b, d, ctx, after):
    st = {'push': 'P03', 'pop': 'P04', 'copy': 'P18', 'set': 'P12'}[after]
    for p in {st, 'P12' if after == 'set' else st}:
        chk(p, 'sfen', b.sfen(), d['sfen'], ctx); chk(p, 'pieces', list(b.pieces), d['pieces'], ctx); chk(p, 'piece', [b.piece(s) for s in range(81)], d['pieces'], ctx); chk(p, 'piece_type', [b.piece_type(s) for s in range(81)], [x & 15 for x in d['pieces']], ctx); chk(p, 'pieces_in_hand', [list(x) for x in b.pieces_in_hand], d['hands'], ctx); chk(p, 'turn', b.turn, d['turn'], ctx); chk(p, 'move_number', b.move_number, d['ply'], ctx); chk(p, 'king_square', [b.king_square(0), b.king_square(1)], d['k'], ctx); chk(p, 'history', list(b.history), d['history'], ctx); chk(p, 'hash', b.zobrist_hash() & (2**64 - 1), d['key'], ctx)
        if d['history']: chk(p, 'peek', b.peek(), d['history'][-1], ctx)
    if st in ('P04', 'P18'): chk(st, 'is_check', b.is_check(), d['check'], ctx); chk(st, 'is_draw', b.is_draw(), d['draw'], ctx)
    chk('P12', 'sfen', b.sfen(), d['sfen'], ctx); chk('P05', 'zobrist_hash', b.zobrist_hash() & (2**64 - 1), d['key'], ctx); chk('P05', 'book_key', b.book_key() & (2**64 - 1), d['book'], ctx)
    if prop in ('P02', 'P06'): chk(prop, 'is_check', b.is_check(), d['check'], ctx)
    if prop in ('P08', 'P09'):
        L = list(b.legal_moves); chk(prop, 'legal_moves', sorted(L), sorted(d['legal']), ctx); chk(prop, 'len', len(b.legal_moves), len(d['legal']), ctx); chk('P08', 'is_game_over', b.is_game_over(), d['over'], ctx); chk('P08', 'pseudo_legal_moves', sorted(b.pseudo_legal_moves), sorted(d['pseudo']), ctx)
    if prop == 'P07':
        for m in d['legal']: chk('P07', 'is_legal', b.is_legal(m), True, (ctx, m))
    chk('P14', 'is_draw', b.is_draw(), d['draw'], ctx); chk('P14', 'is_draw(8)', b.is_draw(8), d['draw8'], ctx); chk('P15', 'is_nyugyoku', b.is_nyugyoku(), d['nyu'], ctx)
    if 'm1' in d: chk('P10', 'mate_move_in_1ply', b.mate_move_in_1ply(), d['m1'], ctx)
    if 'm3' in d:
        chk('P19', 'mate_move', b.mate_move(3), d['m3'], ctx); chk('P19', 'is_mate', bool(b.is_mate(2)), d.get('is2', False), ctx)
        if prop == 'P11':
            for nm, dt, w, r in (('hcp', cshogi.HuffmanCodedPos, b.to_hcp, Board.set_hcp), ('psfen', cshogi.PackedSfen, b.to_psfen, Board.set_psfen)):
                a = np.zeros(1, dt); w(a); chk('P11', 'to_' + nm, a.tobytes().hex(), d[nm], ctx); c = Board(); r(c, np.asarray(a[0])); e = Board(d['sfen']); chk('P11', 'set_' + nm, (list(c.pieces), [list(x) for x in c.pieces_in_hand], c.turn, c.zobrist_hash()), (list(e.pieces), [list(x) for x in e.pieces_in_hand], e.turn, e.zobrist_hash()), ctx)
        if prop == 'P12':
            chk('P12', 'rotate_sfen', cshogi.rotate_sfen(d['sfen']), d['rot'], ctx); c = Board(); c.turn = d['turn']; c.set_pieces(d['pieces'], tuple(d['hands'])); chk('P12', 'set_pieces', (list(c.pieces), [list(x) for x in c.pieces_in_hand]), (d['pieces'], d['hands']), ctx); e = Board(sfen=d['sfen']); chk('P12', 'Board(sfen)', (e.sfen(), e.zobrist_hash()), (d['sfen'], b.zobrist_hash()), ctx)
        if prop == 'P16':
            a = np.zeros((28, 9, 9), np.float32); b.piece_planes(a); chk('P16', 'piece_planes', nzl(a), d['pp'], ctx); a = np.zeros((28, 9, 9), np.float32); b.piece_planes_rotate(a); chk('P16', 'piece_planes_rotate', nzl(a), d['pr'], ctx)
            dl.use_nyugyoku_features(d['ny']); chk('P16', 'FEATURES2_NUM', dl.FEATURES2_NUM, d['n2'], ctx); f = np.full((dl.FEATURES1_NUM, 9, 9), 7, np.float32); q = np.full((dl.FEATURES2_NUM, 9, 9), 7, np.float32); dl.make_input_features(b, f, q); chk('P16', 'features1', nzl(f), d['f1'], ctx); chk('P16', 'features2', nzl(q), d['f2'], ctx); dl.use_nyugyoku_features(False)
        for v, usi, csa, m16, psv, lab, rot, fl, pt, bka, dr in d['moves']:
            x = (ctx, v)
            if prop == 'P13':
                chk('P13', 'move_to_usi', cshogi.move_to_usi(v), usi, x); chk('P13', 'to_usi', cshogi.to_usi(v), usi.encode(), x); chk('P13', 'move_to_csa', cshogi.move_to_csa(v), csa, x); chk('P13', 'to_csa', cshogi.to_csa(v), csa.encode(), x); chk('P13', 'move_from_usi', b.move_from_usi(usi), v, x); chk('P13', 'move_from_csa', b.move_from_csa(csa), v, x); chk('P13', 'move16', cshogi.move16(v), m16, x); chk('P13', 'move16_to_psv', cshogi.move16_to_psv(m16), psv, x); chk('P13', 'move16_from_psv', cshogi.move16_from_psv(psv), m16, x); chk('P13', 'move_from_move16', b.move_from_move16(m16), v, x); chk('P13', 'move_from_psv', b.move_from_psv(psv), v, x); chk('P13', 'move_rotate', cshogi.move_rotate(v), rot, x)
                chk('P13', 'fields', [cshogi.move_to(v), cshogi.move_from(v), cshogi.move_cap(v), int(cshogi.move_is_promotion(v)), int(cshogi.move_is_drop(v))], fl, x); chk('P13', 'piece', cshogi.move_drop_hand_piece(v) if fl[4] else cshogi.move_from_piece_type(v), pt, x); chk('P13', 'move', b.drop_move(fl[0], cshogi.hand_piece_to_piece_type(pt)) if fl[4] else b.move(fl[1], fl[0], bool(fl[3])), v, x)
            chk('P17', 'label', dl.make_move_label(v, d['turn']), lab, x); chk('P05', 'book_key_after', b.book_key_after(b.book_key(), v) & (2**64 - 1), bka, x); chk('P14', 'move_is_draw', b.move_is_draw(v), dr, x)
        if prop == 'P14':
            for m, r in zip(d['legal'], d['md']): chk('P14', 'move_is_draw', b.move_is_draw(m), r, (ctx, m))
        if prop == 'P07':
            for w, ok in d['words']: chk('P07', 'is_legal', b.is_legal(w), ok, (ctx, w))
b = None; saved = None; trail = []
for l in open(sys.argv[2]):
    e = json.loads(l); op, a = e['op'], e['arg']; after = 'push'
    if op == 'set': trail = ['set ' + a]; saved = None; b = Board(); b.set_sfen(a); after = 'set'
    elif op == 'position': trail = ['position ' + a]; b = Board(); b.set_position(a); after = 'set'
    else:
        trail.append('%s %s' % (op, a))
        if op == 'push': b.push(a)
        elif op == 'push_usi': chk('P13', op, b.push_usi(cshogi.move_to_usi(a)), a, trail)
        elif op == 'push_csa': chk('P13', op, b.push_csa(cshogi.move_to_csa(a)), a, trail)
        elif op == 'push_move16': chk('P13', op, b.push_move16(cshogi.move16(a)), a, trail)
        elif op == 'push_psv': chk('P13', op, b.push_psv(cshogi.move16_to_psv(cshogi.move16(a))), a, trail)
        elif op == 'pass': b.push_pass()
        elif op == 'pop':
            m = b.pop(); after = 'pop'
            if a: chk('P04', 'pop', m, a, trail)
        elif op == 'pop_pass': b.pop_pass(); after = 'pop'
        elif op == 'fork': saved = b; b = b.copy() if a == 0 else copy.copy(b) if a == 1 else Board(board=b); after = 'copy'
        elif op == 'join': b = saved; saved = None; after = 'copy'
    compare(b, e['d'], '; '.join(trail), after)
for k, v in fails.items(): print('FAIL python-' + k.replace(' ', ''), v)
print('STATS', json.dumps({'comparisons': n}))
sys.exit(1 if fails else 0)
