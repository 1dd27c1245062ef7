"""Which contracts decide which property, and the case splits (each case is one irvc run; together the cases of a group cover the
whole quantified domain of the contract)."""
import sys
Group = sys.modules["__main__"].Group if hasattr(sys.modules["__main__"], "Group") else __import__("check").Group
DROPMATE = {'_ZNK8Position19isPawnDropCheckMateE5Color6Square': 'ct_isPawnDropCheckMate'}
ATTFROM = {'_ZN8Position11attacksFromE9PieceType5Color6SquareRK8Bitboard': 'ct_attacksFrom'}
ZOB = ('_ZN8Position8zobrist_E:1', '_ZN8Position8zobHand_E:1')
SQ = range(81); SQK = range(82)
TRUST = ['irvc, the VC generator of /verif/engine (symbolic executor of LLVM IR: integer/bit-vector/vector instructions, byte-precise memory, loops unrolled until the exit is proved; every access is checked)',
         'minisat 2.2 / kissat answering UNSAT', 'clang 18 front end and the IR clean-up passes sroa, early-cse, instcombine, simplifycfg, loop-simplify, lcssa (the shipped module is built by g++ from the same source)',
         'the rules of shogi as written in contracts/spec.h, sympos.h, symmove.h']
class Plan:
    def __init__(self, groups, assumptions=(), bounded=None, seconds=12, level='proof', trusted=()):
        self.groups = groups; self.assumptions = list(assumptions); self.bounded = bounded; self.bounded_seconds = seconds; self.level = level; self.trusted = TRUST + list(trusted)
A_POS = 'positions are any arrangement of pieces on the 81 squares (any number of each), at most one king per side, any hands; the redundant piece sets agree with the squares (established by P03 and P10/P11, assumed here)'
A_DQ = 'std::deque enters by contract (ct_* in contracts/c_copy.cpp)'
A_TAB = 'attack, mask and line tables hold the values computed by running the real initialisation code of the current tree; the contract is proved over those values'
def g_attacks(): return Group('attack-sets', 'c_attacks', 'h_attacks', [(s,) for s in SQ], text='attack functions return the rule-defined set for every square and occupancy')
def g_attackers(): return [Group('attackers', 'c_attackers', 'h_attackers', [(s, c) for s in SQ for c in (0, 1)], text='attackersTo and variants'), Group('attackers-occ', 'c_attackers', 'h_attackers_occ', [(s, c) for s in SQ for c in (0, 1)], text='attackersTo with explicit occupancy')]
def g_pins(): return Group('pins-and-checkers', 'c_attackers', 'h_pins', [(k, c) for k in SQK for c in (0, 1)], text='pinnedBB, discoveredCheckBB, findCheckers')
def g_do(ids): return Group('move-state', 'c_domove', 'h_do', [(us, d, -1) for us in (0, 1) for d in (0, 1)], uf=ZOB, time=300, ids=ids, text='doMove/undoMove: state, hash and history after a move and after taking it back')
BOOK = ('_ZN4Book8ZobPieceE:0', '_ZN4Book7ZobHandE:0')
def g_null(ids): return Group('pass', 'c_keys', 'h_null', [(0,), (1,)], ids=ids, text='doNullMove and taking it back')
def g_keys(): return [Group('hash-tables', 'c_keys', 'h_zob_even', [(0,), (1,)], text='hash tables produced by the real initialisation'), Group('hash-from-scratch', 'c_keys', 'h_compute_board', [(0,), (1,)], text='computeBoardKey'), Group('hash-hand', 'c_keys', 'h_compute_hand', [()], text='computeHandKey'), Group('hash-sum-lemma', 'c_keys', 'h_key_step', [()], text='inductive step: changed squares change the sum by their difference'),
                      Group('book-hash', 'c_keys', 'h_book', [(0,), (1,)], text='Book::bookKey'), Group('book-hash-after', 'c_keys', 'h_book_after', [(u, d) for u in (0, 1) for d in (0, 1)], uf=BOOK, text='Book::bookKeyAfter')]
def g_docheck(ids=None): return Group('move-check', 'c_domove', 'h_docheck', [(us, d, k) for k in SQK for us in (0, 1) for d in (0, 1)], uf=ZOB, time=200, ids=ids, text='moveGivesCheck and checkersBB after doMove')
def g_legal():
    def fb(p): return 'h_legal_board', [(p[0], p[1], lo, min(81, lo + 11)) for lo in range(0, 81, 11)], DROPMATE
    return [Group('legal-board', 'c_legal', 'h_legal_board_mod', [(us, k) for k in SQK for us in (0, 1)], replace=dict(DROPMATE, **ATTFROM), time=200, fallback=fb, text='is_legal of moves of pieces other than the king'),
            Group('legal-king', 'c_legal', 'h_legal_king', [(us, k) for k in SQ for us in (0, 1)], replace=DROPMATE, time=120, text='is_legal of king moves'),
            Group('legal-drop', 'c_legal', 'h_legal_drop', [(us, k) for k in SQK for us in (0, 1)], replace=DROPMATE, time=120, text='is_legal of drops'),
            Group('reach-lemma', 'c_legal', 'h_reach_lemma', [(f,) for f in SQ], text='rules lemma used by legal-board')]
def g_gen(): return Group('generate-not-in-check', 'c_gen', 'h_gen', [(us, -1, s, 8) for us in (0, 1) for s in range(8)], replace=DROPMATE, time=300, text='generateMoves<NonEvasion>')
def g_dropmate(): return Group('pawn-drop-mate', 'c_dropmate', 'h_dropmate', [(us, k) for k in SQ for us in (0, 1) if k % 9 != (0 if us else 8)], text='isPawnDropCheckMate')
def PM(u): return dict([('_ZN12_GLOBAL__N_118GeneratePieceMovesIL8MoveType6EL9PieceType%dEL5Color%dELb1EEclEP7ExtMoveRK8PositionRK8Bitboard6Square' % (pt, u), 'ct_piece%d' % i) for i, pt in enumerate((1, 2, 3, 4, 5, 6, 16))] + [('_ZN12_GLOBAL__N_117generateDropMovesIL5Color%dEEEP7ExtMoveS3_RK8PositionRK8Bitboard' % u, 'ct_drops')])
def FL(u): return {'_ZN12_GLOBAL__N_113GenerateMovesIL8MoveType6EL5Color%dELb1EEclEP7ExtMoveRK8Position' % u: 'ct_genEvasion', '_ZN12_GLOBAL__N_113GenerateMovesIL8MoveType7EL5Color%dELb0EEclEP7ExtMoveRK8Position' % u: 'ct_genNonEvasion', '_ZNK8Position22pseudoLegalMoveIsLegalILb0ELb0EEEb4MoveRK8Bitboard': 'ct_safe'}
def g_evasion():
    def fb(p): return 'h_evasion', [p], DROPMATE
    return [Group('evasion-%d' % u, 'c_gen', 'h_evasion_mod', [(u, k) for k in SQ], replace=PM(u), time=200, fallback=fb, text='generation of answers to check: king moves, target sets handed to the piece generators') for u in (0, 1)] + [Group('evasion-pieces', 'c_genpiece', 'h_genpiece', [(u, kind, s) for u in (0, 1) for kind in range(8) for s in (range(4) if kind == 6 else (0,))], replace=DROPMATE, time=200, text='GeneratePieceMoves<Evasion, PT, US, true> and generateDropMoves for an arbitrary target set')]
def g_filter(): return [Group('filter-board', 'c_legal', 'h_filter_board', [(u, k) for k in SQ for u in (0, 1)], time=120, text='king-safety filter on generated moves of other pieces'), Group('filter-drop', 'c_legal', 'h_filter_drop', [(u, k) for k in SQ for u in (0, 1)], text='king-safety filter on drops'), Group('filter-king', 'c_legal', 'h_filter_king', [(u, k) for k in SQ for u in (0, 1)], text='king-safety filter on king moves')] + [Group('filter-loop-%d (bounded: up to 10 moves)' % u, 'c_filter', 'h_filter_loop', [(u, n) for n in range(11)], replace=FL(u), soft=True, text='the filter loop keeps exactly the accepted moves') for u in (0, 1)]
TEXT = {'_ZNK8Position17moveIsPseudoLegalILb0EEEb4Move': 'ct_pseudo', '_ZNK8Position22pseudoLegalMoveIsLegalILb0ELb0EEEb4MoveRK8Bitboard': 'ct_safeAll', '_ZNK8Position8pinnedBBEv': 'ct_pinned'}
FROMS = list(range(8)) + [9 + s for s in range(72, 81)]   # from-files 0..7 whole, file 8 square by square
def g_text(): return [Group('move-fields', 'c_api', 'h_fields', [()], text='every field of the move encoding, 16-bit and training-data forms, rotation'), Group('move-16bit', 'c_api', 'h_move16', [(u, d) for u in (0, 1) for d in (0, 1)], text='the 16-bit forms determine the move in its position; Board.move, Board.drop_move'),
                      Group('usi-text', 'c_text', 'h_usi', [(u, k, x) for u in (0, 1) for k in (0, 1) for x in FROMS] + [(u, 2, x) for u in (0, 1) for x in range(1, 8)], replace=TEXT, soft=True, text='exact USI text, and reading it back'), Group('csa-text', 'c_text', 'h_csa', [(u, k, pt, f) for u in (0, 1) for k, n in ((0, 14), (1, 6)) for pt in range(1, n + 1) for f in FROMS] + [(u, 2, pt, 0) for u in (0, 1) for pt in range(1, 8)], replace=TEXT, soft=True, text='exact CSA text, and reading it back')]
FEAT = {'_ZN8Position11attacksFromE9PieceType5Color6SquareRK8Bitboard': 'ct_fAttacksFrom', '_ZNK8Position11attackersToE5Color6SquareRK8Bitboard': 'ct_fAttackersTo'}
def g_planes(): return [Group('piece-planes', 'c_api', 'h_planes', [(u, r) for u in (0, 1) for r in (0, 1)], text='piece_planes, piece_planes_rotate'), Group('dlshogi-planes', 'c_api', 'h_features', [(u, 0, q) for q in [1, 2] + list(range(11, 25)) for u in (0, 1)] + [(u, 1, 2) for u in (0, 1)], replace=FEAT, soft=True, time=300, text='_dlshogi_make_input_features on an arbitrary output buffer')]
def g_labels(): return [Group('label-value', 'c_api', 'h_label_range', [(0,), (1,)], text='label = 81 x direction class + destination seen from the mover'), Group('label-injective', 'c_api', 'h_label_inj', [(u, t) for t in SQ for u in (0, 1)], text='two moves of own pieces to the same square have different labels')]
def g_nyu(): return Group('declaration', 'c_api', 'h_nyugyoku', [(0,), (1,)], text='nyugyoku')
KEYAFTER = {'_ZNK8Position11getKeyAfterE4Move': 'ct_keyAfter', '_ZNK8Position16getBoardKeyAfterE4Move': 'ct_boardKeyAfter'}
def g_rep():
    def f1(p): return 'h_rep_unrolled', [(p[0], 32)], {}
    def f2(p): return 'h_rep_move_unrolled', [(p[0], 24)], KEYAFTER
    return [Group('repetition', 'c_rep', 'h_rep', [(0,), (1,)], cut={'_ZNK8Position6isDrawEi#0': 'inv_rep'}, fallback=f1, fbound='histories of up to 32 plies', soft=True, text='isDraw, loop invariant over histories of any length'),
            Group('repetition-predicted', 'c_rep', 'h_rep_move', [(0,), (1,)], replace=KEYAFTER, cut={'_ZNK8Position10moveIsDrawE4Movei#0': 'inv_rep'}, fallback=f2, fbound='histories of up to 24 plies', soft=True, text='moveIsDraw, loop invariant over histories of any length'),
            Group('hand-superior', 'c_rep', 'h_superior', [()], text='Hand::isEqualOrSuperior'),
            g_do({'state-after-move', 'history-counters', 'getKeyAfter', 'getBoardKeyAfter'}), Group('check-counters', 'c_domove', 'h_docount', [(us, d, k) for k in SQK for us in (0, 1) for d in (0, 1)], uf=ZOB, replace={'_ZNK8Position14moveGivesCheckE4MoveRK9CheckInfo': 'ct_gives'}, soft=True, text='doMove: continuous-check counters follow the check verdict'), g_null({'pass-starts-new-history'})]
ENC = {'_ZNK8Position17toHuffmanCodedPosEPh#0': 'inv_enc', '_ZNK8Position12toPackedSfenEPh#0': 'inv_enc'}
DEC = {'_ZN8Position7set_hcpEPKc#0': 'inv_sq', '_ZN8Position7set_hcpEPKc#1': 'inv_tok', '_ZN8Position9set_psfenEPKc#0': 'inv_sq', '_ZN8Position9set_psfenEPKc#1': 'inv_tok'}
RD = {'_ZN9BitStream6getBitEv': 'ct_getBit', '_ZN9BitStream7getBitsEi': 'ct_getBits', '_ZNK9BitStream4dataEv': 'ct_data', '_ZNK22HuffmanCodeToPieceHash5valueEt': 'ct_value', '_ZNK8Position15computeBoardKeyEv': 'ct_computeBoardKey', '_ZNK8Position14computeHandKeyEv': 'ct_computeHandKey', '_ZN8Position12findCheckersEv': 'ct_findCheckers'}
FMT = ('set_hcp', 'toHuffman'), ('set_psfen', 'toPacked')
def g_pack():
    G = [Group('code-tables', 'c_pack', 'h_tables', [(0,), (1,)], text='codes are prefix-free, have matching lengths and fill 256 bits'), Group('code-maps', 'c_pack', 'h_maps', [(0,), (1,)], text='the lookup maps invert the code tables on every code a reader can form'), Group('bit-stream', 'c_pack', 'h_bits', [(b,) for b in range(32)], text='putBit(s)/getBit(s) at every position of the 256 bits')]
    for f in (0, 1):
        G.append(Group('writer-%d' % f, 'c_pack', 'h_enc', [(f,)], replace={'_ZN9BitStream6putBitEh': 'ct_putBit', '_ZN9BitStream7putBitsEhi': 'ct_putBits'}, cut={k: v for k, v in ENC.items() if FMT[f][1] in k}, soft='shape', text='the writer emits the token sequence of the position (loop invariant)'))
        G.append(Group('reader-%d' % f, 'c_pack', 'h_dec', [(f,)], replace=RD, cut={k: v for k, v in DEC.items() if FMT[f][0] in k}, soft='shape', time=200, text='the reader rebuilds the position from its token sequence (loop invariants)'))
    return G
SS = '_ZNSt7__cxx11'
KEYS = {'_ZNK8Position15computeBoardKeyEv': 'ct_computeBoardKey', '_ZNK8Position14computeHandKeyEv': 'ct_computeHandKey', '_ZN8Position12findCheckersEv': 'ct_findCheckers'}
SETS = '_ZN8Position3setERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'
SETA = '_ZN8Position3setEPK5PiecePA7_Ki'
def g_sfen():
    w = {SS + '18basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev': 'ct_ssCtor', SS + '18basic_stringstreamIcSt11char_traitsIcESaIcEED1Ev': 'ct_ssDtor', '_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv': 'ct_ssStr', '_ZNSolsEi': 'ct_outInt', '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc': 'ct_outStr'}
    r = dict(KEYS, **{SS + '19basic_istringstreamIcSt11char_traitsIcESaIcEEC1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode': 'ct_isCtor', SS + '19basic_istringstreamIcSt11char_traitsIcESaIcEED1Ev': 'ct_isDtor', '_ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv': 'ct_isBool', '_ZNSi3getERc': 'ct_get', '_ZNSirsERi': 'ct_getInt', '_ZNK14CharToPieceUSI11isLegalCharEc': 'ct_isLegalChar', '_ZNK14CharToPieceUSI5valueEc': 'ct_value'})
    return [Group('sfen-letters', 'c_sfen', 'h_letters', [()], text='the reader map inverts the letters of the writer, and knows no others'),
            Group('sfen-writer', 'c_sfen', 'h_write', [()], replace=w, soft='shape', time=300, text='the writer emits the SFEN text of the position, token by token'),
            Group('sfen-reader', 'c_sfen', 'h_read', [()], replace=r, cut={SETS + '#0': 'inv_board', SETS + '#2': 'inv_hand'}, soft='shape', time=300, text='the reader rebuilds the position from its SFEN text (loop invariants over the text)'),
            Group('set-pieces', 'c_sfen', 'h_arrays', [(0,), (1,)], replace=KEYS, cut={SETA + '#0': 'inv_arr'}, soft='shape', time=200, text='set-up from a list of pieces and hand counts (loop invariant over the squares)')]
UM = '_ZNSt13unordered_mapIPK9StateInfoPS0_St4hashIS2_ESt8equal_toIS2_ESaISt4pairIKS2_S3_EEE'
DQ, DQK = '_ZNSt5dequeISt4pairI4Move9StateInfoESaIS3_EE', '_ZNKSt5dequeISt4pairI4Move9StateInfoESaIS3_EE'
IT = ['15_Deque_iteratorISt4pairI4Move9StateInfoERKS3_PS4_E', '15_Deque_iteratorISt4pairI4Move9StateInfoERS3_PS3_E']
OPQ = ['_ZNSt5deque', '_ZNKSt5deque', '_ZNSt11_Deque_base', '_ZNSt15_Deque_iterator', '_ZNKSt15_Deque_iterator', '_ZNSt13unordered_map', '_ZNKSt13unordered_map', '_ZNSt10_Hashtable', '_ZSt4copy', '_ZSt8for_each']
def g_history(cases):
    r = [{DQ + '12emplace_backIJRKiS2_EEERS3_DpOT_': 'ct_emplaceInt', DQ + '4backEv': 'ct_back', '_ZN8Position6doMoveE4MoveR9StateInfo': 'ct_doMove'}, {DQ + '4backEv': 'ct_back', DQ + '8pop_backEv': 'ct_popBack', '_ZN8Position8undoMoveE4Move': 'ct_undoMove'},
         {DQ + '12emplace_backIJS1_S2_EEERS3_DpOT_': 'ct_emplaceMove', DQ + '4backEv': 'ct_back', '_ZN8Position10doNullMoveILb1EEEvR9StateInfo': 'ct_null'}, {DQ + '4backEv': 'ct_back', DQ + '8pop_backEv': 'ct_popBack', '_ZN8Position10doNullMoveILb0EEEvR9StateInfo': 'ct_unnull'}]
    return [Group('board-' + ('push', 'pop', 'push-pass', 'pop-pass')[c], 'c_copy', 'h_history', [(c,)], replace=r[c], opaque=OPQ, soft='shape', text='the board makes or takes back the move or pass once, with the record kept in its history') for c in cases]
def g_copy():
    r = {UM + 'C2Ev': 'ct_mapNew', UM + 'D2Ev': 'ct_mapNew', UM + '7emplaceIJS2_S3_EEES8_INSt8__detail14_Node_iteratorISA_Lb0ELb0EEEbEDpOT_': 'ct_emplace', UM + '2atERS9_': 'ct_at', DQK + '5beginEv': 'ct_begin', DQ + '5beginEv': 'ct_begin', DQK + '3endEv': 'ct_end', '_ZStneRKSt' + IT[0] + 'S9_': 'ct_ne'}
    o = {UM + '7reserveEm': 'ct_reserve', DQK + '4sizeEv': 'ct_size', DQ + 'D2Ev': 'ct_dequeDtor', DQK + '5emptyEv': 'ct_empty', DQ + '3endEv': 'ct_end'}
    for i in IT: r['_ZNKSt' + i + 'ptEv'] = 'ct_arrow'; r['_ZNSt' + i + 'ppEv'] = 'ct_inc'
    RL = '_ZN7__Board15relinkStateInfoERKS_'
    return [Group('copy-' + n, 'c_copy', 'h_copy', [(k,)], replace=dict(r, **x), opt=o, opaque=OPQ, cut={RL + '#0': 'inv_map', RL + '#1': 'inv_link'}, soft='shape', text='the copy equals the source and all its links point into itself (loop invariants, histories of any length)') for k, n, x in ((0, 'construct', {DQ + 'C2ERKS5_': 'ct_dequeCopy'}), (1, 'assign', {DQ + 'aSERKS5_': 'ct_dequeAssign'}))] + [Group('self-assignment', 'c_copy', 'h_self', [()], opaque=OPQ, soft='shape', text='assigning a board to itself changes nothing')]
def g_mate():
    P = '_ZN10MovePickerILb'; OR = [('0', '1ELb0', 'ct_pickOr'), ('1', '1ELb1', 'ct_pickOrChecked')]; AND = '0ELb0'
    def lst(x, c): return {P + x + 'EEC2ERK8Position': c, P + x + 'EE5beginEv': 'ct_pbegin', P + x + 'EE3endEv': 'ct_pend'}
    st = {'_ZN9CheckInfoC2ERK8Position': 'ct_ci', '_ZN8Position6doMoveE4MoveR9StateInfoRK9CheckInfob': 'ct_do', '_ZN8Position8undoMoveE4Move': 'ct_undo'}; dr = {'_ZNK8Position6isDrawEi': 'ct_isDraw'}; gv = {'_ZNK8Position14moveGivesCheckE4MoveRK9CheckInfo': 'ct_gives'}
    m1 = {'_ZN8Position14mateMoveIn1PlyILb1EEE4Movev': 'ct_mate1'}; three = {'_Z14mateMoveIn3PlyILb%dEEbR8Position' % i: 'ct_three%d' % i for i in (0, 1)}; odd = {'_Z16mateMoveInOddPlyILb%dEEbR8Positioni' % i: 'ct_odd%d' % i for i in (0, 1)}; ev = {'_Z17mateMoveInEvenPlyR8Positioni': 'ct_even'}
    sz = {P + AND + 'EE4sizeEv': 'ct_psize'}; alll = {}
    for _, x, c in OR: alll.update(lst(x, c))
    alll.update(lst(AND, 'ct_pickAnd')); alll.update(sz); alll.update(st); alll.update(dr); alll.update(gv); alll.update(m1); alll.update(three); alll.update(odd)
    G = []
    def add(name, entry, case, req, cut, text, extra): o = dict(alll, **extra); G.append(Group(name, 'c_mate', entry, [case], replace=req, opt={k: v for k, v in o.items() if k not in req}, cut=cut, soft='shape', text=text))
    for d, sub in ((2, m1), (4, three), (0, dict(odd, **three))):
        req = dict(lst(AND, 'ct_pickAnd')); req.update(st); req.update(gv); add('defence-%s' % (d or 'n'), 'h_even', (d,), req, {'_Z17mateMoveInEvenPlyR8Positioni#0': 'inv_and'}, '"mated" is claimed only when every legal answer loses', {})
    for i, x, c in OR:
        req = dict(lst(x, c)); req.update(st); req.update(ev)
        for j, f in ((0, '_Z16mateMoveInOddPlyILb%sEEbR8Positioni'), (1, '_Z26mateMoveInOddPlyReturnMoveILb%sEE4MoveR8Positioni')): add('attack-%s-%d' % (i, j), 'h_odd', (int(i), j), req, {f % i + '#0': 'inv_or'}, 'a mate is claimed only for a check after which the defender is lost', {})
        req = dict(lst(x, c)); req.update(st); req.update(lst(AND, 'ct_pickAnd')); f = '_Z14mateMoveIn3PlyILb%sEEbR8Position' % i; add('attack-3ply-%s' % i, 'h_three', (int(i),), req, {f + '#0': 'inv_or', f + '#0.0': 'inv_and2'}, 'a mate in three is claimed only for a check all answers to which allow mate in one', {})
    for g in G: # the function under contract itself is not replaced
        own = {'h_even': '_Z17mateMoveInEvenPlyR8Positioni', 'h_odd': '_Z16mateMoveInOddPlyILb%d' % g.cases[0][0], 'h_three': '_Z14mateMoveIn3PlyILb%d' % g.cases[0][0]}[g.entry]; g.opt = {k: v for k, v in g.opt.items() if not k.startswith(own)}
    return G
def contacts(us, k): # squares from which a piece of us can check a king on k from next to it or by a knight's jump
    x, y = divmod(k, 9); d = 1 if us == 0 else -1
    return [a * 9 + b for a, b in [(x + i, y + j) for i in (-1, 0, 1) for j in (-1, 0, 1) if i or j] + [(x - 1, y + 2 * d), (x + 1, y + 2 * d)] if 0 <= a <= 8 and 0 <= b <= 8]
def g_mate1(tier, seed):
    N = '_ZN12_GLOBAL__N_1'; S3 = 'E5Color6Square'; o = {'_ZN8Bitboard16firstOneFromSQ11Ev': 'ct_pick', N + '13canKingEscapeERK8Position5Color6SquareRK8Bitboard': 'ct_canKingEscape', N + '15canPieceCaptureERK8Position5Color6SquareRK8Bitboard': 'ct_canPieceCapture',
         N + '23can_king_escape_cangotoERK8Position5Color6SquareS4_RK8BitboardS7_': 'ct_cangoto', N + '17can_piece_captureERK8Position5Color6SquareRK8BitboardS7_': 'ct_capture5', N + '17can_piece_captureERK8Position5Color6SquareS4_RK8BitboardS7_': 'ct_capture6',
         '_ZNK8Position11attackersToE5Color6SquareRK8Bitboard': 'ct_attackersTo', '_Z10rookAttack6SquareRK8Bitboard': 'ct_rook', '_Z12bishopAttack6SquareRK8Bitboard': 'ct_bishop', '_Z11horseAttack6SquareRK8Bitboard': 'ct_horse', '_Z12dragonAttack6SquareRK8Bitboard': 'ct_dragon', '_Z11lanceAttack5Color6SquareRK8Bitboard': 'ct_lance',
         '_ZNK8Position17discoveredCheckBBILb0EEE8Bitboardv': 'ct_dcThem', '_ZNK8Position17discoveredCheckBBILb1EEE8Bitboardv': 'ct_dcUs', '_ZNK8Position8pinnedBBEv': 'ct_pinned', '_ZNK8Position12pinnedPiecesE5Color6SquareS1_': 'ct_pinnedPieces',
         '_ZNK8Position15isPinnedIllegalILb0EEEb6SquareS1_S1_RK8Bitboard': 'ct_illegal', '_ZNK8Position15isPinnedIllegalILb1EEEb6SquareS1_S1_RK8Bitboard': 'ct_illegal', '_Z9isAlignedILb1EEb6SquareS0_S0_': 'ct_aligned', '_Z10nextSquare6SquareS_': 'ct_next',
         '_ZNK8Position13attacksSliderE5ColorRK8Bitboard': 'ct_slider', '_ZNK8Position13attacksSliderE5Color6SquareRK8Bitboard': 'ct_sliderAvoid'}
    for c in '01': o.update({'_ZNK8Position26attacksAroundKingNonSliderIL5Color%sEEE8Bitboardv' % c: 'ct_akns', '_ZNK8Position23attacksAroundKingSliderIL5Color%sEEE8Bitboardv' % c: 'ct_akns', '_ZNK8Position36attacksAroundKingNonSliderInAvoidingIL5Color%sEEE8Bitboard6Square' % c: 'ct_aknsAvoid'})
    skip = ('position', 'memory', 'can', 'dis', 'isP', 'att')
    base = [(37, 38), (37, 46), (37, 48), (1, 2), (0, 10), (40, 31)]; drops = base + [(37, 30), (36, 37), (73, 74)]
    board = [(0, k, t) for k, t in base] + [(1, 80 - k, 80 - t) for k, t in base]; drop = [(0, k, t) for k, t in drops] + [(1, 80 - k, 80 - t) for k, t in drops]; frame = [(0, 37), (1, 43), (0, 0), (1, 80)]
    if tier != 'quick':
        import random; R = random.Random(seed); al = [(u, k, t) for u in (0, 1) for k in SQ for t in contacts(u, k)]; R.shuffle(al); drop = drop + [x for x in al[:150] if x not in drop]; board = board + [x for x in al[:60] if x not in board]; frame = [(u, k) for u in (0, 1) for k in (0, 4, 8, 37, 40, 43, 72, 80)]
    near = [(u, k, t) for u in (0, 1) for k in (SQ if tier != 'quick' else sorted(set(x[1] for x in board + drop))) for t in contacts(u, k)]; H = '_ZNK8Position'
    return [Group('mate1-board', 'c_mate1', 'h_contact', [x + (0,) for x in board], opt=o, skip=skip, time=400, text='mateMoveIn1Ply: a move of a board piece that checks from next to the king (or by a knight) is legal and mates'),
            Group('mate1-drop', 'c_mate1', 'h_contact', [x + (1,) for x in drop], opt=o, skip=skip, time=300, text='mateMoveIn1Ply: a drop that checks from next to the king (or by a knight) is legal and mates'),
            Group('mate1-frame', 'c_mate1', 'h_frame', frame, opt=o, time=400, text='mateMoveIn1Ply: the position is as before, helpers are called as their contracts require, no access out of bounds'),
            Group('mate1-escape', 'c_mate1', 'h_escape', near, text='canKingEscape'), Group('mate1-goto', 'c_mate1', 'h_cangoto', near, text='can_king_escape_cangoto'),
            Group('mate1-capture', 'c_mate1', 'h_capture', [x + (i,) for x in near for i in range(3)], text='canPieceCapture, can_piece_capture'),
            Group('mate1-around', 'c_mate1', 'h_around', [x + (i,) for x in near for i in range(5) if nextTo(x[1], x[2])], text='attacksSlider, attacksAroundKing...: squares next to the king they contain are attacked'),
            Group('mate1-hidden', 'c_mate1', 'h_hidden', [(u, k) for u in (0, 1) for k in SQ], text='discoveredCheckBB, both variants'), Group('mate1-lines', 'c_mate1', 'h_lines', [(k,) for k in SQ], text='isAligned, nextSquare'),
            Group('mate1-pinned', 'c_legal', 'h_pin_safe', [(u, k) for u in (0, 1) for k in SQ], text='isPinnedIllegal refuses every move that exposes the own king')]
def nextTo(a, b): return max(abs(a // 9 - b // 9), abs(a % 9 - b % 9)) == 1
def plan(prop, tier, seed):
    s = 12 if tier == 'quick' else 300
    if prop == 'P01': return Plan([g_attacks()], [A_TAB], 'attacks', s)
    if prop == 'P02': return Plan(g_attackers() + [g_pins(), g_attacks()], [A_POS, A_TAB], 'attackers', s)
    if prop == 'P03': return Plan([g_do({'state-after-move', 'history-counters'}), g_null({'pass-flips-turn-only', 'pass-starts-new-history'})] + g_history([0, 2]), [A_POS, A_DQ], 'push', s)
    if prop == 'P04': return Plan([g_do({'undo-restores'}), g_null({'pass-undo'})] + g_history([1, 3]), [A_POS, A_DQ], 'undo', s)
    if prop == 'P05': return Plan([g_do({'key-after-move', 'getKeyAfter', 'getBoardKeyAfter'}), g_null({'key-after-pass'})] + g_keys(), [A_POS, 'table entries are treated as arbitrary even numbers in the move contract (proved even in hash-tables); summing over all squares follows by induction from hash-sum-lemma'], 'keys', s)
    if prop == 'P06': return Plan([g_docheck(), g_pins()], [A_POS, A_TAB], 'check', s)
    if prop == 'P07': return Plan(g_legal() + [g_pins(), g_attacks()], [A_POS, A_TAB], 'islegal', s)
    if prop == 'P08': return Plan([g_gen()] + g_evasion() + g_filter() + [g_pins()], [A_POS, A_TAB, 'pawn-drop mate enters as the contract decided by P09', 'the filter loop over the list is unrolled for lists of up to 10 moves only (bounded)'], 'legal', s)
    if prop == 'P09': return Plan([g_dropmate(), g_attacks()], [A_POS, A_TAB, 'the checked king is not already in check before the drop (a legal position with the dropper to move)'], 'dropmate', s)
    if prop == 'P10': return Plan(g_mate1(tier, seed) + [g_attacks()] + g_attackers()[1:], [A_POS, A_TAB, 'the side to move is not in check; no pawn, lance or knight stands where it can never move; at most 4 lances, 2 bishops or horses, 2 rooks or dragons of a side (slider unions only)', 'every loop of mateMoveIn1Ply over a set of squares is represented by one arbitrary member of the set (an iteration that does not return leaves the position as it was, mate1-frame, so iterations are independent)', 'proved for the king and target squares listed in the cases; other squares, checks given from a distance and pure discovered checks are covered by the bounded stage only'], 'mate1,mate1n', 5 * s, level='exploration')
    if prop == 'P11': return Plan(g_pack(), ['both kings on the board; pieces on the board and in hand do not exceed the standard set', 'hash and checkers of the decoded position: computeBoardKey, computeHandKey and findCheckers enter by the contracts decided by P05 and P02', 'the token sequences of writer and reader are joined by the code-tables lemma (prefix-free, 256 bits in all) on paper', 'data that no writer produces (malformed input) is outside the property'], 'packed', s)
    if prop == 'P12': return Plan(g_sfen(), ['libstdc++ string streams enter by contracts (characters and decimal integers in order; ct_* in contracts/c_sfen.cpp)', 'hash and checkers of the position set up: computeBoardKey, computeHandKey and findCheckers enter by the contracts decided by P05 and P02', 'at most 18 pieces of a kind in hand, both kings on the board', 'text that no writer produces is outside the property', 'rotated SFEN text and the position command are covered by the bounded stage only'], 'sfen', s)
    if prop == 'P13': return Plan(g_text(), [A_POS, 'the legality tests called by the text readers enter as an arbitrary verdict (decided by P07)'], 'text', s)
    if prop == 'P14': return Plan(g_rep(), [A_POS, 'equal 64-bit hashes mean equal positions (collisions are not excluded)', 'the records of a history are linked as doMove and doNullMove leave them (move-state, pass) and form no cycle'], 'rep', s)
    if prop == 'P15': return Plan([g_nyu()], [A_POS, 'hand counts within the field widths of the hand word (at most the number of pieces in a set)'], 'nyugyoku', s)
    if prop == 'P16': return Plan(g_planes() + [g_attacks()] + g_attackers()[1:], [A_POS, A_TAB, 'inside the plane builder attacksFrom and attackersTo enter by their contracts (decided by attack-sets and attackers-occ of this check)'], 'planes', s)
    if prop == 'P17': return Plan(g_labels(), [A_POS], 'labels', s)
    if prop == 'P18': return Plan(g_copy() + g_history(range(4)) + [g_do({'state-after-move', 'undo-restores'}), g_null({'pass-flips-turn-only', 'pass-undo'})], [A_POS, 'std::deque and std::unordered_map enter by contract (ct_* in contracts/c_copy.cpp): elements in order, element-wise copies, elements keep their address until removed', 'the source history is linked as clear, doMove and doNullMove leave it (move-state, pass)', 'each board writes only its own position, its own records and the record it is given: the contracts of doMove, undoMove and doNullMove'], 'copy', s)
    if prop == 'P19': return Plan(g_mate(), ['at attacking nodes the list holds legal moves that give check (generateMoves<CheckAll> and the filter of MovePicker: bounded stage only); at defending nodes every legal answer except those that decline a promotion (P08)', 'moves made and taken back (P03, P04), check verdicts (P06), repetition verdicts (P14) and mate in one (P10) enter by contract', 'the searches one ply deeper enter by the contracts proved here: induction on the depth', 'only depths odd >= 3 (mate) and even >= 2 (mated)'], 'mate', s)
    raise SystemExit('unknown property ' + prop)
