#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single source of both is the table below)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, level='proof', note='', technique='contract-based deductive verification (irvc: VC generation from LLVM IR of the real code, SAT-discharged)', na=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': x} for x in state]
    if observe: a['observe_at'] = observe
    P.append(dict(rec={'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a}, level=level, note=note, technique=technique, na=na))
T39 = 'the 39 stable tests sample a few dozen fixed positions'
prop('P01', 'Attack sets follow the rules for every square and occupancy',
     'For every piece type, colour, square and set of occupied squares, the set of squares the piece attacks is exactly the one the rules of shogi give: steps, jumps, and slides that stop at the first occupied square, which is included.',
     ['inputs'], 'all 14 piece types, 2 colours, 81 squares, all 2^81 occupancies', 'sliding attacks depend on 2^81 occupancies; ' + T39,
     ['src/bitboard.hpp', 'src/bitboard.cpp', 'src/init.cpp', 'src/position.hpp'], [('table-driven slider and step attacks', 'src/bitboard.hpp rookAttack/bishopAttack/lanceAttack'), ('table construction', 'src/init.cpp initTable'), ('dispatch by piece type', 'src/position.cpp Position::attacksFrom')], ['precomputed attack tables'], ['Position::attacksFrom', 'dlshogi attack planes'],
     note='81 cases cover all squares; occupancy fully symbolic; tables are the values the real initialisation code of the tree computes')
prop('P02', 'Attackers, checkers and pins of a position are exact',
     'In every position the set of pieces attacking a given square, the set of pieces giving check to the side to move, and the sets of pinned and discovered-check pieces are exactly those the rules define.',
     ['inputs'], 'all arrangements of pieces on 81 squares with at most one king per side, all target squares', T39 + '; pins and double attacks arise from combinations the samples do not contain',
     ['src/position.cpp', 'src/position.hpp'], [('attackers of a square', 'src/position.cpp attackersTo'), ('pinned pieces', 'src/position.hpp hiddenCheckers/pinnedBB/discoveredCheckBB'), ('checkers on set-up', 'src/position.hpp findCheckers')], None, ['Board.is_check', 'legality and move generation'],
     note='every target square / king square is a case; piece placement fully symbolic')
prop('P03', 'Making a move changes the position exactly as the rules say',
     'Making any move that moves or drops a piece of the side to move yields exactly the successor position: squares, hands, king squares, side to move, ply and all redundant piece sets, with captured pieces unpromoted into the mover\'s hand and nothing else changed. A pass changes only the side to move.',
     ['inputs', 'histories'], 'all positions and all moves of own pieces or drops (not only legal ones), from any history state', T39 + '; wrong updates of one piece set show only in later, unrelated queries',
     ['src/position.cpp', 'src/position.hpp', 'src/cshogi.h'], [('incremental update', 'src/position.cpp doMove'), ('pass', 'src/position.cpp doNullMove'), ('API', 'src/cshogi.h __Board::push')], ['piece sets', 'hands', 'king squares', 'ply'], ['Board.push and every query after it'],
     note='post-state of doMove compared with the rule-defined successor on every field, for symbolic position and move')
prop('P04', 'Taking back restores the position exactly',
     'After any sequence of moves and passes, taking back the last move or pass restores the previous position completely: squares, hands, side to move, ply, check state, hash and repetition history are as if it had never been played.',
     ['histories'], 'all positions, moves and passes, by induction all interleavings of making and taking back', 'histories are unbounded; ' + T39,
     ['src/position.cpp', 'src/cshogi.h'], [('undo', 'src/position.cpp undoMove'), ('undo of a pass', 'src/position.cpp doNullMove<false>'), ('history container', 'src/cshogi.h __Board::pop, pop_pass')], ['per-ply state records'], ['Board.pop', 'Board.pop_pass', 'Board.is_draw after them'],
     note='one step is proved for an arbitrary pre-state; sequences follow by induction')
prop('P05', 'Position hash is a function of the position and predicted exactly',
     'The hash after any sequence of moves, passes and take-backs equals the hash computed from scratch for the same squares, hands and side to move. The hash predicted for a move before playing it, and the predicted opening-book key, equal the hash and key obtained after playing it.',
     ['histories', 'inputs'], 'all positions, all moves, all values of the hash tables with a free turn bit', 'a missing term shows only for particular piece/square/hand combinations; ' + T39,
     ['src/position.cpp', 'src/position.hpp', 'src/book.cpp'], [('incremental update', 'src/position.cpp doMove/undoMove/doNullMove'), ('prediction', 'src/position.cpp getKeyAfter/getBoardKeyAfter'), ('from scratch', 'src/position.cpp computeBoardKey/computeHandKey'), ('book key', 'src/book.cpp bookKey/bookKeyAfter')], ['hash tables'], ['Board.zobrist_hash', 'Board.book_key', 'Board.book_key_after'],
     note='move step with uninterpreted even table entries; scratch computation and sum lemma proved separately')
prop('P06', 'Check detection is exact before and after every move',
     'For every position in which the side not to move is not in check, and every pseudo-legal move, the move is reported to give check exactly when the opponent\'s king is attacked afterwards, and after making it the set of checking pieces is exact, including discovered and double checks.',
     ['inputs'], 'all positions, all king squares (or no king), all moves reachable by the piece', 'discovered checks depend on combinations of mover, line piece and king; ' + T39,
     ['src/position.cpp', 'src/position.hpp'], [('check on move', 'src/position.cpp moveGivesCheck, doMove'), ('check info', 'src/position.hpp CheckInfo')], ['checkers of the current state'], ['Board.is_check after push'],
     note='per opponent-king square; everything else symbolic')
prop('P07', 'The legality test accepts exactly the legal moves',
     'For every position and every move value, the legality test answers yes exactly when the move is legal under the rules of shogi: own piece or piece in hand, reachable destination, promotion only with the zone and never a stuck piece, no two unpromoted pawns on a file, no mate by pawn drop, and the own king not left in check.',
     ['inputs'], 'all positions (own king anywhere or absent), all values of every field of the move encoding', T39 + ' and only moves that the generator produced',
     ['src/position.cpp', 'src/position.hpp', 'src/cshogi.h'], [('pseudo-legality', 'src/position.cpp moveIsPseudoLegal'), ('king safety', 'src/position.cpp pseudoLegalMoveIsLegal'), ('API', 'src/cshogi.h __Board::moveIsLegal')], None, ['Board.is_legal', 'Board.is_pseudo_legal'],
     note='split by own-king square; pawn-drop mate enters as the contract decided by P09')
prop('P08', 'Generated legal moves are exactly the legal moves, without duplicates',
     'In every position the list of legal moves contains every move legal under the rules of shogi, contains nothing else, and contains each move once; in particular the game is reported over exactly when there is no legal move.',
     ['inputs'], 'all positions with both kings, in check or not, either side to move', T39 + '; missing moves in rare configurations are invisible to them',
     ['src/generateMoves.cpp', 'src/generateMoves.hpp', 'src/cshogi.h'], [('generation', 'src/generateMoves.cpp GenerateMoves<NonEvasion, Evasion, LegalAll>'), ('list', 'src/generateMoves.hpp MoveList')], None, ['Board.legal_moves', 'Board.is_game_over'],
     note='generator of quiet positions and of evasions proved separately, then the legality filter')
prop('P09', 'The pawn-drop mate verdict is exact',
     'A pawn drop that gives check is rejected as an illegal mate exactly when the checked side would have no legal answer to it, and is accepted in every other case.',
     ['inputs'], 'all positions in which the pawn drop is otherwise possible', 'only one or two such positions are sampled by the tests',
     ['src/position.cpp'], [('verdict', 'src/position.cpp isPawnDropCheckMate, canPieceCapture')], None, ['Board.legal_moves', 'Board.is_legal'],
     note='per king square and side; everything else symbolic')
prop('P10', 'A claimed mate in one is a legal move that mates',
     'Whenever the one-move mate test returns a move, that move is legal and leaves the opponent in check with no legal answer; the test never changes the position.',
     ['inputs'], 'all positions in which the side to move is not in check', 'the tests sample a few mates',
     ['src/position.cpp'], [('mate test', 'src/position.cpp mateMoveIn1Ply')], None, ['Board.mate_move_in_1ply'], level='exploration',
     note='returns that check from next to the king or by a knight: body of mateMoveIn1Ply proved against helper contracts for a set of king/target squares (all helper contracts proved too); returns from a distance and pure discovered checks: bounded stage only')
prop('P11', 'Packed position formats round-trip',
     'Encoding any position reachable by the rules into either packed 32-byte format and decoding it gives the same squares, hands, side to move and hash (and, for the format that stores it, nothing else depends on the ply), and different positions have different encodings.',
     ['inputs'], 'all positions with both kings and the standard 40 pieces', 'the tests encode a handful of positions; the encoding is variable-length',
     ['src/position.cpp', 'src/position.hpp'], [('Huffman coded position', 'src/position.cpp toHuffmanCodedPos/set_hcp'), ('packed sfen', 'src/position.cpp toPackedSfen/set_psfen')], None, ['Board.to_hcp', 'Board.set_hcp', 'Board.to_psfen', 'Board.set_psfen'],
     note='code tables, bit stream, writers and readers with loop invariants over the squares; every position and both formats; malformed data is outside the property')
prop('P12', 'SFEN and piece-list set-up round-trip',
     'Writing any position as SFEN and reading it back gives the same squares, hands, side to move, ply and hash, and the text follows the SFEN grammar; setting a board from the list of its pieces and hands gives that position. The rotated SFEN text describes the board turned by 180 degrees with colours and side to move exchanged, and a position command gives the position reached by its moves.',
     ['inputs'], 'all positions with both kings; any ply number', 'the tests read a few strings', ['src/position.cpp', 'src/cshogi.h'], [('writer', 'src/position.cpp toSFEN'), ('reader', 'src/position.cpp set(sfen)'), ('piece list', 'src/position.cpp set(pieces, hands)'), ('rotation', 'src/cshogi.h __rotate_sfen'), ('position command', 'src/cshogi.h __Board::set_position')], None, ['Board.sfen', 'Board.set_sfen', 'Board.set_pieces', 'Board.set_position', 'cshogi.rotate_sfen'],
     note='writer, reader and piece-list set-up proved with loop invariants, string streams by contract; the rotation of SFEN text and the position command are covered by the bounded stage only')
prop('P13', 'Move encodings convert without loss',
     'For every legal move the text forms, the 16-bit form and the training-data form convert back to the same move in the position it was made from, and the field accessors return the fields the move was built from.',
     ['inputs'], 'all positions and legal moves', 'the tests convert a few moves', ['src/move.hpp', 'src/move.cpp', 'src/usi.cpp', 'src/cshogi.h'], [('text', 'src/usi.cpp usiToMove, csaToMove; src/move.cpp toUSI/toCSA'), ('16-bit', 'src/move.hpp move16toMove; src/cshogi.h __move16_from_psv/__move16_to_psv')], None, ['cshogi.move_to_usi', 'Board.move_from_usi', 'Board.move_from_move16', 'Board.move_from_psv'],
     note='fields and 16-bit forms for all values; text forms for every move shape with symbolic position, split by from-file and piece type')
prop('P14', 'Repetition verdicts follow the move history',
     'The repetition test reports a draw, win or loss exactly according to the most recent earlier occurrence of the position in the game since the last pass: perpetual check by one side decides, otherwise the same position repeats, or the hands of the side to move are better or worse with the same board. The verdict predicted for a move before playing it equals the verdict after playing it.',
     ['histories'], 'all histories of moves', 'histories are unbounded; the tests replay a few games', ['src/position.cpp', 'src/hand.hpp'], [('repetition', 'src/position.cpp isDraw, moveIsDraw')], ['per-ply state records'], ['Board.is_draw', 'Board.move_is_draw'],
     note='isDraw and moveIsDraw with a loop invariant over histories of any length; counters and links by the contracts of doMove and doNullMove')
prop('P15', 'Entering-king declaration is judged by the 27-point rule',
     'A declaration win is reported exactly when the side to move is not in check, its king is in the opponent\'s camp, it has at least ten other pieces there, and its points (5 per rook or bishop, 1 per other piece, in the camp and in hand) reach 28 for Black or 27 for White.',
     ['inputs'], 'all positions', 'the tests do not sample the boundary', ['src/search.cpp', 'src/cshogi.h'], [('rule', 'src/search.cpp nyugyoku')], None, ['Board.is_nyugyoku'],
     note='one case per side; position fully symbolic')
prop('P16', 'Neural-network input planes equal their definition',
     'For every position the piece planes and the dlshogi input planes are set exactly where their definition says (pieces, attacks, attack counts, hands, check), seen from the side to move, and nothing outside the planes is written.',
     ['inputs'], 'all positions', 'a wrong plane is invisible unless that plane is sampled', ['src/cshogi.h'], [('planes', 'src/cshogi.h piece_planes, piece_planes_rotate, _dlshogi_make_input_features')], None, ['Board.piece_planes', 'cshogi.dlshogi.make_input_features'],
     note='output buffers start with arbitrary contents; position fully symbolic; attack sets inside enter by the contracts proved in the same check')
prop('P17', 'Move labels are in range and identify the move',
     'Every legal move gets the label 81 x class + destination (both seen from the mover), inside 0..2186, where the class is the direction of the move (10 directions), plus 10 when promoting, or 20 + piece type - 1 for drops; two different legal moves of one position never share a label.',
     ['inputs'], 'all positions and pairs of legal moves', 'the tests sample a few labels', ['src/cshogi.h'], [('labels', 'src/cshogi.h __dlshogi_make_move_label')], None, ['cshogi.dlshogi.make_move_label'],
     note='label value for every from/to/promotion/drop; injectivity per destination with symbolic position')
prop('P18', 'Copies of a board are independent',
     'A copy of a board answers every query like the original and supports taking back the whole history; later operations on either never affect the other.',
     ['histories'], 'all histories before and after the copy', 'aliasing shows only in particular operation orders', ['src/cshogi.h'], [('copy', 'src/cshogi.h __Board copy constructor, relinkStateInfo')], ['history records'], ['Board.copy', 'copy.copy(board)'],
     note='copy constructor, assignment and relinking proved for histories of any length with loop invariants; containers enter by contract')
prop('P19', 'Fixed-depth mate search never claims a false mate',
     'When the mate search to an odd depth of at least 3 returns a move, that move is legal, gives check, and every defence to it loses within the remaining plies; when the is-mate test to an even depth of at least 2 says yes for a side in check, every defence loses within that depth. Not counted as defences are moves that decline the promotion of a pawn, lance, bishop or rook; a line also ends with a repetition verdict in the attacker\'s favour. The search never changes the position.',
     ['inputs'], 'all positions, histories and depths', 'unbounded game trees; the tests sample a few problems', ['src/mate.cpp'], [('search', 'src/mate.cpp mateMoveInOddPly, mateMoveInOddPlyReturnMove, mateMoveInEvenPly, mateMoveIn3Ply'), ('move lists', 'src/mate.cpp MovePicker, src/generateMoves.cpp GenerateMoves<CheckAll>')], None, ['Board.mate_move', 'Board.is_mate'],
     note='control structure of the four recursive functions proved for any depth and any number of moves (loop invariants, induction on depth); that the attacking lists hold only legal checking moves is covered by the bounded stage only')
prop('P20', 'Proof-number mate solver only returns sound mates',
     'A mate reported by the proof-number solver is a forced mate, and the reported line is legal.',
     ['inputs'], 'all positions and node limits', 'unbounded search, hash-table collisions and repetition', ['src/dfpn.cpp', 'src/osl_dfpn.cpp'], [('solver', 'src/dfpn.cpp')], ['transposition table'], ['cshogi.DfPn'],
     na='the soundness argument runs over a transposition table with replacement, unbounded recursion and heap-allocated search state that irvc cannot represent, and no function-level contract within reach implies it; a contract proof of the recursive search is not feasible here')
prop('P21', 'Game-record files are read and written faithfully',
     'Reading a game record (CSA, KIF, KI2) gives the positions, moves and result it states, and writing one and reading it back gives the same game.',
     ['inputs'], 'all records', 'the tests read a few sample files', ['cshogi/KIF.py', 'cshogi/CSA.py', 'cshogi/KI2.py', 'src/parser.h'], [('readers and writers', 'cshogi/*.py')], None, ['cshogi.KIF.Parser', 'cshogi.CSA.Parser'],
     na='the readers and writers are Python code over regular expressions and file I/O; no deductive verifier for Python is installed (crosshair is bounded concolic execution) and contracts on the C++ side do not reach them')
prop('P22', 'Engine protocol sessions stay in step with the engine',
     'Driving an external engine over the USI protocol sends each command once and returns exactly the engine\'s answer to the current request.',
     ['schedules', 'fault_sequences'], 'all interleavings of engine output and requests', 'depends on process scheduling', ['cshogi/usi/Engine.py'], [('protocol', 'cshogi/usi/Engine.py')], None, ['cshogi.usi.Engine'],
     na='Python code driving subprocesses and pipes; no deductive verifier for Python is installed')
with open(H + '/properties.jsonl', 'w') as f:
    for p in P: f.write(json.dumps(p['rec'], ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'hooks': {'guard': 'none', 'enable': 'no hooks are used: the checks compile /repo/src as it is', 'source_commits': []},
     'checks': [{'property': p['rec']['id'], 'quick_cmd': 'python3 check.py %s quick' % p['rec']['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['rec']['id'], 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']} for p in P if not p['na']],
     'not_applicable': [{'property': p['rec']['id'], 'reason': p['na']} for p in P if p['na']],
     'notes': 'check.py is the driver, plans.py maps properties to contracts, contracts/ holds the contracts, engine/ the verification-condition generator. See DESIGN.md.'}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False); open(H + '/MANIFEST.json', 'a').write('\n')
