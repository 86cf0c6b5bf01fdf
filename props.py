"""Which jobs decide which property."""
import json
import os

from gen import *

ASSUMPTIONS = [
    'the LLVM IR rustc emits at opt-level 1 (overflow checks and debug assertions on for sql-parse) means what the machine code of other profiles means',
    'alloc never fails; formatting of messages (alloc::fmt) is replaced by a stub except in P30, P32 and P33, as message texts are not part of the other properties',
    'the tokens a slot ranges over (every keyword in three spellings, names, numbers, strings, placeholders, punctuation) stand for the tokens of their kind',
    'sentences other than those reachable from the corpus within the stated number of symbolic parts are outside the bounds',
]


def hash16(word):
    h = 0
    m = (1 << 64) - 1
    for i, c in enumerate(word.upper().encode()):
        if i < 8:
            h |= c << 8 * i
        else:
            h = ((h ^ c << i % 8) * 0x100000001b3 & m) | 1 << 63
    return h & 0xffff


def base_code(code):
    """A deviation of another property that this one relies on, as that property reports it."""
    p, c = divmod(code, 1000)
    if c < 500:
        return code
    q, k = divmod(c - 500, 12)
    return q * 1000 + k


def counts(pid, v):
    """Is this outcome of a run a violation of pid?"""
    if v['kind'] == 'fail':
        return v['code'] // 1000 == int(pid[1:])
    if v['kind'] == 'budget':
        return pid == 'P02'
    return pid == 'P01'


def reproduces(v, r):
    if r is None:
        return False
    if v['kind'] == 'fail':
        return any(c == v['code'] for c, _ in r['fails'])
    if v['kind'] == 'budget':
        # either it does not end at all, or it ends after more steps than any sentence of its length may take
        return r['end'] in ('timeout', 'hang', 'died', 'ok')
    return r['end'].startswith('panic') or r['end'] in ('died', 'timeout', 'hang')


MEANING = {
    (3, 1): 'an issue has a span outside the text', (3, 2): 'an issue has a span inside a character', (3, 3): 'the segment of an issue is not the text at its span',
    (4, 1): 'a span is out of order or outside the text', (4, 2): 'a span does not start and end with tokens', (4, 3): 'a span is empty',
    (5, 1): 'a part lies outside the span of its node',
    (6, 1): 'a word at a span of the tree is not the word in the text', (6, 2): 'the text does not have the word the tree implies', (6, 3): 'with errors, a word at a span of the tree is not the word in the text',
    (6, 4): 'a name spans several tokens', (6, 5): 'a name is not a name in the text', (6, 6): 'a string is not a string in the text', (6, 7): 'an integer is no integer in the text', (6, 8): 'a float is no float in the text',
    (6, 9): 'a placeholder is not one in the text', (6, 10): 'a word spans several tokens',
    (7, 1): 'something in the text is not in the tree', (7, 2): 'parts are in another order than in the text', (7, 3): 'the end of the text is not in the tree',
    (30, 4): 'the level is not in the report', (30, 5): 'the message is not in the report', (30, 6): 'the line number in the report is not that of the issue', (30, 7): 'the code is not in the report', (30, 9): 'the line number of a part is not in the report',
    (31, 1): 'the number of issues depends on those there were', (31, 2): 'an earlier issue has changed', (31, 3): 'the issues depend on what was parsed before', (31, 4): 'the tree depends on what was parsed before',
    (34, 1): 'a mistake inside a part changes the tree before it', (34, 2): 'a mistake inside a part changes the tree after it', (34, 3): 'a mistake inside a part is reported outside it as well', (34, 5): 'the sentence without the mistake has errors',
    (33, 1): 'what an error asks for is refused where it asks for it',
    (32, 1): 'the first error is about the text before the place where it goes wrong',
    (37, 1): 'a word that cannot stand where it stands is not what the first error is about',
    (36, 1): 'a list or query that the tree says stands in parentheses does not', (36, 2): 'a query in parentheses is not one query in the tree',
    (8, 1): 'an operator stands under one that binds tighter',
    (9, 1): 'the value of a string is not what it denotes',
    (10, 1): 'the value of an integer is not what its digits denote', (10, 2): 'the value of a float is not what it denotes', (10, 3): 'a length is not what its digits denote', (10, 4): 'an interval is not what it denotes',
    (11, 1): 'a placeholder has the wrong number', (16, 1): 'data lines end or begin at the wrong place', (16, 2): 'data lines are not verbatim',
    (18, 3): 'a warning without a warning option', (18, 4): 'a warning that is not at a token', (18, 5): 'a warning that is not at a word', (18, 6): 'a warning about a word in capitals', (18, 7): 'a warning about a word that is no name',
    (18, 8): 'two warnings for one word', (18, 9): 'an unquoted name without a warning', (19, 1): 'a malformed token is accepted', (19, 2): 'a token that cannot stand there is not reported as a whole',
    (20, 1): 'the value of a name is not its text', (20, 2): 'the value of a quoted name is not its text', (20, 3): 'a reserved word is accepted as a name',
    (21, 1): 'no statement and no error', (21, 2): 'a part that failed to parse and no error',
    (22, 1): 'a closing parenthesis too many is accepted', (22, 2): 'an open parenthesis is accepted', (22, 3): 'two statements without a delimiter are accepted',
    101: 'a valid sentence is rejected', 102: 'an invalid sentence is accepted', 103: 'a reserved word is accepted as a name', 104: 'a word that is not reserved is rejected as a name',
    1: 'the trees differ', 2: 'the errors differ', 3: 'one is accepted and the other is not', 4: 'the part is missing or the trees differ', 5: 'the errors differ',
}


def meaning(v):
    if v['kind'] != 'fail':
        return {'budget': 'parsing does not end within the bound on steps'}.get(v['kind'], v['kind'] + ' ' + v['stack'][:120])
    p, c = divmod(v['code'], 1000)
    if c >= 500:
        q, k = divmod(c - 500, 12)
        return MEANING.get((q, k), 'P%02d/%d' % (q, k))
    return MEANING.get((p, c)) or MEANING.get(c) or 'deviation %d' % c


B_TOKEN = 'corpus sentences of up to 60 tokens with one or two symbolic tokens (each over all keywords and 94 other tokens)'
PROPS = {}


def prop(pid, bounds):
    def f(jobs):
        PROPS[pid] = dict(jobs=jobs, bounds=bounds)
        return jobs
    return f


def _wild(J, pid, acc, kinds, variants='long', dialects='first', n=100000):
    if J.thorough:
        variants, dialects = 'all', 'all'
    wild(J, pid, acc, LINES, kinds, variants, dialects)
    J.cap('wild', n)


@prop('P01', B_TOKEN + '; up to two symbolic bytes in 27 contexts; one symbolic token repeated 10 times in 29 contexts')
def p01(J):
    _wild(J, 1, 0, 'rit', n=7000)
    bytes_(J, 1, 0)
    J.cap('bytes', 40)
    unicode_(J, 1, 0)
    strings(J, 1, 0, 3)
    pumped(J, 1, 0, 16 if J.thorough else 8)
    J.cap('pump', 30)
    J.cap('pump2', 20)
    number_jobs(J, 1, 0, expect=False)
    pairs(J, 1, 0, LINES)
    J.cap('pair', 30)
    word_jobs(J, 1, 0)
    edits(J, 1, 0)
    bad(J, 1, 0, 0)


@prop('P02', B_TOKEN + '; one or two symbolic tokens repeated 12 times in 29 contexts; a path may take 4 million steps (8 million when pumped), sentences of the corpus take at most 110 thousand')
def p02(J):
    pumped(J, 2, 0, 40 if J.thorough else 12)
    J.cap('pump2', 30)
    _wild(J, 2, 0, 'rit', n=3000)
    bytes_(J, 2, 0)
    J.cap('bytes', 30)


@prop('P03', B_TOKEN + '; characters of one to three bytes and symbolic bytes in names, strings and comments')
def p03(J):
    unicode_(J, 3, 0)
    bytes_(J, 3, 0)
    J.cap('bytes', 40)
    _wild(J, 3, 0, 'rit', n=5000)
    # errors on a text with wide characters before and in the sentence
    for l in PLAIN:
        t = l.longest().split(' ')
        for i in range(1, len(t), 3):
            J.add('wide', 'main_stmt', stmt(3, 0, D[l.own[0]], l), [L("/* \u00e6\u4e2d */ "), L(' '.join(t[:i]) + ' '), J.all(), L(" '\u4e2d' "), L(' '.join(t[i:]))])
    J.cap('wide', 300)
    word_jobs(J, 3, 0)
    edits(J, 3, 0)
    bad(J, 3, 0, 0)


@prop('P04', B_TOKEN + '; every combination of optional parts of each sentence')
def p04(J):
    options(J, 4, 0, LINES, 0)
    _wild(J, 4, 0, 'rit', n=6000)
    unicode_(J, 4, 0)
    word_jobs(J, 4, 0)
    edits(J, 4, 0)
    bad(J, 4, 0, 0)


@prop('P05', B_TOKEN + '; every combination of optional parts of each sentence')
def p05(J):
    options(J, 5, 0, LINES, 0)
    many(J, 5, 0)
    edited(J, 5, 0, 'good')
    _wild(J, 5, 0, 'ri', n=7000)
    expr_jobs(J, 5, 0)
    J.cap('expr', 8)
    word_jobs(J, 5, 0)


@prop('P06', B_TOKEN + '; every combination of optional parts of each sentence')
def p06(J):
    options(J, 6, mask(7), LINES, 0)
    many(J, 6, mask(7))
    _wild(J, 6, mask(7), 'ri', n=7000)
    expr_jobs(J, 6, mask(7))
    J.cap('expr', 8)
    pairs(J, 6, mask(7), LINES)
    J.cap('pair', 20)
    word_jobs(J, 6, mask(7))
    edits(J, 6, mask(7))
    bad(J, 6, mask(7), 0)


@prop('P07', B_TOKEN + '; every combination of optional parts of each sentence')
def p07(J):
    options(J, 7, mask(6), LINES, 0)
    names(J, 7, mask(6))
    many(J, 7, mask(6))
    edited(J, 7, mask(6), 'good')
    _wild(J, 7, mask(6), 'ri', n=7000)
    expr_jobs(J, 7, mask(6))
    J.cap('expr', 8)
    pairs(J, 7, mask(6), LINES)
    J.cap('pair', 20)
    word_jobs(J, 7, mask(6))
    edits(J, 7, mask(6))


@prop('P08', 'expressions of up to 6 operands with up to 3 symbolic operators (23 binary, 3 prefix) and parentheses in 25 shapes; all their combinations')
def p08(J):
    expr_jobs(J, 8, mask(6, 7, 22))
    # a symbolic token between operands
    for l in PLAIN:
        if any(o in l.text.split(' ') for o in ('+', '*', 'AND', '=', 'NOT', '-')):
            wild(J, 8, 0, [l], 'ri')
    J.cap('wild', 400)


@prop('P09', 'string literals of 4 symbolic characters (5 in the thorough check) over quotes, backslash, escapes and letters in 11 places, and of 3 wherever a sentence has a literal; up to four adjacent literals, characters of several bytes, any character after a backslash')
def p09(J):
    strings(J, 9, mask(6, 7, 19), 5 if J.thorough else 4)
    for q in "'\"":
        J.add('any', 'main_stmt', [9, mask(6, 7), 0, 0, 0, 1], [L('SELECT ' + q + '\\'), 'B20-7e', L('b' + q)] if 0 else [L('SELECT ' + q + 'a\\'), 'B20-21,23-26,28-5b,5d-7e', L('b' + q)])
        J.add('any', 'main_stmt', [9, mask(6, 7), 0, 0, 0, 1], [L('SELECT ' + q), 'B9,d,20-21,23-26,28-5b,5d-7e', 'B9-a,20-21,23-26,28-5b,5d-7e', L(q)])
        J.add('long', 'main_stmt', [9, mask(6, 7, 19), 0, 0, 0, 0], [L('SELECT ' + q + 'abc' * 5)] + [B("'\"\\n")] * 3 + [L('def' * 5)] + [B("'\"\\0")] * 2 + [L(q + ' , 1')])
    # values that are not plain strings
    al = B("'\\n0x%")
    for p, s in [("SELECT a FROM t WHERE b LIKE '", "'"), ("SELECT CONCAT ( a , '", "' )"), ("SELECT a AS b , '", "' AS c"), ("SELECT CASE '", "' WHEN 1 THEN 2 END"), ("UPDATE t SET a = '", "' WHERE b"), ("INSERT INTO t VALUES ( 'x' , '", "' )"), ("SELECT a IN ( 'x' , '", "' )"),
                 ("CREATE TABLE t ( a INT DEFAULT '", "' )"), ("SET a = '", "'"), ("SELECT 'x' '", "' 'y'")]:
        J.add('ctx', 'main_stmt', [9, mask(6, 7, 19), '?0,2', 0, 0, 0], [L(p), al, al, al, L(s)])
    one(J, 'pg', 9, mask(6, 7, 19), [L("SELECT '"), al, al, al, L("' FROM t")], '?1')
    # wherever a sentence has one
    al = B("'\\n\"a")
    for l in LINES:
        if 'STDIN' in l.text or 'DELIMITER' in l.text:
            continue
        for v in l.variants():
            t = words(v)
            for i, w in enumerate(t):
                if len(w) > 1 and w[0] == "'" == w[-1]:
                    for d in l.own if J.thorough else l.own[0]:
                        P = stmt(9, mask(6, 7, 19), D[d], l)
                        pre, post = L(' '.join(t[:i]) + " '"), L(' ' + ' '.join(t[i + 1:]))
                        J.add('where', 'main_stmt', P, [pre, al, al, al, L("'"), post])
                        J.add('where2', 'main_stmt', P, [pre, al, C(["' '", "'\n'", "'  \t '", "' \"", "'' '", "'/**/'", "' -- '\n'"]), al, C(["'", "' '", '"', "' \"\"", "'\n''"]), post])
    J.cap('where', 150)
    J.cap('where2', 150)
    # three and four literals in a row
    for x in (['SELECT ', ' , b'], ['SELECT a FROM t WHERE b LIKE ', ' AND c'], ["CREATE TABLE t ( a INT ) COMMENT = ", ''], ['INSERT INTO t VALUES ( 1 , ', ' )'], ['SELECT f ( ', ' )']):
        J.add('row', 'main_stmt', [9, mask(6, 7, 19), '?0,2', 0, 0, 0], [L(x[0])] + [C(["'a' ", '"b" ', "'' ", "'c\\'d' ", "'e''f' "])] * 4 + [L(x[1])])


def number_jobs(J, pid, acc, expect=True, fam='number'):
    dg = 'B30-39'
    ok = 0
    # the values around the limits
    for pre in ['1844674407370955', '922337203685477', '429496', '0000000000000000000', '999999999999999999', '', '25', '6553', '1677721', '214748364']:
        for p, s in [('SELECT ', ' FROM t'), ('SELECT a FROM t LIMIT ', ''), ('CREATE TABLE t ( a VARCHAR ( ', ' ) )'), ('SELECT a FROM t WHERE b = - ', ' AND c')]:
            k = 4 if pre.startswith('184') else 3
            J.add(fam, 'main_stmt', [pid, acc, 0, 0, 0, ok], [L(p + pre)] + [dg] * k + [L(s)])
    for p, s in [('CREATE TABLE t ( a INT ( ', ' ) )'), ('CREATE TABLE t ( a BIGINT ( ', ' ) )'), ('CREATE TABLE t ( a TINYINT ( ', ' ) )'), ('CREATE TABLE t ( a SMALLINT ( ', ' ) )'), ('CREATE TABLE t ( a TEXT ( ', ' ) )'),
                 ('CREATE TABLE t ( a BINARY ( ', ' ) )'), ('CREATE TABLE t ( a VARBINARY ( ', ' ) )'), ('CREATE TABLE t ( a BLOB ( ', ' ) )'), ('CREATE TABLE t ( a DATETIME ( ', ' ) )'), ('CREATE TABLE t ( a TIMESTAMP ( ', ' ) )'),
                 ('CREATE TABLE t ( a TIME ( ', ' ) )'), ('CREATE TABLE t ( a BIT ( ', ' ) )'), ('CREATE TABLE t ( a CHAR ( ', ' ) )'), ('CREATE TABLE t ( a NUMERIC ( ', ' , 2 ) )'), ('CREATE TABLE t ( a NUMERIC ( 5 , ', ' ) )'), ('CREATE TABLE t ( a LONGTEXT ( ', ' ) )'),
                 ('CREATE TABLE t ( a TINYTEXT ( ', ' ) )'), ('CREATE TABLE t ( a TINYBLOB ( ', ' ) )'), ('CREATE TABLE t ( a MEDIUMTEXT ( ', ' ) )'), ('CREATE TABLE t ( a MEDIUMBLOB ( ', ' ) )'), ('CREATE TABLE t ( a LONGBLOB ( ', ' ) )'),
                 ('ALTER TABLE t ADD INDEX i ( a ( ', ' ) )'), ('SELECT CURRENT_TIMESTAMP ( ', ' )'), ('SELECT CAST( a AS CHAR ( ', ' ) )'), ('SELECT a + INTERVAL ', ' DAY'), ('SELECT TIMESTAMPADD( DAY , ', ' , b )'), ('SELECT a FROM t LIMIT 1 OFFSET ', ''), ('SELECT a FROM t LIMIT ', ' , 7'),
                 ('SELECT a IN ( ', ' , 2 )'), ('CREATE TABLE t ( a INT DEFAULT ', ' )'), ('CREATE TABLE t ( a INT ) AUTO_INCREMENT = ', ''), ('CREATE TABLE t ( a INT ) MAX_ROWS = ', ''), ('CREATE TABLE t ( a INT ) AVG_ROW_LENGTH = ', ' COMMENT \'x\''), ('CREATE TABLE t ( a INT ) KEY_BLOCK_SIZE = ', ''),
                 ('CREATE TABLE t ( a INT ) CHECKSUM = ', ''), ('CREATE TABLE t ( a INT ) MIN_ROWS ', '')]:
        for pre in ['', '429496729', '1844674407370955161', '922337203685477580', '1']:
            J.add(fam, 'main_stmt', [pid, acc, 0, 0, 0, ok], [L(p + pre), dg, dg if pre in ('', '1') else '', L(s)])
    p = 'SELECT '
    for x in ([L(p), 'B30,31,39', 'B30,35,39', L('.'), 'B30,35,39', 'B30,31,39', L(' FROM t')],
              [L(p)] + ['B2e,30,31,35'] * 4 + [L(' FROM t')],
              [L(p)] + ['B2e,30,35'] * 5 + [L(' , a')],
              [L(p + 'a , b ')] + ['B2e,30,78'] * 4 + [L(' , 1')],
              [L(p), 'B30,39', 'B2e,35,65,45,78,58', 'B2e,30,61,65,2b,2d', 'B30,39,66', L(' FROM t')],
              [L(p + '0.'), 'B30,31,35', 'B30,31,35', L('0000000000000'), 'B30-39', L('99999999'), 'B30,39', L(' FROM t')],
              [L(p + '9' * 305), 'B30,39', 'B30,39', 'B30,39', 'B30,39,2e', L('9.5 FROM t')],
              [L(p + '900719925474099'), 'B30-39', L('.'), 'B30,35,39', 'B30,39', L(' FROM t')]):
        J.add('decimal', 'main_stmt', [pid, acc, 0, 0, 0, ok], x, 90)
    # intervals
    for un in ['DAY', 'YEAR_MONTH', 'DAY_SECOND', 'MICROSECOND', 'MINUTE_SECOND']:
        J.add(fam, 'main_stmt', [pid, acc, 0, 0, 0, 0], [L("SELECT a + INTERVAL '"), 'B21,2b,2d,30', 'B2c,2e,31', 'B20,2d,30,3a,61', 'B2e,31', 'B20,2d,2e,30', L("' " + un)])
        J.add(fam, 'main_stmt', [pid, acc, 0, 0, 0, 0], [L("SELECT a + INTERVAL '"), 'B20,2d,30,39,3a', 'B20,2d,30,31,3a', 'B20,2d,2e,30,39,3a', L("' " + un)])
        J.add(fam, 'main_stmt', [pid, acc, 0, 0, 0, 0], [L("SELECT a + INTERVAL '922337203685477580"), dg, C(['', ' ', ':']), dg, L("' " + un)])


@prop('P10', 'numbers of up to 20 digits of which up to 4 are symbolic, at 40 places, around the limits of 8, 16, 24, 32, 63 and 64 bits; decimals of up to 5 symbolic characters; intervals of up to 5 symbolic characters')
def p10(J):
    number_jobs(J, 10, mask(6, 7))
    J.cap('number', 220)
    for l in PLAIN:
        wild(J, 10, 0, [l], 'r')
    J.cap('wild', 500)


@prop('P11', 'every placeholder style against every option, in place of every token of 60 sentences; several statements; $n with up to 4 symbolic digits')
def p11(J):
    acc = mask(6, 7)
    ph = J.some(['?', '%s', '$1', '$2', '$10', '_LIST_'])
    lit = re.compile(r"^('.*'|\d+|[a-z])$")
    for l in PLAIN:
        t = l.longest().split(' ')
        P = lambda f: [11, acc, D[l.own[0]], '?0-3', f, 0]
        for i in range(1, len(t)):
            # a placeholder among others
            J.add('ph', 'main_stmt', P('?0,8'), [L(' '.join(t[:i]) + ' '), ph, L(' ' + ' '.join(t[i + 1:]))])
    J.cap('ph', 500)
    sent = ['SELECT @ , a FROM t WHERE b = @ AND c IN ( @ , @ ) LIMIT @', 'INSERT INTO t ( a , b ) VALUES ( @ , @ ) , ( @ , @ )', 'UPDATE t SET a = @ , b = @ WHERE c = @', 'DELETE FROM t WHERE a = @ OR b = @', 'SELECT f ( @ , @ ) FROM t ORDER BY @',
            'SELECT a FROM t WHERE b = @ UNION SELECT c FROM u WHERE d = @', 'SELECT CASE @ WHEN @ THEN @ ELSE @ END', 'SELECT a FROM ( SELECT @ ) AS x WHERE y = @', 'SELECT @ + @ * @ - @', 'REPLACE INTO t SET a = @ , b = @', 'SELECT - @ , ( @ ) , NOT @', 'SELECT CAST( @ AS INT ) , IF ( @ , @ , @ )',
            'SELECT a FROM t JOIN u ON @ = @ WHERE @', 'SELECT COUNT ( @ ) , MAX ( @ ) , @', 'SELECT TIMESTAMPADD( DAY , @ , @ ) , @', 'SELECT a FROM t GROUP BY @ HAVING @ ORDER BY @ LIMIT @ , @', 'SELECT a BETWEEN @ AND @', 'SELECT a IN ( SELECT @ ) , @', 'SELECT EXISTS ( SELECT @ ) , @',
            'INSERT INTO t ( a ) VALUES ( @ ) ON DUPLICATE KEY UPDATE b = @ , c = @', 'INSERT INTO t ( a ) SELECT @ FROM u WHERE @', 'SELECT RANK ( ) OVER ( ORDER BY @ ) , @', 'SELECT LEAD ( @ , @ ) OVER ( ORDER BY @ )', 'DELETE FROM t USING u WHERE @ RETURNING @', 'SELECT @ IS NULL , @ LIKE @', 'IF @ THEN SET a = @ ; ELSEIF @ THEN SET b = @ ; ELSE SET c = @ ; END IF']
    style = {1: ['%s'], 2: ['?'], 3: ['$1', '$2', '$10', '$5']}
    for s in sent:
        for a in (1, 2, 3):
            parts = s.split('@')
            els = [L(parts[0])]
            for k, x in enumerate(parts[1:]):
                els += [C(style[a] + (['x'] if a != 3 else ['$7'])), L(x)]
            good = 'BETWEEN' not in s
            J.add('style', 'main_stmt', [11, mask(6, 7), 0, a, 0, 1 if good else 0], els)
            # the wrong style
            for b in range(4):
                if b != a:
                    i = (len(s) + b) % (len(parts) - 1)
                    own = {0: 'x', 1: '%s', 2: '?', 3: '$3'}[b]
                    els = [L(parts[0])]
                    for k, x in enumerate(parts[1:]):
                        els += [L(own) if k != i else C(style[a]), L(x)]
                    J.add('gate', 'main_stmt', [11, 0, 0, b, 0, 2], els)
    # numbering goes on over the statements of a list; lists count too
    for a, w in ((1, '%s'), (2, '?')):
        alts = [w, 'x', w + ' + ' + w]
        J.add('multi', 'main_stmt', [11, acc, 0, a, 1, 1], [L('SELECT '), C(alts), L(' , '), C(alts), L(' ; UPDATE t SET a = '), C(alts), L(' ; SELECT '), C(alts), L(' FROM t ;')])
        J.add('multi', 'main_stmt', [11, acc, 0, a, 9, 1], [L('SELECT '), C(alts), L(' , a IN ( '), C(['_LIST_', w, '1']), L(' ) ; UPDATE t SET a = '), C(alts), L(' WHERE b IN ( '), C(['_LIST_', w]), L(' ) ;')])
        J.add('multi', 'main_stmt', [11, acc, 0, a, 1, 0], [L('SELECT '), C(alts), L(' '), J.all(), L(' ; SELECT '), C(alts), L(' FROM t ;')])
    for s in ['SELECT $', 'SELECT a , $', 'SELECT $1 + $']:
        for pre in ['', '1844674407370955161', '429496729', '0', '000000000000000000000']:
            J.add('dollar', 'main_stmt', [11, mask(6, 7, 10, 19), '?0-2', 3, 0, 0], [L(s + pre), 'B30-39', 'B20,30-39', L(' , b')])
    J.add('dollar', 'main_stmt', [11, mask(6, 7, 10, 19), 1, 3, 0, 0], [L('SELECT $'), 'B30-39,24,61', 'B30-39,24,20', 'B30-39,24,20', L(' , b')])
    one(J, 'dollar', 11, 0, [L('SELECT $0 , a')], '?0-2', 3, 0, 2)


@prop('P12', 'every token of 100 sentences replaced by any keyword in capitals against the same in small or mixed letters; each whole sentence with every combination of its optional parts in small letters')
def p12(J):
    for l in LINES:
        if 'Q' in l.text and l.flags & LISTS:
            continue
        t = words(l.longest())
        for d in l.own if J.thorough else l.own[0]:
            P = [12, 0, D[d], l.args, l.flags, 1]
            J.add('whole', 'main_two', P, l.elements() + ['L02'] + l.elements(lower_kw))
            for i in range(len(t)):
                if t[max(i - 1, 0)] == 'DELIMITER':
                    continue  # a delimiter is taken literally
                a, b = L(' '.join(t[:i]) + ' '), L(' ' + ' '.join(t[i + 1:]))
                for o in ((SMALL, MIXED) if J.thorough else (SMALL if i % 3 else MIXED,)):
                    J.add('word', 'main_two', P, [a, J.keywords(), b, 'L02', a, 'T0:%d' % o, b])
                if J.thorough:
                    b = L(' ' + ' '.join(t[i:]))
                    J.add('put', 'main_two', P, [a, J.keywords(), b, 'L02', a, 'T0:%d' % SMALL, b])
    J.cap('word', 900)
    for w in ['@@GLOBAL . a', '@@SESSION . a', '_LIST_', 'NOW ( )', 'COUNT ( * )', 'x ( a )', 'CAST( a AS CHAR )', 'EXTRACT( DAY FROM a )', "TIMESTAMPADD( DAY , 1 , a )", "a + INTERVAL '1' DAY", 'NULL', 'TRUE', 'CURRENT_TIMESTAMP', 'DATE_FORMAT ( a , b )', "x'"]:
        J.add('fn', 'main_two', [12, 0, 0, 0, LISTS, 1], [L('SELECT ' + w + ' FROM t'), 'L02', L('select ' + w.lower() + ' from t')])
        J.add('fn', 'main_two', [12, 0, 0, 0, LISTS, 1], [L('SELECT ' + w + ' FROM t'), 'L02', L('Select ' + w.capitalize() + ' From t')])
    word_case(J, 12)


@prop('P13', 'each gap between two tokens of each sentence filled with any of 20 kinds of blank and comment and with any two characters of white space; comments of up to 3 symbolic characters; blanks around a symbolic token')
def p13(J):
    seps(J, 13, LINES, per=3 if J.thorough else 1)
    J.cap('blank', 1500)
    # any two characters of white space, in each gap, in front and behind
    white = B(' \t\r\n')
    for l in LINES:
        t = words(l.longest())
        if 'STDIN' in t:
            continue
        for i in range(len(t) + 1):
            a, b = ' '.join(t[:i]), ' '.join(t[i:])
            J.add('white', 'main_two', [13, 0, D[l.own[0]], l.args, l.flags, 0], [L((a + ' ' + b).strip()), 'L02', L(a), white, white, L(b)])
    J.cap('white', 1500)
    # comments of any text, judged against the reference lexer
    acc = mask(3, 4, 6, 7, 9, 19, 20, 21)
    al = B("*/-\n'\";a\\")
    for p, q in [('SELECT a /*', '*/ , b'), ('SELECT a --', '\n , b'), ('SELECT a //', '\n , b'), ('/*', '*/ SELECT a'), ('SELECT a FROM t /*', '*/'), ('SELECT a FROM t --', ''), ('SELECT a FROM t //', ''), ('SELECT a/*', '*/, b'), ('--', '\nSELECT a'), ('SELECT /*', '*//**/a'), ('SELECT 1--', '\n+ 2'), ('SELECT a - /*', '*/ - b')]:
        for d in 'mps' if J.thorough else 'm':
            J.add('comment', 'main_stmt', [13, acc, D[d], 0, 0, 0], [L(p), al, al, al, L(q)])
    J.add('comment', 'main_stmt', [13, acc, 0, 0, 1, 0], [L('SELECT a ; /*'), al, al, al, L('*/ SELECT b ;')])
    J.add('comment', 'main_stmt', [13, acc, 0, 0, 1, 0], [L('SELECT a ; --'), al, al, L('\n SELECT b ; '), B(' \n/-'), B(' \n/-'), L(' x')])
    # no blanks where the tokens stay apart
    for l in LINES:
        if 'STDIN' in l.text:
            continue
        for d in l.own if J.thorough else l.own[0]:
            P = [13, 0, D[d], l.args, l.flags, 0]
            for v in l.variants():
                J.add('squeeze', 'main_two', P, [L(v), 'L02', L(squeeze(words(v)))])
            t = words(l.longest())
            if l.flags & MULTI:
                continue
            for i in range(0, len(t), 1 if J.thorough else 2):
                a, b = L(' '.join(t[:i])), L(' '.join(t[i + 1:]))
                J.add('around', 'main_two', P, [a, L(' '), J.all(), L(' '), b, 'L02', a, C(['\n\n\t', ' //\n'[:4], '/**/', ' \r\n ']), 'R0', C(['\n', '\t']), b])
    J.cap('around', 350)
    one(J, 'comment', 13, acc, [L('SELECT a'), B(' \t\r\n/-*'), B(' \t\r\n/-*'), B(' \t\r\n/-*'), L('b , c')])


OPENERS = [';', 'DELIMITER', '$$', 'BEGIN', 'THEN', 'ELSE', 'IF', 'CASE', 'WHEN', 'DO', 'END', 'STDIN', 'EXCEPTION', 'LOOP', 'Begin']


def bodies(J, pid):
    """Under another delimiter a body that is wrong inside is skipped as a whole."""
    wrong = ['SELECT FROM ;', 'SET a ;', 'SET a = 1 ; UPDATE ;', 'IF a THEN SET b ; END IF ;', 'IF a THEN SET b = ; ELSEIF c THEN SET d = 1 ; END IF ;', 'CASE a WHEN 1 THEN SET ; END CASE ;', 'BEGIN SET ; END ;', 'SELECT 1 1 ;', 'INSERT INTO ;', 'abc ;', 'SELECT ( a ;',
             'SET a = ) ;', 'SET a = 1', 'SET a = 1 SET b = 2 ;', 'DELETE ;', 'RETURN ;', 'IF a THEN SET b = 1 ;', 'BEGIN SET b = 1 ;', 'CASE a WHEN 1 THEN SET b = 1 ;', 'END ; SET c = 1 ;', 'SELECT CASE a ;', 'SET a = 1 ; SET b = 2 ;']
    pre = L('DELIMITER $$ ')
    nxt = [' SELECT b FROM u WHERE c = 1 $$', ' DROP TABLE z $$', ' CREATE TRIGGER ts AFTER DELETE ON t FOR EACH ROW BEGIN SET q = 1 ; SET r = 2 ; END $$', ' IF a THEN SET b = 1 ; END IF $$', ' BEGIN $$']
    for hd, tl in [('CREATE TRIGGER tr BEFORE INSERT ON t FOR EACH ROW BEGIN ', ' END $$'), ('CREATE FUNCTION f ( a INT ) RETURNS INT BEGIN ', ' RETURN 1 ; END $$'), ('IF x THEN ', ' END IF $$'), ('CASE x WHEN 1 THEN ', ' END CASE $$'), ('CREATE TRIGGER tr BEFORE INSERT ON t FOR EACH ROW IF x THEN ', ' END IF $$')]:
        for k in range(0, len(wrong), 8):
            J.add('body', 'main_delimited', [pid, 0, 0, 0, 0], [pre, 'L02', L(hd), C(wrong[k:k + 8]), L(tl), 'L02', C(nxt), 'L02', C(nxt[:3])])
        J.add('body', 'main_delimited', [pid, 0, 0, 0, 0], [pre, 'L02', C(nxt), 'L02', L(hd + 'SET a = 1 ; '), J.but(['$$', 'DELIMITER', 'STDIN']), L(' SET b = 2 ;' + tl), 'L02', C(nxt)])
        J.add('body', 'main_delimited', [pid, 0, 0, 0, 0], [pre, 'L02', C(nxt), 'L02', L(hd + 'SET a = '), J.but(['$$', 'DELIMITER', 'STDIN']), L(' ; SET b = 2 ;' + tl), 'L02', C(nxt)])
    return pre, nxt


@prop('P14', 'lists of three statements, one of them with a symbolic token anywhere; every pair of sentences in the thorough check')
def p14(J):
    one_, two = 'DROP TABLE z', 'SELECT b FROM u WHERE c = 1'
    sl = J.but(OPENERS)
    for n, l in enumerate(PLAIN):
        if l.args:
            continue
        v = l.longest()
        t = words(v)
        P = [14, 0, D[l.own[0]], l.args, l.flags]
        J.add('list', 'main_parts', P, [L(one_), 'L02'] + l.elements() + ['L02', L(two)])
        other = PLAIN[(n * 7 + 3) % len(PLAIN)]
        if set(other.own) & set(l.own) and not other.args:
            J.add('list', 'main_parts', [14, 0, D[(sorted(set(other.own) & set(l.own)))[0]], 0, l.flags | other.flags], l.elements() + ['L02', L(other.longest()), 'L02', L(two)])
        for i in range(len(t)):
            a, b = L(' '.join(t[:i]) + ' '), L(' ' + ' '.join(t[i + 1:]))
            if not any(w in t for w in ('BEGIN', 'THEN', '$$')):
                J.add('error', 'main_parts', P, [L(one_), 'L02', a, sl, b, 'L02', L(two)])
            if i < len(t) - 1 and i % 2 and not any(w in t[:i] for w in ('BEGIN', 'THEN', '$$')):
                J.add('cut', 'main_parts', P, [a, sl, 'L02', L(two), 'L02', L(one_)])
    J.cap('error', 700)
    J.cap('cut', 350)
    for k in range(0, len(corpus.BAD), 12):
        no = [x for x in corpus.BAD[k:k + 12] if not any(w in x.split(' ') for w in ('BEGIN', 'THEN', 'CASE', 'DO', 'COPY', 'DELIMITER', 'RETURNS', 'TRIGGER'))]
        if no:
            J.add('bad', 'main_parts', [14, 0, '?0-2', 0, 0], [L(one_), 'L02', C([x + ' ' for x in no]), 'L02', L(two)])
    pre, nxt = bodies(J, 14)
    for n, l in enumerate(PLAIN):
        t = words(l.longest())
        if l.args or '$$' in t or 'STDIN' in t:
            continue
        J.add('under', 'main_delimited', [14, 0, D[l.own[0]], l.args, l.flags], [pre, 'L02', L('DROP TABLE z $$'), 'L02'] + l.elements() + [L(' $$'), 'L02', C(nxt)])
        i = 1 + n % max(1, len(t) - 1)
        J.add('under', 'main_delimited', [14, 0, D[l.own[0]], l.args, l.flags], [pre, 'L02', L(' '.join(t[:i]) + ' '), J.but(['$$', 'DELIMITER', 'STDIN']), L(' ' + ' '.join(t[i + 1:]) + ' $$'), 'L02', C(nxt)])
    for t in ['', ' ', '/* x */', '-- x\n']:
        J.add('empty', 'main_parts', [14, 0, 0, 0, 0], [L('SELECT a'), 'L02', L(t), 'L02', L(two)])


@prop('P15', 'DELIMITER followed by any token and uses of it, in lists of up to 5 statements; routine bodies of up to 3 statements under any delimiter')
def p15(J):
    acc = mask(4, 5, 6, 7, 21, 22)
    M = MULTI
    dl = J.some(['$$', ';'])
    bodies(J, 15)
    any_ = J.all()
    for d in range(3):
        for s in (dl, any_):
            e = 1 if s == dl else 0
            one(J, 'use', 15, acc, [L('DELIMITER '), s, L(' SELECT 1 '), 'R0', L(' SELECT 2 '), 'R0', L(' DELIMITER ; SELECT 3 ;')], d, 0, M, e)
            one(J, 'use', 15, acc, [L('SELECT 1 ; DELIMITER '), s, L(' SELECT 2 '), 'R0', L(' DROP TABLE t '), 'R0'], d, 0, M, e)
            one(J, 'body', 15, acc, [L('DELIMITER '), s, L(' CREATE TRIGGER tr BEFORE INSERT ON t FOR EACH ROW BEGIN SET a = 1 ; SET b = 2 ; END '), 'R0', L(' SELECT 2 '), 'R0', L(' DELIMITER ; SELECT 3 ;')], d, 0, M, e)
            one(J, 'body', 15, acc, [L('DELIMITER '), s, L(' CREATE TRIGGER tr BEFORE INSERT ON t FOR EACH ROW BEGIN IF a THEN SET b = 2 ; END IF ; SET c = 1 ; END '), 'R0', L(' SELECT 2 '), 'R0'], d, 0, M, e)
    one(J, 'use', 15, acc, [L('DELIMITER $$ SELECT 1 '), any_, L(' SELECT 2 $$')], 0, 0, M)
    one(J, 'use', 15, acc, [L('DELIMITER $$ SELECT 1 '), any_, L(' SELECT 2 $$')], 1, 0, M)
    one(J, 'use', 15, acc, [L('DELIMITER $$ SELECT 1 $$ '), any_, L(' DELIMITER ; SELECT 2 ;')], 0, 0, M)
    one(J, 'use', 15, acc, [L('DELIMITER '), any_], '?0-2', 0, M)
    one(J, 'use', 15, acc, [L('SELECT 1 ; DELIMITER '), any_, L(' '), any_ if J.thorough else J.some(INTEREST)], 0, 0, M)
    # the other delimiter does not end a statement
    for a, b in (('$$', ';'), (';', '$$')):
        for x in ['SELECT 1', 'DROP TABLE t', 'UPDATE t SET a = 1', 'INSERT INTO t VALUES ( 1 )', 'CREATE TABLE t ( a INT )', 'DELETE FROM t WHERE a', 'SET a = 1', 'TRUNCATE TABLE t', 'COMMIT', 'RENAME TABLE a TO b']:
            one(J, 'wrong', 15, 0, [L('DELIMITER %s %s %s SELECT 2 %s' % (a, x, b, a))], '?0-2', 0, M, 2)
            one(J, 'right', 15, acc, [L('DELIMITER %s %s %s SELECT 2 ' % (a, x, a)), C([a, a + ' ' + a])], '?0-2', 0, M, 1)
            one(J, 'back', 15, 0, [L('DELIMITER %s %s %s DELIMITER %s SELECT 2 %s SELECT 3' % (a, x, a, b, a))], '?0-2', 0, M, 2)
            one(J, 'back', 15, acc, [L('DELIMITER %s %s %s DELIMITER %s SELECT 2 %s SELECT 3 %s' % (a, x, a, b, b, b))], '?0-2', 0, M, 1)
    for x in ['', 'DELIMITER ; ', 'DELIMITER $$ SELECT 1 $$ ', 'SELECT 1 ; ']:
        one(J, 'last', 15, 0, [L(x), C(['SELECT 2', 'COMMIT', 'DROP TABLE t', 'UPDATE t SET a = 1'])], '?0-2', 0, M, 2)
    for x in BLOCKS:
        if x:
            one(J, 'inner', 15, acc, [L('DELIMITER $$ CREATE TRIGGER tr BEFORE INSERT ON t FOR EACH ROW BEGIN '), C(BLOCKS), L(' ' + x + ' END $$ SELECT 2 $$ '), C(['DELIMITER ; SELECT 3 ;', 'SELECT 4 $$', ''])], '?0-2', 0, M, 1)
            one(J, 'inner', 15, 0, [L('DELIMITER $$ CREATE TRIGGER tr BEFORE INSERT ON t FOR EACH ROW BEGIN SET a = 1 $$ ' + x + ' END $$')], '?0-2', 0, M, 2)
    one(J, 'eof', 15, 0, [C(['', 'SELECT 1 ;', 'SELECT 1 ; ;']), L(' DELIMITER'), C(['', ' ', '\n', ' -- x'])], '?0-2', 0, M, 2)
    one(J, 'eof', 15, 0, [L('DELIMITER '), C(["'x", '`x', '"x', "x'1"])], '?0-2', 0, M, 2)
    for l in PLAIN:
        if l.args or '$$' in l.text:
            continue
        J.add('stmt', 'main_stmt', [15, acc, D[l.own[0]], 0, l.flags | M, 1], [L('DELIMITER $$ ')] + l.elements() + [L(' $$ SELECT 2 $$')])
    J.cap('stmt', 60)
    for l in LINES:
        if l.flags & M:
            wild(J, 15, acc, [l], 'ri')


@prop('P16', 'COPY FROM STDIN in lists with up to 5 symbolic characters of data over \\ . newline ; quote tab and letters, in 8 shapes, with a symbolic token in the statement after it')
def p16(J):
    acc = mask(4, 6, 7, 21, 22)
    al = B("a\\.\n;'\t")
    M = MULTI
    n = 5 if J.thorough else 4
    for p, s in [('COPY t ( a , b ) FROM STDIN ;\n', '\n\\.\nSELECT 1 ;'), ('COPY t ( a ) FROM STDIN;\n', ''), ('COPY t ( a ) FROM STDIN ;\nab\n', '\n\\.\n'), ('SELECT 1 ; COPY t ( a ) FROM STDIN ;\n1\t2\n', '\n\\.\n\nDROP TABLE t ;'), ('COPY t ( a ) FROM STDIN ; \n', 'x\n\\.\nCOPY u ( b ) FROM STDIN ;\n3\n\\.\nSELECT 2'),
                 ('COPY t ( a ) FROM STDIN ;\n\u00e6', '\u4e2d\n\\.\n'), ('COPY t ( a ) FROM STDIN ;\nSELECT 1 ;\n', '\nDELIMITER $$\n\\.\nSELECT 2 ;'), ('COPY t ( a ) FROM STDIN ;', '\n\\.\n'), ('COPY t ( a ) FROM STDIN ;\n\\.', '\n')]:
        J.add('data', 'main_stmt', [16, acc, 1, 0, M, 0], [L(p)] + [al] * n + [L(s)], 60)
    J.add('data', 'main_stmt', [16, acc, 1, 0, M, 1], [L('COPY t ( a ) FROM STDIN ;\n'), 'B20-5b,5d-7e', PRINT, L('\n\\.\nSELECT 1 ;')])
    for i in range(3):
        J.add('after', 'main_stmt', [16, acc, 1, 0, M, 0], [L('COPY t ( a ) FROM STDIN ;\n1\t2\n\\.\n' + ['', 'SELECT ', 'SELECT a ; '][i]), J.all(), L(' ' + ['SELECT 1', 'FROM t', 'DROP TABLE t'][i] + ' ;')])
        J.add('after', 'main_stmt', [16, acc, 1, 0, M, 0], [L('COPY t ( a ) FROM STDIN ;\n1\t2\n\\.\n\n'), J.all(), L(['', ' a ;', ' ;'][i])])
    for i, c in enumerate(['COPY @ ( a ) FROM STDIN ;', 'COPY t ( @ ) FROM STDIN ;', 'COPY t @ ( a ) FROM STDIN ;', 'COPY t ( a ) @ STDIN ;', 'COPY t ( a ) FROM @ ;', 'COPY t ( a ) FROM STDIN @ ;', 'COPY t ( a , b @ ) FROM STDIN ;', '@ t ( a ) FROM STDIN ;', 'COPY t FROM STDIN @', 'COPY t ( a ) FROM STDIN @']):
        a, b = c.split('@')
        J.add('stmt', 'main_stmt', [16, acc, 1, 0, M, 0], [L(a), J.all(), L(b + '\n1\t2\n\\.\nSELECT 1 ;')])


@prop('P17', 'every sentence with every combination of its optional parts in every dialect; a symbolic token anywhere in a sentence of all dialects')
def p17(J):
    acc = mask(6, 7)
    options(J, 17, acc, LINES, 1)
    options(J, 17, 0, LINES, 2, 'reject', own=False)
    for l in LINES:
        if l.own == 'mps':
            for a, b in ((0, 1),) if 'REAL' in l.text else ((0, 1), (0, 2), (1, 2)) if J.thorough else ((0, 1), (1, 2)):
                J.add('same', 'main_options', [17, 0, a, l.args, l.flags, b, l.args, l.flags], l.elements())
    # single constructs
    for d, x in [('p', 'CREATE TABLE t ( a INT GENERATED ALWAYS AS IDENTITY )'), ('p', 'DROP TABLE a @CASCADE'), ('p', 'CREATE TYPE n AS ENUM ( \'a\' )'), ('p', 'WITH x AS ( SELECT 1 ) SELECT a FROM x'),
                 ('p', 'UPDATE t SET a = 1 RETURNING b'), ('p', 'INSERT INTO t ( a ) VALUES ( 1 ) ON CONFLICT DO NOTHING'), ('m', 'INSERT INTO t ( a ) VALUES ( 1 ) ON DUPLICATE KEY UPDATE a = 1'), ('m', 'SELECT a FROM t USE INDEX ( i )'), ('ps', 'DROP INDEX i'), ('ms', 'DROP INDEX i ON t'),
                 ('p', 'CREATE INDEX i ON t ( a text_pattern_ops )'), ('ps', 'CREATE INDEX i ON t ( a ) WHERE b = 1'), ('ms', 'SELECT `a` FROM t'), ('ms', 'SELECT a AS `b` FROM t'), ('ms', 'UPDATE t SET `a` = 1'), ('ps', 'ALTER TABLE t ADD COLUMN IF NOT EXISTS a INT')]:
        x = x.replace('@', '')
        for k in 'mps':
            one(J, 'gate', 17, acc, [L(x)], D[k], 0, 0, 1 if k in d else 2)
    # the same at every place where they may stand
    o = ['text_pattern_ops', 'varchar_pattern_ops', 'bpchar_pattern_ops', 'int8_ops', 'int4_ops', 'int2_ops']
    Q = [('', ''), ('SELECT x FROM ( ', ' ) AS y'), ('SELECT ( ', ' ) , z'), ('CREATE VIEW v AS ', ''), ('SELECT x UNION ( ', ' )'), ('IF x THEN ', ' ; END IF'), ('CASE x WHEN 1 THEN ', ' ; ELSE SET x = 1 ; END CASE'), ('CREATE TRIGGER tr BEFORE INSERT ON t FOR EACH ROW BEGIN SET x = 1 ; ', ' ; END')]
    for d, q, x, v, y in [
            ('p', Q[:1], 'CREATE INDEX i ON t ( ', [z % (n, n)[:z.count('%')] for n in o for z in ('a %s', 'a %s , b', 'a , b %s', 'a , b %s , c', 'a , b , c %s', 'a %s , b %s')], ' )'),
            ('ps', Q[:1], 'CREATE INDEX i ON t ( a , b ) WHERE ', ['c', 'c = 1', 'c AND d = 2', 'NOT c'], ''),
            ('m', Q, 'SELECT a FROM ', [z.replace('@', n) for n in ('USE INDEX ( i )', 'FORCE KEY ( i , j )', 'IGNORE INDEX FOR JOIN ( i )', 'USE INDEX FOR ORDER BY ( i ) FORCE INDEX FOR GROUP BY ( j )') for z in ('t @', 't AS w @', 't @ WHERE b', 't , u @', 't @ , u', 't JOIN u @ ON c', 't @ JOIN u ON c', 't JOIN u ON c JOIN w @ ON e')], ''),
            ('m', Q[:1] + Q[5:], 'UPDATE ', ['t USE INDEX ( i )', 't JOIN u IGNORE KEY ( i ) ON c', 't , u FORCE INDEX ( i )'], ' SET a = 1'),
            ('p', Q[:5], 'SELECT a FROM t ', [z + n + w for z in ('', 'WHERE b ', 'ORDER BY c LIMIT 1 ') for n in ('FOR NO KEY UPDATE', 'FOR KEY SHARE') for w in ('', ' OF t', ' NOWAIT', ' OF t SKIP LOCKED')], ''),
            ('p', Q[:1], 'CREATE TABLE t ( ', ['a INT GENERATED ALWAYS AS IDENTITY', 'a INT , b INT GENERATED ALWAYS AS IDENTITY', 'a INT GENERATED ALWAYS AS IDENTITY , b INT', 'a INT NOT NULL GENERATED ALWAYS AS IDENTITY UNIQUE', 'a abc', 'a INT , b abc NOT NULL', 'a DOUBLE PRECISION', 'a INT , b DOUBLE PRECISION NOT NULL'], ' )'),
            ('ms', Q[:1], 'CREATE TABLE t ( ', ['a DOUBLE', 'a DOUBLE NOT NULL', 'b INT , a DOUBLE'], ' )'),
            ('p', Q[:1] + Q[5:], 'UPDATE t SET a = 1 ', ['RETURNING b', 'WHERE c RETURNING *', 'RETURNING b , c AS d', 'WHERE c = 1 RETURNING b + 1'], ''),
            ('p', Q[:1] + Q[5:], 'INSERT INTO t ( a , b ) ', ['VALUES ( 1 , 2 ) ' + z for z in ('ON CONFLICT DO NOTHING', 'ON CONFLICT ( a ) DO NOTHING', 'ON CONFLICT ( a , b ) DO UPDATE SET a = 1', 'ON CONFLICT ON CONSTRAINT c DO NOTHING', 'ON CONFLICT ( a ) DO UPDATE SET a = 1 , b = 2 WHERE c RETURNING d')], ''),
            ('m', Q[:1] + Q[5:], 'INSERT ', ['INTO t ( a ) VALUES ( 1 )', 'INTO t ( a ) SELECT 1', 'INTO t SET a = 1', 'IGNORE INTO t ( a ) VALUES ( 1 ) , ( 2 )'], ' ON DUPLICATE KEY UPDATE a = 1 , b = 2'),
            ('ps', Q[:1], 'ALTER TABLE t ', ['ADD COLUMN IF NOT EXISTS a INT', 'DROP COLUMN b , ADD COLUMN IF NOT EXISTS a INT NOT NULL', 'DROP COLUMN b , ADD COLUMN c INT , ADD COLUMN IF NOT EXISTS a INT'], ''),
            ('p', Q[:1], 'WITH x AS ( SELECT 1 ) ', ['SELECT a FROM x', 'INSERT INTO t ( a ) VALUES ( 1 )', 'UPDATE t SET a = 1', 'DELETE FROM t WHERE a', ', y AS ( SELECT 2 ) SELECT a'], ''),
            ('p', Q[:1] + Q[5:], 'DROP TABLE ', ['a CASCADE', 'IF EXISTS a CASCADE', 'a , b CASCADE'], ''), ('ps', Q[:1] + Q[5:], 'DROP INDEX ', ['i', 'IF EXISTS i'], ''), ('ms', Q[:1] + Q[5:], 'DROP INDEX ', ['i ON t', 'IF EXISTS i ON t'], ''),
            ('p', Q[:1], 'CREATE TYPE n AS ENUM ( ', ["'a'", "'a' , 'b'"], ' )')]:
        for k in 'mps':
            for g, h in q:
                # the clauses are known to be refused, or not, in the sentence that holds them
                one(J, 'gates', 17, acc, [L(g + x), C(v), L(y + h)], D[k], 0, 0, 1 if k in d else 2)
    for l in LINES:
        if l.own == 'mps' and not l.args:
            wild_same(J, 17, l)
    J.cap('alike', 400)


def wild_same(J, pid, l):
    """What is accepted without an error in two dialects is the same tree in both."""
    t = l.longest().split(' ')
    dq = ['"y"', '""', '"q""r"', "'say \"hi\"'"]
    for i in range(len(t)):
        # how precise a REAL is depends on the dialect
        a, b = (0, 1) if i % 2 or 'REAL' in t else (1, 2)
        sl = J.but(dq + (['REAL'] if b == 2 else []))
        J.add('alike', 'main_options', [pid, 0, a, l.args, l.flags, b, l.args, l.flags, 1], [L(' '.join(t[:i]) + ' ' if i else ''), sl, L(' ' + ' '.join(t[i + 1:]))])


@prop('P18', 'every sentence with every combination of its optional parts, and with a symbolic token (keywords in capitals and other spellings, names) anywhere, under every pair of warning options')
def p18(J):
    for l in LINES:
        for d in l.own if J.thorough else l.own[0]:
            P = lambda f: [18, 0, D[d], l.args, l.flags, D[d], l.args, f]
            fl = '?%d,%d,%d,%d' % tuple(l.flags | x for x in (0, 2, 4, 6))
            J.add('choice', 'main_options', P(fl), l.elements())
            J.add('small', 'main_options', P(fl), l.elements(lower_kw)[:0] + [e if e[0] == 'L' else e for e in small(l)])
            t = l.longest().split(' ')
            for i in range(len(t)):
                w = 'S' + ','.join(['0-%d' % (J.n - 1)] + (['%d-%d' % (SMALL, SMALL + J.kw - 1)] if i % 2 else []))
                J.add('word', 'main_options', P(fl), [L(' '.join(t[:i]) + ' ' if i else ''), w, L(' ' + ' '.join(t[i + 1:]))])
    J.cap('word', 420)


def small(l):
    """The sentence in small letters, with its choices."""
    return [L(lower_kw(g[0]) + ' ') if len(g) == 1 else C([lower_kw(x) + ' ' for x in g]) for g in l.groups]


@prop('P19', 'runs of up to 3 symbolic punctuation characters between two names; every compound operator and every pair of operators with and without blanks; unterminated literals and comments of up to 3 symbolic characters')
def p19(J):
    acc = mask(4, 6, 7, 8, 10, 11, 20, 21)
    punct = ''.join(chr(c) for c in range(33, 127) if not chr(c).isalnum() and c != 95)
    for d in 'mps' if J.thorough else 'mp':
        for p, s in [('SELECT a', 'b FROM t'), ('SELECT ', 'b FROM t'), ('SELECT a', ' FROM t'), ('', ' SELECT a'), ('SELECT a FROM t', '')]:
            one(J, 'punct', 19, acc, [L(p), B(punct), B(punct), L(s)], D[d], '?0-3')
        one(J, 'punct', 19, acc, [L('SELECT a'), B(OPCHARS), B(OPCHARS), B(OPCHARS), L('b FROM t')], D[d], 2, 0, secs=60)
        one(J, 'punct', 19, acc, [L('SELECT a'), B(OPCHARS), B(OPCHARS), B(OPCHARS), L('1 FROM t')], D[d], 1, 0, secs=60)
        one(J, 'char', 19, acc, [L('SELECT a'), BYTES, BYTES, L(' FROM t')], D[d])
        one(J, 'char', 19, acc, [L('SELECT 1'), BYTES, BYTES, L(' FROM t')], D[d])
        for x in ["'", '"', '`', '/*', "x'", '"\\', "'\\"]:
            for p in ['SELECT a , ', 'SELECT a FROM t ', 'SELECT a FROM ', '']:
                one(J, 'open', 19, acc, [L(p + x), B("a '\"`*/\\\n"), B("a '\"`*/\\\n"), B("a '\"`*/\\\n")], D[d])
                # nothing closes it
                one(J, 'open', 19, 0, [L(p + x), B("a ;\n("), B("a ;\n)")], D[d], 0, 0, 2)
        one(J, 'open', 19, 0, [L('SELECT a ; SELECT '), C(["'", '"', '`', "b'"]), B("a ;\n("), B("a ;\n)")], D[d], 0, MULTI, 2)
    for n in (1, 2, 3):
        ops = [o for o in SYMOPS if len(o) == n]
        for a, b, k in [('SELECT a', 'b', 0), ('SELECT a FROM t WHERE c', 'd', 0), ("SELECT 'x'", "'y'", 0), ('SELECT 1', '2', 0), ('SELECT ( a )', '( b )', 0), ('SELECT `a`', '`b`', 0), ('SELECT a', '?', 2), ('SELECT a', '%s', 1), ('SELECT $1', '$2', 3), ('UPDATE t SET q = a', '1.5', 0)]:
            J.add('glue', 'main_two', [19, 0, 0, k, 0, 0], [L(a + ' '), 'C' + ','.join(o.encode().hex() for o in ops), L(' ' + b), 'L02', L(a), 'D0:' + ','.join(o.encode().hex() for o in ops), L(b)])
    # what cannot stand there is one token
    for k, (a, b) in enumerate([('SELECT a FROM t WHERE ', ' b'), ('DROP TABLE ', ''), ('SELECT a AS ', ' FROM t'), ('CREATE TABLE t ( ', ' INT )'), ('ALTER TABLE t ADD COLUMN ', ' INT'), ('', ' a'), ('SELECT a FROM t JOIN u ON ', ' , b')]):
        for n in (1, 2, 3):
            no = [x for x in ['::', '=>', '!!', '$$', '{', '}', '~', ':', '#', '<=>', '<<', '>>', '<>', '!=', '<=', '>=', '&&', '||', '=', '<', '>', '&', '|', '^', '%', '/', ')', ',', '.', ';'] if len(x) == n]
            J.add('whole', 'main_locate', [19, 0, '?0-2', 0, 0, len(a), len(b)], [L(a), C(no), L(b)])
    known = SYMOPS + ['.', ',', '(', ')', '::', '=>', ':', '!!', '$$', '@', '^', '~', '%', '#', '[', ']', '{', '}', '?', ';', '!', '//', '--', '/*', '*/']
    for n in (2, 3, 4, 5, 6):
        pr = [(x, y) for x in SYMOPS for y in SYMOPS + ['.', '(', ')', '!'] if len(x) + len(y) == n and munch(x + y, known) == [x, y]]
        if pr:
            one_ = 'C' + ','.join((x + ' ' + y).encode().hex() for x, y in pr)
            two = 'D0:' + ','.join((x + y).encode().hex() for x, y in pr)
            for a, b in [('SELECT a', 'b'), ('SELECT a', '1'), ('SELECT a', "'x'"), ('SELECT 1', ' b )')]:
                if b == '1':
                    # .1 is a number
                    pr = [(x, y) for x, y in pr if y != '.']
                    if not pr:
                        continue
                    one_ = 'C' + ','.join((x + ' ' + y).encode().hex() for x, y in pr)
                    two = 'D0:' + ','.join((x + y).encode().hex() for x, y in pr)
                J.add('glue2', 'main_two', [19, 0, 0, 0, 0, 0], [L(a + ' '), one_, L(' ' + b), 'L02', L(a), two, L(b)])
    # @@ followed by another word than GLOBAL or SESSION
    for w in ('GLOBAL', 'SESSION'):
        for i in range(len(w)):
            rest = ''.join(c for c in (chr(c) for c in range(33, 127)) if c.upper() != w[i])
            J.add('sysvar', 'main_stmt', [19, 0, '?0-2', 0, 0, 2], [L('SELECT @@' + w[:i]), B(rest), L(w[i + 1:] + ' . a FROM t')])
            J.add('sysvar', 'main_stmt', [19, 0, '?0-2', 0, 0, 2], [L('SELECT @@' + w[:i]), B(rest), L(w[i + 1:].lower() + '.a')])
        J.add('sysvar', 'main_stmt', [19, 0, '?0-2', 0, 0, 2], [L('SELECT @@' + w), B('abcXYZ_09'), L(' . a')])
    bad = ['#', '[', ']', '{', '}', '~', '\u00e6', '$', '@', '\\']
    for l in PLAIN[::1 if J.thorough else 2]:
        t = l.longest().split(' ')
        for i in range(1, len(t) + 1):
            J.add('bad', 'main_stmt', stmt(19, 0, D[l.own[0]], l, 0), [L(' '.join(t[:i]) + ' '), J.some(bad), L(' ' + ' '.join(t[i:]))])
    J.cap('bad', 300)
    strings(J, 19, acc, 2)
    unicode_(J, 19, acc)


@prop('P20', 'any keyword and any name, quoted and not, at 60 places where a name is expected; names of up to 3 symbolic characters')
def p20(J):
    words = 'S0-%d' % (J.kw - 1)
    for d, x in IDPLACES:
        i = x.split(' ').index('@')
        a, b = x.split('@')
        if x in IDSPECIAL:
            no = set(J.idx(IDSPECIAL[x]))
            w = 'S' + ','.join(str(k) for k in range(J.kw) if k not in no)
        else:
            w = words
        # what the tree says of the name is part of it
        P = lambda e: [20, mask(6, 7), D[d], 0, 0, e, i]
        J.add('word', 'main_stmt', P(3), [L(a), w, L(b)])
        J.add('name', 'main_stmt', P(1), [L(a), J.some(['abc', 'Tbl_1', '_x9', 'xy', 'X', 'e1'] + (['`q1`', '`select`', '`a-b`'] if d != 'p' else [])), L(b)])
        if d != 'p':
            J.add('quoted', 'main_stmt', P(1), [L(a), C(['`select`', '`ab-cd`', '`Abc_1`', '`from`', '`e`']), L(b)])
            J.add('quoted', 'main_stmt', P(1), [L(a + '`'), 'B2d,30-39,41-5a,5f,61-7a', 'B2d,30-39,41-5a,5f,61-7a', L('`' + b)])
        J.add('chars', 'main_stmt', P(4), [L(a + 'q'), 'B30-39,41-5a,5f,61-7a', 'B30-39,41-5a,5f,61-7a', L(' ' + b)])
        if d == 'm' and '.' not in x:
            # back quotes are not for postgresql
            J.add('pg', 'main_stmt', [20, 0, 1, 0, '?0,2,4,8,14', 2], [L(a), J.some(['`q1`', '`select`', '`a-b`', '``']), L(b)])
        J.add('bad', 'main_stmt', [20, 0, D[d], 0, '?0,6,8', 2], [L(a), J.some(['7', '1.5', "'x'", '?', '%s', '$1', ',', ')', '=', '*', ';', '+', 'æ', '$$']), L(b)])
    for x in EXPRID:
        a, b = x.split('@')
        J.add('expr', 'main_stmt', [20, mask(6, 7), '?0-2', 0, 0, 0], [L(a), J.all(), L(b)])
        J.add('expr', 'main_stmt', [20, mask(6, 7), '?0-2', 0, 0, 1], [L(a), J.some(['abc', 'Tbl_1', '_x9', 'xy', 'X', 'e1']), L(b)])
    _wild(J, 20, 0, 'ri', n=900)


# words that mean something else in that place
IDSPECIAL = {
    'DELETE @ FROM t WHERE a': ['IGNORE', 'LOW_PRIORITY', 'QUICK'],
}


@prop('P21', B_TOKEN + '; every sentence with one token left out; up to two symbolic bytes')
def p21(J):
    _wild(J, 21, mask(7), 'rit', n=6000)
    bytes_(J, 21, mask(7))
    J.cap('bytes', 30)
    for l in PLAIN:
        t = words(l.longest())
        for i in range(len(t)):
            # nothing but the beginning
            J.add('cut', 'main_stmt', stmt(21, mask(7), D[l.own[0]], l), [L(' '.join(t[:i]))])
            J.add('cut', 'main_stmt', stmt(21, mask(7), D[l.own[0]], l), [L(' '.join(t[i:])), L(' '), J.some(INTEREST)])
    J.cap('cut', 700)
    # lists in which one statement is none
    for pre, post in [('SELECT 1 ; ', ' ; SELECT 2 ;'), ('', ' ; SELECT 2 ;'), ('SELECT 1 ; ', ' ;'), ('', ';'), ('DELIMITER $$ SELECT 1 $$ ', ' $$ SELECT 2 $$'), ('DROP TABLE a ; ', ' ; DELIMITER $$ SELECT 2 $$')]:
        for d in 'mps' if J.thorough else 'mp':
            J.add('none', 'main_stmt', [21, mask(7), D[d], 0, MULTI, 0], [L(pre), J.all(), L(post)])
            J.add('none', 'main_stmt', [21, mask(7), D[d], 0, MULTI, 0], [L(pre), J.all(), L(' def'), L(post)])
            J.add('none', 'main_stmt', [21, mask(7), D[d], 0, MULTI, 0], [L(pre + 'abc '), J.all(), L(post)])
            J.add('none', 'main_stmt', [21, mask(7), D[d], 0, MULTI, 0], [L(pre), J.some(INTEREST), L(' '), J.all() if J.thorough else J.some(INTEREST), L(post)])
            J.add('none', 'main_stmt', [21, mask(7), D[d], 0, MULTI, 0], [L(pre), C(['SELECT', 'DROP TABLE', 'UPDATE t', 'CREATE', 'INSERT INTO t', 'ALTER TABLE t', '( SELECT 1', 'IF a THEN', 'CASE a', 'SET', 'WITH x', 'DELETE', 'RENAME', 'SIGNAL']), L(' '), J.all(), L(post)])
    for k in range(0, len(corpus.BAD), 12):
        for pre, post in (('SELECT 1 ; ', ' ; SELECT 2 ;'), ('', ' ; SELECT 2 ;'), ('DELIMITER $$ ', ' $$ SELECT 2 $$')):
            J.add('lack', 'main_stmt', [21, mask(7), '?0-2', 0, MULTI, 2], [L(pre), C([x + ' ' for x in corpus.BAD[k:k + 12]]), L(post)])
    word_jobs(J, 21, mask(7))
    edits(J, 21, mask(7))


@prop('P22', 'every sentence with one parenthesis put in anywhere or left out, with any token after its end, or without the closing word of a block')
def p22(J):
    par = J.some(['(', ')'])
    for l in LINES:
        if '$$' in l.text and 'DELIMITER' not in l.text or 'STDIN' in l.text:
            continue
        for v in (l.variants() if J.thorough else [l.longest()]):
            t = words(v)
            d = dset(l.own)
            P = lambda e, acc=0: [22, acc, d, l.args, l.flags, e]
            for i in range(len(t) + 1):
                J.add('paren', 'main_stmt', P(2), [L(' '.join(t[:i]) + ' '), par, L(' ' + ' '.join(t[i:]))])
                if i < len(t) and (t[i] in '()' or t[i].endswith('(')):
                    J.add('paren', 'main_stmt', P(2), [L(' '.join(t[:i] + ([t[i][:-1]] if len(t[i]) > 1 else []) + t[i + 1:]))])
                if i < len(t) and t[i] in ('END', 'THEN') and t[0] != 'END':
                    J.add('end', 'main_stmt', P(2), [L(' '.join(t[:i] + t[i + 1:]))])
            J.add('stray', 'main_stmt', P(0, mask(6, 7)), [L(v + ' '), J.all()])
            J.add('stray', 'main_stmt', P(0, mask(6, 7)), [L(v + ' '), J.all(), L(' abc')])
    for x in ['SELECT CASE a WHEN 1 THEN 2 @', 'SELECT ( CASE WHEN a THEN b @ )', 'CREATE TRIGGER tr BEFORE INSERT ON t FOR EACH ROW BEGIN SET a = 1 ; @', 'IF a THEN SET b = 1 ; @', 'IF a THEN SET b = 1 ; END @', 'CASE a WHEN 1 THEN SET b = 1 ; @',
              'CREATE TRIGGER tr BEFORE INSERT ON t FOR EACH ROW BEGIN IF a THEN SET b = 1 ; @ ; END', 'CREATE TRIGGER tr BEFORE INSERT ON t FOR EACH ROW BEGIN BEGIN SET b = 1 ; @ ; SET c = 2 ; END', 'CREATE FUNCTION f ( a INT ) RETURNS INT BEGIN RETURN 1 ; @', 'DO $$ BEGIN DROP TABLE a ; @ $$']:
        a, b = x.split('@')
        d = '1' if 'DO $$' in x else '0'
        no = J.but(['END', 'IF', 'CASE', 'Begin'])
        J.add('close', 'main_stmt', [22, 0, d, 0, 0, 2], [L(a + b)])
        J.add('close', 'main_stmt', [22, mask(6, 7), d, 0, 0, 2], [L(a), no, L(b)])
        J.add('close', 'main_stmt', [22, mask(6, 7), d, 0, 0, 0], [L(a), J.all(), L(b)])
    # a limit is no expression with operators
    op = J.some(['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '=', '<=>', '<>', '!=', '<', '>', '<=', '>=', '&&', '||', 'AND', 'OR', 'XOR', 'and', 'or', 'LIKE', 'DIV', 'MOD', 'IS', 'IN', '->', ':', '::'])
    for x in ['SELECT a FROM t LIMIT 1 @ 2', 'SELECT a FROM t WHERE b ORDER BY c LIMIT 1 , 2 @ 3', 'SELECT a FROM t LIMIT 1 OFFSET 2 @ 3', '( SELECT a FROM t ) UNION ( SELECT b ) LIMIT 1 @ b', 'SELECT a FROM ( SELECT b FROM t LIMIT 1 @ 2 ) AS x', 'SELECT a FROM t LIMIT 1 @ ( 2 )', 'SELECT a FROM t LIMIT 1 @ NULL', 'SELECT a FROM t LIMIT 1 NOT @ ( 2 )', 'SELECT a FROM t LIMIT 1 @ NOT NULL', 'SELECT a FROM t LIMIT b @ c FOR UPDATE', 'DELETE FROM t WHERE a IN ( SELECT b FROM u LIMIT 1 @ 2 )']:
        a, b = x.split('@')
        J.add('limit', 'main_stmt', [22, 0, '?0-2', 0, 0, 2], [L(a), op, L(b)])
    _wild(J, 22, 0, 'ri', n=900)
    word_jobs(J, 22, 0)
    edits(J, 22, 0)
    edited(J, 22, 0, 'bad', 2)
    bad(J, 22, 0)


@prop('P23', 'every sentence of the corpus with every combination of its optional parts, in every dialect it is for')
def p23(J):
    options(J, 23, mask(4, 5, 6, 7, 8, 9, 10, 11, 16, 20, 21), LINES, 1)
    # any name and any literal in place of those of the sentence
    nm = ['abc', 'Tbl_1', '_x9', 'xy', 'e1']
    for l in PLAIN:
        t = words(l.longest())
        for i, w in enumerate(t):
            if re.match(r'^[a-z]$', w) and w != 'x':
                J.add('name', 'main_stmt', stmt(23, mask(4, 5, 6, 7, 20), D[l.own[0]], l, 1), [L(' '.join(t[:i]) + ' ' if i else ''), J.some(nm), L(' ' + ' '.join(t[i + 1:]))])
    J.cap('name', 400)
    pieces(J)
    word_jobs(J, 23, mask(4, 5, 6, 7, 8, 9, 10, 20, 21), expect=True)


def pieces(J):
    """Sentences made of any combination of pieces."""
    tr = [' t', ' t AS x', ' s . t', ' ( SELECT a FROM u ) AS x', ' ( SELECT a FROM u ) x', ' t y']
    jn = ['', ' JOIN u ON a = b', ' LEFT JOIN u ON a', ' INNER JOIN u USING a , b', ' NATURAL JOIN u', ' CROSS JOIN u', ' , u', ' STRAIGHT_JOIN u ON a', ' RIGHT OUTER JOIN ( SELECT 1 ) AS q ON c']
    ex = ['a', 't . a', '1', "'x'", 'NULL', '- a', 'NOT a', 'f ( a , b )', 'COUNT ( * )', '( SELECT 1 )', '( a )', 'CASE WHEN a THEN b END', 'CASE a WHEN 1 THEN 2 ELSE 3 END', 'a IN ( 1 , 2 )', 'a NOT IN ( SELECT 1 )', 'a IS NOT NULL', 'EXISTS ( SELECT 1 )', 'CAST( a AS INT )', 'a LIKE b', 'COUNT ( DISTINCT a )', 'IF ( a , b , c )', 'a + b * c', 'TRUE', '1.5', "'a' 'b'", 'a AND b OR c', 'CURRENT_TIMESTAMP', 'a = b', "a + INTERVAL 1 DAY", '! a', 'MAX ( a )', 'a << 1', 'NOW ( )', 'a <> b', 'a IS TRUE', 'GROUP_CONCAT ( a )', "EXTRACT( YEAR FROM a )", 'a XOR b', 'a || b', 'LEFT ( a , 1 )', 'REPLACE ( a , b , c )', 'DATE ( a )']
    ty = ['INT', 'INT ( 5 )', 'VARCHAR ( 10 )', 'TEXT', 'BIGINT', 'DATETIME', 'DATETIME ( 3 )', 'TIMESTAMP', 'BOOLEAN', "ENUM ( 'a' , 'b' )", 'FLOAT', 'DATE', 'TIME', 'BLOB', 'BINARY ( 3 )', 'NUMERIC ( 5 , 2 )', 'TINYINT ( 1 )', 'JSON', 'CHAR ( 2 )', 'SMALLINT', 'LONGTEXT', 'MEDIUMBLOB', 'BIT ( 1 )', 'REAL', 'INTEGER', 'VARBINARY ( 4 )']
    pr = ['', ' NOT NULL', ' NULL', ' DEFAULT 1', " DEFAULT 'x'", ' AUTO_INCREMENT', ' PRIMARY KEY', ' UNIQUE', " COMMENT 'c'", ' UNSIGNED', ' DEFAULT CURRENT_TIMESTAMP', ' COLLATE utf8_bin', ' CHARACTER SET utf8', ' ZEROFILL']
    later = [x for x in pr if x != ' AUTO_INCREMENT']  # there is none after a default value
    acc = mask(4, 5, 6, 7, 8, 9, 10, 20, 21)
    P = lambda d='?0-2': [23, acc, d, 0, 0, 1]
    J.add('piece', 'main_stmt', P(), [L('SELECT a FROM'), C(tr), C(jn), C(['', ' WHERE c = 1']), C(['', ' ORDER BY d', ' LIMIT 3'])])
    J.add('piece', 'main_stmt', P(), [L('SELECT '), C(ex), C(['', ' AS x', ' AS y1']), L(' , '), C(ex), L(' FROM t')], 60)
    J.add('piece', 'main_stmt', P(), [L('SELECT a FROM t WHERE '), C(ex), L(' AND '), C(ex), L(' LIMIT 1')], 60)
    J.add('piece', 'main_stmt', P(), [L('SELECT a FROM t GROUP BY '), C(ex), L(' HAVING '), C(ex), L(' ORDER BY b')], 60)
    J.add('piece', 'main_stmt', P(), [L('SELECT a FROM t ORDER BY '), C(ex), C(['', ' ASC', ' DESC']), L(' , '), C(ex), C(['', ' ASC', ' DESC'])], 60)
    J.add('piece', 'main_stmt', P(), [L('UPDATE t SET a = '), C(ex), L(' , b = '), C(ex), C(['', ' WHERE c'])], 60)
    J.add('piece', 'main_stmt', P(), [C(['INSERT', 'REPLACE']), L(' INTO t ( a , b ) VALUES ( '), C(ex), L(' , '), C(ex), L(' )'), C(['', ' , ( 1 , 2 )'])], 60)
    J.add('piece', 'main_stmt', P(), [L('SELECT f ( '), C(ex), L(' , '), C(ex), L(' ) , CASE '), C(['a', '1']), L(' WHEN b THEN c END')], 60)
    J.add('piece', 'main_stmt', P(), [L('SELECT CASE '), C(ex), L(' WHEN '), C(ex), L(' THEN 1 END')], 60)
    J.add('piece', 'main_stmt', P(), [L('DELETE FROM t WHERE '), C(ex), L(' OR '), C(ex)], 60)
    J.add('piece', 'main_stmt', P(), [L('SELECT a FROM t JOIN u ON '), C(ex), L(' LEFT JOIN v ON '), C(ex)], 60)
    J.add('piece', 'main_stmt', P('?0'), [L('CREATE TABLE t ( a '), C(ty), C(pr), L(' , b '), C(ty), L(' )')], 60)
    J.add('piece', 'main_stmt', P('?0'), [L('CREATE TABLE t ( a '), C(ty), C(pr), C(later), C(later), L(' )')], 60)
    J.add('piece', 'main_stmt', P('?0'), [L('ALTER TABLE t ADD COLUMN a '), C(ty), C(pr), C(['', ' , DROP COLUMN b', ' , MODIFY c INT', ' , ADD INDEX i ( d )', ' , ADD UNIQUE ( e )'])], 60)
    J.add('piece', 'main_stmt', P('?0'), [L('CREATE FUNCTION f ( a '), C(ty), L(' , b '), C(ty), L(' ) RETURNS '), C(ty[:6]), L(' RETURN 1')], 60)
    J.add('piece', 'main_stmt', P(), [C(['SELECT a FROM t', '( SELECT a FROM t )', 'SELECT a FROM t WHERE b = 1']), C([' UNION', ' UNION ALL', ' UNION DISTINCT']), C([' SELECT c', ' ( SELECT c FROM u )']), C(['', ' UNION SELECT d', ' UNION ALL SELECT e FROM v']), C(['', ' ORDER BY a', ' LIMIT 1'])])
    op = ['ENGINE = InnoDB', 'CHARSET = utf8', 'DEFAULT CHARSET utf8', 'COLLATE utf8_bin', "COMMENT = 'x'", 'ROW_FORMAT = DYNAMIC', 'AUTO_INCREMENT = 5', 'CHARACTER SET utf8', 'STRICT', 'MAX_ROWS 7', 'KEY_BLOCK_SIZE = 8', 'CHECKSUM = 1', 'MIN_ROWS = 2', 'AVG_ROW_LENGTH = 3', 'DEFAULT COLLATE = utf8_bin']
    J.add('piece', 'main_stmt', [23, acc, 0, 0, 0, 0], [L('CREATE TABLE t ( a INT ) '), C(op), C([' ', ' , ']), C(op)], 60)
    J.add('piece', 'main_stmt', P(), [L('DROP '), C(['TABLE a', 'TABLE IF EXISTS a , b', 'VIEW a', 'VIEW IF EXISTS s . a', 'DATABASE a', 'FUNCTION s . f', 'TRIGGER IF EXISTS s . t', 'EVENT e', 'PROCEDURE p', 'SERVER x', 'TEMPORARY TABLE a'])])


@prop('P24', 'three names of 0 to 3 symbolic bytes each at symbolic places')
def p24(J):
    al = 'B2d,41,42,61,62,7e'
    full = 'B0,3-7f'
    n = 3 if J.thorough else 2
    for i in range(n + 1):
        for j in range(n + 1):
            for k in range(min(n, 2) + 1):
                J.add('names', 'main_ident', [24, 0, '?0,3', '?0,5', 1], [al] * i + ['L02'] + [al] * j + ['L02'] + [al] * k, 60)
    J.add('byte', 'main_ident', [24, 0, '?0,3', '?0,5', 1], [L('a'), full, 'L02', L('a'), full, 'L02', L('a'), full if J.thorough else 'B41-43'], 120)
    J.add('wide', 'main_ident', [24, 0, 0, '?0,5', 1], [C(['\u00e6', 'ab', 'zz', 'AE']), 'L02', C(['\u00e6', 'ab', '\u00c6', 'a~']), 'L02', C(['\u00e6', 'ba'])])


@prop('P25', 'three spans with all ends in 0..6 (0..9 in the thorough check), in every arrangement')
def p25(J):
    r = '?0-9' if J.thorough else '?0-5'
    for shape in range(6):
        three = shape in (1, 3, 4)
        J.add('span', 'main_span', [25, 0, shape, r, r, r, r] + ([r if J.thorough else '?0-3'] * 2 if three else [0, 0]), [], 300)
    for shape in range(6):
        J.add('far', 'main_span', [25, 0, shape, '?0,18446744073709551614', '?0,7,18446744073709551615', '?0,5,9223372036854775807', '?5,9223372036854775808,18446744073709551615', '?0,3', '?3,9'], [])


@prop('P26', 'all values of all five options, all orders of setting them, 12 sets of values set before; a probe text that shows every option')
def p26(J):
    probe = 'select nm ; SELECT ? ; SELECT %s ; SELECT $1 ; SELECT _LIST_ ; SELECT _LIST_ . zz ; SELECT 1 FROM `q` ; SELECT 1 FROM "d" ; SELECT 1 FROM tt ; SELECT ? , 2 ; SELECT 3'
    for d in range(3):
        for a in range(4):
            J.add('set', 'main_setters', [26, 0, d, a, '?0,2,4,6,8,10,12,14', '?0-119' if J.thorough else '?0,1,7,23,42,64,88,119', '?0-11' if J.thorough else '?0,4,7,11'], [L(probe)], 60)
    J.add('order', 'main_setters', [26, 0, '?0-2', '?0-3', 6, '?0-119', '?3,8'], [L(probe)], 60)


SINGLE_NO = [';', 'DELIMITER', 'STDIN', '$$']


@prop('P27', 'every sentence with every combination of its optional parts, and with a symbolic token anywhere')
def p27(J):
    sl = J.but(SINGLE_NO)
    for l in PLAIN:
        for d in l.own if J.thorough else l.own[0]:
            P = [27, 0, D[d], l.args, '?%d,%d' % (l.flags, l.flags ^ 14)]
            J.add('choice', 'main_single', P, l.elements())
            t = words(l.longest())
            if '$$' in t or ';' in t:
                continue
            for i in range(len(t)):
                J.add('word', 'main_single', P, [L(' '.join(t[:i]) + ' ' if i else ''), sl, L(' ' + ' '.join(t[i + 1:]))])
                if J.thorough:
                    J.add('put', 'main_single', P, [L(' '.join(t[:i]) + ' ' if i else ''), sl, L(' ' + ' '.join(t[i:]))])
    J.cap('word', 600)


@prop('P28', 'expressions of 13 shapes with up to two symbolic tokens in 90 places; each sub-expression of each shape with redundant parentheses')
def p28(J):
    places(J, 28)
    J.cap('place', 1300)
    o = C([' ' + x + ' ' for x in OPS])
    on = [' ' + x + ' ' for x in OPS]
    for a, b in [('a O b O c', '( a O b O c )'), ('a O b O c', '( a ) O ( b ) O ( c )'), ('( a O b ) O c', '( ( a O b ) ) O c'), ('a O ( b O c )', '( a ) O ( ( b O c ) )'), ('U a O b', 'U ( a ) O b'), ('f ( a O b ) O c', 'f ( ( a O b ) ) O ( c )'),
                 ('CASE a WHEN b O c THEN d END O e', 'CASE ( a ) WHEN ( b O c ) THEN ( d ) END O ( e )'), ('a O b IS NULL', '( a O b IS NULL )'), ('a IN ( b O c , d )', '( a ) IN ( ( b O c ) , ( d ) )'), ("a O 'x' O 1", "( a ) O ( 'x' ) O ( 1 )")]:
        for p, s in [PLACES[k] for k in ([0, 1, 6, 7, 9, 11] if J.thorough else [(len(a) + len(b)) % 8])]:
            for x, y in ((a, b),):
                els = [L(p)]
                k = 0
                second = [L(p)]
                for w in x.split(' '):
                    if w in 'OU':
                        els.append(o if w == 'O' else C(['-', '! ', 'NOT ']))
                    else:
                        els.append(L(w + ' '))
                for w in y.split(' '):
                    if w in 'OU':
                        second.append('R%d' % k)
                        k += 1
                    else:
                        second.append(L(w + ' '))
                J.add('paren', 'main_two', [28, 0, 0, 0, 0, 4], els + [L(s), 'L02'] + second + [L(s)], 60)


@prop('P29', 'routine bodies of up to 3 statements out of 14 kinds of block, every combination, in triggers, functions and blocks; wrong or missing closing words; a symbolic token anywhere in a body')
def p29(J):
    acc = mask(4, 5, 6, 7, 21, 22)
    c = C([' ' + b for b in BLOCKS])
    for d, p, s in [('?0-2', 'CREATE TRIGGER tr BEFORE INSERT ON t FOR EACH ROW BEGIN', ' END'), ('0', 'CREATE FUNCTION f ( a INT ) RETURNS INT BEGIN', ' RETURN 1 ; END'), ('1', 'DO $$ BEGIN', ' END $$'), ('?0-2', 'IF x THEN', ' END IF'), ('?0-2', 'CASE x WHEN 1 THEN', ' END CASE'),
                    ('?0-2', 'IF x THEN SET q = 1 ; ELSE', ' END IF'), ('?0-2', 'IF x THEN SET q = 1 ; ELSEIF y THEN', ' END IF'), ('?0-2', 'CASE x WHEN 1 THEN SET q = 1 ; ELSE', ' END CASE'), ('?0-2', 'CASE x WHEN 1 THEN SET q = 1 ; WHEN 2 THEN', ' END CASE'),
                    ('?0-2', 'CREATE TRIGGER tr BEFORE INSERT ON t FOR EACH ROW BEGIN IF x THEN', ' ELSE SET z = 1 ; END IF ; END')]:
        k = 3 if J.thorough else 2
        need = 'IF x' in p or 'CASE x' in p
        one(J, 'body', 29, acc, [L(p)] + ([L(' SET q = 1 ;')] if need else []) + [c] * k + [L(s)], d, 0, 0, 1, secs=120)
        # a statement list nested in another
        one(J, 'nest', 29, acc, [L(p + (' SET q = 1 ;' if need else '') + ' IF y THEN SET w = 1 ;'), c, L(' ELSEIF v THEN SET w = 2 ;'), c, L(' END IF ;'), L(s)], d, 0, 0, 1, secs=60)
        one(J, 'nest', 29, acc, [L(p + (' SET q = 1 ;' if need else '') + ' CASE y WHEN 1 THEN SET w = 1 ;'), c, L(' ELSE SET w = 2 ;'), c, L(' END CASE ;'), L(s)], d, 0, 0, 1, secs=60)
        one(J, 'nest', 29, acc, [L(p + (' SET q = 1 ;' if need else '') + ' BEGIN'), c, L(' BEGIN'), c, L(' END ; END ;'), L(s)], d, 0, 0, 1, secs=60)
        # chains
        arm = ['SET w = 1 ;', 'SET w = 1 ; SET v = 2 ;', 'SELECT 1 ;', 'IF r THEN SET w = 1 ; END IF ; SET v = 2 ;', 'BEGIN SET w = 1 ; END ;']
        q = p + (' SET q = 1 ;' if need else '')
        one(J, 'chain', 29, acc, [L(q + ' IF y THEN '), C(arm), L(' ELSEIF v + 1 THEN '), C(arm), C([' ELSEIF u THEN SET w = 4 ;', ' ELSEIF u THEN SET w = 4 ; SET v = 5 ; ELSEIF s THEN SET w = 6 ;', '']), C([' ELSE SET w = 7 ;', ' ELSE SET w = 7 ; SET v = 8 ;', '']), L(' END IF ;'), L(s)], d, 0, 0, 1, secs=60)
        one(J, 'chain', 29, acc, [L(q + ' CASE'), C([' y', '']), L(' WHEN 1 THEN '), C(arm), L(' WHEN 2 THEN '), C(arm), C([' WHEN u THEN SET w = 4 ;', ' WHEN u THEN SET w = 4 ; SET v = 5 ; WHEN s THEN SET w = 6 ;', '']), C([' ELSE SET w = 7 ;', ' ELSE SET w = 7 ; SET v = 8 ;', '']), L(' END CASE ;'), L(s)], d, 0, 0, 1, secs=60)
        # empty lists, where they are taken
        no = ['', ' SET w = 1 ;', ' BEGIN END ;', ' IF r THEN END IF ;']
        one(J, 'empty', 29, acc, [L(q + ' IF y THEN'), C(no), C([' ELSEIF v + 1 THEN' + x for x in no] + ['']), C([' ELSE' + x for x in no] + ['']), L(' END IF ; SET z = 1 ;'), L(s)], d, 0, 0, 0, secs=60)
        one(J, 'empty', 29, acc, [L(q + ' CASE'), C([' y', '']), L(' WHEN 1 THEN'), C(no), C([' WHEN 2 THEN' + x for x in no] + ['']), C([' ELSE' + x for x in no] + ['']), L(' END CASE ; SET z = 1 ;'), L(s)], d, 0, 0, 0, secs=60)
        one(J, 'empty', 29, acc, [L(q + ' BEGIN'), C(no), L(' BEGIN'), C(no), L(' END ;'), C(no), L(' END ; SET z = 1 ;'), L(s)], d, 0, 0, 0, secs=60)
        # wrong closing words
        w = ['BEGIN SET a = 1 ; END IF ;', 'IF b THEN SET a = 1 ; END ;', 'IF b THEN SET a = 1 ; END CASE ;', 'CASE b WHEN 1 THEN SET a = 1 ; END IF ;', 'IF b THEN SET a = 1 ; ELSE END ; END IF ;', 'BEGIN SET a = 1 ; ELSE SET b = 2 ; END ;', 'IF b SET a = 1 ; END IF ;', 'CASE b WHEN 1 SET a = 1 ; END CASE ;',
             'IF b THEN SET a = 1 ; ELSE SET c = 2 ; ELSEIF d THEN SET e = 3 ; END IF ;', 'IF b THEN SET a = 1 ; ELSE SET c = 2 ; ELSE SET e = 3 ; END IF ;', 'CASE b ELSE SET a = 1 ; END CASE ;', 'END ; SET a = 1 ;', 'END IF ;', 'ELSE SET a = 1 ;']
        one(J, 'wrong', 29, 0, [L(p + ' SET q = 1 ; '), C(w if 'IF x' not in p and 'CASE x' not in p else [x for x in w if not x.startswith(('ELSE', 'END'))]), L(' SET r = 2 ;'), L(s)], d, 0, 0, 2)
        one(J, 'wrong', 29, 0, [L(p + ' SET q = 1 SET r = 2 ;'), L(s)], d, 0, 0, 2)
        one(J, 'wrong', 29, 0, [L(p + ' SET q = 1 ; ( SET r = 2 ) ;'), L(s)], d, 0, 0, 2)
    bl = [l for l in LINES if any(w in l.text.split(' ') for w in ('BEGIN', 'THEN', 'END'))]
    for l in bl:
        wild(J, 29, acc, [l], 'ri', 'all' if J.thorough else 'long')
    J.cap('wild', 700)
    # BEGIN at the top starts a transaction; it is no block
    for x in ['BEGIN ;', 'BEGIN ; SELECT 1 ; COMMIT ;', 'BEGIN ; SELECT 1 ; END ;']:
        one(J, 'top', 29, acc, [L(x)], '?0-2', 0, MULTI, 1)
    one(J, 'top', 29, 0, [L('BEGIN SELECT 1 ; END ;')], '?0-2', 0, MULTI, 2)
    one(J, 'top', 29, acc, [L('CREATE TRIGGER tr BEFORE INSERT ON t FOR EACH ROW SET a = 1 ; BEGIN ; SELECT 1 ; END ;')], '?0-2', 0, MULTI, 1)
    one(J, 'top', 29, 0, [L('CREATE TRIGGER tr BEFORE INSERT ON t FOR EACH ROW SET a = 1 ; BEGIN SELECT 1 ; END ;')], '?0-2', 0, MULTI, 2)
    one(J, 'top', 29, 0, [L('CREATE TRIGGER tr BEFORE INSERT ON t FOR EACH ROW BEGIN SET a = 1 ; END ; BEGIN SELECT 1 ; END ;')], '?0-2', 0, MULTI, 2)


@prop('P30', 'the report of the issues of every sentence with a symbolic token, of texts of several lines with symbolic bytes; lists of up to 3 issues made by hand with up to 2 fragments each at symbolic places')
def p30(J):
    for n, m in [(0, 0), (1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (3, 0)]:
        k = n * (1 + m)
        r = '?0-3' if J.thorough or k < 3 else '?0,2'
        for txt in [['Bx'.replace('x', '78,0a')] * 3, [C(['\u00e6', 'ab', '\n\n', 'a\n']), 'B78,0a', C(['\u4e2d', 'abc', '\n\n\n', 'x\ny'])], [L('x' + '\n' * 11), 'B78,0a']]:
            if k > 2:
                txt = txt[:2]
            J.add('made', 'main_issues', [30, 0, n, m, '?0-%d' % (2 ** n - 1)] + [r if i < 4 or J.thorough else i % 3 for i in range(2 * k)], txt, 60)
    for l in LINES:
        for d in l.own if J.thorough else l.own[0]:
            t = words(l.longest())
            for i in range(len(t)):
                J.add('word', 'main_report', [30, 0, D[d], l.args, l.flags | 2 * (i % 4)], [L('\n'.join(t[:i]) + '\n' if i else ''), J.all(), L(' ' + '\n'.join(t[i + 1:]))])
    J.cap('word', 1500)
    for p, s in [('SELECT a\n', 'b FROM FROM t'), ('', '\n)'), ("SELECT '", '\n'), ('SELECT a ; ', ' x ; \nFOO ; SELECT'), ('INSERT INTO t ( a )\n', ' SET b = 1'), ('CREATE TABLE t (\n\n', ' INT ( x ) )')]:
        J.add('bytes', 'main_report', [30, 0, '?0-2', 0, '?0-7'], [L(p), B("\n a1'(" ), C(['\u00e6', 'ab', '\n\n', '()', "'a", ' ;']), L(s)], 60)


@prop('P31', 'every sentence with a symbolic token, parsed twice into a list that holds 0 to 3 issues already')
def p31(J):
    for l in LINES:
        t = words(l.longest())
        P = [31, 0, D[l.own[0]], l.args, l.flags, '?0-3']
        J.add('choice', 'main_history', P, l.elements())
        for i in range(len(t)):
            J.add('word', 'main_history', P[:5] + [i % 4 if not J.thorough else '?0-3'], [L(' '.join(t[:i]) + ' ' if i else ''), J.all() if J.thorough else J.some(INTEREST), L(' ' + ' '.join(t[i + 1:]))])
        P[4] |= WARN_ID | WARN_KW
        J.add('warned', 'main_history', P[:5] + [0], l.elements())
    J.cap('choice', 200)
    J.cap('word', 900)
    J.cap('warned', 150)


@prop('P32', 'every sentence with any one token replaced by any token, or any token put in, or cut short')
def p32(J):
    for l in LINES:
        for v in (l.variants() if J.thorough else [l.longest()]):
            t = v.split(' ')
            for d in l.own if J.thorough else l.own[0]:
                for i in range(len(t)):
                    p = ' '.join(t[:i]) + ' ' if i else ''
                    # NOT DETERMINISTIC ends a data type, so that NOT is what is wrong
                    al = J.but(['DETERMINISTIC']) if i and t[i - 1] == 'NOT' else J.all()
                    P = [32, 0, D[d], l.args, l.flags, len(p.encode())]
                    J.add('wild', 'main_locate', P, [L(p), al, L(' ' + ' '.join(t[i + 1:]))])
                    J.add('wild', 'main_locate', P, [L(p), al, L(' ' + ' '.join(t[i:]))])
                    if i:
                        J.add('wild', 'main_locate', P[:5] + [len(p.rstrip().encode())], [L(p)])
    J.cap('wild', 8000)


@prop('P33', 'every sentence with any one token replaced by any token, or any token put in, or cut short')
def p33(J):
    for l in LINES:
        if 'DELIMITER' in l.text:
            continue  # a delimiter is taken as it is written
        for v in (l.variants() if J.thorough else [l.longest()]):
            t = v.split(' ')
            for d in l.own if J.thorough else l.own[0]:
                P = [33, 0, D[d], l.args, l.flags]
                for i in range(len(t)):
                    p = ' '.join(t[:i]) + ' ' if i else ''
                    J.add('wild', 'main_expected', P, [L(p), J.all(), L(' ' + ' '.join(t[i + 1:]))])
                    if i:
                        J.add('cut', 'main_expected', P, [L(p)])
                        J.add('wild', 'main_expected', P, [L(p), J.all(), L(' ' + ' '.join(t[i:]))])
    J.cap('wild', 4500)


INSIDE = [
    # lists of which a mistake spoils one element
    ('mps', 'SELECT f ( [ a ] , b ) , c FROM t WHERE d = 1'), ('mps', 'SELECT f ( a , [ b + c ] , d ) , e FROM t WHERE g = 2 ORDER BY h'), ('mps', 'SELECT f ( a , [ b . c ] ) FROM t'), ('mps', 'SELECT IFNULL ( [ a IS NULL ] , 2 ) FROM t'), ('mps', 'SELECT a , COALESCE ( b , [ - c * 2 ] , d ) + e FROM t'),
    ('mps', 'SELECT f ( g ( [ a ] , b ) , c ) , d FROM t'), ('mps', 'SELECT f ( g ( a , [ b ] ) , [ c ] , h ( e ) ) FROM t GROUP BY d'), ('mps', "SELECT a IN ( 1 , [ b + 2 ] , 'x' ) FROM t WHERE c"), ('mps', 'SELECT a FROM t WHERE b NOT IN ( [ 1 ] , 2 , [ c ] ) AND d = 3'), ('mps', 'SELECT a IN ( [ b ] ) OR c FROM t'),
    ('mps', 'CREATE TABLE t ( [ a INT NOT NULL ] , b CHAR ( 3 ) ) ENGINE = InnoDB'), ('mps', "CREATE TABLE t ( a INT , [ b VARCHAR ( 20 ) DEFAULT 'x' ] , c TEXT )"), ('mps', 'CREATE TABLE IF NOT EXISTS t ( a INT , [ b INT UNSIGNED AUTO_INCREMENT PRIMARY KEY ] , c INT ) CHARSET = utf8 COMMENT = \'x\''),
    ('p', "CREATE TYPE n AS ENUM ( 'a' , [ 'b' ] , 'c' )"), ('p', "CREATE TYPE n AS ENUM ( [ 'a' ] )"), ('m', 'SELECT a FROM t USE INDEX ( i , [ j ] , k ) WHERE b'), ('m', 'SELECT a FROM t FORCE INDEX FOR JOIN ( [ i ] ) JOIN u ON c = d WHERE b'),
    # lists that a mistake spoils
    ('mps', 'INSERT INTO t ( [ a , b , c ] ) VALUES ( 1 , 2 , 3 )'), ('mps', "INSERT INTO t ( a ) VALUES ( [ 1 , b + 2 , 'x' ] ) , ( 4 , 5 )"), ('mps', 'REPLACE INTO t ( a ) VALUES ( 1 , 2 ) , ( [ 3 , - d ] ) , ( 5 , 6 )'), ('m', 'INSERT INTO t VALUES ( [ 1 ] ) ON DUPLICATE KEY UPDATE a = 2 , b = 3'),
    ('mps', "CREATE TABLE t ( a INT , b ENUM ( [ 'a' , 'b' ] ) NOT NULL , c INT )"), ('mps', "CREATE TABLE t ( a SET ( [ 'a' ] ) , c INT )"), ('mps', 'CREATE TABLE t ( a VARCHAR ( [ 20 ] ) NOT NULL , c INT )'), ('mps', 'CREATE TABLE t ( a INT ( [ 3 ] ) , c INT )'),
    ('m', 'ALTER TABLE t ADD INDEX i ( [ a , b ] ) , DROP COLUMN c'), ('m', 'ALTER TABLE t ADD UNIQUE i ( a ( [ 5 ] ) , b ) , ADD COLUMN c INT'), ('m', 'ALTER TABLE t ADD FOREIGN KEY ( [ a , b ] ) REFERENCES u ( c , d ) ON DELETE CASCADE'), ('m', 'ALTER TABLE t ADD FOREIGN KEY ( a ) REFERENCES u ( [ c , d ] ) ON DELETE CASCADE , DROP COLUMN e'),
    ('m', 'CREATE FUNCTION f ( [ a INT , b CHAR ( 3 ) ] ) RETURNS INT RETURN 1'), ('mps', 'SELECT { CAST( [ a + b AS CHAR ] ) } , c FROM t'), ('mps', 'SELECT { COUNT ( [ a ] ) } , b FROM t GROUP BY c'), ('mps', 'SELECT { COUNT ( DISTINCT [ a . b ] ) } , b FROM t'), ('mps', 'SELECT { GROUP_CONCAT ( [ a ] ) } , b FROM t'),
    ('mps', 'SELECT { EXTRACT( [ DAY FROM a ] ) } , b FROM t'), ('mps', 'SELECT { TIMESTAMPADD( [ DAY , 1 , a ] ) } , b FROM t'), ('mps', 'SELECT { TIMESTAMPDIFF( [ DAY , c , a ] ) } , b FROM t'), ('mps', 'CREATE TABLE t ( a INT AS ( [ b + c ] ) , d INT )'), ('mps', 'CREATE TABLE t ( a INT CHECK ( [ b > 3 ] ) , d INT )'),
    ('mps', '( [ SELECT a FROM t WHERE b ] ) UNION ( SELECT c FROM u ) ORDER BY d'), ('mps', 'SELECT a UNION ( [ SELECT c FROM u ] ) ORDER BY d'), ('p', 'WITH x AS ( [ SELECT a FROM t ] ) , y AS ( SELECT b ) SELECT c FROM x'), ('p', 'WITH x AS ( SELECT a ) , y AS ( [ SELECT b ] ) SELECT c FROM x'),
    # words that enclose
    ('mps', 'SELECT { CASE a WHEN [ b THEN c WHEN d THEN e ELSE 1 ] END } , g FROM t'), ('mps', 'SELECT { CASE WHEN [ b THEN c ] END } + 2 FROM t'),
]


@prop('P34', 'sentences with a part in parentheses (or CASE .. END), any token put anywhere into that part or in the place of any of its tokens, or any of its tokens left out')
def p34(J):
    no = ['(', ')', '[', ']', '{', '}', ';', '$$', 'DELIMITER', 'CASE', 'case', 'Case']
    join = lambda v: ''.join(w + ' ' for w in v if w not in '[]{}')
    for ds, x in INSIDE:
        t = words(x)
        marks = [i for i, w in enumerate(t) if w in '[]']
        for m in range(0, len(marks), 2):
            a, b = marks[m], marks[m + 1]
            # where the part begins and ends that the mistake may spoil
            wide = '{' in t[:a] and '}' not in t[t.index('{'):a]
            pre, post = join(t[:a]), join(t[b + 1:])
            first = len(join(t[:t.index('{')])) if wide else len(pre)
            last = len(join(t[t.index('}'):])) if wide else len(post)
            mid = t[a + 1:b]
            # IF and BEGIN take what follows up to END, CREATE up to the kind of thing to create
            sl = J.but(no + (['END', 'end', 'End', '.'] if t[b + 1] == 'END' else [y for w in ('CREATE', 'IF', 'BEGIN') for y in (w, w.lower(), w.capitalize())] if 'SELECT' in mid else []))
            for d in ds if J.thorough else ds[0]:
                P = [34, 0, D[d], 0, 0, first, last]
                good = [L(pre + join(mid) + post), 'L02']
                for i in range(len(mid) + 1):
                    p = pre + join(mid[:i])
                    J.add('put', 'main_contain', P, good + [L(p), sl, L(' ' + join(mid[i:]) + post)])
                    # a mistake with brackets, in which nothing ends the part
                    sep = 'END' if t[b + 1] == 'END' else ','
                    J.add('group', 'main_contain', P, good + [L(p + '# '), J.some(['abc', '7', '!', 'NOT', "'x'"]), C([' ' + y.replace(',', sep) + ' ' for y in ['( x , y )', '[ x , y ]', '{ x , y }', '[ ( x , ) y , ]', '{ ( , ) } { [ , ] , }', '( { x , } , )', '( [ x , ) y', '[ ( , ] x', '{ ( [ , } x', '( ( x , ) , y )', '[ [ ] , ]', '{ { } , }']]), L(join(mid[i:]) + post)])
                    if i < len(mid) and mid[i] not in '()':
                        J.add('word', 'main_contain', P, good + [L(p), sl, L(' ' + join(mid[i + 1:]) + post)])
                        J.add('less', 'main_contain', P, good + [L(p + join(mid[i + 1:]) + post)])
                        # two mistakes
                        if J.thorough:
                            J.add('both', 'main_contain', P, good + [L(p), sl, L(' '), sl, L(' ' + join(mid[i + 1:]) + post)])


def _known(J):
    """The words of the tables of places, and the slots of a set of them."""
    known = set(json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'closed.json')))['known'])
    sym = {}
    for i, x in enumerate(J.names):
        x = x.upper() if x.isalpha() else x
        if x in known:
            sym.setdefault(x, []).append(i)
    return known, lambda ws: 'S' + ','.join(map(str, sorted(i for w in ws for i in sym.get(w, []))))


@prop('P35', 'every sentence with any one token replaced by any token of a table of 961 (but those that the grammar takes there: must be an error; those: must be none), or any token put in')
def p35(J):
    T = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'closed.json')))
    names = set(T['names'])
    sets = [(names | set(s['plus'])) - set(s['minus']) if isinstance(s, dict) else set(s) for s in T['sets']]
    known, S = _known(J)
    cn = lambda x: x.upper() if x.isalpha() else x
    # taken, though SQL has no use for them there
    odd = {'*', 'SELECT', 'COLLATE', 'BINARY', 'EXCEPTION', 'STRICT', 'PLPGSQL', 'UNIQUE', 'CONSTRAINT', 'FULLTEXT', 'SPATIAL', 'COMMIT', 'NOT', '-', 'INVOKER'}
    cache = {}
    for n, (kind, ds, a, f, text, i, s) in enumerate(T['places']):
        t = text.split(' ') if len(text.split(' ')) == len(words(text)) else words(text)
        pre = ' '.join(t[:i]) + ' ' if i else ''
        post = ' ' + ' '.join(t[i + (kind == 'r'):])
        if s not in cache:
            cache[s] = S(known - sets[s])
        # the same in every dialect of the place
        for d in ds if J.thorough or len(sets[s]) <= 40 else ds[n % len(ds)]:
            P = [35, 0, D[d], A[{'-': '-', 'f': 'f', 'q': 'q', '$': 'n'}[a]], flagbits(f)]
            J.add('not', 'main_stmt', P + [2], [L(pre), cache[s], L(post)])
            if kind == 'r':
                yes = S({w for w in sets[s] if w not in odd or w == cn(t[i])})
                if yes != 'S':
                    J.add('yes', 'main_stmt', P + [4], [L(pre), yes, L(post)])


@prop('P37', 'every word of a table of 961 that cannot follow the text before it, at 2884 places of sentences (in the place of the token there, or put in)')
def p37(J):
    known, sym = _known(J)
    T = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'first.json')))
    sets, enc = [], {}
    for s in T['sets']:
        sets.append(((sets[s['of']] if s['of'] >= 0 else set()) | set(s['plus'])) - set(s['minus']))
    for kind, d, a, f, text, i, s in T['places']:
        t = text.split(' ') if len(text.split(' ')) == len(words(text)) else words(text)
        pre = ' '.join(t[:i]) + ' ' if i else ''
        P = [37, 0, D[d], A[{'-': '-', 'f': 'f', 'q': 'q', '$': 'n'}[a]], flagbits(f), len(pre.encode())]
        if s not in enc:
            enc[s] = sym(sets[s])
        J.add('wrong', 'main_locate', P, [L(pre), enc[s], L(' ' + ' '.join(t[i + (kind == 'r'):]))])
        if J.thorough:
            J.add('cut', 'main_locate', P, [L(pre), enc[s]])


@prop('P36', 'unions of up to 3 queries (13 kinds of operand, 3 kinds of union, 6 kinds of clauses after them, at 7 places), joins of up to 4 tables (10 kinds of join), lists of up to 3 elements with and without parentheses of their own; every combination of optional parts of every sentence; every token replaced by any token')
def p36(J):
    K = ['UNION ', 'UNION ALL ', 'UNION DISTINCT ']
    TAIL = ['', 'ORDER BY o', 'LIMIT 5', 'ORDER BY o DESC , p LIMIT 5', 'ORDER BY o LIMIT 5 , 6', 'LIMIT 5 OFFSET 6']
    BARE = ['SELECT a FROM t ', 'SELECT b , c ', 'SELECT d FROM t WHERE e GROUP BY f HAVING g ']
    OWN = ['( SELECT a FROM t ) ', '( SELECT b FROM t ORDER BY c LIMIT 1 ) ', '( SELECT b FROM t LIMIT 1 ) ', '( ( SELECT d ) ) ', '( SELECT a UNION SELECT b ORDER BY c ) ', '( SELECT a UNION ALL ( SELECT b ) ) ', '( ( SELECT a ) UNION SELECT b LIMIT 1 ) ', '( SELECT a UNION SELECT b UNION SELECT c ) ',
           '( SELECT ( SELECT x ) FROM ( SELECT b UNION SELECT c LIMIT 3 ) AS y LIMIT 2 ) ', '( ( SELECT a FROM t ORDER BY b ) ) ', '( SELECT a FROM t FOR UPDATE ) ']
    AT = [('', ''), ('SELECT x FROM ( ', ' ) AS y WHERE z'), ('SELECT ( ', ' ) , u FROM v'), ('SELECT EXISTS ( ', ' ) AND u'), ('CREATE VIEW v AS ', ''), ('SELECT a IN ( ', ' ) FROM w'), ('SELECT f ( ( ', ' ) , 2 )')]
    N = [36, mask(5, 6, 7, 22), 0, 0, 0, 1]
    for i, (p, s) in enumerate(AT):
        if p.startswith('SELECT f') or p.startswith('SELECT ('):
            first = BARE
        elif p.startswith('SELECT a IN') or p.startswith('SELECT EXISTS'):
            first = BARE
        else:
            first = BARE + OWN
        al = J.thorough or i < 2
        # two and three operands
        J.add('union', 'main_stmt', N, [L(p), C(first), C(K), C(BARE + OWN), C(TAIL), L(s)], 60)
        J.add('union', 'main_stmt', N, [L(p), C(first if al else first[:3]), C(K[:2]), C((BARE + OWN) if al else BARE[:1] + OWN[:5]), C(K[1:]), C((BARE + OWN) if J.thorough else BARE[:1] + OWN[1:5:2]), C(TAIL[:4] if al else TAIL[2:4]), L(s)], 90)
        # four
        J.add('four', 'main_stmt', N, [L(p), C(BARE[:1] + first[3:5]), C(K), C(BARE[:1] + OWN[:1]), C(K), C(BARE[:1]), C(K), C(BARE[1:2] + OWN[1:2]), C(TAIL[:3:2]), L(s)], 60)
        # parentheses around an operand that has no clauses after it change nothing
        for a in (['SELECT a FROM t ', 'SELECT b , c ']):
            for k in K:
                J.add('same', 'main_two', [36, 0, 0, 0, 0, 4], [L(p + a + k), C(BARE), C(TAIL), L(s), 'L02', L(p + a + k), Dep(0, ['( ' + x + ') ' for x in BARE]), Dep(1, TAIL), L(s)], 60)
    # sorted and cut off in the middle
    J.add('middle', 'main_stmt', N[:5] + [2], [C(BARE[:2]), C([x + ' ' for x in TAIL[1:]] + ['FOR UPDATE ']), C(K), C(BARE + OWN), C(TAIL)], 60)
    J.add('middle', 'main_stmt', N[:5] + [2], [C(BARE[:2]), C(K), C(BARE), C([x + ' ' for x in TAIL[1:]] + ['FOR UPDATE ']), C(K), C(BARE + OWN)], 60)
    J.add('middle', 'main_stmt', N[:5] + [2], [C(OWN), C(K), C(BARE), C([x + ' ' for x in TAIL[1:]] + ['FOR UPDATE ']), C(K), C(BARE + OWN)], 60)
    # joins
    TAB = ['t ', 't AS x ', 's . t y ', '( SELECT a FROM t JOIN u ) AS z ', '( SELECT a UNION SELECT b ) AS z ']
    JOIN = ['JOIN ', 'INNER JOIN ', 'CROSS JOIN ', 'STRAIGHT_JOIN ', 'LEFT JOIN ', 'RIGHT OUTER JOIN ', 'NATURAL JOIN ', 'NATURAL LEFT JOIN ', 'NATURAL INNER JOIN ', 'NATURAL RIGHT OUTER JOIN ']
    ON = ['', 'ON a = b AND c ', 'USING a , b ', 'ON EXISTS ( SELECT a FROM t JOIN u ) ']
    for p, s in [('SELECT a FROM ', 'WHERE b'), ('UPDATE ', 'SET a = 1'), ('DELETE t FROM ', 'WHERE c'), ('SELECT a FROM v , ', ', w'), ('SELECT a FROM ( SELECT b FROM ', ') AS q JOIN r')]:
        al = J.thorough or p == 'SELECT a FROM '
        J.add('join', 'main_stmt', N, [L(p), C(TAB if J.thorough else TAB[:4:3]), C(JOIN if al else JOIN[3:]), C(TAB), C(ON), C(JOIN if J.thorough else JOIN[:5]), C(TAB[:1] + TAB[3:]), C(ON if J.thorough else ON[1:3]), L(s)], 90)
        J.add('join', 'main_stmt', N, [L(p), L('t '), C(JOIN[4:]), L('u '), C(ON[:2]), C(JOIN[:5]), L('v '), C(ON[1:]), C(JOIN[:1] + JOIN[5:7]), C(TAB[2:4]), C(ON[:3]), L(s)], 90)
    # lists
    EL = ['a ', '( a ) ', '1 + 2 ', '( b + 1 ) * 2 ', 'f ( c , d ) ', '( SELECT e , f ) ', '( ( g ) ) ', '2 * ( h + 1 ) ', 'a IN ( b , c ) ']
    for p, s in [('SELECT f ( ', ') FROM t'), ('SELECT a IN ( ', ') AND b'), ('SELECT NOT g ( h ( ', ') ) + 1'), ('INSERT INTO t ( a ) VALUES ( ', ')'), ('INSERT INTO t ( a , b ) VALUES ( 1 ) , ( ', ') , ( 2 , 3 )'), ('REPLACE INTO t ( a ) VALUES ( ', ') , ( 1 )'), ('SELECT IF ( ', ', 3 )'), ('SELECT ', 'FROM t'), ('SET x = ', ''),
                 ('SELECT a FROM t GROUP BY ', 'ORDER BY b'), ('SELECT a FROM t ORDER BY ', 'LIMIT 1')]:
        J.add('list', 'main_stmt', N, [L(p), C(EL), L(s)], 60)
        if not p.startswith('SET'):
            J.add('list', 'main_stmt', N, [L(p), C(EL), L(', '), C(EL), L(s)], 60)
            J.add('list', 'main_stmt', N, [L(p), C(EL), L(', '), C(EL[:6]), L(', '), C(EL[1:] if J.thorough else EL[1:6]), L(s)], 90)
    J.add('rows', 'main_stmt', N, [L('INSERT INTO t ( a ) VALUES '), C(['( 1 ) ', '( 1 , 2 ) ', '( ( 1 ) ) ', '( ( 1 ) , ( 2 ) ) ', '( f ( 1 , 2 ) ) ']), L(', '), C(['( 3 ) ', '( 3 , 4 ) ', '( ( 3 ) ) ', '( ( 3 ) , ( 4 ) ) ', '( ( SELECT 3 , 4 ) ) ']), C(['', ', ( 5 )', ', ( 5 , 6 ) , ( ( 7 ) )'])], 60)
    options(J, 36, 0, LINES, 0)
    J.cap('choice', 200)
    _wild(J, 36, 0, 'ri', n=1500)
