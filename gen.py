"""Jobs for the symbolic executor: texts with symbolic parts, made from the corpus.

A job is one text whose symbolic parts (a whole token, a choice between texts, a byte, a parameter)
range over all their values; one run of the executor covers every combination of them.
"""
import json
import os
import re
import zlib

import corpus

D = {'m': 0, 'p': 1, 's': 2}
A = {'-': 0, 'f': 1, 'q': 2, 'n': 3}
MULTI, WARN_ID, WARN_KW, LISTS = 1, 2, 4, 8
SMALL, MIXED = 1024, 2048


def L(s):
    return 'L' + s.encode().hex() if s else ''


def words(v):
    """The tokens of a sentence; a literal may hold blanks."""
    return re.findall(r"""(?:'[^']*'|"[^"]*"|`[^`]*`|[^\s'"`])+""", v)


def pad(alts):
    w = max(len(a.encode()) for a in alts)
    return [a + ' ' * (w - len(a.encode())) for a in alts]


def C(alts):
    """Choice between texts, padded with blanks to the same length."""
    return 'C' + ','.join(a.encode().hex() for a in pad(alts))


def Dep(k, alts):
    """As C, chosen by the choice of variable k."""
    return 'D%d:' % k + ','.join(a.encode().hex() for a in pad(alts))


def B(chars):
    return 'B' + ','.join('%x' % c for c in sorted(set(chars.encode())))


PRINT = 'B' + '20-7e'
BYTES = 'B' + '9-a,d,20-7e'   # 1 stands for a slot, the rest of the control characters are alike
OPCHARS = '<>=!|&-/*:%$.@+'


def flagbits(f):
    return (MULTI if 'M' in f else 0) | (LISTS if 'L' in f else 0)


class Line:
    def __init__(self, d, a, f, text):
        self.own = ''.join(x for x in 'mps' if x in d.lower())
        self.not_in = '' if d.lower() == d else ''.join(x for x in 'mps' if x not in d.lower())
        self.args = A[a]
        self.flags = flagbits(f)
        self.text = text
        self.groups = corpus.groups(text)

    def variants(self):
        return list(corpus.variants(self.text))

    def longest(self):
        return ' '.join(max(g, key=len) for g in self.groups)

    def elements(self, lower=None):
        """The text with each group a symbolic choice; with `lower`, the same choices again in
        small letters."""
        out = []
        k = 0
        for g in self.groups:
            if len(g) == 1:
                out.append(L((lower(g[0]) if lower else g[0]) + ' '))
            else:
                alts = [(lower(x) if lower else x) + ' ' for x in g]
                out.append(Dep(k, alts) if lower else C(alts))
                k += 1
        return out


LINES = [Line(*l) for l in corpus.lines()]
PLAIN = [l for l in LINES if not l.flags & MULTI]


def dset(ds):
    v = [D[x] for x in ds]
    return str(v[0]) if len(v) == 1 else '?' + ','.join(map(str, v))


def mask(*props):
    m = 0
    for p in props:
        m |= 1 << p
    return m


def lower_kw(t):
    """Keywords in small letters; names, literals and data stay."""
    return re.sub(r"'[^']*'|\b[A-Z][A-Z0-9_]+\b|\b[A-Z]\b", lambda m: m.group(0) if m.group(0)[0] == "'" else m.group(0).lower(), t)


class Jobs:
    def __init__(self, names, thorough, rng):
        self.names = names            # the text of every slot
        self.n = len(names)
        self.kw = names.index('abc')  # the keywords come first
        self.thorough = thorough
        self.rng = rng
        self.fam = {}
        self.order = []

    def add(self, fam, entry, params, elements, secs=None, steps=4000000, paths=400000):
        if fam not in self.fam:
            self.fam[fam] = []
            self.order.append(fam)
        el = ' '.join(e for e in elements if e)
        p = ';'.join(str(x) for x in params)
        secs = secs or (120 if self.thorough else 30)
        self.fam[fam].append('%s\t%s\t%d\t%d\t%d\t%s' % (entry, p, paths, steps, secs, el))

    def cap(self, fam, n):
        """Keep n jobs of a family in the quick check, chosen by the seed."""
        j = self.fam.get(fam, [])
        if not self.thorough and len(j) > n:
            self.fam[fam] = self.rng.sample(j, n)

    def lines(self):
        seen = set()
        out = []
        for f in self.order:
            for i, j in enumerate(self.fam[f]):
                if j not in seen:
                    seen.add(j)
                    out.append('%s:%d\t%s' % (f, i, j))
        return out

    # sets of slots
    def all(self):
        return 'S0-%d' % (self.n - 1)

    def keywords(self):
        return 'S0-%d' % (self.kw - 1)

    def idx(self, words):
        return [self.names.index(w) for w in words if w in self.names]

    def some(self, words):
        return 'S' + ','.join(str(i) for i in sorted(set(self.idx(words))))

    def but(self, words):
        no = set(self.idx(words))
        return 'S' + ','.join(str(i) for i in range(self.n) if i not in no)


def stmt(pid, acc, d, l, expect=0, tok=0):
    return [pid, acc, d, l.args, l.flags, expect, tok]


# ---- families ----

def wild(J, pid, acc, lines, kinds='rit', variants='long', dialects='first', fam='wild'):
    """One token of a sentence replaced by any token (r), any token put in (i), or the sentence
    cut short with any token at its end (t)."""
    for l in lines:
        for v in (l.variants() if variants == 'all' else [l.longest()]):
            t = v.split(' ')
            for d in (l.own if dialects == 'all' else l.own[0]):
                P = stmt(pid, acc, D[d], l)
                for i in range(len(t) + 1):
                    pre = L(' '.join(t[:i]) + ' ' if i else '')
                    if i < len(t) and 'r' in kinds:
                        J.add(fam, 'main_stmt', P, [pre, J.all(), L(' ' + ' '.join(t[i + 1:]))])
                    if 'i' in kinds:
                        J.add(fam, 'main_stmt', P, [pre, J.all(), L(' ' + ' '.join(t[i:]))])
                    if i < len(t) - 1 and 't' in kinds:
                        J.add(fam, 'main_stmt', P, [pre, J.all()])


INTEREST = ['SELECT', 'FROM', 'WHERE', 'AS', 'ON', 'IN', 'NOT', 'NULL', 'IS', 'AND', 'CASE', 'WHEN', 'THEN', 'ELSE', 'END', 'BEGIN', 'IF', 'EXISTS',
            'SET', 'TABLE', 'VALUES', 'UNION', 'ORDER', 'BY', 'LIMIT', 'DEFAULT', 'INTERVAL', 'DISTINCT', 'COUNT', 'JOIN', 'DELIMITER', 'WITH',
            'abc', '`q1`', '7', '1.5', "'x'", '?', '%s', '$1', '(', ')', ',', '.', ';', '=', '-', '*', '$$', '@@GLOBAL', '@', '!', 'æ']


def pairs(J, pid, acc, lines, fam='pair'):
    """Two adjacent tokens, each any of a selection (any token at all in the thorough check)."""
    for l in lines:
        t = l.longest().split(' ')
        P = stmt(pid, acc, D[l.own[0]], l)
        s = J.all() if J.thorough else J.some(INTEREST)
        for i in range(len(t)):
            J.add(fam, 'main_stmt', P, [L(' '.join(t[:i]) + ' ' if i else ''), J.all(), L(' '), s, L(' ' + ' '.join(t[i + 1:]))])


def options(J, pid, acc, lines, expect=1, fam='choice', own=True):
    """Every combination of the optional parts of a sentence."""
    for l in lines:
        ds = l.own if own else l.not_in
        for d in ds:
            J.add(fam, 'main_stmt', stmt(pid, acc, D[d], l, expect), l.elements())


def one(J, fam, pid, acc, els, d='0', a=0, f=0, expect=0, tok=0, secs=None):
    J.add(fam, 'main_stmt', [pid, acc, d, a, f, expect, tok], els, secs)


STR_CTX = [("SELECT ", " , b FROM t", 0), ("SELECT a FROM t WHERE b = ", " AND c = 1", 0), ("INSERT INTO t ( a ) VALUES ( ", " , 2 )", 0),
           ("CREATE TABLE t ( a ENUM ( ", " , 'b' ) )", 0), ("CREATE TABLE t ( a INT COMMENT ", " )", 0), ("CREATE TABLE t ( a INT ) COMMENT = ", "", 0),
           ("SIGNAL SQLSTATE ", "", 0), ("CREATE TABLE t ( a SET ( 'q' , ", " ) )", 0), ("SIGNAL SQLSTATE '45000' SET MESSAGE_TEXT = ", "", 0),
           ("CREATE TYPE n AS ENUM ( ", " )", 1), ("ALTER TABLE t ADD INDEX i ( a ) COMMENT ", "", 0)]


def strings(J, pid, acc, n, fam='string'):
    al = "'\\n0%\"aZ"
    for q in "'\"":
        for (p, s, d) in STR_CTX:
            if q == '"' and d == 1:
                continue
            J.add(fam, 'main_stmt', [pid, acc, d, 0, 0, 0], [L(p + q)] + [B(al)] * n + [L(q + s)])
        # adjacent literals
        J.add(fam, 'main_stmt', [pid, acc, 0, 0, 0, 0], [L("SELECT " + q), B(al), B(al), L(q), B(" \n/"), C([q, "'", '"']), B(al), B(al), L(q + ' , b')])
        # characters of several bytes
        J.add(fam, 'main_stmt', [pid, acc, 0, 0, 0, 0], [L("SELECT " + q), C(['\u00e6', q + q, '\\n', '\\' + q, 'ab']), B(al), C(['\u4e2d', 'abc', q + q + 'x', '\\\\\\', 'a\u00e6']), L(q + ' , b')])
        # any byte
        for k in range(2):
            J.add(fam, 'main_stmt', [pid, acc, 0, 0, 0, 0], [L("SELECT " + q + 'x' * k + ('\\' if k else '')), PRINT, B(al), L(q + ' , b')])


def bytes_(J, pid, acc, fam='bytes'):
    """Characters rather than tokens."""
    for (p, s, f) in [('SELECT a', ' b FROM t', 0), ('', '', 0), ('SELECT ', '', 0), ('SELECT 1', ' FROM t', 0), ('SELECT a.', 'b FROM t', 0), ('SELECT @', ' , b', 0),
                      ('SELECT x', "ab'", 0), ('SELECT "', '', 0), ("SELECT '", '', 0), ('SELECT `', '', 0), ('SELECT a -', 'b', 0), ('SELECT a /', '/ b', 0),
                      ('SELECT $', '', 0), ('SELECT %', ' b', 0), ('SELECT 9', '9', 0), ('SELECT .', '9', 0), ('SELECT 0', 'ff', 0), ('SELECT _', 'b', 0),
                      ('SELECT a /*', '*/ b', 0), ('SELECT a ; ', 'SELECT b', MULTI), ('DELIMITER ', ' SELECT a', MULTI), ('DO $$ ', ' END $$', 0),
                      ('SELECT b', '"x"', 0), ('SELECT n', "'x'", 0), ("SELECT 'a'", "'b'", 0), ("SELECT x'", "' , 1", 0), ("SELECT X'", "'", 0)]:
        for d in 'mps':
            J.add(fam, 'main_stmt', [pid, acc, D[d], '?0-3', f, 0], [L(p), BYTES, BYTES, L(s)])
    for (p, s) in [('SELECT a', 'b FROM t'), ('SELECT a ', ' b FROM t'), ('', ''), ('SELECT ', "1 , '2'")]:
        for d in 'mp':
            J.add(fam, 'main_stmt', [pid, acc, D[d], 0, 0, 0], [L(p), B(OPCHARS + "'\"#` \n"), B(OPCHARS + "'\"#` \n"), B(OPCHARS), L(s)])
    if J.thorough:
        for (p, s) in [('SELECT a', 'b FROM t'), ('', ''), ("SELECT '", "'")]:
            for d in 'mp':
                J.add(fam, 'main_stmt', [pid, acc, D[d], 0, 0, 0], [L(p), BYTES, BYTES, BYTES, L(s)], 600)


def unicode_(J, pid, acc, fam='unicode'):
    two = ['\u00e6', 'ab', "'\u0041", "''", '$a', '1a', '`a', 'a`', '"\n', '--']
    three = ['\u4e2d', 'abc', '\u00e6a', 'a\u00e6', "'a'", '`a`', "a'b", '/**', '$$a', '%sa']
    for (p, s) in [('SELECT ', ' FROM t'), ("SELECT 'x", "' , b"), ('SELECT `x', '` , b'), ('SELECT a /* x', ' */ , b'), ('SELECT a -- x', '\n , b'), ('', ''), ('SELECT a FROM t WHERE ', ''),
                   ('INSERT INTO ', ' VALUES ( 1 )'), ("SELECT '\u4e2d' ", " '\u00e6' FROM FROM"), ('SELECT $', 'a'), ('SELECT @@', ' b'), ("SELECT x'", "'")]:
        for f in (0, MULTI):
            J.add(fam, 'main_stmt', [pid, acc, '?0-2', 0, f, 0], [L(p), C(two), C(three), L(s)])


def pumped(J, pid, acc, n, fam='pump'):
    """A sentence with one unit - any token, or any two - repeated n times."""
    for (p, s, f) in [('SELECT ', ' 1', 0), ('SELECT a FROM t WHERE ', ' b', 0), ('', '', MULTI), ('SELECT a FROM ', ' u', 0), ('SELECT a FROM t ', '', 0), ('SELECT a , ', ' b FROM t', 0),
                      ('CREATE TABLE t ( a INT ', ' )', 0), ('CREATE ', ' TABLE t ( a INT )', 0), ('CREATE TABLE t ( a INT ) ', '', 0), ('ALTER TABLE t ', '', 0), ('INSERT INTO t VALUES ', '', 0),
                      ('DROP TABLE a ', '', 0), ('BEGIN ; ', ' END ;', MULTI), ('CREATE TRIGGER tr BEFORE INSERT ON t FOR EACH ROW BEGIN ', ' END', 0), ('UPDATE t SET a = 1 ', '', 0),
                      ('WITH x AS ( SELECT 1 ) ', '', 0), ('SELECT f ( ', ' )', 0), ('SELECT CASE ', ' END', 0), ('SELECT a IN ( ', ' )', 0), ('SELECT CAST( a AS ', ' )', 0), ('SIGNAL SQLSTATE 1 ', '', 0),
                      ('SELECT RANK ( ) OVER ( ', ' )', 0), ('IF a THEN ', ' END IF', 0), ('CASE a ', ' END CASE', 0), ('CREATE FUNCTION f ( ', ' ) RETURNS INT RETURN 1', 0), ('DELETE ', ' FROM t', 0), ('COPY t ', '', MULTI), ('RENAME TABLE a ', '', 0), ('SELECT a UNION ', ' SELECT b', 0)]:
        for d in 'mp':
            J.add(fam, 'main_stmt', [pid, acc, D[d], 0, f, 0], [L(p), J.all(), L(' ')] + ['R0', L(' ')] * (n - 1) + [L(s)], steps=8000000)
            s2 = J.some(INTEREST)
            J.add(fam + '2', 'main_stmt', [pid, acc, D[d], 0, f, 0], [L(p), s2, L(' '), s2, L(' ')] + ['R0', L(' '), 'R1', L(' ')] * (n // 2 - 1) + [L(s)], steps=8000000)


SEPS = [['  ', '\n\n', '\t ', '\r\n', ' \n'],
        ['/**/', '    ', '--c\n', '//c\n', '\n\n\n\n', ' \t\r\n', '--\n\n'],
        ["/*'*/", '-- "\n', '//;-\n', ' /**/', '/**/\n', '/***/', '--`(\n', '/*/*/']]


def seps(J, pid, lines, fam='blank', per=1):
    for l in lines:
        t = words(l.longest())
        if 'STDIN' in t:
            continue
        d = l.own[0]
        for i in range(1, len(t)):
            if t[i - 1][-1] in '-/*' or t[i][0] in '-/*' or '$$' in t:
                cs = [['  ', '\n\n', '\t ', '\r\n'], [' /**/ ', ' --c\n ', ' //c\n ']]
            else:
                cs = SEPS
            for k in range(per):
                c = cs[(i + k) % len(cs)]
                a, b = ' '.join(t[:i]), ' '.join(t[i:])
                J.add(fam, 'main_two', [pid, 0, D[d], l.args, l.flags, 0], [L(a + ' ' + b), 'L02', L(a), C(c), L(b)])


SQUEEZE = set('(),;')


def squeeze(t):
    out = t[0]
    for a, b in zip(t, t[1:]):
        # CAST( and its like are words with a parenthesis of their own
        if (a in SQUEEZE or b in SQUEEZE) and not (b == '(' and a.isupper()):
            out += b
        else:
            out += ' ' + b
    return out


OPS = ['=', '<', '>', '<=', '>=', '<>', '!=', '<=>', '+', '-', '*', '/', '<<', '>>', '&', '|', '&&', '||', 'AND', 'OR', 'XOR', 'LIKE', 'NOT LIKE']
SYMOPS = [o for o in OPS if not o.isalpha() and ' ' not in o]
UN = ['-', '!', 'NOT', '']


def munch(s, ops):
    out = []
    while s:
        for n in range(3, 0, -1):
            if s[:n] in ops:
                out.append(s[:n])
                s = s[n:]
                break
        else:
            return None
    return out


def expr_jobs(J, pid, acc, fam='expr'):
    """Chains of operators, each any of them, with parentheses at every place."""
    ctx = [('SELECT ', ''), ('SELECT x FROM t WHERE ', ' GROUP BY y'), ('UPDATE t SET q = ', ' WHERE z'), ('INSERT INTO t VALUES ( ', ' , 1 )')]
    o = C([' ' + x + ' ' for x in OPS])
    k = 0
    for shape in ['a O b', 'a O b O c', 'a O b O c O d', '( a O b ) O c O d', 'a O ( b O c ) O d', 'a O b O ( c O d )', '( a O b ) O ( c O d )', '( a O b O c ) O d', 'a O ( b O c O d )',
                  'U a O b', 'a O U b', 'U a O U b O c', 'a O b O U c', 'U ( a O b ) O c', 'a O U ( b O c )', 'U U a O b', 'a O b IS NULL O c', 'U a IS NOT NULL O b', 'a O b IN ( c O d , e )',
                  'a IN ( 1 ) O b', 'f ( a O b , c ) O d', 'CASE a O b WHEN c THEN d O e END O f', 'a O ( SELECT b O c ) O d', "a O 'x' O 2", 'a O b . c O d', 'a O b NOT IN ( c ) O d']:
        for c in (ctx if J.thorough else [ctx[k % len(ctx)]]):
            els = [L(c[0])]
            for w in shape.split(' '):
                els.append(o if w == 'O' else C([x + ' ' for x in UN]) if w == 'U' else L(w + ' '))
            els.append(L(c[1]))
            J.add(fam, 'main_stmt', [pid, acc, 0, 0, 0, 1 if 'U U' not in shape and 'U' not in shape and 'IS' not in shape and 'IN' not in shape else 0], els, 240 if J.thorough else 40)
        k += 1


PLACES = [('SELECT ', ' FROM t'), ('SELECT x FROM t WHERE ', ''), ('SELECT x FROM t GROUP BY y HAVING ', ''), ('SELECT x FROM t JOIN u ON ', ' WHERE z'), ('SELECT x FROM t GROUP BY ', ''),
          ('SELECT x FROM t ORDER BY ', ' DESC'), ('UPDATE t SET q = ', ' WHERE z'), ('INSERT INTO t ( q ) VALUES ( ', ' )'), ('INSERT INTO t SET q = ', ''), ('SELECT f ( ', ' ) FROM t'),
          ('SELECT ( ', ' ) FROM t'), ('SELECT CASE WHEN ', ' THEN 1 END'), ('SELECT CASE ', ' WHEN 1 THEN 2 END'), ('SELECT CASE z WHEN 1 THEN ', ' END'), ('SELECT CASE z WHEN 1 THEN 2 ELSE ', ' END'),
          ('DELETE FROM t WHERE ', ''), ('SET q = ', ''), ('RETURN ', ''), ('SELECT z IN ( ', ' , 1 )'), ('SELECT IF ( ', ' , 1 , 2 )'), ('SELECT COUNT ( ', ' )'), ('SELECT CAST( ', ' AS INT )'),
          ('SELECT x , ', ' AS y'), ('SELECT x FROM ( SELECT ', ' ) AS q'), ('IF ', ' THEN SET q = 1 ; END IF'), ('CASE ', ' WHEN 1 THEN SET q = 1 ; END CASE'), ('SELECT SUM ( ', ' )'), ('SELECT COALESCE ( 1 , ', ' )'),
          ('INSERT INTO t ( q ) VALUES ( 1 ) , ( ', ' )'), ('SELECT x UNION SELECT ', ''), ('ALTER TABLE t ALTER COLUMN q SET DEFAULT ', ''),
          # not the first of its kind
          ('SELECT x FROM t GROUP BY y , ', ''), ('SELECT x FROM t GROUP BY y , z , ', ' HAVING w'), ('SELECT x FROM t ORDER BY y , ', ' , z'), ('SELECT x FROM t ORDER BY y DESC , z , ', ' ASC LIMIT 1'), ('UPDATE t SET q = 1 , r = ', ''),
          ('UPDATE t SET q = 1 , r = 2 , s = ', ' WHERE z'), ('INSERT INTO t ( q , r , s ) VALUES ( 1 , ', ' , 3 )'), ('INSERT INTO t ( q , r ) VALUES ( 1 , 2 ) , ( 3 , 4 ) , ( 5 , ', ' )'), ('INSERT INTO t SET q = 1 , r = ', ''), ('INSERT INTO t SET q = 1 , r = 2 , s = ', ''),
          ('INSERT INTO t ( q ) VALUES ( 1 ) ON DUPLICATE KEY UPDATE q = ', ''), ('INSERT INTO t ( q ) VALUES ( 1 ) ON DUPLICATE KEY UPDATE q = 1 , r = ', ''), ('INSERT INTO t ( q ) VALUES ( 1 ) RETURNING ', ''), ('DELETE FROM t RETURNING x , ', ' AS y'), ('SELECT f ( x , ', ' )'), ('SELECT f ( x , y , ', ' , z )'),
          ('SELECT CASE WHEN x THEN y WHEN ', ' THEN 1 END'), ('SELECT CASE WHEN x THEN y WHEN z THEN ', ' ELSE 1 END'), ('SELECT CASE z WHEN 1 THEN 2 WHEN 3 THEN 4 WHEN ', ' THEN 5 END'), ('SELECT z IN ( 1 , ', ' )'), ('SELECT z NOT IN ( 1 , 2 , ', ' )'), ('SELECT x FROM t JOIN u ON y LEFT JOIN v ON ', ' WHERE z'),
          ('SELECT x FROM t JOIN u ON y JOIN v ON w INNER JOIN p ON ', ''), ('SELECT x , y , ', ' FROM t'), ('SELECT DISTINCT ', ' AS x FROM t'), ('SELECT RANK ( ) OVER ( ORDER BY ', ' DESC )'), ('SELECT RANK ( ) OVER ( ORDER BY x , ', ' )'), ('SELECT TIMESTAMPADD( DAY , ', ' , x )'), ('SELECT TIMESTAMPDIFF( DAY , x , ', ' )'),
          ('SELECT EXTRACT( DAY FROM ', ' )'), ('SELECT COUNT ( DISTINCT ', ' )'), ('SELECT GROUP_CONCAT ( ', ' )'), ('SELECT GROUP_CONCAT ( DISTINCT ', ' )'), ('IF x THEN SET q = 1 ; ELSEIF ', ' THEN SET q = 2 ; END IF'), ('IF x THEN SET q = 1 ; ELSEIF y THEN SET q = 2 ; ELSEIF ', ' THEN SET q = 3 ; END IF'),
          ('CASE x WHEN ', ' THEN SET q = 1 ; END CASE'), ('CASE x WHEN 1 THEN SET q = 1 ; WHEN ', ' THEN SET q = 2 ; END CASE'), ('SET q = 1 , r = ', ''), ('( SELECT x ) UNION ( SELECT y ) ORDER BY ', ' DESC'), ('( SELECT x ) UNION ( SELECT y ) ORDER BY z , ', ''), ('SELECT x UNION SELECT y UNION SELECT ', ''), ('SELECT x FROM t WHERE y AND ( ', ' )'),
          ('DELETE FROM t USING u JOIN v ON ', ' WHERE z'), ('UPDATE t JOIN u ON ', ' SET q = 1'), ('CREATE TABLE t ( q INT DEFAULT ( ', ' ) )'), ('CREATE TABLE t ( q INT AS ( ', ' ) )'), ('CREATE TABLE t ( q INT CHECK ( ', ' ) )'), ('CREATE TABLE t ( q INT GENERATED ALWAYS AS ( ', ' ) STORED )'), ('CREATE VIEW v AS SELECT x FROM t WHERE ', ''),
          ('CREATE TRIGGER tr BEFORE INSERT ON t FOR EACH ROW SET q = ', ''), ('CREATE FUNCTION f ( p INT ) RETURNS INT RETURN ', ''), ('SELECT x FROM ( SELECT y FROM t WHERE ', ' ) AS z'), ('SELECT EXISTS ( SELECT x FROM t WHERE ', ' )'), ('SELECT ( SELECT ', ' )'), ("SELECT - ( ", ' )'), ('REPLACE INTO t ( q ) VALUES ( ', ' )'), ('INSERT INTO t SELECT x FROM u WHERE ', ''), ('SELECT IF ( x , y , ', ' )'),
          ('SELECT CAST( ', ' AS CHAR ) , x'), ('SELECT MAX ( ', ' ) + 1'), ('SELECT x FROM t WHERE y OR NOT ( ', ' )'), ('SELECT LEAD ( x , ', ' ) OVER ( ORDER BY y )')]
OPERANDS = ['abc', 'Tbl_1', '`q1`', '7', '1.5', '.5', "'x'", "''", "'it''s'", 'NULL', 'TRUE', 'FALSE', '18446744073709551615', '?', '"y"', 'CURRENT_DATE', 'CURRENT_TIMESTAMP', 'null', 'current_date', '18446744073709551616']


def places(J, pid, fam='place'):
    ops = J.some(['+', '-', '*', '/', '=', '<', '>', '<=', '>=', '<>', '!=', '<=>', '<<', '>>', '&', '|', '&&', '||', 'AND', 'OR', 'XOR', 'LIKE', '%', '^', 'DIV', 'MOD', '~'])
    opd = J.some(OPERANDS)
    exprs = [('S', [opd], 1), ('OP', [L('a '), ops, L(' '), opd], 3), ('OP2', [L('a '), ops, L(' b '), ops, L(' c')], 5), ('F', [L('f ( '), opd, L(' , b ) '), ops, L(' d')], 0),
             ('CASE', [L('CASE '), opd, L(' WHEN b THEN c '), ops, L(' d END')], 0), ('IN', [L('a IN ( '), opd, L(' , b '), ops, L(' c )')], 0), ('PAREN', [L('( a '), ops, L(' b ) '), ops, L(' c')], 0),
             ('UN', [J.some(['-', '!', 'NOT', '+', '~', 'not']), L(' a '), ops, L(' b')], 0), ('SUB', [L('( SELECT a FROM t WHERE b '), ops, L(' c ) '), ops, L(' d')], 0),
             ('IS', [L('a IS '), C(['NULL', 'TRUE', 'NOT NULL', 'UNKNOWN', 'NOT FALSE']), L(' '), ops, L(' b')], 0), ('DOT', [L('t . '), J.some(['abc', '`q1`', 'COUNT', 'X', '*']), L(' '), ops, L(' b')], 0),
             ('EXISTS', [C(['EXISTS', 'NOT EXISTS']), L(' ( SELECT 1 ) '), ops, L(' a')], 0), ('FN', [C(['COUNT ( a )', 'MAX ( a )', 'IFNULL ( a , 1 )', 'CAST( a AS INT )', 'NOW ( )', 'COUNT ( DISTINCT a )', 'GROUP_CONCAT ( a )']), L(' '), ops, L(' b')], 0)]
    for i, (p, s) in enumerate(PLACES):
        for k, (nm, els, _) in enumerate(exprs):
            base = PLACES[(i * 7 + k * 3) % 12] if J.thorough else PLACES[1 if i != 1 else 0]
            width = 0
            second = []
            v = 0
            for e in els:
                if e[0] == 'L':
                    width += len(bytes.fromhex(e[1:]))
                    second.append(e)
                else:
                    width += 3 if e[0] == 'S' else len(e[1:].split(',')[0]) // 2
                    second.append('R%d' % v)
                    v += 1
            J.add(fam, 'main_place', [pid, 0, 0, 2, 0, len(base[0]), len(p), width], [L(base[0])] + els + [L(base[1]), 'L02', L(p)] + second + [L(s)])


IDPLACES = [('m', 'SELECT a FROM @'), ('m', 'SELECT a FROM @ WHERE b = 1'), ('m', 'SELECT a FROM t , @'), ('m', 'SELECT a AS @ FROM t'), ('m', 'SELECT a FROM t AS @'), ('m', 'CREATE TABLE @ ( a INT )'),
            ('m', 'CREATE TABLE t ( a INT , @ INT )'), ('m', 'DROP TABLE @'), ('m', 'DROP TABLE a , @'), ('m', 'DROP VIEW @'), ('m', 'DROP DATABASE @'), ('m', 'DROP INDEX @ ON t'), ('m', 'DROP INDEX i ON @'),
            ('m', 'INSERT INTO @ VALUES ( 1 )'), ('m', 'INSERT INTO t ( @ ) VALUES ( 1 )'), ('m', 'INSERT INTO t ( a , @ ) VALUES ( 1 , 2 )'), ('m', 'INSERT INTO t SET @ = 1'), ('m', 'UPDATE @ SET a = 1'), ('m', 'UPDATE t SET @ = 1'),
            ('m', 'UPDATE t SET a = 1 , @ = 2'), ('m', 'DELETE FROM @ WHERE a = 1'), ('m', 'ALTER TABLE @ ADD COLUMN a INT'), ('m', 'ALTER TABLE t ADD COLUMN @ INT'), ('m', 'ALTER TABLE t DROP COLUMN @'), ('m', 'ALTER TABLE t OWNER TO @'),
            ('m', 'CREATE VIEW @ AS SELECT 1'), ('m', 'CREATE INDEX @ ON t ( a )'), ('m', 'CREATE INDEX i ON @ ( a )'), ('m', 'CREATE INDEX i ON t ( @ )'), ('m', 'TRUNCATE TABLE @'), ('m', 'RENAME TABLE @ TO b'), ('m', 'RENAME TABLE a TO @'),
            ('m', 'CREATE TRIGGER @ BEFORE INSERT ON t FOR EACH ROW SET a = 1'), ('m', 'CREATE TRIGGER tr BEFORE INSERT ON @ FOR EACH ROW SET a = 1'), ('m', 'CREATE FUNCTION @ ( a INT ) RETURNS INT RETURN 1'), ('m', 'DROP TRIGGER @'), ('m', 'DROP FUNCTION @'),
            ('m', 'DROP PROCEDURE @'), ('m', 'DROP EVENT @'), ('m', 'DROP SERVER @'), ('p', 'WITH @ AS ( SELECT 1 ) SELECT a FROM b'), ('p', 'CREATE TYPE @ AS ENUM ( \'a\' )'), ('m', 'ALTER TABLE t ADD INDEX i ( @ )'), ('m', 'SELECT a FROM t JOIN @ ON b'),
            ('m', 'ALTER TABLE t ADD FOREIGN KEY ( @ ) REFERENCES u ( b )'), ('m', 'ALTER TABLE t ADD FOREIGN KEY ( a ) REFERENCES @ ( b )'), ('m', 'ALTER TABLE t ADD FOREIGN KEY ( a ) REFERENCES u ( @ )'), ('m', 'SELECT a FROM ( SELECT 1 ) AS @'),
            ('m', 'ALTER TABLE t MODIFY @ INT'), ('m', 'REPLACE INTO @ VALUES ( 1 )'), ('s', 'SELECT a FROM @'), ('p', 'SELECT a FROM @'), ('p', 'INSERT INTO t ( a ) VALUES ( 1 ) ON CONFLICT ( @ ) DO NOTHING'), ('m', 'CREATE TABLE t ( @ INT )'), ('m', 'SELECT a AS b , c AS @ FROM t'),
            ('m', 'DELETE FROM t USING @ WHERE a'), ('m', 'DELETE @ FROM t WHERE a'), ('m', 'DROP TABLE s . @'), ('m', 'SELECT a FROM s . @ WHERE b')]
EXPRID = ['SELECT @ FROM t', 'SELECT a + @ FROM t', 'SELECT a FROM t WHERE @ = 1', 'SELECT t . @ FROM t', 'SELECT f ( @ )', 'UPDATE t SET a = @', 'SELECT a FROM t ORDER BY @', 'SELECT a FROM t GROUP BY @ , b', 'SELECT a FROM t @']


BLOCKS = ['SET a = 1 ;', 'IF b THEN SET a = 1 ; END IF ;', 'BEGIN SET a = 1 ; SELECT 2 ; END ;', 'IF b THEN SET a = 1 ; ELSEIF c THEN SET a = 2 ; SET d = 4 ; ELSE SELECT 3 ; END IF ;',
          'CASE b WHEN 1 THEN SET a = 1 ; ELSE SET a = 2 ; SET c = 3 ; END CASE ;', 'BEGIN IF b THEN BEGIN SET a = 1 ; END ; END IF ; END ;', 'BEGIN END ;', 'SELECT CASE a WHEN 1 THEN 2 END ;', 'SELECT IF ( a , 1 , 2 ) ;',
          'UPDATE u SET b = 2 WHERE c = 3 ;', 'INSERT INTO u VALUES ( 1 ) ;', 'DELETE FROM t WHERE a = 1 ;', 'CASE WHEN b THEN BEGIN SET a = 1 ; END ; END CASE ;', '']



FUNCTIONS = """ABS ACOS ADDDATE ADDTIME ADD_MONTHS ASIN ATAN ATAN2 CEIL CEILING CONV CONVERT_TZ COS COT CRC32 CRC32C CURDATE CURRENT_DATE CURRENT_TIME CURRENT_TIMESTAMP CURTIME DATE DATEDIFF DATETIME DATE_ADD
DATE_FORMAT DATE_SUB DAY DAYNAME DAYOFMONTH DAYOFWEEK DAYOFYEAR DEGREES EXP EXTRACTVALUE FIELD FIND_IN_SET FLOOR FORMAT FROM_BASE64 FROM_DAYS FROM_UNIXTIME GREATEST HEX HOUR IF IFNULL INSERT INSTR
JSON_ARRAY JSON_ARRAYAGG JSON_ARRAY_APPEND JSON_ARRAY_INSERT JSON_ARRAY_INTERSECT JSON_COMPACT JSON_CONTAINS JSON_CONTAINS_PATH JSON_DEPTH JSON_DETAILED JSON_EQUALS JSON_EXISTS JSON_EXTRACT JSON_INSERT
JSON_KEYS JSON_LENGTH JSON_LOOSE JSON_MERGE JSON_MERGE_PATCH JSON_MERGE_PRESERVE JSON_NORMALIZE JSON_OBJECT JSON_OBJECTAGG JSON_OBJECT_FILTER_KEYS JSON_OBJECT_TO_ARRAY JSON_OVERLAPS JSON_PRETTY JSON_QUERY
JSON_QUOTE JSON_REMOVE JSON_REPLACE JSON_SCHEMA_VALID JSON_SEARCH JSON_SET JSON_TABLE JSON_TYPE JSON_UNQUOTE JSON_VALID JSON_VALUE LAG LAST_DAY LCASE LEAD LEAST LEFT LENGTH LENGTHB LN LOAD_FILE LOCALTIME
LOCALTIMESTAMP LOCATE LOG LOG10 LOG2 LOWER LPAD LTRIM MAKEDATE MAKETIME MAKE_SET MAX MICROSECOND MID MIN MINUTE MONTH MONTHNAME NATURAL_SORT_KEY NOW NULLIF NVL NVL2 OCT OCTET_LENGTH ORD PERIOD_ADD
PERIOD_DIFF PI POW POWER QUARTER QUOTE RADIANS RAND REPEAT REPLACE REVERSE RIGHT ROUND RPAD RTRIM SECOND SEC_TO_TIME SFORMAT SIGN SIN SOUNDEX SPACE SQRT STARTS_WITH STRCMP STRFTIME STR_TO_DATE SUBDATE
SUBSTR SUBSTRING SUBSTRING_INDEX SUBTIME SUM SYSDATE TAN TIME TIMEDIFF TIMESTAMP TIME_FORMAT TIME_TO_SEC TO_BASE64 TO_CHAR TO_DAYS TO_SECONDS TRUNCATE UCASE UNCOMPRESSED_LENGTH UNHEX UNIX_TIMESTAMP
UPDATEXML UPPER UTC_DATE UTC_TIME UTC_TIMESTAMP VALUE VALUES WEEK WEEKDAY WEEKOFYEAR YEAR YEARWEEK""".split()
BARE = 'CURRENT_DATE CURRENT_TIME CURRENT_TIMESTAMP LOCALTIME LOCALTIMESTAMP UTC_DATE UTC_TIME UTC_TIMESTAMP'.split()
UNITS = 'MICROSECOND SECOND MINUTE HOUR DAY WEEK MONTH QUARTER YEAR SECOND_MICROSECOND MINUTE_MICROSECOND MINUTE_SECOND HOUR_MICROSECOND HOUR_SECOND HOUR_MINUTE DAY_MICROSECOND DAY_SECOND DAY_MINUTE DAY_HOUR YEAR_MONTH'.split()
TYPES = 'BIGINT BINARY BLOB BOOLEAN BYTEA CHAR DATE DATETIME FLOAT FLOAT8 INET4 INET6 INT INTEGER JSON LONGBLOB LONGTEXT MEDIUMBLOB MEDIUMTEXT REAL SMALLINT TEXT TIME TIMESTAMP TIMESTAMPTZ TINYBLOB TINYINT TINYTEXT'.split()
WIDTHS = 'BIGINT BINARY BIT BLOB CHAR DATETIME INT LONGBLOB LONGTEXT SMALLINT TEXT TIME TIMESTAMP TINYBLOB TINYINT TINYTEXT VARBINARY VARCHAR'.split()
SIGNALS = 'CLASS_ORIGIN SUBCLASS_ORIGIN MESSAGE_TEXT MYSQL_ERRNO CONSTRAINT_CATALOG CONSTRAINT_SCHEMA CONSTRAINT_NAME CATALOG_NAME SCHEMA_NAME TABLE_NAME COLUMN_NAME CURSOR_NAME'.split()

# a place, the words that belong there (None: no particular ones), the dialects that take it
WORDS = [('SELECT @ ( a , b ) FROM t', FUNCTIONS, 'mps'), ('SELECT a + @ ( ) , b', FUNCTIONS, 'mps'), ('SELECT @ ( a ) OVER ( ORDER BY b )', FUNCTIONS, 'mps'), ('SELECT @ FROM t', BARE, 'mps'), ('SELECT a + @ , b FROM t', BARE, 'mps'),
         ('SELECT a + INTERVAL 1 @ FROM t', UNITS, 'mps'), ("SELECT a - INTERVAL '1' @", UNITS, 'mps'), ('SELECT EXTRACT( @ FROM a )', UNITS, 'mps'), ('SELECT TIMESTAMPADD( @ , 1 , a )', UNITS, 'mps'), ('SELECT TIMESTAMPDIFF( @ , a , b )', UNITS, 'mps'),
         ('CREATE TABLE t ( a @ , b @ NOT NULL )', TYPES, 'mps'), ('CREATE TABLE t ( a @ ( 3 ) )', WIDTHS, 'mps'), ('ALTER TABLE t ADD COLUMN a @ NULL , DROP COLUMN b', TYPES, 'mps'), ('CREATE FUNCTION f ( a @ ) RETURNS @ RETURN a', TYPES, 'm'),
         ('SELECT CAST( a AS @ ) , b', None, 'mps'), ('SELECT CAST( a AS @ ( 3 ) )', None, 'mps'), ("SIGNAL SQLSTATE '45000' SET @ = a , @ = b", SIGNALS, 'm'), ('CREATE TABLE t ( a INT ) @ = 5', None, 'mps'), ("CREATE TABLE t ( a INT ) @ 'x' , @ = 'y'", None, 'mps'),
         ('CREATE TABLE t ( a INT ) @ = b @ c', None, 'mps'), ('CREATE TABLE t ( a INT ) DEFAULT @ = b', None, 'mps'), ('SELECT @@GLOBAL . @ , @@SESSION . @', None, 'm'), ('SELECT a IS @ , b', None, 'mps'), ('SELECT a IS NOT @', None, 'mps'), ('SELECT a NOT @ b', None, 'mps'),
         ('SELECT a @ b', None, 'mps'), ('SELECT a @ b @ c', None, 'mps'), ('SELECT @ a', None, 'mps'), ('SELECT a @ ( b )', None, 'mps'), ('SELECT a FROM t @ u', None, 'mps'), ('SELECT a FROM t @ JOIN u ON b', None, 'mps'), ('SELECT a FROM t NATURAL @ JOIN u', None, 'mps'),
         ('SELECT a FROM t @ OUTER JOIN u ON b', None, 'mps'), ('SELECT a FROM t FOR @', None, 'mps'), ('SELECT a FROM t FOR UPDATE @', None, 'mps'), ('SELECT a FROM t ORDER BY b @ , c @', None, 'mps'), ('SELECT a UNION @ SELECT b', None, 'mps'),
         ('CREATE TABLE t ( a INT @ , b TEXT @ )', None, 'mps'), ('CREATE TABLE t ( a INT @ NULL )', None, 'mps'), ('CREATE TABLE t ( a INT NOT @ )', None, 'mps'), ('CREATE @ t ( a INT )', None, 'mps'), ('CREATE @ VIEW v AS SELECT 1', None, 'mps'), ('CREATE ALGORITHM = @ VIEW v AS SELECT 1', None, 'mps'),
         ('CREATE SQL SECURITY @ VIEW v AS SELECT 1', None, 'mps'), ('CREATE TRIGGER tr @ INSERT ON t FOR EACH ROW SET a = 1', None, 'mps'), ('CREATE TRIGGER tr BEFORE @ ON t FOR EACH ROW SET a = 1', None, 'mps'), ('DROP @ a', None, 'mps'), ('DROP @ IF EXISTS a', None, 'mps'),
         ('ALTER TABLE t @ COLUMN a', None, 'mps'), ('ALTER TABLE t ADD @ i ( a )', None, 'mps'), ('ALTER TABLE t ADD INDEX i USING @ ( a )', None, 'mps'), ('ALTER TABLE t ADD FOREIGN KEY ( a ) REFERENCES u ( b ) ON @ CASCADE', None, 'mps'),
         ('ALTER TABLE t ADD FOREIGN KEY ( a ) REFERENCES u ( b ) ON DELETE @', None, 'mps'), ('ALTER TABLE t ADD FOREIGN KEY ( a ) REFERENCES u ( b ) ON UPDATE SET @', None, 'mps'), ('ALTER TABLE t ALTER COLUMN a @ NOT NULL', None, 'mps'), ('ALTER TABLE t ALTER COLUMN a SET @ 5', None, 'mps'), ('ALTER TABLE t ALTER COLUMN a DROP @', None, 'mps'),
         ('INSERT @ INTO t VALUES ( 1 )', None, 'mps'), ('REPLACE @ INTO t VALUES ( 1 )', None, 'mps'), ('INSERT INTO t @ ( 1 )', None, 'mps'), ('UPDATE @ t SET a = 1', None, 'mps'), ('DELETE @ FROM t', None, 'mps'), ('SELECT @ a FROM t', None, 'mps'), ('SELECT a FROM t @ INDEX ( i )', None, 'm'),
         ('SELECT a FROM t USE @ ( i )', None, 'm'), ('CREATE FUNCTION f ( @ a INT ) RETURNS INT RETURN 1', None, 'm'), ('CREATE FUNCTION f ( a INT ) RETURNS INT @ SQL RETURN 1', None, 'm'), ('CREATE FUNCTION f ( a INT ) RETURNS INT @ DETERMINISTIC RETURN 1', None, 'm'), ('CREATE FUNCTION f ( a INT ) RETURNS INT @ SQL DATA RETURN 1', None, 'm'),
         ('CREATE INDEX i ON t USING @ ( a )', None, 'p'), ('CREATE INDEX i ON t ( a @ )', None, 'p'), ('INSERT INTO t ( a ) VALUES ( 1 ) ON CONFLICT DO @', None, 'p'), ('INSERT INTO t ( a ) VALUES ( 1 ) ON @ KEY UPDATE b = 1', None, 'm')]


def word_jobs(J, pid, acc, fam='fn', expect=False):
    """Each place where a word says what a construct is, with any word; with expect, the words that
    belong there, which must be accepted."""
    for x, ws, ds in WORDS:
        # @@ is no place
        parts = re.split(r'(?<!@)@(?!@)', x)
        if expect:
            if ws:
                for d in ds:
                    J.add(fam, 'main_stmt', [pid, acc, D[d], 0, 0, 1], [L(parts[0]), J.some(ws)] + sum([['R0', L(y)] for y in parts[2:]], [L(parts[1])]))
            continue
        for d in ds if J.thorough else ds[0]:
            els = [L(parts[0]), J.all(), L(parts[1])]
            for y in parts[2:]:
                # a second place: any word that is not the same
                els += [J.all() if J.thorough else 'R0', L(y)]
            J.add(fam, 'main_stmt', [pid, acc, D[d], 0, 0, 0], els)


def word_case(J, pid, fam='fn'):
    for x, ws, ds in WORDS:
        parts = re.split(r'(?<!@)@(?!@)', x)
        for o in (SMALL, MIXED) if J.thorough else (SMALL,):
            one_, two = [L(parts[0]), J.keywords(), L(parts[1])], [L(parts[0]), 'T0:%d' % o, L(parts[1])]
            for y in parts[2:]:
                one_ += ['R0', L(y)]
                two += ['T0:%d' % o, L(y)]
            J.add(fam, 'main_two', [pid, 0, D[ds[0]], 0, 0, 1], one_ + ['L02'] + two)


def edits(J, pid, acc, fam='edit'):
    """Each sentence with any one of its tokens left out, put in twice, or changed with the next."""
    for l in LINES:
        for v in (l.variants() if J.thorough else [l.longest()]):
            t = words(v)
            P = stmt(pid, acc, D[l.own[0]], l)
            n = len(t)
            alts = [' '.join(t[:i] + t[i + 1:]) for i in range(n)]
            alts += [' '.join(t[:i] + [t[i]] + t[i:]) for i in range(n)]
            alts += [' '.join(t[:i] + [t[i + 1], t[i]] + t[i + 2:]) for i in range(n - 1)]
            for k in range(0, len(alts), 24):
                J.add(fam, 'main_stmt', P, [C([a + ' ' for a in alts[k:k + 24]])])


def names(J, pid, acc, fam='names'):
    """Every name of a sentence one of two, all at once: what is written twice is in the tree twice."""
    nm = J.some(['abc', 'xy'])
    for l in LINES:
        if 'DELIMITER' in l.text:
            continue
        for v in l.variants():
            els, n = [], 0
            for w in words(v):
                if re.match(r'^[a-z][0-9]?$', w) and n < 60:
                    els += [nm, L(' ')]
                    n += 1
                elif els and els[-1][0] == 'L':
                    els[-1] += (w + ' ').encode().hex()
                else:
                    els.append(L(w + ' '))
            if n > 1:
                for d in l.own if J.thorough else l.own[0]:
                    J.add(fam, 'main_stmt', [pid, acc, D[d], l.args, l.flags, 1, 0], els)


def _edit(t, op):
    k = op[0]
    i, n, m = ([int(x) for x in op[1:].split('.')] + [0])[:3]
    if k == 'x':
        return t[:i] + t[i + n:]
    if k == 'd':
        return t[:i + n] + t[i:i + n] + t[i + n:]
    return t[:i] + t[i + n:i + n + m] + t[i:i + n] + t[i + n + m:]


EDITS = []


def edited(J, pid, acc, kind, expect=0, fam='edited', share=1):
    """Sentences with a run of tokens left out, put in twice or exchanged with the next run: those that are none any more ('bad'), or still are ('good')."""
    if not EDITS:
        EDITS.append(json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'edits.json'))))
    k = 0
    for ds, a, f, text, ops in EDITS[0][kind]:
        t = words(text)
        alts = [' '.join(_edit(t, op)) + ' ' for op in ops.split(' ')]
        for i in range(0, len(alts), 24):
            k += 1
            if J.thorough:
                for d in ds:
                    J.add(fam, 'main_stmt', [pid, acc, D[d], A[{'-': '-', 'f': 'f', 'q': 'q', '$': 'n'}[a]], flagbits(f), expect, 0], [C(alts[i:i + 24])])
            elif k % share == 0:
                J.add(fam, 'main_stmt', [pid, acc, D[ds[k // share % len(ds)]], A[{'-': '-', 'f': 'f', 'q': 'q', '$': 'n'}[a]], flagbits(f), expect, 0], [C(alts[i:i + 24])])


def bad(J, pid, acc, expect=2, fam='lack'):
    """Sentences that are none, whatever names and literals they hold."""
    B_ = corpus.BAD
    for k in range(0, len(B_), 12):
        one(J, fam, pid, acc, [C([x + ' ' for x in B_[k:k + 12]])], '?0-2', 0, 0, expect)
    nm = ['abc', 'Tbl_1', 'xy', '`q1`']
    for n, x in enumerate(B_):
        t = words(x)
        at = [i for i, w in enumerate(t) if re.match(r'^[a-z]$', w)]
        if at:
            i = at[n % len(at)]
            one(J, fam + '1', pid, acc, [L(' '.join(t[:i]) + ' '), J.some(nm), L(' ' + ' '.join(t[i + 1:]))], '0', 0, 0, expect)


def many(J, pid, acc, fam='many'):
    """Lists of more items than the sentences have, and sequences of options and attributes in any order."""
    def add(d, els, e=1, args=0, flags=0):
        J.add(fam, 'main_stmt', [pid, acc, D[d], args, flags, e, 0], els, 60)
    n5 = 'a , b , c , d , e'
    for d, x in [('m', 'DELETE @ FROM t'), ('m', 'DELETE a FROM @'), ('m', 'DELETE FROM @ USING x , y , z'), ('m', 'DELETE FROM x , y , z USING @'), ('m', 'DELETE FROM t WHERE q RETURNING @'),
                 ('p', 'DELETE FROM t WHERE q RETURNING @'), ('p', 'INSERT INTO t ( a ) VALUES ( 1 ) ON CONFLICT ( @ ) DO NOTHING'), ('m', 'SELECT q FROM t FORCE INDEX ( @ )'), ('m', 'SELECT q FROM t JOIN u USING @'),
                 ('p', 'INSERT INTO t ( @ ) VALUES ( @ ) RETURNING @'), ('m', 'REPLACE INTO t ( @ ) VALUES ( @ ) , ( @ ) , ( @ )'), ('m', 'SELECT @ FROM @ WHERE q GROUP BY @ HAVING r ORDER BY @'), ('m', 'SELECT q IN ( @ )'),
                 ('m', 'SELECT f ( @ )'), ('m', 'DROP TABLE @'), ('m', 'DROP VIEW @'), ('p', 'CREATE INDEX i ON t ( @ )'), ('m', 'ALTER TABLE t ADD INDEX i ( @ )'), ('m', 'ALTER TABLE t ADD UNIQUE i ( @ )'),
                 ('m', 'ALTER TABLE t ADD CONSTRAINT k FOREIGN KEY i ( @ ) REFERENCES u ( @ )'), ('m', 'SELECT RANK ( ) OVER ( ORDER BY @ )'),
                 ('p', 'SELECT q FROM t FOR UPDATE OF @'), ('m', 'SELECT COALESCE ( @ ) , CONCAT ( @ ) , LEAST ( @ )'), ('m', 'UPDATE @ SET q = 1')]:
        add(d, [L(x.replace('@', n5))], 0)
    add('p', [L('COPY t ( %s ) FROM STDIN ;\n\\.\n' % n5)], 0, 0, MULTI)
    for d, x in [('m', 'SELECT a . b . c . d FROM t'), ('m', 'SELECT a FROM b . c . d . e'), ('m', 'DROP TABLE a . b . c . d'), ('m', 'UPDATE t SET a = 1 , b = 2 , c = 3 , d = 4 , e = 5'), ('m', "CREATE TABLE t ( a ENUM ( 'a' , 'b' , 'c' , 'd' , 'a' ) )"),
                 ('m', "CREATE TABLE t ( a SET ( 'a' , 'b' , 'c' , 'd' , 'a' ) )"), ('p', "CREATE TYPE t AS ENUM ( 'a' , 'b' , 'c' , 'd' , 'a' )"), ('m', 'RENAME TABLE a TO b , c TO d , e TO f , g TO h'), ('m', 'CREATE TABLE t ( a INT , b INT , c INT , d INT , e INT )'),
                 ('m', 'INSERT INTO t SET a = 1 , b = 2 , c = 3 , d = 4'), ('m', 'INSERT INTO t ( a ) VALUES ( 1 ) ON DUPLICATE KEY UPDATE a = 1 , b = 2 , c = 3 , d = 4'), ('p', 'INSERT INTO t ( a ) VALUES ( 1 ) ON CONFLICT ( a ) DO UPDATE SET a = 1 , b = 2 , c = 3 , d = 4'),
                 ('p', 'WITH a AS ( SELECT 1 ) , b AS ( SELECT 2 ) , c AS ( SELECT 3 ) , d AS ( SELECT 4 ) SELECT e'), ('m', 'SET a = 1 , b = 2 , c = 3 , d = 4'), ('m', "SIGNAL SQLSTATE '1' SET CLASS_ORIGIN = 1 , MESSAGE_TEXT = 2 , MYSQL_ERRNO = 3 , TABLE_NAME = 4"),
                 ('m', 'CREATE FUNCTION f ( IN a INT , OUT b TEXT , INOUT c INT , d TEXT ) RETURNS INT RETURN 1'), ('m', 'ALTER TABLE t DROP COLUMN a , ADD COLUMN b INT , DROP COLUMN c , ADD COLUMN d TEXT , DROP COLUMN e'),
                 ('m', 'SELECT CASE a WHEN b THEN c WHEN d THEN e WHEN f THEN g WHEN h THEN i ELSE j END'), ('m', 'IF a THEN SET b = 1 ; ELSEIF c THEN SET d = 2 ; ELSEIF e THEN SET f = 3 ; ELSEIF g THEN SET h = 4 ; ELSE SET i = 5 ; END IF ;'),
                 ('m', 'SELECT a FROM b JOIN c ON d JOIN e ON f JOIN g ON h JOIN i ON j'), ('m', 'SELECT a FROM b FORCE INDEX ( c ) USE INDEX ( d ) IGNORE INDEX ( e ) FORCE INDEX ( f )'), ('m', 'SELECT a UNION SELECT b UNION ALL SELECT c UNION DISTINCT SELECT d UNION SELECT e')]:
        add(d, [L(x)], 0, 0, MULTI if 'IF a' in x else 0)
    opt = [' ENGINE = e1', ' ENGINE e2', ' DEFAULT CHARSET = c1', ' CHARSET c2', ' DEFAULT COLLATE = d1', ' COLLATE d2', ' ROW_FORMAT = DYNAMIC', " COMMENT = 'c'", ' STRICT', '']
    add('m', [L('CREATE TABLE t ( a INT )'), C(opt), C(opt), C(opt)], 0)
    att = [' NULL', ' NOT NULL', ' DEFAULT 1', ' DEFAULT b', " COMMENT 'c'", ' CHARACTER SET c', ' COLLATE d', ' VIRTUAL', ' PERSISTENT', ' STORED', ' UNIQUE', ' UNIQUE KEY', ' GENERATED ALWAYS', ' AUTO_INCREMENT', ' PRIMARY KEY', ' AS ( e )', ' CHECK ( f )', ' UNSIGNED', ' SIGNED', ' ZEROFILL', '']
    add('m', [L('CREATE TABLE t ( a INT'), C(att), C(att), C(att), L(' )')], 0)
    add('m', [L('ALTER TABLE t ADD COLUMN a TEXT'), C(att), C(att), L(' , MODIFY b INT'), C(att)], 0)
    for d, h, o, t in [('m', 'INSERT', [' LOW_PRIORITY', ' HIGH_PRIORITY', ' DELAYED', ' IGNORE', ''], ' INTO t ( a ) VALUES ( 1 )'), ('m', 'SELECT', [' DISTINCT', ' DISTINCTROW', ' ALL', ' HIGH_PRIORITY', ' STRAIGHT_JOIN', ' SQL_SMALL_RESULT', ' SQL_BIG_RESULT', ' SQL_BUFFER_RESULT', ' SQL_NO_CACHE', ' SQL_CALC_FOUND_ROWS', ''], ' a FROM t'),
                       ('m', 'UPDATE', [' LOW_PRIORITY', ' IGNORE', ''], ' t SET a = 1'), ('m', 'DELETE', [' LOW_PRIORITY', ' QUICK', ' IGNORE', ''], ' FROM t'), ('m', 'CREATE', [' OR REPLACE', ' TEMPORARY', ' DEFINER = b', ' SQL SECURITY DEFINER', ' ALGORITHM = MERGE', ''], ' VIEW v AS SELECT 1'),
                       ('m', 'CREATE FUNCTION f ( ) RETURNS INT', [' DETERMINISTIC', ' NOT DETERMINISTIC', ' LANGUAGE SQL', ' NO SQL', ' CONTAINS SQL', ' READS SQL DATA', ' MODIFIES SQL DATA', ' SQL SECURITY DEFINER', " COMMENT 'c'", ''], ' RETURN 1'),
                       ('m', 'ALTER TABLE t ADD CONSTRAINT k FOREIGN KEY ( a ) REFERENCES u ( b )', [' ON DELETE CASCADE', ' ON UPDATE RESTRICT', ' ON DELETE SET NULL', ' ON UPDATE NO ACTION', ' ON DELETE SET DEFAULT', ''], ''),
                       ('m', 'ALTER TABLE t ADD INDEX i ( a )', [' USING BTREE', ' USING HASH', " COMMENT 'c'", " COMMENT 'd'", ''], '')]:
        add(d, [L(h), C(o), C(o), C(o), L(t)], 0)
