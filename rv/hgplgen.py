"""Generators for policies (as reference trees plus a rendering), attribute tables and hostile text."""
import math

from rv import dictionary
from rv import hgplref as ref

STR_CHARS = [chr(c) for c in range(32, 127) if c != 34]
ODD = [0, 0x7f, 0x80, 0x85, 0xa0, 0xad, 0xb2, 0xbd, 0x301, 0x640, 0x663, 0x180e, 0x1680, 0x2003, 0x2009, 0x200b, 0x200c,
       0x200d, 0x200e, 0x2028, 0x2029, 0x202e, 0x202f, 0x205f, 0x2060, 0x2212, 0x2264, 0x2260, 0x3000, 0xfeff, 0xff11, 0xff1d,
       0xfffd, 0x1d7d9, 0x1f600, 0xe0020, 0x10ffff] + list(range(0x1c, 0x20))


def odd_char(rng):
    """A character outside the language or at its edge: invisible ones, spaces, digits and signs of other scripts."""
    r = rng.random()
    if r < 0.6:
        return chr(rng.choice(ODD))
    c = rng.randint(0x80, 0x2fff) if r < 0.85 else rng.randint(0x80, 0x10ffff)
    return chr(c) if not 0xd800 <= c < 0xe000 else '\u00e9'


def near_strings(rng, n):
    """Strings that are alike: same but for case, outer or inner space, an end, a sign or a notation of a number."""
    base = rng.choice((string(rng, 40), '%d' % rng.randint(-99, 99), '', ' ', 'Toronto General', 'a' * rng.randint(1, 300),
                       'TRUE', 'NULL', 'r\xf4le', 'Stra\xdfe'))
    out = [base]
    while len(out) < n:
        b = rng.choice(out)
        p = rng.randint(0, len(b))
        out.append(rng.choice((b, b, b + ' ', ' ' + b, b.strip(), b.upper(), b.lower(), b.swapcase(), b[:-1], b[1:], b + b[-1:],
                               b[:p] + ' ' + b[p:], b[:p] + b[p + 1:], b.replace(' ', ''), b + '.0', '0' + b, '+' + b, b[::-1],
                               b + '_', b + '\t', b + '\n', b.casefold())))
    return out
IDENT = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_'
WORDS = ('id', 'role', 'age', 'a', 'b', 'x1', 'dept_no', 'in', 'and', 'or', 'not', 'true', 'null', 'user', 'object',
         'subset', 'perms', '_', '0', '9a', 'undef')
TYPES = ('INT', 'FLOAT', 'STRING', 'BOOL', 'SET')


def ident(rng, pool=None):
    if pool and rng.random() < 0.9:
        return rng.choice(pool)
    r = rng.random()
    if r < 0.5:
        return rng.choice(WORDS)
    if r < 0.6:
        ss = [s for s in dictionary.constants('hgpl')[1] if s and all(c in IDENT for c in s)]
        if ss:
            return rng.choice(ss)
    return ''.join(rng.choice(IDENT) for _ in range(1 + dictionary.size(rng, 'hgpl', 70, 6)))


def string(rng, limit=300):
    r = rng.random()
    if r < 0.35:
        return rng.choice(('', 'a', 'doctor', 'A', 'cs', 'x y', '5', '5.0', 'TRUE', 'NULL', 'user.a', '{1,2}', ' ', '!',
                           "'", '\\', '%s', '(', ')', 'None', 'UNDEF', '~', '#'))
    if r < 0.45:
        ss = [s for s in dictionary.constants('hgpl')[1] if all(c in STR_CHARS for c in s)]
        if ss:
            return rng.choice(ss)
    return ''.join(rng.choice(STR_CHARS) for _ in range(dictionary.size(rng, 'hgpl', limit, 6)))


def number(rng):
    return dictionary.integer(rng, 'hgpl')


def floating(rng):
    """A float with an exact decimal rendering in the language (no exponents)."""
    r = rng.random()
    if r < 0.6:
        v = rng.randint(-40, 40) / rng.choice((1, 2, 4, 5, 10))
    elif r < 0.8:
        v = number(rng) + rng.choice((0.0, 0.5, 0.25, 0.1))
    else:
        v = rng.uniform(-1, 1) * 10 ** rng.randint(-3, 12)
    return float(v)


EDGES = [s * v for v in (2 ** 24, 2 ** 31, 2 ** 32, 2 ** 52, 2 ** 53, 2 ** 54, 2 ** 62, 2 ** 63, 2 ** 64, 10 ** 6, 10 ** 9,
                          10 ** 15, 10 ** 16, 10 ** 18, 10 ** 22, 1, 0, 3, 100) for s in (1, -1)]


def near_numbers(rng, n):
    """Numbers (int and float) that lie next to each other."""
    base = rng.choice(EDGES) if rng.random() < 0.7 else number(rng)
    if abs(base) > 10 ** 40:
        base = 7
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.4:
            v = base + rng.randint(-2, 2)
        elif r < 0.7:
            v = float(base + rng.choice((0, 0, 1, -1)))
        elif r < 0.85:
            v = math.nextafter(float(base), rng.choice((math.inf, -math.inf)))
        else:
            v = float(base) + rng.choice((0.5, -0.5, 0.25, 1e-3, 1e-6, 1e-9, -1e-9, 1e-12))
        if isinstance(v, float) and float(float_text(v)) != v:
            v = float(base)
        out.append(v)
    return out


def num_const(v):
    return ('float' if isinstance(v, float) else 'int', v, 0)


def float_text(v):
    s = repr(v)
    if 'e' in s or 'E' in s or 'n' in s:
        s = format(v, '.1f') if abs(v) >= 1 else format(v, '.20f')
    return s


class Gen(object):
    big = 0         # how often a set constant has many elements

    def __init__(self, rng, pool_size=None, style='mixed'):
        self.rng = rng
        n = pool_size if pool_size is not None else rng.randint(1, 5)
        self.pool = [ident(rng) for _ in range(n)] or ['a']
        self.atoms = [self.fresh_atom() for _ in range(rng.randint(2, 6))]
        self.namespaces = ref.NAMESPACES if rng.random() < 0.7 else (rng.choice(ref.NAMESPACES),)
        self.boolatts = []

    # constants ------------------------------------------------------------------------------------------------------
    def fresh_atom(self):
        r = self.rng.random()
        if r < 0.45:
            return ('int', number(self.rng), 0)
        if r < 0.6:
            return ('float', floating(self.rng), 0)
        if r < 0.92:
            return ('str', string(self.rng, 40), 0)
        return ('null', None, 0)

    def atom(self):
        return self.rng.choice(self.atoms) if self.rng.random() < 0.6 else self.fresh_atom()

    def setconst(self, limit=12):
        if self.big and limit >= 12 and self.rng.random() < self.big:
            limit = 1500
        n = dictionary.size(self.rng, 'hgpl', limit, 4)
        return ('set', tuple(self.atom() for _ in range(n)), 0)

    def att(self):
        return ('att', self.rng.choice(self.namespaces), ident(self.rng, self.pool), 0)

    def var(self):
        r = self.rng.random()
        if r < 0.5:
            return self.att()
        if r < 0.82:
            return self.atom()
        return self.setconst()

    # trees ----------------------------------------------------------------------------------------------------------
    def comparison(self):
        r = self.rng
        op = r.choice(ref.OPS)
        if r.random() < 0.35:
            # well-typed, so that definite decisions are common
            if op in ('<', '>', '<=', '>='):
                num = lambda: ('int', number(r), 0) if r.random() < 0.6 else ('float', floating(r), 0)
                a, b = num(), (num() if r.random() < 0.7 else None)
                if b is None:
                    b = ('int', int(a[1]) if abs(a[1]) < 1e15 else 0, 0)
                return ('op', op, a, b, 0)
            if op == 'IN':
                return ('op', op, self.atom(), self.setconst(), 0)
            if op == 'SUBSET':
                s = self.setconst()
                t = self.setconst()
                if r.random() < 0.4:
                    t = ('set', t[1] + s[1], 0)
                return ('op', op, s, t, 0)
            a = self.atom()
            return ('op', op, a, a if r.random() < 0.4 else self.atom(), 0)
        return ('op', op, self.var(), self.var(), 0)

    def leaf(self):
        r = self.rng.random()
        if r < 0.62:
            return self.comparison()
        if r < 0.8:
            a = self.att() if not self.boolatts or self.rng.random() < 0.5 else self.rng.choice(self.boolatts)
            if len(self.boolatts) < 6:
                self.boolatts.append(a)
            return a
        return ('bool', self.rng.choice((ref.T, ref.F, ref.U)), 0)

    def tree(self, size):
        if size <= 1:
            return self.leaf()
        r = self.rng.random()
        if r < 0.2:
            return ('not', self.tree(size - 1), 0)
        k = self.rng.randint(1, size - 1)
        return (self.rng.choice(('and', 'or')), self.tree(k), self.tree(size - k), 0)

    def policy(self, limit=40):
        return self.tree(1 + dictionary.size(self.rng, 'hgpl', limit, 8))

    # tables ---------------------------------------------------------------------------------------------------------
    def value(self, stype):
        r = self.rng
        if stype == 'BOOL':
            return r.random() < 0.5
        if stype == 'SET':
            vals = []
            for _ in range(dictionary.size(r, 'hgpl', 10, 3)):
                a = self.atom()
                if a[0] != 'null':
                    vals.append(a[1])
            return set(vals) if r.random() < 0.7 else vals
        want = {'INT': 'int', 'FLOAT': 'float', 'STRING': 'str'}.get(stype)
        for a in r.sample(self.atoms, len(self.atoms)):
            if a[0] == want or (want in ('int', 'float') and a[0] in ('int', 'float')):
                if r.random() < 0.6:
                    return a[1]
        if stype == 'INT':
            return number(r)
        if stype == 'FLOAT':
            return floating(r)
        return string(r, 30)

    def table(self, tree, p_missing=0.1, p_none=0.05, p_wrong=0.08, p_nonbool=0.03):
        """{(ns, lower name): (declared type, value)} for the attributes of the tree, and some others."""
        r = self.rng
        boolpos = {(a[1], a[2].lower()) for a in ref.atoms_in_order(tree) if a[0] == 'att'}
        hints = type_hints(tree)
        keys = sorted({k for k in attributes(tree)})
        for _ in range(r.randint(0, 2)):
            keys.append((r.choice(ref.NAMESPACES), ident(r).lower()))
        t = {}
        for k in keys:
            if r.random() < p_missing:
                continue
            if k in boolpos and r.random() > p_nonbool:
                st = 'BOOL'
            elif k in hints and r.random() < 0.75:
                st = r.choice(hints[k])
            else:
                st = r.choice(TYPES)
            v = self.value(st)
            x = r.random()
            if x < p_none:
                v = None
            elif x < p_none + p_wrong:
                st = r.choice([s for s in TYPES + ('UNKNOWN', 'CUSTOM') if s != st])
            t[k] = (st, v)
        return t


def attributes(tree):
    out = set()
    for n in ref.atoms_in_order(tree):
        if n[0] == 'att':
            out.add((n[1], n[2].lower()))
        else:
            for x in (n[2], n[3]):
                if x[0] == 'att':
                    out.add((x[1], x[2].lower()))
    return out


def type_hints(tree):
    h = {}
    for n in ref.atoms_in_order(tree):
        if n[0] != 'op':
            continue
        op, l, r = n[1:4]
        for a, b, left in ((l, r, True), (r, l, False)):
            if a[0] != 'att':
                continue
            k = (a[1], a[2].lower())
            if op in ('<', '>', '<=', '>='):
                ts = ['INT', 'FLOAT']
            elif op == 'SUBSET':
                ts = ['SET', 'SET', 'SET', 'INT', 'STRING']
            elif op == 'IN':
                ts = ['SET', 'INT', 'STRING'] if left else ['SET', 'SET', 'SET', 'INT']
            elif b[0] in ('int', 'float'):
                ts = ['INT', 'FLOAT']
            elif b[0] == 'str':
                ts = ['STRING']
            elif b[0] == 'set':
                ts = ['SET', 'SET', 'INT', 'STRING']
            else:
                ts = list(TYPES)
            h.setdefault(k, []).extend(ts)
    return h


# --------------------------------------------------------------------------------------------------------------------
# rendering

SPACES = (' ', '  ', '\t', '\n', '\r\n', ' \n ', '\x0b', '\x0c')


class Render(object):
    """Text of a tree, with the tree as the grammar sees it (with positions)."""

    def __init__(self, rng=None, parens=0.15, spaces=True, case=True):
        self.rng = rng
        self.parens, self.spaces, self.case = parens, spaces, case
        self.parts = []
        self.n = 0
        self.toks = [('START', None, 0)]

    def _put(self, s):
        self.parts.append(s)
        self.n += len(s)

    def gap(self, force=False):
        r = self.rng
        if r is None or not self.spaces:
            self._put(' ')
        elif force or r.random() < 0.7:
            self._put(r.choice(SPACES) if r.random() < 0.3 else ' ')

    def word(self, s):
        r = self.rng
        if r is None or not self.case or r.random() < 0.6:
            return s
        return r.choice((s.upper(), s.lower(), s.capitalize(), ''.join(r.choice((c.upper(), c.lower())) for c in s)))

    def emit(self, text, kind, value, wordlike):
        """One token; a separator is only needed between two wordlike tokens."""
        prev = self.last_wordlike
        if self.started:
            self.gap(force=prev and wordlike)
        elif self.rng is not None and self.spaces and self.rng.random() < 0.1:
            self._put(self.rng.choice(SPACES))
        self.started = True
        pos = self.n
        self._put(text)
        self.toks.append((kind, value, pos))
        self.last_wordlike = wordlike
        return pos

    started = False
    last_wordlike = False

    def var(self, n):
        k = n[0]
        if k == 'att':
            pos = self.emit(self.word(n[1]) + '.' + n[2], ref.ATT_TOKEN[n[1]], n[2], True)
            return ('att', n[1], n[2], pos)
        if k == 'set':
            pos = self.emit('{', 'LSET', None, False)
            items = []
            for i, e in enumerate(n[1]):
                if i:
                    self.emit(',', 'COMMA', None, False)
                items.append(self.var(e))
            self.emit('}', 'RSET', None, False)
            return ('set', tuple(items), pos)
        if k == 'int':
            s = str(n[1])
            if self.rng is not None and self.case and self.rng.random() < 0.05:
                s = ('-' if s[0] == '-' else '') + '00' + s.lstrip('-')
            return ('int', n[1], self.emit(s, 'INT', n[1], True))
        if k == 'float':
            s = float_text(n[1])
            v = float(s)
            return ('float', v, self.emit(s, 'FLOAT', v, True))
        if k == 'str':
            return ('str', n[1], self.emit('"' + n[1] + '"', 'STRING', n[1], False))
        return ('null', None, self.emit(self.word('NULL'), 'NULL', 'NULL', True))

    def paren(self, n):
        self.emit('(', 'LPARN', None, False)
        t = self.expr(n, 0)
        self.emit(')', 'RPARN', None, False)
        return t

    def expr(self, n, level):
        """level 0: or allowed, 1: and allowed, 2: only a factor"""
        k = n[0]
        if self.rng is not None and self.parens and self.rng.random() < self.parens:
            return self.paren(n)
        if k == 'or':
            if level > 0:
                return self.paren(n)
            l = self.expr(n[1], 0)
            pos = self.emit(self.word('OR'), 'BOOL_OP', 'OR', True)
            r = self.expr(n[2], 1)
            return ('or', l, r, pos)
        if k == 'and':
            if level > 1:
                return self.paren(n)
            l = self.expr(n[1], 1)
            pos = self.emit(self.word('AND'), 'BOOL_OP', 'AND', True)
            r = self.expr(n[2], 2)
            return ('and', l, r, pos)
        if k == 'not':
            pos = self.emit(self.word('NOT'), 'NOT_OP', 'NOT', True)
            if n[1][0] in ('att', 'bool') and not (self.rng is not None and self.rng.random() < self.parens):
                return ('not', self.expr_plain(n[1]), pos)
            return ('not', self.paren(n[1]), pos)
        return self.expr_plain(n)

    def expr_plain(self, n):
        k = n[0]
        if k == 'bool':
            return ('bool', n[1], self.emit(self.word(n[1]), 'BOOL', n[1], True))
        if k == 'att':
            return self.var(n)
        l = self.var(n[2])
        op = n[1]
        wordy = op in ('IN', 'SUBSET')
        pos = self.emit(self.word(op) if wordy else op, 'OP', op, wordy)
        r = self.var(n[3])
        return ('op', op, l, r, pos)


def render(tree, rng=None, **kw):
    """(text, tree with positions, expected tokens)"""
    rd = Render(rng, **kw)
    t = rd.expr(tree, 0)
    if rng is not None and rd.spaces and rng.random() < 0.1:
        rd._put(rng.choice(SPACES))
    text = ''.join(rd.parts)
    rd.toks.append(('END', None, len(text)))
    return text, t, rd.toks


# --------------------------------------------------------------------------------------------------------------------
# hostile text

FRAGMENTS = ('user.', 'object.', 'env.', 'admin.', 'connect.', 'user', 'AND', 'OR', 'NOT', 'IN', 'SUBSET', 'TRUE',
             'FALSE', 'UNDEF', 'NULL', '"', '"a"', '{', '}', '(', ')', ',', '=', '!', '!=', '<', '>', '<=', '>=', '-',
             '.', '1', '1.5', '-1', '1.', '.5', '1.2.3', '--1', 'a', '_', ' ', '\n', '\x00', '\u00b2', '\u0663',
             '\u00e9', '\U0001f600', '\u2028', '\xa0', 'user.a', 'user.1', 'user._', 'USER.B', 'group.a', 'user.a.b',
             'trueish', 'NOTuser.a', '5user.a', '0', '00', '""', '\\', '/', ';', '==', '=>', '&&', '||', '\x1c',
             '\ud800', '0x10', '1e5', 'user .a', '9' * 30, '{}', '()', 'in', 'nOt')


def hostile(rng, limit=60):
    r = rng.random()
    n = dictionary.size(rng, 'hgpl', limit, 10)
    if r < 0.6:
        return ''.join(rng.choice(FRAGMENTS) + rng.choice(('', '', ' ')) for _ in range(n))
    if r < 0.8:
        return ''.join(chr(rng.choice((rng.randint(0, 127), rng.randint(0, 0x24f), rng.randint(32, 126))))
                       for _ in range(n))
    return ''.join(chr(rng.randint(32, 126)) for _ in range(n))


def mutate(rng, text):
    """A few character or fragment level edits of a valid policy."""
    s = list(text)
    for _ in range(rng.randint(1, 3)):
        k = rng.randint(0, 5)
        p = rng.randint(0, len(s))
        if k == 0 and s:
            del s[min(p, len(s) - 1)]
        elif k == 1:
            s[p:p] = list(rng.choice(FRAGMENTS))
        elif k == 2 and s:
            q = rng.randint(0, len(s))
            del s[min(p, q):max(p, q)]
        elif k == 3 and s:
            q = min(len(s) - 1, p)
            s[q] = chr(rng.randint(32, 126))
        elif k == 4:
            s = s[:p]
        elif s:
            q = min(len(s), p + rng.randint(1, 6))
            s[p:p] = s[p:q]
    return ''.join(s)


def drop_tokens(rng, toks, text):
    """Text of a token sequence after dropping, doubling or swapping tokens."""
    words = []
    for (k, v, p), nxt in zip(toks[1:-1], toks[2:]):
        words.append(text[p:nxt[2]].strip())
    for _ in range(rng.randint(1, 2)):
        if not words:
            break
        p = rng.randrange(len(words))
        k = rng.randint(0, 3)
        if k == 0:
            del words[p]
        elif k == 1:
            words.insert(p, words[rng.randrange(len(words))])
        elif k == 2:
            q = rng.randrange(len(words))
            words[p], words[q] = words[q], words[p]
        else:
            words[p] = rng.choice(('AND', 'OR', 'NOT', '(', ')', '{', '}', ',', '=', 'IN', 'TRUE', 'user.z', '5', 'NULL'))
    return ' '.join(words)
