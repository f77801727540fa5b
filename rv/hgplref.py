"""Independent reference model of the policy language: tokens, grammar, three-valued evaluation and static typing.

Trees are tuples:
  ('or'|'and', left, right, pos)  ('not', sub, pos)  ('op', OP, left, right, pos)  ('bool', 'TRUE'|'FALSE'|'UNDEF', pos)
  ('att', namespace, name, pos)  ('int', v, pos)  ('float', v, pos)  ('str', v, pos)  ('null', None, pos)
  ('set', (elements...), pos)
"""
import re

NAMESPACES = ('user', 'object', 'env', 'admin', 'connect')
ATT_TOKEN = {'user': 'USR_ATT', 'object': 'OBJ_ATT', 'env': 'ENV_ATT', 'admin': 'ADM_ATT', 'connect': 'CON_ATT'}
TOKEN_ATT = {v: k for k, v in ATT_TOKEN.items()}
OPS = ('=', '!=', '<', '>', '<=', '>=', 'IN', 'SUBSET')
T, F, U = 'TRUE', 'FALSE', 'UNDEF'


# --------------------------------------------------------------------------------------------------------------------
# tokens: a regular-expression based lexer (the implementation is a character machine)

class LexFail(Exception):
    def __init__(self, start, end):
        self.start, self.end = start, end      # the error lies within [start, end]


class SynFail(Exception):
    def __init__(self, pos):
        self.pos = pos


_WORD = re.compile(r'[A-Za-z][A-Za-z0-9_]*')
_IDENT = re.compile(r'[A-Za-z0-9_]+')
_NUM = re.compile(r'-?[0-9]+(?:\.[0-9]+)*')
_STR = re.compile(r'"[\x20\x21\x23-\x7e]*"')
_PUNCT = {'{': 'LSET', '}': 'RSET', ',': 'COMMA', '(': 'LPARN', ')': 'RPARN'}
_SPACE = re.compile(r'[ \t\n\r\x0b\x0c]*')


def judgeable(text):
    """The reference lexer covers ASCII outside of strings; anything else only has to end in a tree or an error."""
    return all(ord(c) < 128 for c in text) and not any(ord(c) in (0x1c, 0x1d, 0x1e, 0x1f) for c in text)


def lex(text):
    out = [('START', None, 0)]
    i, n = 0, len(text)
    while True:
        i = _SPACE.match(text, i).end()
        if i >= n:
            out.append(('END', None, n))
            return out
        c = text[i]
        if c in _PUNCT:
            out.append((_PUNCT[c], None, i))
            i += 1
        elif text[i:i + 2] in ('>=', '<=', '!='):
            out.append(('OP', text[i:i + 2], i))
            i += 2
        elif c in '=<>':
            out.append(('OP', c, i))
            i += 1
        elif c == '!':
            raise LexFail(i, i + 1)
        elif c == '"':
            m = _STR.match(text, i)
            if not m:
                j = i + 1
                while j < n and 32 <= ord(text[j]) <= 126:
                    j += 1
                raise LexFail(i, j)
            out.append(('STRING', m.group()[1:-1], i))
            i = m.end()
        elif c in '0123456789' or (c == '-' and i + 1 < n and text[i + 1] in '0123456789'):
            m = _NUM.match(text, i)
            s, j = m.group(), m.end()
            if s.count('.') > 1 or (j < n and text[j] == '.'):
                raise LexFail(i, j + 1)
            try:
                out.append(('FLOAT', float(s), i) if '.' in s else ('INT', int(s), i))
            except ValueError:        # longer than the interpreter converts
                raise LexFail(i, j)
            i = j
        elif c.isalpha():
            m = _WORD.match(text, i)
            w, j = m.group(), m.end()
            lw = w.lower()
            if j < n and text[j] == '.':
                m2 = _IDENT.match(text, j + 1)
                if not m2:
                    raise LexFail(i, j + 1)
                if lw not in ATT_TOKEN:
                    raise LexFail(i, m2.end())
                out.append((ATT_TOKEN[lw], m2.group(), i))
                i = m2.end()
            elif lw in ('in', 'subset'):
                out.append(('OP', w.upper(), i))
                i = j
            elif lw in ('and', 'or'):
                out.append(('BOOL_OP', w.upper(), i))
                i = j
            elif lw in ('true', 'false', 'undef'):
                out.append(('BOOL', w.upper(), i))
                i = j
            elif lw == 'not':
                out.append(('NOT_OP', 'NOT', i))
                i = j
            elif lw == 'null':
                out.append(('NULL', 'NULL', i))
                i = j
            else:
                raise LexFail(i, j)
        else:
            raise LexFail(i, i)


# --------------------------------------------------------------------------------------------------------------------
# grammar: operator-precedence parser with an explicit stack (the implementation is recursive descent)

_ATOM = {'INT': 'int', 'FLOAT': 'float', 'STRING': 'str', 'NULL': 'null'}


def _var(toks, i):
    kind, val, pos = toks[i]
    if kind in TOKEN_ATT:
        return ('att', TOKEN_ATT[kind], val, pos), i + 1
    if kind in _ATOM:
        return (_ATOM[kind], None if kind == 'NULL' else val, pos), i + 1
    if kind == 'LSET':
        items, j = [], i + 1
        if toks[j][0] == 'RSET':
            return ('set', (), pos), j + 1
        while True:
            k, v, p = toks[j]
            if k not in _ATOM:
                raise SynFail(p)
            items.append((_ATOM[k], None if k == 'NULL' else v, p))
            j += 1
            if toks[j][0] == 'RSET':
                return ('set', tuple(items), pos), j + 1
            if toks[j][0] != 'COMMA':
                raise SynFail(toks[j][2])
            j += 1
    raise SynFail(pos)


def parse(toks):
    """Tree of a token list START ... END, or SynFail at the first token no sentence can continue with."""
    i = 1
    vals, ops = [], []        # ops: ('and'|'or'|'not'|'(', pos)

    def reduce_top():
        name, pos = ops.pop()
        if name == 'not':
            vals.append(('not', vals.pop(), pos))
        else:
            r = vals.pop()
            vals.append((name, vals.pop(), r, pos))

    want = True
    while True:
        kind, val, pos = toks[i]
        if want:
            if kind == 'NOT_OP':
                if toks[i + 1][0] == 'LPARN':
                    ops.append(('not', pos))
                    i += 1
                    continue
                k2, v2, p2 = toks[i + 1]
                if k2 == 'BOOL':
                    sub = ('bool', v2, p2)
                elif k2 in TOKEN_ATT:
                    sub = ('att', TOKEN_ATT[k2], v2, p2)
                else:
                    raise SynFail(p2)
                vals.append(('not', sub, pos))
                i += 2
            elif kind == 'LPARN':
                ops.append(('(', pos))
                i += 1
                continue
            elif kind == 'LSET' or ((kind in _ATOM or kind in TOKEN_ATT) and toks[i + 1][0] == 'OP'):
                left, i = _var(toks, i)
                if toks[i][0] != 'OP':
                    raise SynFail(toks[i][2])
                _, op, oppos = toks[i]
                right, i = _var(toks, i + 1)
                vals.append(('op', op, left, right, oppos))
            elif kind == 'BOOL':
                vals.append(('bool', val, pos))
                i += 1
            elif kind in TOKEN_ATT:
                vals.append(('att', TOKEN_ATT[kind], val, pos))
                i += 1
            else:
                raise SynFail(pos)
            want = False
        else:
            if kind == 'BOOL_OP':
                while ops and ops[-1][0] != '(' and (val == 'OR' or ops[-1][0] == 'and'):
                    reduce_top()
                ops.append((val.lower(), pos))
                i += 1
                want = True
            elif kind == 'RPARN':
                while ops and ops[-1][0] != '(':
                    reduce_top()
                if not ops:
                    raise SynFail(pos)
                ops.pop()
                if ops and ops[-1][0] == 'not':
                    reduce_top()
                i += 1
            elif kind == 'END':
                while ops and ops[-1][0] != '(':
                    reduce_top()
                if ops:
                    raise SynFail(pos)
                return vals[0]
            else:
                raise SynFail(pos)


# --------------------------------------------------------------------------------------------------------------------
# evaluation

class BadBoolean(Exception):
    """A non-boolean attribute is used where a truth value is needed."""


class Null(object):
    def __repr__(self):
        return 'NULL'


NULL = Null()


def k_not(a):
    return {T: F, F: T, U: U}[a]


def k_and(a, b):
    return F if F in (a, b) else U if U in (a, b) else T


def k_or(a, b):
    return T if T in (a, b) else U if U in (a, b) else F


class Att(object):
    def __init__(self, value):
        self.value = value


def _num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def _key(v):
    return ('null',) if v is NULL else ('s', v) if isinstance(v, str) else ('n', v)


def _setof(v):
    return {_key(x) for x in v}


def _isset(v):
    return isinstance(v, (set, frozenset, list, tuple))


def att_value(table, ns, name):
    """table: {(ns, lower name): (declared type, value)}. Result: 'T'/'F'/'U' truth value, or Att(value)."""
    ent = table.get((ns, name.lower()))
    if ent is None:
        return U, True
    stype, v = ent
    if v is None:
        return U, True
    if isinstance(v, bool):
        return (((T if v else F), False) if stype == 'BOOL' else (U, True))
    if (_num(v) and stype in ('INT', 'FLOAT')) or (isinstance(v, str) and stype == 'STRING') or \
            (isinstance(v, (set, list)) and stype == 'SET'):
        return Att(v), False
    return U, True


def compare(op, l, r):
    """Truth value of one comparison of operands (Att or constant), and whether a mistyped operand is reported."""
    if (isinstance(l, _Truth) and l.t == U) or (isinstance(r, _Truth) and r.t == U):
        return U, False
    if isinstance(l, _Truth) or isinstance(r, _Truth):
        return U, True
    latt, ratt = isinstance(l, Att), isinstance(r, Att)
    lv = l.value if latt else l.v
    rv = r.value if ratt else r.v
    if op in ('<', '>', '<=', '>='):
        if _num(lv) and _num(rv):
            return (T if {'<': lv < rv, '>': lv > rv, '<=': lv <= rv, '>=': lv >= rv}[op] else F), False
        return U, True
    lset, rset = _isset(lv), _isset(rv)
    if op in ('=', '!='):
        if latt and not lset and (rset or ratt):
            lv, lset = [lv], True
        if ratt and not rset and (_isset(l.value if latt else l.v) or latt):
            rv, rset = [rv], True
        if lset and rset:
            res = _setof(lv) == _setof(rv)
        elif lset or rset:
            return U, True
        elif _num(lv) and _num(rv):
            res = lv == rv
        elif isinstance(lv, str) and isinstance(rv, str):
            res = lv == rv
        elif lv is NULL and rv is NULL:
            res = True
        else:
            return U, True
        return (T if res == (op == '=') else F), False
    if op == 'IN':
        if ratt and not rset and (lset or latt):
            rv, rset = [rv], True
        if not rset:
            return U, True
        if lset:
            return (T if _setof(lv) & _setof(rv) else F), False
        return (T if _key(lv) in _setof(rv) else F), False
    if op == 'SUBSET':
        l0set, r0set = lset, rset
        if latt and not lset and (r0set or ratt):
            lv, lset = [lv], True
        if ratt and not rset and (l0set or latt):
            rv, rset = [rv], True
        if lset and rset:
            return (T if _setof(lv) <= _setof(rv) else F), False
        return U, True
    raise AssertionError(op)


class Const(object):
    def __init__(self, v):
        self.v = v


class _Truth(object):
    def __init__(self, t):
        self.t = t


def evaluate(tree, table):
    """(decision, warnings?) of a policy tree; raises BadBoolean."""
    warned = [False]

    def operand(n):
        k = n[0]
        if k == 'att':
            v, w = att_value(table, n[1], n[2])
            if w:
                warned[0] = True
            return v if isinstance(v, Att) else _Truth(v)
        if k == 'set':
            return Const([NULL if e[0] == 'null' else e[1] for e in n[1]])
        if k == 'null':
            return Const(NULL)
        return Const(n[1])

    def truth(n):
        k = n[0]
        if k == 'bool':
            return n[1]
        if k == 'att':
            v, w = att_value(table, n[1], n[2])
            if w:
                warned[0] = True
            if isinstance(v, Att):
                raise BadBoolean(n)
            return v
        if k == 'op':
            v, w = compare(n[1], operand(n[2]), operand(n[3]))
            if w:
                warned[0] = True
            return v
        raise AssertionError(k)

    out, todo = [], [(tree, False)]
    while todo:
        n, done = todo.pop()
        k = n[0]
        if k in ('and', 'or'):
            if done:
                r, l = out.pop(), out.pop()
                out.append(k_and(l, r) if k == 'and' else k_or(l, r))
            else:
                todo += [(n, True), (n[2], False), (n[1], False)]
        elif k == 'not':
            if done:
                out.append(k_not(out.pop()))
            else:
                todo += [(n, True), (n[1], False)]
        else:
            out.append(truth(n))
    return out[0], warned[0]


# --------------------------------------------------------------------------------------------------------------------
# static typing

NUMERIC = ('INT', 'FLOAT')
CONST_TYPE = {'int': 'INT', 'float': 'FLOAT', 'str': 'STRING', 'set': 'SET', 'null': 'UNKNOWN'}


def atoms_in_order(tree):
    """Comparisons and boolean attributes of a tree from left to right."""
    out, todo = [], [tree]
    while todo:
        n = todo.pop()
        if n[0] in ('and', 'or'):
            todo += [n[2], n[1]]
        elif n[0] == 'not':
            todo.append(n[1])
        elif n[0] in ('op', 'att'):
            out.append(n)
    return out


def typecheck(tree):
    """(issues [(level, pos)], inferred types {(ns, lower name): type})"""
    types, issues = {}, []

    def clash(a, b):
        return a != b and not (a in NUMERIC and b in NUMERIC)

    def attcheck(l, r, pos):
        if l[0] == 'att' and r[0] == 'att':
            lk, rk = (l[1], l[2].lower()), (r[1], r[2].lower())
            lt, rt = types[lk], types[rk]
            if lt == 'UNKNOWN' and rt != 'UNKNOWN':
                types[lk] = rt
            elif rt == 'UNKNOWN' and lt != 'UNKNOWN':
                types[rk] = lt
            elif clash(lt, rt):
                issues.append(('WARN', pos))
        else:
            a, c = (l, r) if l[0] == 'att' else (r, l)
            key, ct = (a[1], a[2].lower()), CONST_TYPE[c[0]]
            if types[key] == 'UNKNOWN':
                types[key] = ct
            elif clash(types[key], ct):
                issues.append(('WARN', pos))

    for n in atoms_in_order(tree):
        if n[0] == 'att':
            types.setdefault((n[1], n[2].lower()), 'UNKNOWN')
            continue
        _, op, l, r, pos = n
        kinds = (l[0], r[0])
        for x in (l, r):
            if x[0] == 'att':
                types.setdefault((x[1], x[2].lower()), 'UNKNOWN')
        if op in ('<', '>', '<=', '>='):
            if 'str' in kinds or 'null' in kinds:
                issues.append(('ERROR', pos))
            elif 'att' in kinds:
                attcheck(l, r, pos)
            elif 'set' in kinds:
                issues.append(('ERROR', pos))
        elif op in ('=', '!='):
            if 'att' in kinds:
                attcheck(l, r, pos)
            elif any((kinds[0] == k) != (kinds[1] == k) for k in ('null', 'str', 'set')):
                issues.append(('ERROR', pos))
        elif op == 'IN':
            if kinds[1] not in ('att', 'set') or kinds[0] == 'set':
                issues.append(('ERROR', pos))
        else:
            if not (kinds[0] in ('att', 'set') and kinds[1] in ('att', 'set')):
                issues.append(('ERROR', pos))
    return issues, types


def strip_pos(n):
    if n[0] in ('and', 'or'):
        return (n[0], strip_pos(n[1]), strip_pos(n[2]))
    if n[0] == 'not':
        return ('not', strip_pos(n[1]))
    if n[0] == 'op':
        return ('op', n[1], strip_pos(n[2]), strip_pos(n[3]))
    if n[0] == 'set':
        return ('set', tuple(strip_pos(e) for e in n[1]))
    if n[0] == 'att':
        return n[:3]
    return n[:2]
