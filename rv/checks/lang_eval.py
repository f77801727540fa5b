"""C04 decisions, C05 fail-safe and monotone under missing knowledge, C06 purity, C07 logical laws."""
import copy

from rv import core, hgplgen as gen, hgplref as ref
from rv.core import Violation
from rv.hgpl import (Lexer, Parser, Interpreter, InterpreterError, InterpreterWarning, SymbolTableBuilder, SymbolTable,
                     SymbolType, ASTResult, ASTEncoder, TypeChecker, ErrorType, HGPLError, parse, build_table, to_tree)

T, F, U = ref.T, ref.F, ref.U


def run(text_or_node, table, st=None):
    """('TRUE'|'FALSE'|'UNDEF', warnings) or ('error', ...)"""
    it = Interpreter(Parser(Lexer(text_or_node))) if isinstance(text_or_node, str) else Interpreter(text_or_node)
    try:
        r = it.evaluate(build_table(table) if st is None else st)
    except InterpreterWarning:
        raise
    except InterpreterError:
        return 'error', None
    return r.name, it.get_warnings()


def expected(tree, table):
    try:
        return ref.evaluate(tree, table)
    except ref.BadBoolean:
        return 'error', None


def features(mon, tree):
    for a in ref.atoms_in_order(tree):
        if a[0] == 'op':
            mon.seen('comparison_shapes', '%s %s %s' % (a[2][0], a[1], a[3][0]))


# ---------------------------------------------------------------------------------------------------------------- C04
c04 = core.register(
    'C04', 'Random policies with random attribute tables (missing, valueless and mistyped attributes included): the '
    'decision, the presence of warnings, the strict mode and the truth value of the answer must be those of the '
    'reference three-valued semantics. Non-trivial: the policy refers to an attribute or compares something; distinct '
    'by (policy, table).', ['hgpl/interpreting.py', 'hgpl/ast.py', 'hgpl/symbols.py'],
    require={'TRUE': 500, 'FALSE': 500, 'UNDEF': 500, 'error': 50, 'set:comparison_shapes': 120})


def judge(mon, text, tree, table):
    want, warned = expected(tree, table)
    it = Interpreter(Parser(Lexer(text)), None)
    try:
        r = it.evaluate(build_table(table))
    except InterpreterError as e:
        if want != 'error':
            raise Violation('evaluation fails: %s' % e, policy=text, table=table, want=want)
        mon.check(not isinstance(e, InterpreterWarning), 'a misused attribute is only a warning', policy=text,
                  table=table)
        mon.event('error')
        return
    mon.check(isinstance(r, ASTResult), 'the decision is not a truth value', policy=text, got=r)
    mon.check(r.name == want, 'decision differs from the reference semantics', policy=text, table=table, got=r.name,
              want=want)
    mon.check(bool(r) == (want == T), 'only a TRUE decision may count as true', policy=text, got=bool(r), want=want)
    ws = it.get_warnings()
    mon.check(bool(ws) == warned, 'warnings reported do not match the ill-typed or missing operands', policy=text,
              table=table, got=[str(w) for w in ws], want=warned)
    mon.event(want)
    return ws


@c04.workload('random', 9000, 260000)
def c04_random(mon, rng, i):
    g = gen.Gen(rng)
    g.big = 0.01
    tree = g.policy(30)
    text, tree, _ = gen.render(tree, rng)
    table = g.table(tree)
    judge(mon, text, tree, table)
    features(mon, tree)
    mon.case((text, table), bool(ref.atoms_in_order(tree)))
    mon.sample(policy=text, table=table)


KINDS = ('int', 'float', 'str', 'null', 'set', 'attint', 'attfloat', 'attstr', 'attbool', 'attset', 'attlist',
         'attnone', 'attmissing', 'attwrong', 'attunknown')


@c04.workload('operand_matrix', 8 * 15 * 15 * 2, 8 * 15 * 15 * 40)
def c04_matrix(mon, rng, i):
    """Every operator with every pair of operand kinds, with closely related values."""
    op = ref.OPS[i % 8]
    k1, k2 = KINDS[i // 8 % 15], KINDS[i // 120 % 15]
    g = gen.Gen(rng, 1)
    base = [g.fresh_atom() for _ in range(2)]
    g.atoms = base
    table = {}

    def operand(k, name):
        if not k.startswith('att'):
            if k == 'set':
                return g.setconst(5)
            if k == 'null':
                return ('null', None, 0)
            for a in g.atoms + [g.fresh_atom() for _ in range(20)]:
                if a[0] == k:
                    return a
            return {'int': ('int', 5, 0), 'float': ('float', 5.0, 0), 'str': ('str', '5', 0)}[k]
        ns = rng.choice(ref.NAMESPACES)
        st = {'attint': 'INT', 'attfloat': 'FLOAT', 'attstr': 'STRING', 'attbool': 'BOOL', 'attset': 'SET',
              'attlist': 'SET'}.get(k)
        if k == 'attmissing':
            pass
        elif k == 'attnone':
            table[(ns, name)] = (rng.choice(gen.TYPES), None)
        elif k == 'attwrong':
            t = rng.choice(gen.TYPES)
            table[(ns, name)] = (rng.choice([x for x in gen.TYPES if x != t and {x, t} != {'INT', 'FLOAT'}]), g.value(t))
        elif k == 'attunknown':
            table[(ns, name)] = (rng.choice(('UNKNOWN', 'CUSTOM')), g.value(rng.choice(gen.TYPES)))
        else:
            v = g.value(st)
            if k == 'attset':
                v = set(v)
            elif k == 'attlist':
                v = list(v)
            table[(ns, name)] = (st, v)
        return ('att', ns, name, 0)

    l, r = operand(k1, 'l'), operand(k2, 'r')
    if rng.random() < 0.15 and l[0] == 'att':
        r = l
    tree = ('op', op, l, r, 0)
    text, tree, _ = gen.render(tree, rng, parens=0)
    judge(mon, text, tree, table)
    mon.seen('comparison_shapes', '%s %s %s' % (k1, op, k2))
    mon.case((text, table))


@c04.workload('builder', 3000, 80000)
def c04_builder(mon, rng, i):
    """Through the table builder, with mixed-case attribute names everywhere."""
    g = gen.Gen(rng)
    text, tree, _ = gen.render(g.policy(12), rng)
    table = g.table(tree)
    mixed = lambda s: ''.join(rng.choice((c.lower(), c.upper())) for c in s)
    types = {mixed('%s.%s' % k): getattr(SymbolType, v[0]) for k, v in table.items()}
    vals = {mixed('%s.%s' % k): v[1] for k, v in table.items()}
    b = SymbolTableBuilder(types)
    if rng.random() < 0.5:
        b.load_mixed_att_val_dict(vals)
    else:
        for (ns, name), (st, v) in table.items():
            {'user': b.user_atts, 'object': b.object_atts, 'env': b.env_atts, 'admin': b.admin_atts,
             'connect': b.connect_atts}[ns][mixed(name)] = v
    want, warned = expected(tree, table)
    got, ws = run(text, None, b.build())
    mon.check(got == want, 'decision differs from the reference semantics', policy=text, table=table, got=got, want=want)
    mon.event(want)
    mon.case((text, table))


@c04.workload('strict', 2500, 60000)
def c04_strict(mon, rng, i):
    """A warning level turns reported warnings of at least that level into a refusal, and nothing else."""
    g = gen.Gen(rng)
    text, tree, _ = gen.render(g.policy(8), rng)
    table = g.table(tree)
    want, warned = expected(tree, table)
    if want == 'error':
        return
    node = parse(text)
    for level in (ErrorType.NONE, ErrorType.INFO, ErrorType.WARN, ErrorType.ERROR, ErrorType.CRIT):
        it = Interpreter(node, text)
        must_raise = warned and level <= ErrorType.WARN
        try:
            r = it.evaluate(build_table(table), level)
        except InterpreterWarning as e:
            mon.check(must_raise, 'refused although no warning reaches the level', policy=text, table=table, level=level)
            mon.event('refused')
            mon.check(e.type == ErrorType.WARN, 'warning has another level', policy=text)
        else:
            mon.check(not must_raise, 'evaluation under a strict warning level ignored a warning', policy=text,
                      table=table, level=level)
            mon.check(r.name == want, 'decision differs under a warning level', policy=text, table=table, got=r.name,
                      want=want, level=level)
    mon.case((text, table))


@c04.workload('near_numbers', 3000, 60000)
def c04_near(mon, rng, i):
    """Numbers next to each other, at the limits of what floats and machine integers hold exactly."""
    op = ref.OPS[i % 8]
    vals = gen.near_numbers(rng, rng.randint(2, 5))
    table = {}

    def scalar(v, name):
        if rng.random() < 0.5:
            return gen.num_const(v)
        st = rng.choice(('INT', 'FLOAT')) if rng.random() < 0.3 else 'FLOAT' if isinstance(v, float) else 'INT'
        table[('user', name)] = (st, v)
        return ('att', 'user', name, 0)

    def group(vs, name):
        if rng.random() < 0.5:
            return ('set', tuple(gen.num_const(v) for v in vs), 0)
        table[('env', name)] = ('SET', rng.choice((set, list))(vs))
        return ('att', 'env', name, 0)

    k = rng.randint(1, len(vals) - 1)
    if op == 'IN':
        l, r = scalar(vals[0], 'l'), group(vals[1:], 'r')
    elif op == 'SUBSET' or (op in ('=', '!=') and rng.random() < 0.2):
        l, r = group(vals[:k], 'l'), group(vals[k:], 'r')
    else:
        l, r = scalar(vals[0], 'l'), scalar(vals[1], 'r')
    text, tree, _ = gen.render(('op', op, l, r, 0), rng, parens=0)
    judge(mon, text, tree, table)
    mon.event('near_numbers')
    mon.case((text, table))


@c04.workload('near_strings', 2000, 50000)
def c04_strings(mon, rng, i):
    """Strings that differ in little: case, space, an end, the notation of a number."""
    op = ref.OPS[i % 8] if rng.random() < 0.3 else rng.choice(('=', '!=', 'IN', 'SUBSET'))
    vals = gen.near_strings(rng, rng.randint(2, 5))
    table = {}
    plain = lambda v: all(c in gen.STR_CHARS for c in v)

    def scalar(v, name):
        if plain(v) and rng.random() < 0.4:
            return ('str', v, 0)
        table[('user', name)] = ('STRING', v)
        return ('att', 'user', name, 0)

    def group(vs, name):
        if all(map(plain, vs)) and rng.random() < 0.4:
            return ('set', tuple(('str', v, 0) for v in vs), 0)
        table[('env', name)] = ('SET', rng.choice((set, list))(vs))
        return ('att', 'env', name, 0)

    k = rng.randint(1, len(vals) - 1)
    if op == 'IN':
        l, r = scalar(vals[0], 'l'), group(vals[1:], 'r')
    elif op == 'SUBSET' or (op in ('=', '!=') and rng.random() < 0.2):
        l, r = group(vals[:k], 'l'), group(vals[k:], 'r')
    else:
        l, r = scalar(vals[0], 'l'), scalar(vals[1], 'r')
    text, tree, _ = gen.render(('op', op, l, r, 0), rng, parens=0)
    judge(mon, text, tree, table)
    mon.event('near_strings')
    mon.case((text, table))


@c04.workload('large', 300, 5000)
def c04_large(mon, rng, i):
    """Big sets, long flat chains, many attributes."""
    g = gen.Gen(rng, rng.choice((1, 20, 200)))
    k = i % 5
    if k == 4:
        # large attribute values on both sides, sets or lists, as constants or attributes
        n = rng.choice((30, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000))
        mk = rng.choice((lambda v: v, lambda v: 'v%d' % v))
        vals = [mk(rng.randint(-n, n)) for _ in range(n)]
        other = list(vals)
        rng.shuffle(other)
        x = rng.random()
        if x < 0.3:
            other.append(mk(n + 1))
        elif x < 0.6:
            y = rng.choice(other)
            other = [o for o in other if o != y]
        elif x < 0.8:
            other = [mk(n + 1 + rng.randint(0, n)) for _ in range(n)]
            if rng.random() < 0.5:
                other[rng.randrange(n)] = rng.choice(vals)
        table = {}

        def side(vs, name):
            if rng.random() < 0.25:
                return ('set', tuple(gen.num_const(v) if not isinstance(v, str) else ('str', v, 0) for v in vs), 0)
            table[('user', name)] = ('SET', set(vs) if rng.random() < 0.5 else vs)
            return ('att', 'user', name, 0)

        l, r = side(vals, 'l'), side(other, 'r')
        if rng.random() < 0.5:
            l, r = r, l
        tree = ('op', rng.choice(('IN', 'SUBSET', '=', '!=')), l, r, 0)
        text, tree, _ = gen.render(tree, rng)
        judge(mon, text, tree, table)
    elif k == 0:
        n = rng.choice((10, 50, 99, 100, 101, 127, 128, 255, 256, 300, 999, 1000, 1024))
        vals = [rng.randint(-n, n) for _ in range(n)]
        x = rng.choice((vals[-1], vals[0], n + 1, rng.choice(vals)))
        tree = rng.choice((('op', 'IN', ('int', x, 0), ('set', tuple(('int', v, 0) for v in vals), 0), 0),
                           ('op', 'SUBSET', ('set', tuple(('int', v, 0) for v in vals), 0), ('att', 'user', 's', 0), 0),
                           ('op', 'IN', ('att', 'user', 's', 0), ('set', tuple(('int', v, 0) for v in vals), 0), 0)))
        s = set(vals)
        if rng.random() < 0.5:
            s.discard(rng.choice(vals))
        text, tree, _ = gen.render(tree, rng)
        judge(mon, text, tree, {('user', 's'): ('SET', s)})
    else:
        n = rng.choice((10, 30, 60, 100, 150))
        # Kleene-balanced so that the result is decided late
        op = rng.choice(('and', 'or'))
        leaf = lambda: ('bool', T if op == 'and' else F, 0) if rng.random() < 0.7 else g.leaf()
        tree = leaf()
        for _ in range(n):
            x = leaf()
            tree = (op, tree, x, 0) if k != 3 else (op, x, tree, 0)
        text, tree, _ = gen.render(tree, rng, parens=0)
        table = g.table(tree)
        judge(mon, text, tree, table)
    mon.case(text)
    mon.event('large_cases')


# ---------------------------------------------------------------------------------------------------------------- C05
c05 = core.register(
    'C05', 'Pairs of attribute tables where one knows less (attributes removed, emptied or mistyped): the decision '
    'with less knowledge must be UNDEF or the same, never the opposite definite answer, and a comparison with an '
    'unknown operand must be UNDEF. No reference model takes part. Non-trivial: the tables differ on an attribute the '
    'policy uses; distinct by (policy, tables).', ['hgpl/interpreting.py', 'hgpl/symbols.py', 'hgpl/ast.py'],
    require={'pairs': 2000, 'definite_stays': 300, 'definite_becomes_undef': 300, 'unknown_operand': 500})


def fitting(v):
    """Attribute types that a value of this kind might be read under."""
    if isinstance(v, (bool, ASTResult)):
        return ('BOOL', 'INT')
    if isinstance(v, (int, float)):
        return ('INT', 'FLOAT', 'BOOL')
    if isinstance(v, str):
        return ('STRING',)
    return ('SET',)


def weaken(rng, table, keys):
    t = dict(table)
    hit = []
    for k in keys:
        if k in t and rng.random() < 0.5:
            hit.append(k)
            w = rng.randint(0, 3)
            if w == 0:
                del t[k]
            elif w == 1:
                t[k] = (t[k][0], None)
            elif w == 2:
                t[k] = (rng.choice(('UNKNOWN', 'CUSTOM')), t[k][1])
            else:
                v = t[k][1]
                t[k] = (rng.choice([s for s in gen.TYPES if s not in fitting(v)]), v)
    return t, hit


@c05.workload('weakened', 6000, 180000)
def c05_weak(mon, rng, i):
    g = gen.Gen(rng)
    text, tree, _ = gen.render(g.policy(16), rng)
    keys = sorted(gen.attributes(tree))
    table = g.table(tree, 0.03, 0.0, 0.0, 0.0)
    full, _ = run(text, table)
    if full == 'error':
        mon.event('not_boolean')
        return
    cur, prev = table, full
    for _ in range(3):
        cur, hit = weaken(rng, cur, keys)
        if not hit:
            continue
        less, _ = run(text, cur)
        mon.check(less != 'error', 'evaluation fails with fewer attributes', policy=text, table=table, weaker=cur)
        mon.check(less in (U, prev), 'knowing less turned the decision around', policy=text, table=table, weaker=cur,
                  full=prev, less=less)
        mon.event('pairs')
        if prev != U:
            mon.event('definite_stays' if less == prev else 'definite_becomes_undef')
        mon.case((text, table, cur))
        prev = less
    mon.sample(policy=text, table=table, weaker=cur, full=full, less=prev)


@c05.workload('unknown_operand', 4000, 100000)
def c05_unknown(mon, rng, i):
    g = gen.Gen(rng, 2)
    op = ref.OPS[i % 8]
    a = ('att', rng.choice(ref.NAMESPACES), rng.choice(g.pool), 0)
    other = g.var()
    l, r = (a, other) if i // 8 % 2 else (other, a)
    text, tree, _ = gen.render(('op', op, l, r, 0), rng)
    table = g.table(tree, 0, 0, 0, 0)
    k = (a[1], a[2].lower())
    bad = i // 16 % 4
    if bad == 0:
        table.pop(k, None)
    elif bad == 1:
        table[k] = (rng.choice(gen.TYPES), None)
    elif bad == 2:
        table[k] = (rng.choice(('UNKNOWN', 'CUSTOM')), g.value(rng.choice(gen.TYPES)))
    else:
        t = rng.choice(gen.TYPES)
        table[k] = (rng.choice([s for s in gen.TYPES if s != t and {s, t} != {'INT', 'FLOAT'}]), g.value(t))
    got, ws = run(text, table)
    mon.check(got == U, 'a comparison with an unknown or mistyped attribute is not UNDEF', policy=text, table=table,
              got=got)
    mon.check(ws, 'an unknown or mistyped attribute is not reported', policy=text, table=table)
    for wrap, want in (('NOT (%s)', U), ('(%s) AND FALSE', F), ('(%s) OR TRUE', T), ('(%s) AND TRUE', U),
                       ('(%s) OR FALSE', U), ('FALSE AND (%s)', F), ('TRUE OR (%s)', T)):
        got, _ = run(wrap % text, table)
        mon.check(got == want, 'UNDEF does not combine as it should', policy=wrap % text, table=table, got=got,
                  want=want)
    mon.event('unknown_operand')
    mon.case((text, table))


# ---------------------------------------------------------------------------------------------------------------- C06
c06 = core.register(
    'C06', 'Histories of evaluations: one parsed policy evaluated again and again with changing tables, by one or '
    'several evaluators, interleaved with type checking, encoding, printing and other policies; every answer and every '
    'warning list must equal that of a fresh evaluation, and tables must come back unchanged. Non-trivial: the history '
    'contains at least two different answers; distinct by (policy, tables).',
    ['hgpl/interpreting.py', 'hgpl/ast.py', 'hgpl/symbols.py'],
    require={'evaluations': 5000, 'answer_changes': 500, 'tables_compared': 3000})


def snap(st):
    out = {}
    for s in st.symbols():
        v = s.value
        out[s.name] = (s.type.name, s.att_type.name, type(v).__name__, repr(sorted(v, key=repr)) if isinstance(v, set)
                       else repr(v))
    return out


def answer(fn, it):
    try:
        r = fn()
        return (r.name, [(str(w), w.pos, w.rule) for w in it.get_warnings()])
    except InterpreterWarning as e:
        return ('warning', str(e))
    except InterpreterError as e:
        return ('error', str(e))


@c06.workload('histories', 1500, 45000)
def c06_hist(mon, rng, i):
    g = gen.Gen(rng)
    pols = []
    for _ in range(rng.randint(1, 3)):
        text, tree, _ = gen.render(g.policy(10), rng)
        node = parse(text)
        pols.append((text, tree, node, [Interpreter(node, text) for _ in range(rng.randint(1, 2))]))
    tables = []
    for text, tree, node, its in pols:
        for _ in range(2):
            t = g.table(tree)
            tables.append((t, build_table(t)))
    tables.append((None, None))
    last = {}
    log = []
    kept = []
    for step in range(rng.randint(4, 12)):
        p = rng.randrange(len(pols))
        text, tree, node, its = pols[p]
        x = rng.random()
        if x < 0.12:
            # evaluation must not be affected by what else is done with the tree
            rng.choice((lambda: TypeChecker(node, text).check(), lambda: ASTEncoder.encode(node), lambda: str(node),
                        lambda: repr(node)))()
            continue
        t, st = rng.choice(tables)
        it = rng.choice(its) if rng.random() < 0.8 else Interpreter(node, text)
        level = rng.choice((None, None, None, ErrorType.WARN))
        before = snap(st) if st is not None else None
        got = answer(lambda: it.evaluate(st, level), it)
        fresh_it = Interpreter(Parser(Lexer(text)))
        fresh_st = build_table(t) if t is not None else None
        want = answer(lambda: fresh_it.evaluate(fresh_st, level), fresh_it)
        log.append((text, t, got))
        mon.check(got == want, 'an evaluation depends on earlier evaluations', history=log, got=got, want=want)
        if got[0] in ('TRUE', 'FALSE', 'UNDEF'):
            kept.append((it.get_warnings(), got[1]))
        for ws, was in kept:
            mon.check([(str(w), w.pos, w.rule) for w in ws] == was, 'warnings handed out earlier changed', history=log,
                      was=was)
        if st is not None:
            mon.check(snap(st) == before, 'evaluation changed the attribute table', policy=text, before=before,
                      after=snap(st))
            mon.event('tables_compared')
        mon.event('evaluations')
        if p in last and last[p] != got[0]:
            mon.event('answer_changes')
        last[p] = got[0]
    mon.case([l[:2] for l in log], len({l[2][0] for l in log}) > 1)
    mon.sample(history=[(l[0], l[2][0]) for l in log])


@c06.workload('table_updates', 1500, 40000)
def c06_updates(mon, rng, i):
    """The table is changed between evaluations of the same evaluator: every answer is for the current values."""
    g = gen.Gen(rng)
    text, tree, _ = gen.render(g.policy(8), rng)
    node = parse(text)
    it = Interpreter(node, text)
    t = g.table(tree, 0, 0, 0, 0)
    st = build_table(t)
    hist = []
    for step in range(5):
        try:
            want = ref.evaluate(tree, t)[0]
        except ref.BadBoolean:
            want = 'error'
        got = answer(lambda: it.evaluate(st), it)[0]
        hist.append((dict(t), got))
        mon.check(got == want, 'an answer does not reflect the current attribute values', policy=text, history=hist,
                  want=want)
        mon.event('evaluations')
        if not t:
            break
        k = rng.choice(sorted(t))
        v = g.value(rng.choice(gen.TYPES) if rng.random() < 0.2 else t[k][0])
        st.set_value('%s.%s' % k, v)
        t[k] = (t[k][0], v)
    mon.event('answer_changes', len({h[1] for h in hist}) - 1)
    mon.case((text, [h[0] for h in hist]), len({h[1] for h in hist}) > 1)


# ---------------------------------------------------------------------------------------------------------------- C07
c07 = core.register(
    'C07', 'Policies related by a logical or notational law (double negation, De Morgan, commutativity, associativity, '
    'distribution, absorption, identities, negated and mirrored comparisons, renaming, spacing, keyword case, '
    'redundant parentheses, set order and duplicates, unrelated attributes) decided on the same table: the decisions '
    'must agree. No reference model takes part. Non-trivial: the policies differ in text; distinct by (text, text, '
    'table).', ['hgpl/interpreting.py', 'hgpl/parsing.py', 'hgpl/ast.py'],
    require={'pairs': 5000, 'TRUE': 300, 'FALSE': 300, 'UNDEF': 300, 'set:laws': 20})

MIRROR = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '=': '=', '!=': '!='}
NEGATE = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '=': '!=', '!=': '='}


def map_ops(tree, fn):
    k = tree[0]
    if k in ('and', 'or'):
        return (k, map_ops(tree[1], fn), map_ops(tree[2], fn), 0)
    if k == 'not':
        return (k, map_ops(tree[1], fn), 0)
    return fn(tree)


def map_atts(tree, fn):
    def leaf(n):
        if n[0] == 'att':
            return fn(n)
        if n[0] == 'op':
            return ('op', n[1]) + tuple(fn(x) if x[0] == 'att' else x for x in n[2:4]) + (0,)
        return n
    return map_ops(tree, leaf)


def N(a): return ('not', a, 0)
def A(a, b): return ('and', a, b, 0)
def O(a, b): return ('or', a, b, 0)


def B(v): return ('bool', v, 0)


LAWS = {
    'double_negation': lambda a, b, c: (a, N(N(a))),
    'de_morgan_and': lambda a, b, c: (N(A(a, b)), O(N(a), N(b))),
    'de_morgan_or': lambda a, b, c: (N(O(a, b)), A(N(a), N(b))),
    'and_commutes': lambda a, b, c: (A(a, b), A(b, a)),
    'or_commutes': lambda a, b, c: (O(a, b), O(b, a)),
    'and_associates': lambda a, b, c: (A(A(a, b), c), A(a, A(b, c))),
    'or_associates': lambda a, b, c: (O(O(a, b), c), O(a, O(b, c))),
    'and_distributes': lambda a, b, c: (A(a, O(b, c)), O(A(a, b), A(a, c))),
    'or_distributes': lambda a, b, c: (O(a, A(b, c)), A(O(a, b), O(a, c))),
    'and_absorbs': lambda a, b, c: (A(a, O(a, b)), a),
    'or_absorbs': lambda a, b, c: (O(a, A(a, b)), a),
    'and_idempotent': lambda a, b, c: (A(a, a), a),
    'or_idempotent': lambda a, b, c: (O(a, a), a),
    'and_true': lambda a, b, c: (A(a, B(T)), a),
    'or_false': lambda a, b, c: (O(B(F), a), a),
    'and_false': lambda a, b, c: (A(a, B(F)), B(F)),
    'or_true': lambda a, b, c: (O(B(T), a), B(T)),
}


def agree(mon, law, t1, t2, table, table2=None, rng=None):
    x1 = t1 if isinstance(t1, str) else gen.render(t1, rng, parens=0.05)[0]
    x2 = t2 if isinstance(t2, str) else gen.render(t2, rng, parens=0.05)[0]
    r1, _ = run(x1, table)
    r2, _ = run(x2, table if table2 is None else table2)
    mon.check(r1 == r2, 'decisions disagree under the law ' + law, policy=x1, other=x2, table=table, got=r1, got2=r2)
    mon.event('pairs')
    mon.event(r1)
    mon.seen('laws', law)
    mon.case((x1, x2, table), x1 != x2)
    return x1, x2


@c07.workload('laws', 6800, 170000)
def c07_laws(mon, rng, i):
    names = sorted(LAWS)
    law = names[i % len(names)]
    g = gen.Gen(rng)
    a, b, c = (g.policy(4) for _ in range(3))
    table = g.table(A(a, A(b, c)), p_nonbool=0.0)
    for x in (a, b, c):      # the laws are about policies that can be decided
        if run(gen.render(x)[0], table)[0] == 'error':
            mon.event('undecidable_part')
            return
    t1, t2 = LAWS[law](a, b, c)
    x1, x2 = agree(mon, law, t1, t2, table, rng=rng)
    mon.sample(law=law, policy=x1, other=x2, table=table)


@c07.workload('comparisons', 5000, 120000)
def c07_cmp(mon, rng, i):
    g = gen.Gen(rng, 2)
    op = ref.OPS[i % 8]
    near = None
    if rng.random() < 0.25:
        near = gen.near_numbers(rng, 5)
        g.atoms = [gen.num_const(v) for v in near]
        l, r = rng.choice(g.atoms), rng.choice(g.atoms)
        if op == 'SUBSET' or (op == 'IN'):
            r = ('set', tuple(rng.sample(g.atoms, rng.randint(1, 4))), 0)
        if op == 'SUBSET':
            l = ('set', tuple(rng.sample(g.atoms, rng.randint(1, 3))), 0)
    else:
        l, r = g.var(), g.var()
    t = ('op', op, l, r, 0)
    table = g.table(t, p_nonbool=0)
    if near:
        mon.event('near_numbers')
        # an attribute with the value decides as the constant does
        for side, name in ((2, 'nl'), (3, 'nr')):
            if t[side][0] in ('int', 'float') and rng.random() < 0.7:
                t2 = list(t)
                t2[side] = ('att', 'user', name, 0)
                st = 'INT' if t[side][0] == 'int' else 'FLOAT'
                agree(mon, 'attribute_for_constant', t, tuple(t2), {}, {('user', name): (st, t[side][1])}, rng=rng)
    if op in MIRROR:
        agree(mon, 'mirrored_comparison', t, ('op', MIRROR[op], r, l, 0), table, rng=rng)
        agree(mon, 'negated_comparison', t, N(('op', NEGATE[op], l, r, 0)), table, rng=rng)
        if op in ('<=', '>='):
            strict = ('op', op[0], l, r, 0)
            numeric = run(gen.render(t)[0], table)[0] != U
            if numeric:
                agree(mon, 'less_or_equal', t, O(strict, ('op', '<=', l, r, 0) if False else
                                                 A(N(strict), N(('op', '<' if op[0] == '>' else '>', l, r, 0)))), table,
                      rng=rng)
    else:
        # set constants: order and duplicates do not matter
        def shuffle(n):
            if n[0] != 'set':
                return n
            e = list(n[1]) + [rng.choice(n[1]) for _ in range(rng.randint(0, 2)) if n[1]]
            rng.shuffle(e)
            return ('set', tuple(e), 0)
        agree(mon, 'set_order', t, ('op', op, shuffle(l), shuffle(r), 0), table, rng=rng)
        if l[0] not in ('set', 'att') and r[0] == 'set' and op == 'IN':
            # membership is a disjunction of equalities within one type
            cls = 'num' if l[0] in ('int', 'float') else l[0]
            same = [e for e in r[1] if ('num' if e[0] in ('int', 'float') else e[0]) == cls]
            d = B(F)
            for e in same:
                d = O(d, ('op', '=', l, e, 0))
            agree(mon, 'membership_is_equality', t, d, table, rng=rng)
        if op == 'SUBSET' and l[0] == 'set' and r[0] == 'set':
            d = B(T)
            for e in l[1]:
                d = A(d, ('op', 'IN', e, r, 0))
            agree(mon, 'subset_is_membership', t, d, table, rng=rng)
            agree(mon, 'equal_sets_are_subsets', A(t, ('op', 'SUBSET', r, l, 0)), ('op', '=', l, r, 0), table, rng=rng)


@c07.workload('notation', 5000, 120000)
def c07_notation(mon, rng, i):
    g = gen.Gen(rng)
    t = g.policy(10)
    table = g.table(t, p_nonbool=0)
    k = i % 5
    if k == 0:
        agree(mon, 'spacing_case_parentheses', gen.render(t)[0], gen.render(t, rng, parens=0.3)[0], table)
    elif k == 1:
        swap = lambda n: ('att', n[1], ''.join(rng.choice((c.lower(), c.upper())) for c in n[2]), 0)
        agree(mon, 'attribute_case', t, map_atts(t, swap), table, rng=rng)
    elif k == 2:
        names = sorted({a[1] for a in gen.attributes(t)} | {a[1] for a in table})
        ren = {n: 'z%d_%s' % (j, n) for j, n in enumerate(names)}
        t2 = map_atts(t, lambda n: ('att', n[1], ren[n[2].lower()], 0))
        agree(mon, 'renaming', t, t2, table, {(ns, ren[n]): v for (ns, n), v in table.items()}, rng=rng)
    elif k == 3:
        perm = list(ref.NAMESPACES)
        rng.shuffle(perm)
        pm = dict(zip(ref.NAMESPACES, perm))
        t2 = map_atts(t, lambda n: ('att', pm[n[1]], n[2], 0))
        agree(mon, 'namespaces', t, t2, table, {(pm[ns], n): v for (ns, n), v in table.items()}, rng=rng)
    else:
        extra = dict(table)
        used = gen.attributes(t)
        for ns in ref.NAMESPACES:
            for _, n in sorted(used):
                if (ns, n) not in used:
                    st = rng.choice(gen.TYPES)
                    extra[(ns, n)] = (st, g.value(st))
            extra.setdefault((ns, 'zz_unused'), ('INT', 1)) if (ns, 'zz_unused') not in used else None
        text = gen.render(t, rng)[0]
        r1, _ = run(text, table)
        extra = {k2: v for k2, v in extra.items() if k2 in table or k2 not in used}
        r2, _ = run(text, extra)
        mon.check(r1 == r2, 'attributes the policy does not use changed the decision', policy=text, table=table,
                  extended=extra, got=r1, got2=r2)
        mon.event('pairs')
        mon.seen('laws', 'unused_attributes')
        mon.case((text, table, extra))
