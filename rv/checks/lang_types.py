"""C09 the type checker, C10 agreement of checker and evaluator, C11 symbol tables."""
from rv import core, hgplgen as gen, hgplref as ref
from rv.core import Violation
from rv.hgpl import (Lexer, Parser, Interpreter, InterpreterError, TypeChecker, TypeCheckerResult, TypeCheckerError,
                     TypeCheckerWarning, ErrorType, SymbolTable, Symbol, SymbolType, SymbolTableBuilder, ASTResult,
                     TokenType, ATT_TYPE, parse, to_tree, same_tree, build_table, HGPLError)

# ---------------------------------------------------------------------------------------------------------------- C09
c09 = core.register(
    'C09', 'Random policies put to the type checker: the issues (level and position, in order), the overall result, the '
    'attribute types inferred and the strict mode must be those of the reference rules, the checked policy stays as it '
    'was, and notation (case, spacing) makes no difference. Non-trivial: contains a comparison; distinct by policy.',
    ['hgpl/semantics.py', 'hgpl/symbols.py', 'hgpl/errors.py'],
    require={'PASS': 500, 'WARN': 300, 'ERROR': 500, 'set:shapes': 150, 'types_inferred': 3000, 'raised': 300})


def check_policy(mon, text, tree, from_node):
    issues, types = ref.typecheck(tree)
    node = parse(text) if from_node else None
    tc = TypeChecker(node, text) if from_node else TypeChecker(Parser(Lexer(text)))
    mon.check(tc.get_result() == TypeCheckerResult.NONE, 'a result before the policy was checked', policy=text)
    got = tc.check()
    as_seen = [(e.type.name, e.pos) for e in got]
    mon.check(as_seen == issues, 'issues differ from the typing rules', policy=text, got=as_seen, want=issues)
    mon.check([(e.type.name, e.pos) for e in tc.get_issues()] == issues, 'get_issues differs', policy=text)
    mon.check([(e.type.name, e.pos) for e in tc.get_errors()] == [x for x in issues if x[0] == 'ERROR'],
              'get_errors differs', policy=text)
    mon.check([(e.type.name, e.pos) for e in tc.get_warnings()] == [x for x in issues if x[0] == 'WARN'],
              'get_warnings differs', policy=text)
    want = 'PASS' if not issues else 'ERROR' if any(x[0] == 'ERROR' for x in issues) else 'WARN'
    mon.check(tc.get_result().name == want, 'overall result differs', policy=text, got=tc.get_result(), want=want)
    for e in got:
        mon.check(isinstance(e, TypeCheckerError), 'an issue is of another class', policy=text, got=type(e).__name__)
        mon.check(isinstance(e, TypeCheckerWarning) == (e.type == ErrorType.WARN), 'issue class and level disagree',
                  policy=text)
        str(e)
    st = tc.get_symbol_table()
    inferred = {s.name: s.type.name for s in st.symbols()}
    mon.check(inferred == {'%s.%s' % k: v for k, v in types.items()}, 'inferred attribute types differ', policy=text,
              got=inferred, want=types)
    for (ns, name), t in types.items():
        s = st.lookup('%s.%s' % (ns, name))
        mon.check(s is not None and s.att_type == ATT_TYPE[ns] and s.att_name == name,
                  'an attribute is recorded wrongly', policy=text, attribute=(ns, name), got=repr(s))
    mon.event('types_inferred', len(types))
    if from_node:
        mon.check(same_tree(to_tree(node), to_tree(parse(text))), 'checking changed the policy', policy=text)
    mon.event(want)
    return issues, types, want


@c09.workload('random', 5000, 150000)
def c09_random(mon, rng, i):
    g = gen.Gen(rng, rng.choice((2, 3, 6)))
    text, tree, _ = gen.render(g.policy(rng.choice((2, 6, 15))), rng)
    issues, types, want = check_policy(mon, text, tree, i % 2)
    for a in ref.atoms_in_order(tree):
        if a[0] == 'op':
            mon.seen('shapes', (a[2][0], a[1], a[3][0]))
    for level in (ErrorType.INFO, ErrorType.WARN, ErrorType.ERROR, ErrorType.CRIT):
        first = [x for x in issues if getattr(ErrorType, x[0]) >= level]
        try:
            TypeChecker(Parser(Lexer(text))).check(level)
        except TypeCheckerError as e:
            mon.check(first and (e.type.name, e.pos) == first[0], 'strict checking raised another issue', policy=text,
                      level=level, got=(e.type.name, e.pos), want=first)
            mon.event('raised')
        else:
            mon.check(not first, 'strict checking let an issue pass', policy=text, level=level, want=first)
    mon.case(text, any(a[0] == 'op' for a in ref.atoms_in_order(tree)))
    mon.sample(policy=text, issues=issues, types=types)


SHAPES = ('int', 'float', 'str', 'null', 'set', 'att', 'att_seen_int', 'att_seen_str', 'att_seen_set', 'att_seen_float',
          'att_seen_null', 'att_seen_twice')


@c09.workload('matrix', 8 * 12 * 12, 8 * 12 * 12 * 12)
def c09_matrix(mon, rng, i):
    op, a, b = ref.OPS[i % 8], SHAPES[i // 8 % 12], SHAPES[i // 96 % 12]
    g = gen.Gen(rng, 3)
    before = []

    def operand(k, name):
        if k == 'set':
            return g.setconst(3)
        if not k.startswith('att'):
            return {'int': ('int', rng.randint(-9, 9), 0), 'float': ('float', 2.5, 0), 'str': ('str', 'x', 0),
                    'null': ('null', None, 0)}[k]
        att = ('att', rng.choice(ref.NAMESPACES), name, 0)
        seen = k[9:]
        if seen:
            c = {'int': ('int', 4, 0), 'float': ('float', 4.5, 0), 'str': ('str', 'q', 0), 'set': ('set', (('int', 1, 0),), 0),
                 'null': ('null', None, 0), 'twice': ('att', 'user', 'other', 0)}[seen]
            x = [att, c]
            if rng.random() < 0.5:
                x.reverse()
            before.append(('op', rng.choice(('=', '!=')), x[0], x[1], 0))
        return att
    l, r = operand(a, 'l'), operand(b, 'r')
    tree = ('op', op, l, r, 0)
    for x in before:
        tree = (rng.choice(('and', 'or')), x, tree, 0)
    text, tree, _ = gen.render(tree, rng)
    check_policy(mon, text, tree, i % 2)
    mon.seen('shapes', (a, op, b))
    mon.case(text)


@c09.workload('chains', 2500, 70000)
def c09_chains(mon, rng, i):
    """Attributes compared with constants and with each other, without plain type errors."""
    g = gen.Gen(rng, rng.choice((1, 2, 3)))
    nss = [rng.choice(ref.NAMESPACES) for _ in range(rng.randint(1, 2))]

    def att():
        return ('att', rng.choice(nss), rng.choice(g.pool), 0)

    def cmp():
        op = rng.choice(('=', '!=', '=', '!=', '<', '>=', 'IN', 'SUBSET'))
        a, b = att(), att()
        if op in ('=', '!='):
            if rng.random() < 0.6:
                b = rng.choice((g.setconst(2), g.atom(), g.atom()))
        elif op in ('<', '>='):
            if rng.random() < 0.6:
                b = rng.choice((('int', rng.randint(0, 9), 0), ('float', 1.5, 0), g.setconst(2)))
        elif rng.random() < 0.5:
            return ('op', op, a, g.setconst(2), 0)
        else:
            return ('op', op, a, b, 0)
        return ('op', op) + rng.choice(((a, b), (b, a))) + (0,)

    tree = cmp()
    for _ in range(rng.randint(0, 5)):
        x = cmp() if rng.random() < 0.8 else ('not', cmp(), 0)
        tree = (rng.choice(('and', 'or')),) + rng.choice(((tree, x), (x, tree))) + (0,)
    text, tree, _ = gen.render(tree, rng)
    check_policy(mon, text, tree, i % 2)
    mon.case(text)


@c09.workload('notation', 1500, 40000)
def c09_notation(mon, rng, i):
    """No reference: two renderings of one policy type check alike."""
    g = gen.Gen(rng, 3)
    t = g.policy(10)
    out = []
    for r in (None, rng):
        text = gen.render(t, r)[0] if r is None else gen.render(t, r, parens=0.2)[0]
        tc = TypeChecker(Parser(Lexer(text)))
        tc.check()
        out.append((text, [e.type.name for e in tc.get_issues()],
                    sorted((s.name, s.type.name) for s in tc.get_symbol_table().symbols())))
    mon.check(out[0][1:] == out[1][1:], 'notation changes the type check', policy=out[0], other=out[1])
    mon.case((out[0][0], out[1][0]), out[0][0] != out[1][0])


# ---------------------------------------------------------------------------------------------------------------- C10
c10 = core.register(
    'C10', 'Policies over constants and correctly typed attributes: what the type checker passes evaluates without any '
    'warning to a definite answer, and a comparison it rejects never evaluates to a definite answer (except membership '
    'of a set constant, which the evaluator allows). Neither side is a model. Non-trivial: a comparison takes part; '
    'distinct by policy and table.', ['hgpl/semantics.py', 'hgpl/interpreting.py'],
    require={'passed': 1500, 'rejected': 1500, 'typed_attributes': 300})


def verdict(text):
    tc = TypeChecker(Parser(Lexer(text)))
    tc.check()
    return tc.get_result().name, tc


def answer(text, table=None):
    it = Interpreter(Parser(Lexer(text)))
    try:
        r = it.evaluate(build_table(table or {}))
        return r.name, it.get_warnings()
    except InterpreterError as e:
        return 'error', [e]


@c10.workload('constants', 6000, 150000)
def c10_const(mon, rng, i):
    g = gen.Gen(rng, 1)
    l, r = (g.setconst() if rng.random() < 0.3 else g.atom() for _ in range(2))
    op = ref.OPS[i % 8]
    text, tree, _ = gen.render(('op', op, l, r, 0), rng)
    v, _ = verdict(text)
    got, ws = answer(text)
    if v == 'PASS':
        mon.check(got in (ref.T, ref.F) and not ws, 'a comparison that passes the type check is not decided',
                  policy=text, got=got, warnings=[str(w) for w in ws])
        mon.event('passed')
    elif v == 'ERROR':
        if op == 'IN' and l[0] == 'set' and r[0] == 'set':
            return
        mon.check(got == ref.U and ws, 'a comparison that fails the type check is decided', policy=text, got=got)
        mon.event('rejected')
    else:
        raise Violation('a comparison of constants is only a warning', policy=text)
    mon.case(text)
    mon.sample(policy=text, verdict=v, decision=got)


@c10.workload('policies', 12000, 250000)
def c10_policies(mon, rng, i):
    """Attributes given values of exactly the types the checker inferred."""
    g = gen.Gen(rng, rng.choice((2, 4)))
    tree = g.policy(rng.choice((1, 1, 2, 4)))
    text, tree, _ = gen.render(tree, rng)
    if any(n[0] == 'att' for n in ref.atoms_in_order(tree)):
        return
    v, tc = verdict(text)
    if v != 'PASS':
        return
    table = {}
    for s in tc.get_symbol_table().symbols():
        if s.type.name not in gen.TYPES:
            return
        ns, name = s.name.split('.', 1)
        table[(ns, name)] = (s.type.name, g.value(s.type.name))
    # the checker does not look at the types of attributes in ordered comparisons with sets or in IN and SUBSET
    for a in ref.atoms_in_order(tree):
        ks = [x[0] if x[0] != 'att' else table[(x[1], x[2].lower())][0] for x in a[2:4]]
        if a[1] in ('<', '>', '<=', '>='):
            if any(k not in ('int', 'float', 'INT', 'FLOAT') for k in ks):
                return
        elif a[1] == 'IN' and (ks[0] in ('SET', 'set') or ks[1] not in ('SET', 'set')):
            return
        elif a[1] == 'SUBSET' and any(k not in ('SET', 'set') for k in ks):
            return
        elif a[1] in ('=', '!=') and 'null' in ks and any(k in gen.TYPES for k in ks):
            # the language allows comparing an attribute of any type with NULL; with a value it is UNDEF
            return
    got, ws = answer(text, table)
    if ref.U in str([n for n in _bools(tree)]):
        mon.check(not ws, 'a policy that passes the type check warns', policy=text, table=table)
        return
    mon.check(got in (ref.T, ref.F) and not ws, 'a policy that passes the type check is not decided on attributes of '
              'the inferred types', policy=text, table=table, got=got, warnings=[str(w) for w in ws])
    mon.event('passed')
    if table:
        mon.event('typed_attributes')
    mon.case((text, table))


SAMPLES = (('INT', 3), ('FLOAT', 2.5), ('STRING', 'a'), ('BOOL', True), ('SET', {1}), ('SET', {'a'}))


@c10.workload('open_types', 1500, 20000)
def c10_open(mon, rng, i):
    """A single membership or subset comparison that passes can be decided for some types of its attributes."""
    g = gen.Gen(rng, 1)
    op = ('IN', 'SUBSET')[i % 2]
    l, r = [('att', 'user', n, 0) if rng.random() < 0.5 else g.setconst(5) if rng.random() < 0.4 else g.atom()
            for n in ('l', 'r')]
    atts = [n for n in (l, r) if n[0] == 'att']
    if not atts:
        return
    text, tree, _ = gen.render(('op', op, l, r, 0), rng)
    v, tc = verdict(text)
    if v != 'PASS':
        mon.event('open_rejected')
        return
    inferred = {s.name: s.type.name for s in tc.get_symbol_table().symbols()}
    decided = False
    for a in SAMPLES:
        for b in SAMPLES:
            table = {('user', 'l'): a, ('user', 'r'): b}
            if any(inferred.get('user.' + n[2]) in gen.TYPES and inferred['user.' + n[2]] != table[('user', n[2])][0]
                   for n in atts):
                continue
            got, ws = answer(text, table)
            decided = decided or (got in (ref.T, ref.F) and not ws)
    mon.check(decided, 'a comparison passes the type check although no attribute types make it decidable', policy=text,
              inferred=inferred)
    mon.event('open_passed')
    mon.case(text)


def _bools(tree):
    if tree[0] in ('and', 'or'):
        return _bools(tree[1]) + _bools(tree[2])
    if tree[0] == 'not':
        return _bools(tree[1])
    return [tree[1]] if tree[0] == 'bool' else []


# ---------------------------------------------------------------------------------------------------------------- C11
c11 = core.register(
    'C11', 'Histories of operations on several symbol tables and builders, compared step by step with a dictionary '
    'model keyed by lower-case qualified name: definitions never overwrite, look-ups ignore case, namespaces never mix, '
    'values and types change only where asked, tables do not share state. Non-trivial: the history defines a symbol; '
    'distinct by history.', ['hgpl/symbols.py'],
    require={'operations': 20000, 'refused_redefinitions': 300, 'missing_lookups': 500, 'tables_built': 800})

TYPES = [SymbolType.INT, SymbolType.FLOAT, SymbolType.STRING, SymbolType.BOOL, SymbolType.SET, SymbolType.UNKNOWN,
         SymbolType.CUSTOM]


def mixed(rng, s):
    return ''.join(c.upper() if rng.random() < 0.5 and c.upper().lower() == c else c.lower() for c in s)


def as_value(v):
    return ASTResult.from_bool(v) if isinstance(v, bool) else v


def fits(t, v):
    v = as_value(v)
    return {'INT': isinstance(v, (int, float)), 'FLOAT': isinstance(v, (int, float)), 'STRING': isinstance(v, str),
            'SET': isinstance(v, (set, list)), 'BOOL': isinstance(v, ASTResult)}.get(t.name, False)


def compare(mon, st, model, what):
    mon.check(sorted(st.names()) == sorted(model), 'the names of a table differ', history=what, got=sorted(st.names()),
              want=sorted(model))
    mon.check(len(list(st.symbols())) == len(model), 'the number of symbols differs', history=what)
    for s in st.symbols():
        m = model.get(s.name)
        got = (s.name, s.type, s.att_type, s.value)
        mon.check(m is not None and m[0] == s.type and m[1] == s.att_type and same(m[2], s.value),
                  'a symbol differs from the model', history=what, got=got, want=m)
    text = str(st)
    for n in model:
        mon.check(n in text, 'a symbol is missing from the printed table', history=what, name=n)
    repr(st)


def same(a, b):
    return type(a) is type(b) and (a is b or a == b)


@c11.workload('tables', 3000, 40000)
def c11_tables(mon, rng, i):
    g = gen.Gen(rng, 2)
    names = ['role', 'Role', 'a', 'A', 'x1', 'user', 'user_id', 'r\xf4le', 'stra\xdfe', '\u03b1\u03b2', '\u0436_1', 'a.b', gen.ident(rng)]
    if rng.random() < 0.5:
        names = rng.sample(names, 4)
    tables = [(SymbolTable(), {}) for _ in range(rng.randint(1, 3))]
    hist = []
    for step in range(rng.randint(5, 30)):
        ti = rng.randrange(len(tables))
        st, model = tables[ti]
        ns = rng.choice(ref.NAMESPACES)
        name = mixed(rng, rng.choice(names))
        full = mixed(rng, ns + '.') + name
        if rng.random() < 0.05 and hist:
            # names that resemble a defined one but are not it
            full = rng.choice((' ' + full, full + ' ', full + '.', '.' + full, full[1:], name, full.replace('.', '', 1), '',
                               full.replace('.', '..', 1), full.replace('.', ':', 1), 'unkown.' + name))
            if full.lower() not in model:
                hist.append((ti, 'resembling', full))
                got = (st.lookup(full), bool(st.exists(full)), st.lookup_type(full), st.lookup_att_type(full),
                       st.lookup_att_name(full))
                mon.check(got == (None, False, None, None, None), 'an unknown name is found', history=hist, got=repr(got))
                for bad in (lambda: st.lookup_value(full), lambda: st.set_value(full, 1),
                            lambda: st.switch_type(full, SymbolType.INT)):
                    try:
                        bad()
                    except Exception:
                        continue
                    raise Violation('an operation on an unknown name succeeds', history=hist)
                mon.event('resembling_names')
            continue
        key = full.lower()
        op = rng.choice(('define', 'define', 'lookup', 'set', 'switch', 'exists', 'value', 'types', 'by_symbol'))
        hist.append((ti, op, full))
        mon.event('operations')
        if op == 'define':
            t, v = rng.choice(TYPES), rng.choice((None, g.value(rng.choice(gen.TYPES))))
            s = Symbol(name, ATT_TYPE[ns], t, v)
            hist[-1] += (t.name, v)
            mon.check(s.name == key and s.att_name == name.lower() and s.type == t and s.att_type == ATT_TYPE[ns],
                      'a symbol does not hold what it was given', history=hist, got=repr(s))
            mon.check(same(s.value, as_value(v)), 'a symbol holds another value', history=hist, got=s.value)
            mon.check(bool(s.check_val_type()) == fits(t, v), 'the value type check differs', history=hist, got=repr(s))
            r = st.define(s)
            mon.check(r is (key not in model), 'define answers wrongly', history=hist, got=r)
            if key in model:
                mon.event('refused_redefinitions')
            else:
                model[key] = [t, ATT_TYPE[ns], as_value(v)]
        elif op == 'lookup':
            s = st.lookup(full)
            mon.check((s is None) == (key not in model), 'look-up answers wrongly', history=hist, got=repr(s))
            if s is None:
                mon.event('missing_lookups')
            else:
                mon.check(s.name == key, 'look-up returns another symbol', history=hist, got=s.name)
                mon.check(st.lookup(s) is s, 'look-up by symbol differs', history=hist)
        elif op == 'exists':
            mon.check(bool(st.exists(full)) == (key in model), 'exists answers wrongly', history=hist)
        elif op == 'by_symbol':
            probe = Symbol(name, ATT_TYPE[ns])
            mon.check(bool(st.exists(probe)) == (key in model), 'exists by symbol answers wrongly', history=hist)
            m = model.get(key)
            mon.check(st.lookup_type(probe) == (m and m[0]), 'type by symbol differs', history=hist)
            mon.check(st.lookup_att_type(probe) == (m and m[1]), 'namespace by symbol differs', history=hist)
        elif op == 'types':
            m = model.get(key)
            mon.check(st.lookup_type(full) == (m and m[0]), 'type differs', history=hist, got=st.lookup_type(full))
            mon.check(st.lookup_att_type(full) == (m and m[1]), 'namespace differs', history=hist)
            mon.check(st.lookup_att_name(full) == (m and key.split('.', 1)[1]), 'attribute name differs', history=hist)
        else:
            v, t = g.value(rng.choice(gen.TYPES)) if rng.random() < 0.85 else None, rng.choice(TYPES)
            try:
                if op == 'set':
                    hist[-1] += (v,)
                    st.set_value(full, v)
                    r = None
                elif op == 'switch':
                    r = st.switch_type(full, t)
                else:
                    r = st.lookup_value(full)
            except Exception:
                mon.check(key not in model, 'an operation on a defined symbol fails', history=hist)
                mon.event('missing_lookups')
                continue
            mon.check(key in model, 'an operation on an undefined symbol succeeds', history=hist)
            if op == 'set':
                model[key][2] = as_value(v)
            elif op == 'switch':
                mon.check(r == model[key][0], 'switch_type returns another type', history=hist, got=r)
                model[key][0] = t
            else:
                mon.check(same(r, model[key][2]), 'the value differs', history=hist, got=r, want=model[key][2])
        for t2, m2 in tables:
            compare(mon, t2, m2, hist)
    mon.case(hist, any(m for _, m in tables))
    mon.sample(history=hist[:8])


BNAMES = ('role', 'age', 'x', 'x.y', 'x.y.z', 'r\xf4le', 'user')


@c11.workload('builders', 2500, 30000)
def c11_builders(mon, rng, i):
    g = gen.Gen(rng, 2)
    builders = []
    for _ in range(rng.randint(1, 3)):
        types = {}
        for ns in ref.NAMESPACES:
            for n in BNAMES:
                if rng.random() < 0.5:
                    types[mixed(rng, '%s.%s' % (ns, n))] = rng.choice(TYPES)
                if rng.random() < 0.1:
                    # not the name of any attribute of a known kind
                    types[rng.choice((n, ns, 'unkown.' + n, ns + ':' + n, '.' + n, ns + '.' + n + '.', ' %s.%s' % (ns, n)))
                          ] = rng.choice(TYPES)
        builders.append([SymbolTableBuilder(types) if types or rng.random() < 0.5 else SymbolTableBuilder(), types, {}])
    hist = []
    for step in range(rng.randint(2, 10)):
        bi = rng.randrange(len(builders))
        b, types, vals = builders[bi]
        x = rng.random()
        if x < 0.4:
            d = {}
            used = set()
            for _ in range(rng.randint(0, 4)):
                k = '%s.%s' % (rng.choice(ref.NAMESPACES), rng.choice(BNAMES + ('y',)))
                if k not in used and k not in vals:
                    used.add(k)
                    d[mixed(rng, k)] = g.value(rng.choice(gen.TYPES)) if rng.random() < 0.9 else None
            b.load_mixed_att_val_dict(d)
            vals.update({k.lower(): v for k, v in d.items()})
            hist.append((bi, 'load', d))
        elif x < 0.55:
            b.reset_values()
            vals.clear()
            hist.append((bi, 'reset'))
        elif x < 0.65:
            bad = rng.choice(('subject.', 'usr.', 'environment.', 'obj.', 'x.')) + 'role'
            try:
                b.load_mixed_att_val_dict({bad: 1})
            except Exception:
                pass
            else:
                raise Violation('an attribute of an unknown kind was accepted', name=bad)
        else:
            st = b.build()
            low = {k.lower(): v for k, v in types.items()}
            model = {}
            for k, v in vals.items():
                model[k] = [low.get(k, SymbolType.UNKNOWN), ATT_TYPE[k.split('.')[0]], as_value(v)]
            compare(mon, st, model, hist)
            # building again gives an independent table
            st2 = b.build()
            for n in list(st2.names()):
                st2.set_value(n, 'changed')
                st2.switch_type(n, SymbolType.CUSTOM)
            compare(mon, st, model, hist)
            compare(mon, b.build(), model, hist)
            mon.event('tables_built')
            hist.append((bi, 'build'))
        mon.event('operations')
    mon.case(hist, any(h[1] == 'load' for h in hist))
