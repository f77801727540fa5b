"""C08 stored policies, C28 isolation of policies handled at the same time."""
import base64

from rv import core, dictionary, hgplgen as gen, hgplref as ref, interleave
from rv.core import Violation
from rv.hgpl import (Lexer, Parser, Interpreter, InterpreterError, ASTEncoder, TypeChecker, Token, TokenType, parse,
                     build_table, to_tree, same_tree, HGPLError)
from hgpl.ast import StringValNode, OpNode, SetNode, ASTNode, IntValNode, FloatValNode

# ---------------------------------------------------------------------------------------------------------------- C08
c08 = core.register(
    'C08', 'Policies encoded (bytes and base64) and decoded: the tree read through its accessors (kinds, values with '
    'their exact type, positions, shape) must be the original one, decisions, type checking and a second encoding must '
    'agree, encoding leaves the tree alone, does not depend on what the process did before, and no strict prefix '
    'decodes. Non-trivial: more than one node; distinct by policy text.', ['hgpl/ast.py'],
    require={'round_trips': 6000, 'prefixes_refused': 5000, 'decisions_compared': 2000, 'set:value_kinds': 6,
             'big_ids': 20, 'limits': 5})


def kinds(mon, tree):
    for a in ref.atoms_in_order(tree):
        if a[0] == 'op':
            for x in a[2:4]:
                mon.seen('value_kinds', x[0])
                if x[0] == 'set':
                    for e in x[1]:
                        mon.seen('value_kinds', 'set of ' + e[0])


def trip(mon, node, what, b64=None):
    before = to_tree(node)
    for b in ((False, True) if b64 is None else (b64,)):
        enc = ASTEncoder.encode(node, b)
        mon.check(isinstance(enc, (bytes, bytearray)), 'an encoding is not bytes', policy=what, got=type(enc).__name__)
        back = ASTEncoder.decode(enc, b)
        after = to_tree(back)
        mon.check(same_tree(before, after), 'decoding an encoded policy gives another policy', policy=what, base64=b,
                  got=after, want=before)
        mon.check(back == node and node == back and not (back != node), 'the decoded policy does not equal the original',
                  policy=what)
        mon.check(same_tree(before, to_tree(node)), 'encoding changed the policy', policy=what)
        mon.check(ASTEncoder.encode(node, b) == enc, 'encoding twice gives different bytes', policy=what, base64=b)
        mon.check(ASTEncoder.encode(back, b) == enc, 'encoding the decoded policy gives different bytes', policy=what)
        if b:
            raw = base64.b64decode(enc, validate=True)
            mon.check(same_tree(before, to_tree(ASTEncoder.decode(raw))), 'the two encodings differ', policy=what)
            mon.check(same_tree(before, to_tree(ASTEncoder.decode(enc.decode('ascii'), True))),
                      'base64 text does not decode', policy=what)
        mon.event('round_trips')
    return enc, back


def decision(node, table, text=None):
    try:
        it = Interpreter(node, text)
        return it.evaluate(build_table(table)).name, sorted((w.pos, str(w)) for w in it.get_warnings())
    except InterpreterError:
        return 'error', None


@c08.workload('random', 3500, 90000)
def c08_random(mon, rng, i):
    g = gen.Gen(rng)
    g.big = 0.01
    text, tree, _ = gen.render(g.policy(rng.choice((3, 10, 30))), rng)
    if len(text) >= 65536:
        return
    node = parse(text)
    enc, back = trip(mon, node, text)
    kinds(mon, tree)
    for _ in range(2):
        table = g.table(tree)
        a, b = decision(node, table, text), decision(back, table, text)
        mon.check(a == b, 'a decoded policy decides differently', policy=text, table=table, got=b, want=a)
        mon.event('decisions_compared')
    ca, cb = TypeChecker(node, text), TypeChecker(ASTEncoder.decode(ASTEncoder.encode(node)), text)
    ca.check(), cb.check()
    mon.check([(str(e), e.pos, e.type) for e in ca.get_issues()] == [(str(e), e.pos, e.type) for e in cb.get_issues()],
              'a decoded policy type checks differently', policy=text)
    # a policy that was already evaluated and checked is encoded the same way
    mon.check(same_tree(to_tree(parse(text)), to_tree(ASTEncoder.decode(ASTEncoder.encode(node)))),
              'a policy that was evaluated decodes to another policy', policy=text)
    mon.case(text, len(tree) > 3)
    mon.sample(policy=text)


def _int(rng):
    k = rng.choice((7, 8, 15, 16, 23, 24, 31, 32, 33, 39, 40, 47, 48, 53, 55, 56, 63, 64, 65, 127, 128, 255, 256, 1000))
    v = (1 << k) + rng.choice((-2, -1, 0, 1, 2))
    return rng.choice((v, -v, rng.randint(-300, 300), rng.getrandbits(k), -rng.getrandbits(k),
                       dictionary.integer(rng, 'hgpl')))


def _float(rng):
    return rng.choice((0.0, 0.1, 1 / 3, 1.5, -2.25, 1e22, 123456789.987654321, 16777217.0, 0.30000000000000004,
                       3.4028235e38, 3.5e38, 1.7e308, 2.0 ** -30, rng.uniform(-1e9, 1e9), rng.random(),
                       float(rng.randint(-10**12, 10**12))))


@c08.workload('values', 2500, 60000)
def c08_values(mon, rng, i):
    """Constants of every size, directly and in sets."""
    def const():
        k = rng.randrange(4)
        if k == 0:
            return ('int', _int(rng), 0)
        if k == 1:
            return ('float', _float(rng), 0)
        if k == 2:
            n = dictionary.size(rng, 'hgpl', 3000)
            return ('str', ''.join(rng.choice('abcXYZ 019_.,(){}\\\'$~') for _ in range(n)), 0)
        return ('null', None, 0)

    l = const()
    r = const() if rng.random() < 0.5 else ('set', tuple(const() for _ in range(rng.choice((0, 1, 2, 5, 40) if rng.random() < 0.97 else (127, 128, 255, 256, 257, 300, 1000)))), 0)
    if r[0] == 'set' and len(r[1]) > 100:
        r = ('set', tuple(c if c[0] != 'str' and len(str(c[1])) < 30 else ('str', 'e%d' % (j % 7), 0)
                          for j, c in enumerate(r[1])), 0)
    text, tree, _ = gen.render(('op', rng.choice(ref.OPS), l, r, 0), rng)
    if len(text) >= 65536:
        return
    node = parse(text)
    trip(mon, node, text)
    kinds(mon, tree)
    back = ASTEncoder.decode(ASTEncoder.encode(node))
    mon.check(decision(back, {}) == decision(node, {}), 'a decoded policy decides differently', policy=text)
    mon.event('decisions_compared')
    mon.case(text)


@c08.workload('built_trees', 400, 9000)
def c08_built(mon, rng, i):
    """Trees built node by node, with strings beyond ASCII."""
    def s():
        return ''.join(rng.choice('aé€\U0001f600ß\n\t"\x00中 ') for _ in range(rng.choice((0, 1, 3, 20, 127, 300))))
    l = StringValNode(Token(TokenType.STRING, rng.randint(0, 60000), s()))
    r = StringValNode(Token(TokenType.STRING, rng.randint(0, 60000), s()))
    node = OpNode(Token(TokenType.OP, rng.randint(0, 60000), rng.choice(('=', '!='))), l, r)
    trip(mon, node, repr(node))
    mon.case(repr(node))


@c08.workload('prefixes', 200, 5000)
def c08_prefix(mon, rng, i):
    g = gen.Gen(rng)
    text, tree, _ = gen.render(g.policy(4), rng)
    for b in (False, True):
        enc = ASTEncoder.encode(parse(text), b)
        cuts = range(len(enc)) if len(enc) < 150 else sorted(rng.sample(range(len(enc)), 150)) + [len(enc) - 1]
        for n in cuts:
            try:
                back = ASTEncoder.decode(enc[:n], b)
            except Exception:
                mon.event('prefixes_refused')
                continue
            raise Violation('a truncated encoding decodes', policy=text, kept=n, of=len(enc), base64=b,
                            got=to_tree(back))
    mon.case(text)


def grow(mon):
    """A process that has handled many policies: more than 2**16 nodes before."""
    text = 'user.a IN {' + ', '.join('1' for _ in range(14000)) + '}'
    for _ in range(5):
        parse(text)
    mon.event('nodes_before', 5 * 14002)


@c08.workload('limits', 18, 90)
def c08_limits(mon, rng, i):
    """Policies beyond what the format can hold must be refused, not stored as something else."""
    k = i % 6
    if k == 0:
        n = rng.choice((65532, 65533, 65534, 65535, 65600, 70000))
        node = parse('user.a IN {' + ','.join(['1'] * n) + '}')
    elif k == 1:
        node = parse(' ' * rng.choice((65530, 65535, 65536, 70000)) + 'user.a = 1')
    elif k == 2:
        node = parse('user.a = "' + 'x' * rng.choice((65534, 65535, 65536, 70000)) + '"')
    elif k == 3:
        node = parse('user.a IN {' + ','.join(str(v) for v in range(rng.choice((255, 256, 257, 4000, 5000, 9000, 9500)))) + '}')
    elif k == 4:
        node = parse('user.' + 'a' * rng.choice((255, 256, 257, 65535, 66000)) + ' = 1')
    else:
        t = 'TRUE'
        for j in range(rng.choice((100, 127, 128, 150))):
            t = '%s %s user.a%d = %d' % (t, rng.choice(('AND', 'OR')), j, j)
        node = parse(t)
    before = to_tree(node)
    for b in (False, True):
        try:
            enc = ASTEncoder.encode(node, b)
        except Exception:
            mon.event('refused')
            continue
        mon.check(same_tree(before, to_tree(ASTEncoder.decode(enc, b))), 'a large policy decodes to another one',
                  nodes=len(before[3][1]) if before[0] == 'op' and before[3][0] == 'set' else None)
        mon.event('round_trips')
    mon.event('limits')
    mon.case((k, len(repr(before))))


@c08.workload('after_many', 300, 6000, setup=grow)
def c08_many(mon, rng, i):
    g = gen.Gen(rng)
    text, tree, _ = gen.render(g.policy(20), rng)
    trip(mon, parse(text), text)
    mon.event('big_ids')
    mon.case(text)


# ---------------------------------------------------------------------------------------------------------------- C28
c28 = core.register(
    'C28', 'Several policies lexed, parsed, type checked, encoded, decoded and evaluated at the same time in threads '
    'switched at lines of repository code by the case\'s own random source; every thread must get what it gets alone. '
    'Non-trivial: at least ten thread switches; distinct by switch sequence.',
    ['hgpl/lexing.py', 'hgpl/parsing.py', 'hgpl/ast.py', 'hgpl/semantics.py', 'hgpl/interpreting.py'],
    require={'thread_results': 600, 'switches': 20000})


def pipeline(text, table, st=None):
    try:
        node = parse(text)
    except HGPLError as e:
        return ('refused', type(e).__name__, e.pos)
    tc = TypeChecker(node, text)
    tc.check()
    issues = [(str(e), e.pos) for e in tc.get_issues()]
    types = sorted((s.name, s.type.name) for s in tc.get_symbol_table().symbols())
    enc = ASTEncoder.encode(node)
    back = ASTEncoder.decode(enc)
    out = []
    for n in (node, back):
        it = Interpreter(n, text)
        try:
            out.append((it.evaluate(build_table(table) if st is None else st).name,
                        [(str(w), w.pos) for w in it.get_warnings()]))
        except InterpreterError as e:
            out.append(('error', str(e)))
    return (to_tree(node), to_tree(back), issues, types, enc, out)


@c28.workload('threads', 250, 6000)
def c28_threads(mon, rng, i):
    g = gen.Gen(rng)
    jobs = []
    for _ in range(rng.randint(2, 4)):
        text, tree, _ = gen.render(g.policy(rng.choice((2, 5, 9))), rng)
        if rng.random() < 0.15:
            text = gen.mutate(rng, text)
        jobs.append((text, g.table(tree)))
    if rng.random() < 0.3:
        jobs.append(jobs[0])
    st = None
    if rng.random() < 0.3:
        # one table, read by all
        st = build_table(jobs[0][1])
        jobs = [(t, jobs[0][1]) for t, _ in jobs]
    alone = [pipeline(t, tb) for t, tb in jobs]
    results, sig, n = interleave.baton(rng, [lambda t=t, tb=tb: pipeline(t, tb, st) for t, tb in jobs],
                                       rng.choice((0.05, 0.2, 0.5)))
    for (t, tb), want, (kind, got) in zip(jobs, alone, results):
        mon.check(kind == 'ok', 'a policy fails only when others are handled at the same time', policy=t, got=repr(got),
                  policies=[j[0] for j in jobs])
        mon.check(got == want, 'a policy is handled differently when others are handled at the same time', policy=t,
                  got=got, want=want, policies=[j[0] for j in jobs])
        mon.event('thread_results')
    mon.event('switches', n)
    mon.seen('schedules', sig)
    mon.case(sig, n >= 10)
    mon.sample(policies=[j[0] for j in jobs], switches=n)
