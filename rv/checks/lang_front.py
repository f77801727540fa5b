"""C01 tokens, C02 grammar, C03 totality of the policy front end."""
import sys

from rv import core, dictionary, hgplgen as gen, hgplref as ref
from rv.core import Violation
from rv.hgpl import (Lexer, Parser, LexerError, ParserError, HGPLError, TokenType, Token, TypeChecker, Interpreter,
                     InterpreterError, TypeCheckerError, tokens, tok, to_tree, same_tree, ErrorType, build_table)

LEX = ['hgpl/lexing.py']

# ---------------------------------------------------------------------------------------------------------------- C01
c01 = core.register(
    'C01', 'Policies rendered from random trees (random spacing, keyword case, redundant parentheses), token-level and '
    'character-level mutations of them, and hostile text; the token list (kind, value, position) must equal the '
    'renderer\'s own token list or the reference lexer\'s, and texts the reference rejects must be rejected at the '
    'offending lexeme. Non-trivial: at least one token between START and END or an error; distinct by text.',
    LEX, require={'accepted': 500, 'rejected': 200, 'set:token_kinds': 17})


def _lex_steps(mon, text, want):
    """The list, the stepwise interface and the attribute list agree with the expected tokens."""
    lx = Lexer(text)
    mon.equal(lx.policy(), text, 'the lexer does not report its policy text', policy=text)
    got = []
    while True:
        t = lx.next()
        if t is None:
            break
        got.append(tok(t))
        mon.check(tok(lx.current()) == tok(t), 'current token is not the token just read', policy=text)
        if len(got) > len(text) + 5:
            raise Violation('more tokens than characters', policy=text)
    mon.check(same_tree(tuple(got), tuple(want[1:])), 'stepwise tokens differ from the expected tokens', policy=text,
              got=got, want=want)
    mon.check(lx.next() is None, 'a token after END', policy=text)
    mon.check(same_tree(tuple(tok(t) for t in lx.toke_list()), tuple(want)), 'token list differs', policy=text,
              got=[tok(t) for t in lx.toke_list()], want=want)
    mon.check(same_tree(tuple(tok(t) for t in lx.att_list()), tuple(w for w in want if w[0] in ref.TOKEN_ATT)),
              'attribute list differs', policy=text, got=[tok(t) for t in lx.att_list()])
    mon.equal(lx.token_string(), ' '.join(w[0] for w in want), 'token string differs', policy=text)
    # the returned lists are copies
    lx.toke_list().clear()
    lx.att_list().clear()
    mon.check(len(lx.toke_list()) == len(want), 'the token list handed out is the internal one', policy=text)


def judge_lexing(mon, text, want=None):
    if want is None:
        try:
            want = ref.lex(text)
        except ref.LexFail as f:
            want = f
    try:
        got = tokens(text)
    except LexerError as e:
        if not isinstance(want, ref.LexFail):
            raise Violation('a valid token sequence is rejected: %s' % e, policy=text)
        mon.check(want.start <= e.pos <= want.end, 'lexical error reported away from the offending lexeme', policy=text,
                  pos=e.pos, lexeme=(want.start, want.end))
        mon.event('rejected')
        return None
    if isinstance(want, ref.LexFail):
        raise Violation('text that is not a token sequence is accepted', policy=text, got=got)
    mon.check(same_tree(tuple(got), tuple(want)), 'tokens differ from the expected tokens', policy=text, got=got,
              want=want)
    mon.event('accepted')
    mon.event('tokens', len(got))
    for k, _, _ in got:
        mon.seen('token_kinds', k)
    return got


@c01.workload('rendered', 9000, 260000)
def c01_rendered(mon, rng, i):
    g = gen.Gen(rng)
    text, tree, toks = gen.render(g.policy(), rng)
    judge_lexing(mon, text, toks)
    if i % 3 == 0:
        _lex_steps(mon, text, toks)
    mon.case(text)
    mon.sample(policy=text, tokens=len(toks))


@c01.workload('mutated', 9000, 260000)
def c01_mutated(mon, rng, i):
    g = gen.Gen(rng)
    text, tree, toks = gen.render(g.policy(12), rng)
    text = gen.mutate(rng, text) if rng.random() < 0.7 else gen.drop_tokens(rng, toks, text)
    if not ref.judgeable(text):
        mon.event('not_judged')
        return
    got = judge_lexing(mon, text)
    if got is not None and i % 3 == 0:
        _lex_steps(mon, text, got)
    mon.case(text)


@c01.workload('hostile', 9000, 260000)
def c01_hostile(mon, rng, i):
    text = gen.hostile(rng)
    if not ref.judgeable(text):
        text = ''.join(c for c in text if ref.judgeable(c))
    judge_lexing(mon, text)
    mon.case(text, text.strip() != '')
    mon.sample(policy=text)


@c01.workload('single_lexemes', 6000, 120000)
def c01_single(mon, rng, i):
    """One lexeme of each kind on its own, every printable character in strings and identifiers, long lexemes."""
    k = i % 6
    if k == 0:
        c = chr(i // 6 % 128) if rng.random() < 0.6 else gen.odd_char(rng)
        text = rng.choice((c, 'user.a' + c, 'user.a = ' + c + '1', c + 'TRUE', 'TRUE ' + c, '(TRUE' + c + ')'))
    elif k == 1:
        text = '"' + gen.string(rng, 5000) + '"'
    elif k == 2:
        text = rng.choice(ref.NAMESPACES) + '.' + ''.join(rng.choice(gen.IDENT) for _ in range(1 + rng.choice((
            0, 1, 5, 31, 32, 63, 64, 127, 128, 254, 255, 256, 1000))))
    elif k == 3:
        text = str(gen.number(rng)) if rng.random() < 0.7 else gen.float_text(gen.floating(rng))
        if rng.random() < 0.2:
            text = text + rng.choice(('.', '.5', '-', 'a', '"', '.a', ' .5', '..5'))
        elif rng.random() < 0.2:
            # numbers of many digits, with no, one or several dots
            text = ''.join(rng.choice('0123456789') for _ in range(dictionary.size(rng, 'hgpl', 60, 20) + 1))
            for _ in range(rng.randint(0, 3)):
                p = rng.randint(0, len(text))
                text = text[:p] + '.' + text[p:]
            text = rng.choice(('', '', '-')) + text
    elif k == 4:
        text = rng.choice(('AND', 'OR', 'NOT', 'IN', 'SUBSET', 'TRUE', 'FALSE', 'UNDEF', 'NULL', '=', '!=', '<', '>',
                           '<=', '>=', '{', '}', '(', ')', ','))
        text = ''.join(rng.choice((c.lower(), c.upper())) for c in text)
        if rng.random() < 0.2:
            text += rng.choice(gen.IDENT + '.=!')
    else:
        c = chr(rng.randint(1, 127))
        text = '"ab' + c + 'cd"'
    if rng.random() < 0.5:
        text = ' ' * rng.randint(0, 3) + text + rng.choice(gen.SPACES)
    odd = [j for j, c in enumerate(text) if ord(c) > 126 and not (c.isalpha() or c.isspace() or c.isdigit())]
    if odd:
        # neither letter, digit nor space of any script: no token contains it, and it is not passed over
        try:
            got = tokens(text)
        except LexerError as e:
            mon.check(0 <= e.pos <= odd[0] + 1, 'lexical error reported past the offending character', policy=text, pos=e.pos)
        else:
            raise Violation('text with a character of no token is accepted', policy=text, got=got)
        mon.event('odd_characters')
        mon.case(text)
        return
    if not ref.judgeable(text):
        mon.event('not_judged')
        return
    judge_lexing(mon, text)
    mon.case(text)


KEYWORDS = ('AND', 'OR', 'NOT', 'IN', 'SUBSET', 'TRUE', 'FALSE', 'UNDEF', 'NULL') + ref.NAMESPACES
# letters of other scripts and signs that some case mapping turns into a letter of a keyword
ALIKE = {'s': '\u017f\uff53\u0455', 'i': '\u0131\u0130\uff49\u0456', 'n': '\uff4e\u2115', 'o': '\u043e\uff4f\u03bf', 'a': '\u0430\uff41',
         'e': '\u0435\uff45', 'u': '\uff55', 't': '\uff34', 'r': '\uff32', 'f': '\ufb00', 'c': '\u0441', 'd': '\uff24'}


@c01.workload('near_keywords', 4000, 60000)
def c01_near(mon, rng, i):
    """Words that are nearly keywords: lengthened, shortened, misspelt, or written with letters that look alike."""
    w = KEYWORDS[i % len(KEYWORDS)]
    w = ''.join(rng.choice((c.lower(), c.upper())) for c in w)
    alike = [j for j, c in enumerate(w) if c.lower() in ALIKE]
    if i % 3 == 0 and alike:
        j = rng.choice(alike)
        w = w[:j] + rng.choice(ALIKE[w[j].lower()]) + w[j + 1:]
        odd = True
    else:
        odd = False
        for _ in range(rng.randint(1, 2)):
            p = rng.randint(0, len(w))
            w = rng.choice((w + rng.choice(('s', 'ed', 'ined', 'e', 'd', '_', '0', 'not', 'able', 'y')), w[:-1], w[1:], w[:p] + w[p + 1:],
                            w[:p] + rng.choice(gen.IDENT) + w[p:], w[:p] + w[p:p + 1] + w[p:], w[::-1], w + w,
                            rng.choice(('un', 'x', 'non', 'is')) + w))
    if w.lower().startswith(ref.NAMESPACES) or rng.random() < 0.2 or KEYWORDS[i % len(KEYWORDS)] in ref.NAMESPACES:
        w += '.' + gen.ident(rng)
    before = rng.choice(('', '', ' ', 'TRUE AND ', '(', 'user.a ', 'NOT '))
    text = before + w + rng.choice(('', '', ' ', ' TRUE', ')', ' {1}', '=5', ' AND FALSE'))
    mon.case(text)
    if not odd:
        judge_lexing(mon, text)
        mon.event('near_keywords')
        return
    try:
        got = tokens(text)
    except LexerError as e:
        mon.check(len(before) <= e.pos <= len(before) + len(w), 'lexical error reported away from the offending word', policy=text,
                  pos=e.pos)
    else:
        raise Violation('a word that is no keyword is taken for one', policy=text, got=got)
    mon.event('look_alikes')


# ---------------------------------------------------------------------------------------------------------------- C02
c02 = core.register(
    'C02', 'Random policy trees rendered to text: the parse tree must be the rendered tree (precedence, associativity, '
    'operands, positions). Mutated and shuffled token sequences: accepted exactly when the reference grammar derives '
    'them, with its tree. Non-trivial: more than one tree node, or a rejection; distinct by text.',
    ['hgpl/parsing.py', 'hgpl/ast.py'], require={'accepted': 500, 'rejected': 300, 'set:ops': 8})


def judge_parse(mon, text, want):
    """want: tree with positions, or SynFail"""
    form = len(text) % 7
    try:
        if form == 1:
            # the tokens themselves, with the text they came from
            lx = Lexer(text)
            lx.tokenize()
            p = Parser(lx.toke_list(), text)
        else:
            lx = Lexer(text)
            if form == 2:
                lx.tokenize()
            elif form > 3:
                # a lexer that was already stepped some tokens into the text
                for _ in range(form - 3):
                    lx.next()
            p = Parser(lx)
        node = p.parse()
    except ParserError as e:
        if not isinstance(want, ref.SynFail):
            raise Violation('a valid policy is rejected: %s' % e, policy=text)
        mon.check(e.pos == want.pos, 'syntax error is not reported at the first token that cannot continue a policy',
                  policy=text, pos=e.pos, want=want.pos)
        mon.event('rejected')
        return None
    if isinstance(want, ref.SynFail):
        raise Violation('a text that is not a policy is accepted', policy=text, got=to_tree(node))
    got = to_tree(node)
    mon.check(same_tree(got, want), 'parse tree differs', policy=text, got=got, want=want)
    mon.equal(p.policy(), text, 'the parser does not report its policy text', policy=text)
    mon.event('accepted')
    return node


def _count(tree):
    n, todo = 0, [tree]
    while todo:
        t = todo.pop()
        n += 1
        if t[0] in ('and', 'or'):
            todo += [t[1], t[2]]
        elif t[0] == 'not':
            todo.append(t[1])
        elif t[0] == 'op':
            todo += [t[2], t[3]]
        elif t[0] == 'set':
            todo += list(t[1])
    return n


@c02.workload('rendered', 8000, 240000)
def c02_rendered(mon, rng, i):
    g = gen.Gen(rng)
    g.big = 0.01
    text, tree, toks = gen.render(g.policy(80), rng)
    node = judge_parse(mon, text, tree)
    mon.equal(node.calc_num_nodes(), _count(tree), 'node count differs', policy=text)
    for a in ref.atoms_in_order(tree):
        if a[0] == 'op':
            mon.seen('ops', a[1])
    if i % 4 == 0:
        # parsing a token list instead of a lexer gives the same tree, and repeated parses are equal
        lx = Lexer(text)
        lx.tokenize()
        other = Parser(lx.toke_list(), text).parse()
        mon.check(same_tree(to_tree(other), tree), 'parsing the token list gives another tree', policy=text)
        mon.check(other == node and not (other != node), 'equal trees do not compare equal', policy=text)
    mon.case(text, len(toks) > 3)
    mon.sample(policy=text)


@c02.workload('chains', 3000, 60000)
def c02_chains(mon, rng, i):
    """Flat and nested chains of AND / OR / NOT without parentheses: precedence and left associativity."""
    g = gen.Gen(rng, 2)
    n = rng.choice((2, 3, 4, 5, 8, 16, 40, 120))
    parts, want_or, want_and, pos = [], None, None, 0
    text = ''

    def put(s):
        nonlocal text
        p = len(text)
        text += s
        return p

    for k in range(n):
        if k:
            op = rng.choice(('AND', 'OR'))
            oppos = put(' ' + op + ' ') + 1
        nots = rng.random() < 0.3
        if nots:
            notpos = put('NOT ')
        a = rng.choice(g.pool)
        leafpos = put('user.' + a) if nots or rng.random() < 0.6 else None
        if leafpos is not None:
            leaf = ('att', 'user', a, leafpos)
            if nots:
                leaf = ('not', leaf, notpos)
        else:
            p1 = put('env.' + a)
            p2 = put(' = ') + 1
            p3 = put('1')
            leaf = ('op', '=', ('att', 'env', a, p1), ('int', 1, p3), p2)
        if k == 0:
            want_and = leaf
        elif op == 'AND':
            want_and = ('and', want_and, leaf, oppos)
        else:
            want_or = want_and if want_or is None else ('or', want_or[0], want_and, want_or[1])
            want_or = (want_or, oppos)
            want_and = leaf
    want = want_and if want_or is None else ('or', want_or[0], want_and, want_or[1])
    judge_parse(mon, text, want)
    mon.case(text)


@c02.workload('mutated', 9000, 260000)
def c02_mutated(mon, rng, i):
    g = gen.Gen(rng)
    text, tree, toks = gen.render(g.policy(12), rng)
    text = gen.drop_tokens(rng, toks, text) if rng.random() < 0.8 else gen.mutate(rng, text)
    if not ref.judgeable(text):
        return
    try:
        toks = ref.lex(text)
    except ref.LexFail:
        mon.event('lexical_error')
        return
    try:
        want = ref.parse(toks)
    except ref.SynFail as f:
        want = f
    judge_parse(mon, text, want)
    mon.case(text)
    mon.sample(policy=text, valid=not isinstance(want, ref.SynFail))


TOKS = ('user.a', 'env.b', '5', '"s"', 'NULL', 'TRUE', '{', '}', ',', '(', ')', '=', 'IN', 'AND', 'OR', 'NOT')


@c02.workload('short_sequences', 16 + 256 + 4096 + 4000, 16 + 256 + 4096 + 65536 + 60000)
def c02_short(mon, rng, i):
    """Every sequence of up to 3 (quick) or 4 (thorough) tokens of a representative alphabet, then random longer ones."""
    k, n = i, 1
    while n <= 4 and k >= 16 ** n:
        k -= 16 ** n
        n += 1
    if n <= 3 or (n == 4 and k < 65536 and i >= 16 + 256 + 4096):
        words = []
        for _ in range(n):
            words.append(TOKS[k % 16])
            k //= 16
        if n == 4:
            words += [TOKS[rng.randrange(16)] for _ in range(rng.choice((0, 0, 1, 2, 3, 6)))]
    else:
        words = [TOKS[rng.randrange(16)] for _ in range(rng.randint(5, 9))]
    text = ' '.join(words)
    try:
        want = ref.parse(ref.lex(text))
    except ref.SynFail as f:
        want = f
    judge_parse(mon, text, want)
    mon.case(text)


# ---------------------------------------------------------------------------------------------------------------- C03
c03 = core.register(
    'C03', 'Hostile text (random Unicode, fragments, mutations, truncations at every position, deep nesting, very long '
    'policies) through lexer, parser, type checker and evaluation, under a line-count budget: the outcome must be a '
    'tree / decision or one of the language\'s own errors, whose position lies in the text and whose excerpt is part '
    'of the text around it. Non-trivial: non-blank text; distinct by text.',
    ['hgpl/lexing.py', 'hgpl/parsing.py', 'hgpl/errors.py'],
    require={'accepted': 200, 'rejected': 500, 'errors_inspected': 500, 'step_budgets': 500})


def inspect_error(mon, e, text, level=ErrorType.ERROR):
    mon.check(isinstance(e.pos, int) and 0 <= e.pos <= len(text), 'error position lies outside the text', policy=text,
              pos=e.pos)
    for n in (0, 3, 10):
        near = e.near(n)
        if text == '':
            mon.check(not near, 'excerpt of an empty policy', near=near)
        else:
            mon.equal(near, text[max(0, e.pos - n):e.pos + n + 1], 'excerpt is not the text around the error position',
                      policy=text, pos=e.pos)
    s = str(e)
    if text:
        mon.check(e.near() in s, 'message does not quote the text around the position', policy=text, message=s)
    mon.check(('char %d' % e.pos) in s, 'message does not name the position', policy=text, message=s)
    mon.check(e.type == level, 'a finding does not have the level of its kind', policy=text, level=e.type)
    mon.event('errors_inspected')


def front(mon, text, stage=3):
    """Runs the pipeline under a line budget linear in the text; outcome name."""
    budget = core.StepBudget(20000 + 600 * len(text)) if len(text) <= 400 else None
    if budget:
        budget.start()
        mon.event('step_budgets')
    try:
        try:
            node = Parser(Lexer(text)).parse()
        except (LexerError, ParserError) as e:
            if budget:
                budget.stop()
            inspect_error(mon, e, text)
            mon.event('rejected')
            mon.seen('error_kinds', type(e).__name__)
            if isinstance(e, ParserError) and text.count('(') < 60:     # (where nesting is too deep depends on the stack)
                # the same tokens and text handed over apart
                lx = Lexer(text)
                lx.tokenize()
                try:
                    Parser(lx.toke_list(), text).parse()
                except ParserError as e2:
                    inspect_error(mon, e2, text)
                    mon.equal(e2.pos, e.pos, 'the error moves with the way the policy is handed over', policy=text)
                else:
                    raise core.Violation('a rejected policy is accepted as a list of its tokens', policy=text)
            return 'rejected'
        mon.event('accepted')
        if stage >= 2:
            tc = TypeChecker(node, text)
            issues = tc.check()
            for w in issues:
                mon.check(0 <= w.pos <= len(text), 'type issue position outside the text', policy=text)
        if stage >= 3:
            try:
                Interpreter(node, text).evaluate()
            except InterpreterError as e:
                mon.event('evaluation_errors')
        return 'accepted'
    finally:
        if budget:
            budget.stop()


@c03.workload('hostile', 2500, 60000)
def c03_hostile(mon, rng, i):
    text = gen.hostile(rng)
    front(mon, text)
    mon.case(text, text.strip() != '')
    mon.sample(policy=text)


@c03.workload('mutated', 2500, 60000)
def c03_mutated(mon, rng, i):
    g = gen.Gen(rng)
    text, tree, toks = gen.render(g.policy(15), rng)
    text = gen.mutate(rng, text)
    if rng.random() < 0.3:
        p = rng.randint(0, len(text))
        text = text[:p] + chr(rng.choice((0, 0x85, 0xa0, 0xb2, 0xe9, 0x663, 0x2028, 0x3000, 0xd800, 0x1d7d9, 0x10ffff,
                                          rng.randint(128, 0x10ffff)))) + text[p:]
    front(mon, text)
    mon.case(text)


@c03.workload('truncated', 120, 3000)
def c03_truncated(mon, rng, i):
    """Every prefix and every suffix of a valid policy."""
    g = gen.Gen(rng)
    text, tree, toks = gen.render(g.policy(6), rng)
    text = text[:160]
    for p in range(len(text) + 1):
        front(mon, text[:p], 1)
        front(mon, text[p:], 1)
        mon.case(text[:p])
        mon.case(text[p:])


@c03.workload('judged', 1500, 40000)
def c03_judged(mon, rng, i):
    """Policies that parse, checked and evaluated against a table: every finding points into the text, whichever way
    the policy is handed over."""
    g = gen.Gen(rng)
    text, tree, toks = gen.render(g.policy(10), rng)
    text = ' ' * rng.choice((0, 0, 0, 1, 12)) + text
    table = build_table(g.table(tree))
    starts = {t[2] for t in tokens(text)}
    node = Parser(Lexer(text)).parse()
    parser = lambda: Parser(Lexer(text))

    def inspect(e):
        inspect_error(mon, e, text, e.type)
        mon.check(e.pos in starts, 'the position reported is not where a token starts', policy=text, pos=e.pos)

    lx = Lexer(text)
    lx.tokenize()
    listed = lambda: Parser(lx.toke_list(), text)
    for form in (lambda: TypeChecker(parser()), lambda: TypeChecker(node, text), lambda: TypeChecker(listed())):
        tc = form()
        for w in tc.check():
            inspect(w)
            mon.event('type_issues')
        try:
            form().check(min_error_level=ErrorType.WARN)
        except TypeCheckerError as e:
            inspect(e)
    for form in (lambda: Interpreter(parser()), lambda: Interpreter(node, text), lambda: Interpreter(listed())):
        try:
            it = form()
            it.evaluate(table)
            for w in it.get_warnings():
                inspect(w)
                mon.event('evaluation_warnings')
            form().evaluate(table, ErrorType.WARN)
        except InterpreterError as e:
            inspect(e)
            mon.event('evaluation_errors')
    mon.case(text)


@c03.workload('deep_and_long', 60, 600)
def c03_deep(mon, rng, i):
    n = rng.choice((50, 100, 200, 400, 900, 1500, 4000, 20000))
    k = i % 10
    if k == 0:
        text = '(' * n + 'TRUE' + ')' * n
    elif k == 1:
        text = 'NOT (' * n + 'user.a' + ')' * n
    elif k == 2:
        text = '(' * n
    elif k == 3:
        text = ')' * n
    elif k == 4:
        text = '{' * n
    elif k == 5:
        text = 'user.a IN {' + ','.join('%d' % j for j in range(n)) + rng.choice(('}', '', ','))
    elif k == 6:
        text = 'user.a = "' + 'x' * n + rng.choice(('"', ''))
    elif k == 7:
        text = rng.choice((' AND ', ' OR ')).join('user.a' for _ in range(n))
    elif k == 8:
        text = '9' * n + '.' + '9' * n + ' > ' + '-' + '9' * n
    else:
        text = ' ' * n + 'user.' + 'a' * n + '\n' * n
    front(mon, text, 1)
    mon.case(text)
    mon.event('deep_cases')
