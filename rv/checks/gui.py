"""C30 the demonstration window."""
import ast
import io
import re
import sys

from rv import core, hgplgen as gen, hgplref as ref, tk
from rv.hgpl import Lexer, Parser, TypeChecker, Interpreter, HGPLError, ErrorType, build_table, ATT_TYPE

tk.install()
from hgpl.gui import demos                                                                                        # noqa

c30 = core.register(
    'C30', 'The demonstration window (on a window system in memory) is operated as a user does: policies chosen, its steps '
    'pressed in any order and repeatedly, attributes edited. After each press the lists, trees, console and buttons are read '
    'and compared with what the engine gives for that policy and the attribute values entered. Non-trivial: the policy was '
    'evaluated or refused; distinct by policy text and step history.', ['hgpl/gui/demos.py'],
    require={'presses': 20000, 'tokens_compared': 20000, 'trees_compared': 20000, 'decisions_compared': 4000,
             'repeated_decisions': 500, 'edits_taken': 4000, 'edits_refused': 400, 'unchanged_submissions': 1000,
             'refusals': 1000, 'not_offered': 5000, 'resets': 1500, 'set:decisions': 3, 'set:refused_by': 3, 'set:edited': 5})

STEPS = ('Tokenize', 'Parse', 'Type Check', 'Interpret')
ROOTS = {'User Attributes': 'user', 'Object Attributes': 'object', 'Environment Attributes': 'env',
         'Connection Attributes': 'connect', 'Admin Attributes': 'admin'}


def loose(x):
    """Text of a value, without the order in which a set happens to list its members."""
    return ''.join(sorted(re.sub(' at 0x[0-9a-f]+', '', str(x))))


class Window(object):
    """The window and what it should show."""

    def __init__(self, mon, policies=None, table=None, default=False):
        del tk.MADE[:]
        self.mon, self.table = mon, dict(table or {})
        if default:
            demo = demos.LexerDemo()
        else:
            demo = demos.LexerDemo(policies, build_table(self.table))
        demo.run()
        self.policies = demo.policies
        if default:
            for s in demo.symbol_table.symbols():
                self.table[({v: k for k, v in ATT_TYPE.items()}[s.att_type], s.att_name)] = (s.type.name, s.value)
        self.policy, self.history = None, []
        self.start()
        combo = self.last(tk.Combobox)
        mon.check(list(combo.options.get('values') or ()) == list(self.policies), 'the window does not offer the policies it was given',
                  got=list(combo.options.get('values') or ()), want=self.policies)
        self.compare('opening')

    def start(self):
        self.tokens = self.tree = self.symbols = None       # what should be shown; None: nothing
        self.offered = {'Tokenize'}

    # reading the window -------------------------------------------------------------------------------------------------
    @staticmethod
    def last(kind, ok=lambda w: True):
        for w in reversed(tk.MADE):
            if isinstance(w, kind) and w.alive and ok(w):
                return w
        raise core.Violation('the window lacks something it should have', looked_for=kind.__name__)

    def button(self, text):
        return self.last(tk.Button, lambda w: w.options.get('text') == text)

    def tree_with(self, *heads):
        want = set(heads)
        return self.last(tk.Treeview, lambda w: {h.get('text') for h in w.heads.values()} == want and not self.is_atts(w))

    @staticmethod
    def is_atts(w):
        return any(w.items[c]['text'] in ROOTS for c in w.items['']['children'])

    def atts(self):
        return self.last(tk.Treeview, self.is_atts)

    @property
    def console(self):
        return self.last(tk.Text).text

    # comparing ----------------------------------------------------------------------------------------------------------
    def bad(self, what, **kw):
        raise core.Violation(what, policy=self.policy, history=self.history[-12:],
                             attributes={'.'.join(k): v for k, v in self.table.items()}, **kw)

    def compare(self, step):
        """Everything that is shown, against what should be."""
        shown = [(t, v, k) for t, v, k in self.tree_with('Type', 'Value', 'Position').nested()]
        want = [(t.type.name, (str(t.value), t.pos), []) for t in self.tokens or ()]
        if [(a, tuple(map(str, b)), c) for a, b, c in shown] != [(a, tuple(map(str, b)), c) for a, b, c in want]:
            self.bad('the token list shown is not the one of the policy', step=step, got=shown, want=want)
        self.mon.event('tokens_compared')
        shown = self.tree_with('Token', 'Value', 'Result').nested()
        if self.tree != '?':
            want = [self.tree] if self.tree is not None else []
            if not self.same(shown, want):
                self.bad('the tree shown is not the one of the policy', step=step, got=shown, want=want)
            self.mon.event('trees_compared')
        shown = sorted((a, b[0], loose(b[1]), c) for a, b, c in self.tree_with('Name', 'Type', 'Value').nested())
        if self.symbols != '?':
            want = sorted((a, b, loose(c), []) for a, b, c in self.symbols or ())
            if shown != want:
                self.bad('the symbols shown are not the ones of the policy', step=step, got=shown, want=want)
        self.compare_atts(step)
        if self.tokens is not None and self.last(tk.Combobox).options.get('state', 'normal') != 'disabled':
            self.bad('another policy can be chosen between the steps', step=step)
        for s in STEPS:
            on = self.button(s).options.get('state', 'normal') != 'disabled'
            if on and s not in self.offered and s not in self.may:
                self.bad('a step is offered that the steps before do not allow', step=step, offered=s)
            if not on and s in self.offered:
                self.bad('a step that should come next is not offered', step=step, missing=s)
            if not on:
                self.mon.event('not_offered')
    may = ()

    def compare_atts(self, step):
        got = {}
        for root, _, kids in self.atts().nested():
            for name, values, _ in kids:
                got[(ROOTS.get(root), str(name))] = (values[0], values[1])
        if set(got) != set(self.table):
            self.bad('the attributes shown are not the ones there are', step=step, got=sorted(map(str, got)), want=sorted(map(str, self.table)))
        for k, (st, v) in self.table.items():
            text = str(got[k][1])
            ok = loose(text) == loose(v) or isinstance(v, bool) and text.split('.')[-1].lower() == str(v).lower()
            if got[k][0] != st or not ok:
                self.bad('an attribute is shown with another value or type', step=step, attribute=k, got=got[k], want=(st, v))

    def same(self, a, b):
        return len(a) == len(b) and all(
            x[0] == y[0] and [loose(v) for v in x[1]] == [loose(v) for v in y[1]] and self.same(x[2], y[2]) for x, y in zip(a, b))

    def nested(self, node):
        return (node.ttype().name, (node.tvalue(), node.result), [self.nested(k) for k in node.children()])

    # operating ----------------------------------------------------------------------------------------------------------
    def choose(self, text):
        c = self.last(tk.Combobox)
        if c.options.get('state', 'normal') == 'disabled':
            self.bad('after a reset no other policy can be chosen')
        c.set(text)
        self.policy = text
        self.history.append(('choose', text))

    def press(self, step):
        """Presses a button; nothing may escape. Returns what the console gained."""
        before = self.console
        b = self.button(step)
        on = b.options.get('state', 'normal') != 'disabled'
        self.history.append(step)
        try:
            b.invoke()
        except Exception as e:
            self.bad('a step ends with an exception', step=step, error=repr(e))
        self.mon.event('presses')
        after = self.console
        if step == 'Reset':
            self.start()
            self.may = ()
            self.mon.event('resets')
        elif on:
            getattr(self, '_' + step.replace(' ', '_').lower())(after[len(before):] if after.startswith(before) else after)
        elif after != before:
            self.bad('a step that is not offered can be taken', step=step)
        self.compare(step)

    def refused(self, e, said, step):
        self.mon.event('refusals')
        self.mon.seen('refused_by', step)
        if str(e) not in said:
            self.bad('the reason for a refusal is not shown', step=step, got=said, want=str(e))

    def _tokenize(self, said):
        self.start()
        self.may = ()
        try:
            lx = Lexer(self.policy)
            lx.tokenize()
            self.tokens = lx.toke_list()
        except HGPLError as e:
            self.refused(e, said, 'Tokenize')
        else:
            self.quiet(said, 'Tokenize')
            self.offered, self.may = {'Parse'}, ('Tokenize',)

    def _parse(self, said):
        self.tree = self.symbols = None
        try:
            self.tree = self.nested(Parser(Lexer(self.policy), self.policy).parse())
        except HGPLError as e:
            self.refused(e, said, 'Parse')
            self.offered, self.may = set(), ('Tokenize', 'Parse')
        else:
            self.quiet(said, 'Parse')
            self.offered, self.may = {'Type Check'}, ('Tokenize', 'Parse')

    def _type_check(self, said):
        node = Parser(Lexer(self.policy), self.policy).parse()
        self.offered, self.may = set(), ('Tokenize', 'Parse', 'Type Check')
        try:
            tc = TypeChecker(node, self.policy)
            tc.check()
        except HGPLError as e:
            self.symbols = None
            return self.refused(e, said, 'Type Check')
        self.symbols = [(s.name, s.type.name, s.value) for s in tc.get_symbol_table().symbols()]
        res = tc.get_result().name
        self.says(said, res, 'Type Check', list(tc.get_errors()) + list(tc.get_warnings()), ('PASS', 'WARN', 'FAIL', 'ERROR'))
        if res in ('PASS', 'WARN'):
            self.offered = {'Interpret'}
        else:
            self.mon.event('refusals')
            self.mon.seen('refused_by', 'Type Check')

    def _interpret(self, said):
        node = Parser(Lexer(self.policy), self.policy).parse()
        tc = TypeChecker(Parser(Lexer(self.policy), self.policy).parse(), self.policy)
        tc.check()
        self.offered = {'Interpret'}
        self.may = STEPS
        table = build_table(self.table)
        try:
            it = Interpreter(node, self.policy)
            res = it.evaluate(table, ErrorType.ERROR).name
        except HGPLError as e:
            self.refused(e, said, 'Interpret')
            self.tree = self.symbols = '?'
            return
        self.says(said, res, 'Interpret', it.get_warnings(), ('TRUE', 'FALSE', 'UNDEF', 'UNKNOWN'))
        self.mon.event('decisions_compared')
        self.mon.seen('decisions', res)
        if self.history[-2:-1] == ['Interpret']:
            self.mon.event('repeated_decisions')
        self.tree = self.nested(node)
        self.symbols = [(s.name,) + ((table.lookup_type(s).name, table.lookup_value(s)) if table.exists(s) else (s.type.name, s.value))
                        for s in tc.get_symbol_table().symbols()]

    def quiet(self, said, step):
        if 'ERROR' in said.replace(self.policy, ''):
            self.bad('a step that succeeds is shown as failing', step=step, got=said)

    def says(self, said, res, step, issues, words):
        rest = said
        for e in sorted(map(str, issues), key=len, reverse=True):
            if e not in rest:
                self.bad('a problem found is not shown', step=step, got=said, want=e)
            rest = rest.replace(e, '', 1)
        got = [w for w in re.findall(r'\b[A-Z]{2,}\b', rest.replace('AST', '')) if w in words]
        if got != [res]:
            self.bad('the result shown is not the result', step=step, got=said, want=res)

    # editing ------------------------------------------------------------------------------------------------------------
    def edit(self, key, text, value, taken):
        """Types text as the new value of an attribute (None: leaves what stands there)."""
        t = self.atts()
        for i, item in t.items.items():
            if i and item.get('text') == key[1] and ROOTS.get(t.items.get(item['parent'], {}).get('text')) == key[0]:
                break
        else:
            self.bad('an attribute is not shown', attribute=key)
        self.history.append(('edit', key, text))
        out, sys.stdout = sys.stdout, io.StringIO()
        try:
            t.selection_set(i)
            for fn in t.bindings['<Double-1>']:
                fn(type('Event', (), {'widget': t, 'x': 1, 'y': 1})())
            e = self.last(tk.Entry)
            if text is not None:
                e.delete(0, 'end')
                e.insert(0, text)
            self.button('Submit').invoke()
        except core.Violation:
            raise
        except Exception as e:
            self.bad('editing an attribute ends with an exception', attribute=key, text=text, error=repr(e))
        finally:
            sys.stdout = out
        self.mon.check(not [w for w in tk.MADE if isinstance(w, tk.Button) and w.alive and w.options.get('text') == 'Submit'],
                       'the edit dialog stays open')
        if taken:
            self.table[key] = (self.table[key][0], value)
        self.mon.event('unchanged_submissions' if text is None else 'edits_taken' if taken else 'edits_refused')
        self.mon.seen('edited', self.table[key][0])
        self.compare_atts('edit')


WORDS = ('doctor', 'CS1032', 'a_b', 'x', 'Admin', 'two words', '1a', 'v1.2', 'e5', 'née', '-', '007')


def some_edit(rng, g, win):
    """Edits an attribute that has a type one can enter values for."""
    keys = sorted(k for k, (st, v) in win.table.items() if st in ('INT', 'FLOAT', 'STRING', 'BOOL', 'SET'))
    if not keys:
        return
    k = rng.choice(keys)
    st, v = win.table[k]
    if rng.random() < 0.25 and fits(st, v):
        return win.edit(k, None, float(v) if st == 'FLOAT' else v, True)
    if st == 'INT':
        x = rng.choice((rng.randint(-5, 20), gen.number(rng)))
        text, v, ok = rng.choice(((str(x), x, True), (' %d ' % x, x, True), ('abc', 0, False), ('', 0, False), ('%d.5' % x, 0, False), ('1e3', 0, False)))
    elif st == 'FLOAT':
        x = rng.choice((round(rng.uniform(-9, 9), 2), 0.5, 1e22, -0.25))
        text, v, ok = rng.choice(((str(x), x, True), (repr(x) + ' ', x, True), ('7', 7.0, True), ('x', 0, False), ('', 0, False), ('1.2.3', 0, False)))
    elif st == 'STRING':
        a = [a[1] for a in g.atoms if a[0] == 'str']
        v = rng.choice(a) if a and rng.random() < 0.7 else rng.choice(WORDS + ('', '42', 'TRUE', 'a, b', '{x}', "it's"))
        text, ok = v, True
    elif st == 'BOOL':
        text, v = rng.choice((('true', True), ('True', True), (' TRUE', True), ('t', True), ('T', True), ('1', True), ('false', False), ('False', False),
                              ('f', False), ('0', False), ('no', False), ('', False)))
        ok = True
    else:
        atoms = [a[1] for a in g.atoms if a[0] in ('int', 'float') or a[0] == 'str' and re.fullmatch('[A-Za-z_]+', a[1])
                 and a[1].lower() not in ('true', 'false', 'none')]
        m = [rng.choice(atoms) if atoms and rng.random() < 0.6 else rng.choice(WORDS + (rng.randint(-9, 9), 2.5)) for _ in range(rng.choice((1, 2, 3, 6)))]
        v, ok = set(m), True
        sep = rng.choice((', ', ',', ' , '))
        quote = rng.random() < 0.5
        text = sep.join(repr(x) if quote or isinstance(x, float) else str(x) for x in m)
        if rng.random() < 0.6:
            text = '{' + text + '}'
        if rng.random() < 0.06:
            text, v = rng.choice((('{}', set()), ('', set()), ('set()', set())))
    win.edit(k, text, v, ok)


def fits(st, v):
    """Whether what is shown for the value says what the value is."""
    try:
        if st == 'STRING':
            return isinstance(v, str)
        if st == 'SET':
            return isinstance(v, (set, list)) and ast.literal_eval(str(v)) == v
        if st == 'BOOL':
            return isinstance(v, bool)
        return isinstance(v, int if st == 'INT' else (int, float)) and not isinstance(v, bool) and v == v
    except (ValueError, SyntaxError):
        return False


def policy(rng, g):
    """(text, table)"""
    text, tree, _ = gen.render(g.policy(rng.choice((1, 3, 8))), rng)
    table = g.table(tree, p_missing=0.04, p_none=0.03, p_wrong=0.04)
    x = rng.random()
    if x < 0.1:
        text = gen.mutate(rng, text)
    elif x < 0.14:
        text = gen.hostile(rng)
    return text, table


@c30.workload('steps', 3000, 60000)
def c30_steps(mon, rng, i):
    g = gen.Gen(rng)
    made = [policy(rng, g) for _ in range(rng.choice((1, 2, 3)))]
    table = {}
    for _, t in made:
        table.update(t)
    win = Window(mon, [p for p, _ in made], table)
    for text in [rng.choice(made)[0] for _ in range(rng.choice((1, 2, 4)))]:
        if win.policy is not None:
            win.press('Reset')
        win.choose(text)
        if rng.random() < 0.7:          # the usual order, with edits in between
            for s in STEPS:
                while rng.random() < 0.3:
                    some_edit(rng, g, win)
                win.press(s)
            for _ in range(rng.choice((0, 1, 3))):
                while rng.random() < 0.6:
                    some_edit(rng, g, win)
                win.press('Interpret')
        else:                           # any order
            for _ in range(rng.randint(3, 14)):
                win.press(rng.choice(STEPS))
                if rng.random() < 0.2:
                    some_edit(rng, g, win)
        mon.case((text, tuple(map(str, win.history))), win.tokens is not None)
    mon.sample(history=[str(h) for h in win.history[:20]])


@c30.workload('supplied', 400, 8000)
def c30_supplied(mon, rng, i):
    """The window as it is started on its own, with the policies and attributes it comes with."""
    g = gen.Gen(rng)
    win = Window(mon, default=True)
    mon.check(len(win.policies) > 0 and len(win.table) > 0, 'the demonstration comes without policies or attributes')
    for n in range(3):
        if n:
            win.press('Reset')
        names = sorted('.'.join(k) for k in win.table)
        k = tuple(rng.choice(names).split('.', 1))
        v = win.table[k][1]
        own = {'SET': '%s IN %s' % (rng.choice((1, 2, 5, '"att"', '"COMPSCI"')), '.'.join(k)), 'BOOL': '.'.join(k)}.get(
            win.table[k][0], '%s %s %s' % ('.'.join(k), rng.choice(('=', '!=')), '"%s"' % v if isinstance(v, str) and '"' not in v else
                                           v if isinstance(v, (int, float)) else rng.choice(('NULL', 3))))
        win.choose(rng.choice(list(win.policies) + [own] * 3))
        for s in STEPS:
            while rng.random() < 0.3:
                some_edit(rng, g, win)
            win.press(s)
        while rng.random() < 0.6:
            some_edit(rng, g, win)
            win.press('Interpret')
        mon.case(str(win.history), True)
