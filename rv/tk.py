"""A window system that exists only in memory: stand-ins for tkinter and ttk that keep what is shown, so that a program's
windows can be read and operated without a display. Widgets accept every option and method; those that matter here behave."""
import sys
import types

CONSTANTS = dict(
    N='n', S='s', E='e', W='w', NW='nw', SW='sw', NE='ne', SE='se', NS='ns', EW='ew', NSEW='nsew', CENTER='center', NONE='none', X='x',
    Y='y', BOTH='both', LEFT='left', TOP='top', RIGHT='right', BOTTOM='bottom', RAISED='raised', SUNKEN='sunken', FLAT='flat',
    RIDGE='ridge', GROOVE='groove', SOLID='solid', HORIZONTAL='horizontal', VERTICAL='vertical', NORMAL='normal', DISABLED='disabled',
    ACTIVE='active', HIDDEN='hidden', END='end', INSERT='insert', WORD='word', CHAR='char', YES=True, NO=False, TRUE=True, FALSE=False,
    ON=True, OFF=False, BROWSE='browse', SINGLE='single', MULTIPLE='multiple', EXTENDED='extended', ANCHOR='anchor', ALL='all',
    SEL='sel', SEL_FIRST='sel.first', SEL_LAST='sel.last')

MADE = []       # every widget, in order of making


class Widget(object):
    def __init__(self, master=None, cnf=None, **kw):
        self.master = master
        self.options = dict(cnf or {}, **kw)
        self.alive, self.bindings, self.text, self.where = True, {}, '', {}
        MADE.append(self)

    def configure(self, cnf=None, **kw):
        if isinstance(cnf, str):
            return (cnf, cnf, cnf, None, self.options.get(cnf))
        self.options.update(cnf or {}, **kw)
    config = configure

    def cget(self, key):
        return self.options.get(key)
    __getitem__ = cget

    def __setitem__(self, key, value):
        self.options[key] = value

    def grid(self, cnf=None, **kw):
        self.where = dict(cnf or {}, **kw)
    grid_configure = grid

    def after(self, ms=0, fn=None, *args):
        if fn is not None:
            fn(*args)
        return 'after#0'

    def after_idle(self, fn, *args):
        return self.after(0, fn, *args)

    def winfo_children(self):
        return [w for w in MADE if w.alive and w.master is self]

    def winfo_exists(self):
        return int(self.alive)

    def winfo_toplevel(self):
        w = self
        while w.master is not None:
            w = w.master
        return w

    def keys(self):
        return list(self.options)

    def grid_info(self):
        return dict(self.where)

    def inside(self, *texts):
        """Whether the widget is in frames with these titles, from the inside out."""
        texts, w = list(texts), self.master
        while w is not None and texts:
            if w.options.get('text') == texts[0]:
                texts.pop(0)
            w = w.master
        return not texts

    def bind(self, event=None, fn=None, add=None):
        self.bindings.setdefault(event, []).append(fn)

    def destroy(self):
        self.alive = False
        for w in MADE:
            if w.alive and w.master is self:
                w.destroy()

    def state(self, spec=None):
        if spec is None:
            return (self.options.get('state', 'normal'),)
        for s in spec if isinstance(spec, (list, tuple)) else [spec]:
            self.options['state'] = 'disabled' if s == 'disabled' else 'normal' if s == '!disabled' else self.options.get('state', 'normal')

    def instate(self, spec):
        off = self.options.get('state', 'normal') == 'disabled'
        return all(off == (s == 'disabled') for s in spec)

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return lambda *a, **k: None


class Button(Widget):
    def invoke(self):
        if self.options.get('state', 'normal') != 'disabled' and self.options.get('command'):
            return self.options['command']()


class _Field(Widget):
    """One line of text."""

    def get(self):
        v = self.options.get('textvariable')
        return v.get() if v is not None else self.text

    def _put(self, text):
        v = self.options.get('textvariable')
        if v is not None:
            v.set(text)
        self.text = text

    def delete(self, first, last=None):
        if self.options.get('state', 'normal') == 'normal':
            t = self.get()
            n = len(t)
            a = n if first == 'end' else int(first)
            b = a + 1 if last is None else n if last == 'end' else int(last)
            self._put(t[:a] + t[b:])

    def insert(self, index, text):
        if self.options.get('state', 'normal') == 'normal':
            t = self.get()
            a = len(t) if index == 'end' else int(index)
            self._put(t[:a] + str(text) + t[a:])

    def set(self, text):
        self._put(str(text))


class Entry(_Field):
    pass


class Combobox(_Field):
    def current(self, n=None):
        v = list(self.options.get('values') or ())
        if n is None:
            return v.index(self.get()) if self.get() in v else -1
        self._put(v[n])


class Text(Widget):
    """Many lines; while disabled it cannot be changed."""

    def _at(self, index):
        """Characters before a place given as line.column, 'end' or 'end-1c'."""
        index, back = str(index).replace(' ', '').lower(), 0
        if index.endswith(('-1c', '-1chars')):
            index, back = index[:index.index('-')], 1
        if index == 'end':
            return len(self.text) + 1 - back
        if index == 'insert' or '.' not in index:
            return len(self.text) if index == 'insert' else 0
        line, col = index.split('.')
        lines = self.text.split('\n')
        n = int(line) - 1
        if n >= len(lines):
            return len(self.text) + 1 - back
        head = sum(len(x) + 1 for x in lines[:max(n, 0)])
        return head + (len(lines[n]) if col == 'end' else min(int(col), len(lines[n]))) - back

    def insert(self, index, text, *tags):
        if self.options.get('state', 'normal') == 'normal':
            i = min(self._at(index), len(self.text))
            self.text = self.text[:i] + str(text) + self.text[i:]

    def delete(self, first, last=None):
        if self.options.get('state', 'normal') == 'normal':
            i = self._at(first)
            self.text = self.text[:i] + self.text[i + 1 if last is None else max(i, self._at(last)):]

    def replace(self, first, last, text, *tags):
        self.delete(first, last)
        self.insert('end', text)

    def get(self, first='1.0', last='end'):
        return (self.text + '\n')[self._at(first):self._at(last)]


class Listbox(Widget):
    def __init__(self, *a, **k):
        Widget.__init__(self, *a, **k)
        self.lines, self.chosen = [], ()

    def _at(self, index):
        if isinstance(index, (tuple, list)) and len(index) == 1:
            index = index[0]
        if index == 'end':
            return len(self.lines)
        if isinstance(index, (tuple, list)) or index is None or not str(index).lstrip('-').isdigit():
            raise TclError('bad listbox index "%s"' % (index,))
        return int(index)

    def insert(self, index, *lines):
        i = self._at(index)
        self.lines[i:i] = list(map(str, lines))

    def get(self, first, last=None):
        if last is None:
            return self.lines[self._at(first)]
        return tuple(self.lines[self._at(first):self._at(last) + 1])

    def delete(self, first, last=None):
        a = self._at(first)
        del self.lines[a:(a if last is None else self._at(last)) + 1]
        self.chosen = ()

    def size(self):
        return len(self.lines)

    def curselection(self):
        return self.chosen

    def selection_set(self, first, last=None):
        self.chosen = (int(first),)
    select_set = selection_set

    def selection_clear(self, first=0, last=None):
        self.chosen = ()


class TclError(Exception):
    pass


def _shown(v):
    """A value as it comes back from the window system."""
    return v if isinstance(v, int) and not isinstance(v, bool) else str(v)


class Treeview(Widget):
    def __init__(self, *a, **k):
        Widget.__init__(self, *a, **k)
        self.items, self.heads, self.selected, self.count = {'': {'parent': None, 'children': []}}, {}, (), 0

    def heading(self, column, option=None, **kw):
        self.heads.setdefault(column, {}).update(kw)
        return self.heads[column] if option is None else self.heads[column].get(option)

    def insert(self, parent, index, iid=None, **kw):
        self.count += 1
        iid = iid or 'I%03X' % self.count
        if iid in self.items or parent not in self.items:
            raise Exception('no such place in the tree')
        self.items[iid] = {'parent': parent, 'children': [], 'text': _shown(kw.get('text', '')), 'values': self._values(kw.get('values', ()))}
        kids = self.items[parent]['children']
        kids.insert(len(kids) if index == 'end' else int(index), iid)
        return iid

    @staticmethod
    def _values(v):
        return [_shown(x) for x in (v if isinstance(v, (tuple, list)) else [v])] if v != '' else ''

    def item(self, iid, option=None, **kw):
        x = self.items[iid]
        if not kw:
            y = {'text': x['text'], 'image': '', 'values': list(x['values']), 'open': 0, 'tags': ''}
            return y if option is None else y[option]
        if 'values' in kw:
            x['values'] = self._values(kw['values'])
        if 'text' in kw:
            x['text'] = _shown(kw['text'])

    def set(self, iid, column=None, value=None):
        cols = list(self.options.get('columns', ()))
        v = self.items[iid]['values']
        if column is None:
            return dict(zip(cols, v))
        i = cols.index(column) if isinstance(column, str) and not column.startswith('#') else int(str(column).strip('#')) - 1
        if value is None:
            return v[i]
        v[i] = _shown(value)

    def parent(self, iid):
        return self.items[iid]['parent']

    def get_children(self, iid=None):
        return tuple(self.items[iid or '']['children'])

    def exists(self, iid):
        return iid in self.items

    def index(self, iid):
        return self.items[self.items[iid]['parent']]['children'].index(iid)

    def next(self, iid):
        kids = self.items[self.items[iid]['parent']]['children']
        i = kids.index(iid) + 1
        return kids[i] if i < len(kids) else ''

    def column(self, column, option=None, **kw):
        return kw

    def delete(self, *iids):
        for i in (iids[0] if len(iids) == 1 and isinstance(iids[0], (tuple, list)) else iids):
            self.delete(*self.items[i]['children'][:]) if self.items[i]['children'] else None
            self.items[self.items[i]['parent']]['children'].remove(i)
            del self.items[i]

    def selection(self):
        return self.selected

    def focus(self, iid=None):
        return self.selected[0] if self.selected else ''

    def identify_row(self, y):
        return self.focus()
    identify = lambda self, *a: self.focus()

    def selection_set(self, *items):
        self.selected = tuple(items[0]) if len(items) == 1 and isinstance(items[0], (tuple, list)) else items

    def nested(self, iid=''):
        """[(text, values, [children])]"""
        return [(self.items[c]['text'], tuple(self.items[c]['values']), self.nested(c)) for c in self.items[iid]['children']]


class Variable(object):
    def __init__(self, master=None, value='', name=None):
        self.value, self.watchers = value, []

    def get(self):
        return self.value

    def set(self, v):
        self.value = v
        for fn in self.watchers:
            fn('PY_VAR', '', 'write')

    def trace(self, mode, fn):
        if mode in ('w', 'write', ('write',), ['write']):
            self.watchers.append(fn)
        return 'watch'
    trace_add = trace_variable = trace


def modules():
    """{name: module} to stand in for tkinter."""
    tk, ttk = types.ModuleType('tkinter'), types.ModuleType('tkinter.ttk')
    constants = types.ModuleType('tkinter.constants')
    special = {'Button': Button, 'Entry': Entry, 'Text': Text, 'Spinbox': _Field, 'Listbox': Listbox}
    for m, extra in ((tk, ()), (ttk, (('Treeview', Treeview), ('Combobox', Combobox)))):
        for n in ('Tk', 'Toplevel', 'Frame', 'Label', 'LabelFrame', 'Labelframe', 'Canvas', 'Scrollbar', 'Menu', 'PanedWindow', 'Style',
                  'Notebook', 'Separator', 'Checkbutton', 'Radiobutton', 'Message', 'Scale', 'Progressbar', 'Sizegrip', 'Misc', 'Widget'):
            setattr(m, n, type(n, (Widget,), {}))
        for n, c in special.items():
            setattr(m, n, type(n, (c,), {}))
        for n, c in extra:
            setattr(m, n, c)
    for n in ('Variable', 'StringVar', 'IntVar', 'BooleanVar', 'DoubleVar'):
        setattr(tk, n, type(n, (Variable,), {}))
    for n, v in CONSTANTS.items():
        setattr(tk, n, v)
        setattr(constants, n, v)
    tk.TclError = TclError
    tk.ttk, tk.constants = ttk, constants
    tk.__path__ = []
    tk.__all__ = [n for n in vars(tk) if not n.startswith('_') and n not in ('ttk', 'constants')]
    out = {'tkinter': tk, 'tkinter.ttk': ttk, 'tkinter.constants': constants}
    for n in ('messagebox', 'simpledialog', 'filedialog', 'scrolledtext', 'font'):
        m = types.ModuleType('tkinter.' + n)
        m.__getattr__ = lambda name: (lambda *a, **k: None)
        setattr(tk, n, m)
        out['tkinter.' + n] = m
    return out


def install():
    sys.modules.update(modules())
