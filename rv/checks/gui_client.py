"""C31 the authority client's window."""
import ast
import base64
import io
import pprint
from datetime import datetime

from Crypto.Hash import SHA256
from Crypto.PublicKey import RSA
from Crypto.Signature import pkcs1_15

from rv import certgen as cg, core, keys, svc, tk
from rv.checks.svc_admin import Wire, Response, an_url, word

c31 = core.register(
    'C31', 'The window of the attribute authority client (on a window system in memory, joined to a recording transport) is '
    'operated in random histories: service, account, attribute lists and keys entered, requests answered with certificates, '
    'faults, bad statuses, unreadable attachments or not at all, certificates viewed and verified. After each press the calls '
    'sent and everything shown are compared with what was entered and received. Non-trivial: something was sent; distinct by '
    'history.', ['hgaa/clients/demos/aauth.py', 'hgaa/clients/aauth.py'],
    require={'requests': 400, 'certificates': 200, 'failures': 150, 'info': 100, 'views': 300, 'verified': 60, 'refuted': 60,
             'unreachable': 20, 'fresh_keys': 5, 'kept_keys': 100, 'resets': 60, 'list_edits': 300, 'set:failure': 6})


def setup(mon):
    svc.start_quiet()
    tk.install()
    import hgaa.clients.aauth                                                                                     # noqa
    import hgaa.clients.demos.aauth                                                                               # noqa


def readable(data):
    from hgaa.attcert import AttributeCertificate
    try:
        AttributeCertificate.decode(bytearray(data))
        return True
    except Exception:
        return False


def plain(shown):
    """What stands for bytes, whichever kind of bytes."""
    s = str(shown)
    s = s[len('bytearray('):-1] if s.startswith('bytearray(') else s
    try:
        return str(ast.literal_eval(s)) if s[:2] in ('b"', "b'") else s
    except (ValueError, SyntaxError):
        return s


class Window(object):
    def __init__(self, mon, rng):
        import hgaa.config as config
        import hgaa.clients.demos.aauth as demo
        del tk.MADE[:]
        self.mon, self.rng, self.history = mon, rng, []
        self.url = self.home = 'http://%s/desc' % word(rng)
        config.CLIENT_CONFIG['AAUTH'].update({'CLIENT_TYPE': 'JSONWSP', 'KEY_SIZE': '1024', 'SERVICE_DESCRIPTION': self.home,
                                              'CRED_TYPE': '0', 'CRED_USER': word(rng), 'CRED_PASS': word(rng)})
        demo.AAuthDemo().run()
        self.names, self.ids, self.key, self.data, self.verdict = [], [], None, None, 'Not Checked'
        self.user, self.password = (self.row('User Authentication', t).get() for t in ('Username:', 'Password:'))
        self.shown_tree, self.shown_cert, self.shown_result, self.used = [], '', '', set()

    # reading ------------------------------------------------------------------------------------------------------------
    def find(self, kind, ok=lambda w: True):
        for w in reversed(tk.MADE):
            if isinstance(w, kind) and w.alive and ok(w):
                return w
        raise core.Violation('the window lacks something it should have', looked_for=kind.__name__)

    def label(self, frame, text):
        return self.find(tk.Widget, lambda w: w.options.get('text') == text and w.inside(frame))

    def row(self, frame, text):
        """The field in the row of a label."""
        r = self.label(frame, text).where.get('row')
        return self.find(tk.Entry, lambda w: w.inside(frame) and w.where.get('row') == r)

    def button(self, text, *frames):
        return self.find(tk.Button, lambda w: w.options.get('text') == text and w.inside(*frames))

    def side(self, kind, which, text=None):
        """The list, field or button for attribute names or identifiers."""
        f = 'Activate Attributes'
        a, b = (self.label(f, t).where['column'] for t in ('Attributes by Name:', 'Attributes by ID:'))
        lo, hi = ((a, b) if a < b else (a, 99)) if which == 'names' else ((b, a) if b < a else (b, 99))
        return self.find(kind, lambda w: w.inside(f) and lo <= w.where.get('column', -1) < hi and (text is None or w.options.get('text') == text))

    def area(self, frame):
        return self.find(tk.Text, lambda w: w.inside(frame))

    def tree(self):
        return self.find(tk.Treeview).nested()

    # judging ------------------------------------------------------------------------------------------------------------
    def bad(self, what, **kw):
        raise core.Violation(what, history=self.history[-14:], **kw)

    def same(self, got, want, what, **kw):
        self.mon.check(True, what)
        if got != want:
            self.bad(what, got=got, want=want, **kw)

    def compare(self):
        self.same(list(self.side(tk.Listbox, 'names').lines), self.names, 'the list of names is not what was entered')
        self.same(list(self.side(tk.Listbox, 'ids').lines), self.ids, 'the list of identifiers is not what was entered')
        self.same(self.row('User Authentication', 'Username:').get(), self.user, 'the account name changed')
        self.same(self.row('User Authentication', 'Password:').get(), self.password, 'the password changed')
        shown = self.area('User Session Key').text.strip()
        self.same(RSA.import_key(shown).export_key() if shown else None, self.key and self.key.export_key(), 'another key is shown')
        v = self.find(tk.Widget, lambda w: str(w.options.get('text')).startswith('Verified')).options['text']
        self.same(v.split(':')[-1].strip(), self.verdict, 'the verification shown is not the one made')
        self.same(self.tree(), self.shown_tree, 'the certificate tree changed')
        self.same(self.area('Raw Attribute Certificate').text, self.shown_cert, 'the certificate shown changed')
        self.same(self.area('Request Response').text, self.shown_result, 'the answer shown changed')

    def press(self, b, fails=()):
        self.history.append(b.options.get('text'))
        try:
            b.invoke()
        except fails:
            pass
        except Exception as e:
            self.bad('a button ends with an exception', button=b.options.get('text'), error=repr(e))
        self.mon.event('presses')

    # entering -----------------------------------------------------------------------------------------------------------
    def type(self, entry, text):
        entry.delete(0, 'end')
        entry.insert(0, text)
        self.history.append(('type', text))

    def accounts(self):
        r = self.rng
        self.user, self.password = r.choice((word(r), 'Dan ' + word(r), ' x', 'ünï', '')), r.choice((word(r), ' ' + word(r) + ' ', '', 'p"\\w'))
        self.type(self.row('User Authentication', 'Username:'), self.user)
        self.type(self.row('User Authentication', 'Password:'), self.password)
        self.compare()

    def service(self, url):
        self.url = url
        self.type(self.row('Service Location', 'Service Description URL: '), url)

    def lists(self):
        r = self.rng
        which = r.choice(('names', 'ids'))
        have = getattr(self, which)
        box = self.side(tk.Listbox, which)
        if r.random() < 0.35:
            if have and r.random() < 0.8:
                i = r.randrange(len(have))
                box.selection_set(i)
                self.press(self.side(tk.Button, which, 'Delete'))
                del have[i]
            else:
                box.selection_clear(0)
                self.press(self.side(tk.Button, which, 'Delete'), (tk.TclError,))
        else:
            x = r.choice((word(r), '/att/' + word(r), r.choice(have) if have else 'a', '', '   ', 'Role', 'role', 'two words'))
            self.type(self.side(tk.Entry, which), x)
            self.press(self.side(tk.Button, which, 'Add'))
            if x.strip() and x not in have:
                have.append(x)
            self.same(self.side(tk.Entry, which).get(), '', 'an entered attribute stays in the field')
        self.mon.event('list_edits')
        self.compare()

    def generate(self):
        old = self.key
        self.press(self.button('Generate Key Pair'))
        self.key = RSA.import_key(self.area('User Session Key').text)
        if not self.key.has_private() or self.key.size_in_bits() != 1024 or old is not None and old.n == self.key.n:
            self.bad('no fresh key is generated', bits=self.key.size_in_bits())
        self.mon.event('fresh_keys')
        self.compare()

    def reset(self):
        self.press(self.button('Reset'))
        self.names, self.ids, self.key, self.url, self.user, self.password = [], [], None, self.home, '', ''
        self.same(self.row('Service Location', 'Service Description URL: ').get(), self.home, 'reset does not return to the configured service')
        self.mon.event('resets')
        self.compare()

    # asking -------------------------------------------------------------------------------------------------------------
    def ask_info(self, wire):
        r = self.rng
        wire.calls.clear()
        status, res = r.choice((200, 200, 404)), {'aauth_id': 'Answer-of-' + word(r), 'n': [1, {'x': word(r)}]}
        wire.answer = Response(status, {'result': res})
        self.press(self.button('Issue Info Request'))
        lost = self.url in wire.cls.REFUSE
        self.same(wire.calls, [] if lost else [(self.url, 'info', {})], 'another call was sent')
        self.answered()
        if lost:
            self.mon.event('unreachable')
            self.expect('cannot reach ' + self.url)
        elif status == 200:
            self.expect(pprint.pformat(res))
        elif res['aauth_id'] in self.shown_result:
            self.bad('an answer with a bad status is shown')
        self.mon.event('info')
        self.compare()

    def answered(self):
        old, self.shown_result = self.shown_result, self.area('Request Response').text
        if old.strip() and old != self.shown_result and len(old) > 60 and old in self.shown_result:
            self.bad('an earlier answer is shown with the new one', got=self.shown_result[:2000])

    def expect(self, text):
        if text not in self.shown_result:
            self.bad('what came back is not shown', got=self.shown_result[:2000], want=text[:2000])

    def ask(self, wire):
        r = self.rng
        wire.calls.clear()
        mode = r.choice(('cert', 'cert', 'cert', 'cert', 'fault', 'status', 'broken', 'garbage', 'retry'))
        k = r.randrange(keys.COUNT)
        ac = cg.certificate(r, k, small=True)
        ac.info.version = 0
        if cg.has_empty(ac):
            return
        if ac.att_set and r.random() < 0.4:
            x = cg.attribute(r)
            x.att_id = ac.att_set[0].att_id
            ac.att_set.append(x)
            if cg.has_empty(ac):
                return
        if r.random() < 0.15:
            data = bytes(ac.encode())
        else:
            data = bytes(ac.encode(True, keys.key(k if r.random() < 0.6 else (k + 1) % keys.COUNT)))
        sent = data
        if mode == 'garbage':
            sent = r.choice((b'', data[:len(data) // 2], b'\xff' * 30, data[:9], b'<html>'))
            if readable(sent):
                return
        files = [io.BytesIO(sent)]
        if mode == 'retry':
            files[:0] = [io.BytesIO(b'lost')]
            files[0].close()
        given = {'format': word(r), 'version': 0}
        say = 'F-' + word(r)

        def answer(url, method, kw):
            if mode == 'fault':
                return Response(200, {'fault': {'string': say, 'detail': [word(r)]}})
            if mode == 'status':
                return Response(r.choice((404, 500, 201, 0)), {'result': dict(given, data=files[0])})
            if mode == 'broken':
                raise r.choice((OSError, KeyError, ValueError, RuntimeError))(say)
            return Response(200, {'result': dict(given, data=files.pop(0))})
        wire.answer = answer
        self.press(self.button('Issue Attribute Request'))
        self.mon.event('requests')
        lost = self.url in wire.cls.REFUSE
        self.answered()
        if lost:
            self.mon.event('unreachable')
            self.same(wire.calls, [], 'a call was sent to another service')
            self.expect('cannot reach ' + self.url)
            return self.compare()
        self.same(len(wire.calls), 2 if mode == 'retry' else 1, 'another number of calls was sent', mode=mode)
        for url, method, kw in wire.calls:
            self.same((url, method), (self.url, 'attribute_request'), 'the request goes elsewhere')
            self.same({a: (str(b) if a == 'type' else b) for a, b in kw['credentials'].items()},
                      {'type': '0', 'username': self.user, 'password': self.password}, 'other credentials are sent')
            self.same({a: list(b) for a, b in kw['attributes'].items()}, {'attribute_names': self.names, 'attribute_ids': self.ids},
                      'other attributes are asked for')
            pub = RSA.import_key(kw['user_public_key']['public_key'])
            if pub.has_private():
                self.bad('the private key is sent')
            if self.key is not None:
                self.same((pub.n, pub.e), (self.key.n, self.key.e), 'another key is sent than the one shown')
                self.mon.event('kept_keys')
            else:
                self.mon.event('fresh_keys')
                if pub.n in self.used:
                    self.bad('a key is sent again though none is shown')
            self.used.add(pub.n)
        if mode in ('fault', 'status', 'broken', 'garbage'):
            self.mon.event('failures')
            self.mon.seen('failure', mode + ('' if self.data is None else ' after a certificate'))
            if mode in ('fault', 'broken'):
                self.expect(say)
            if sent and sent.hex().upper() in ''.join(self.shown_result.split()):
                self.bad('a refused answer is shown as a certificate', mode=mode)
            return self.compare()
        self.mon.event('certificates')
        self.data, self.ac, self.signer = data, ac, k
        self.verdict = 'Not Checked'
        key = RSA.import_key(self.area('User Session Key').text)
        if not key.has_private() or (key.n, key.e) != (pub.n, pub.e):
            self.bad('the key shown is not the one the certificate was requested with')
        self.key = key
        if data.hex().upper() not in ''.join(self.shown_result.split()):
            self.bad('the attachment is not shown', got=self.shown_result[:1000])
        self.expect(repr(given['format']))
        self.shown_cert = self.area('Raw Attribute Certificate').text
        self.hex()
        self.shown_tree = self.tree()
        self.judge_tree()
        self.compare()

    def hex(self):
        self.same(''.join(self.shown_cert.split()).upper(), self.data.hex().upper(), 'other bytes are shown than those received')

    def judge_tree(self):
        f, _ = cg.read(self.data)
        t = {name: kids for name, _, kids in self.shown_tree}

        def part(name):
            if name not in t:
                self.bad('a part of the certificate is missing from the tree', part=name)
            return {n: v[0] for n, v, k in t[name]}

        def fields(got, want, what):
            for n, v in want.items():
                self.same(plain(got.get(n)) if n in got else None, None if v is None else str(v), 'the tree shows another certificate', field=(what, n))
            self.same(set(got) - set(want), set(), 'the tree shows fields the certificate lacks', part=what)

        day = lambda s: datetime.fromtimestamp(s).strftime('%Y-%m-%d %I:%M:%S%p')
        i, h, v, info = f['issuer'], f['holder'], f['validity'], f['info']
        got = part('Information')
        self.same(int(str(got.get('serial')), 16), info[1], 'the tree shows another serial')
        self.same((str(got.get('version')), str(got.get('issued')).strip()), (str(info[0]), day(info[2])), 'the tree shows other information')
        fields(part('Issuer'), {'pub_key': self.raw(i[0]), 'key_algo': i[1] or '', 'uid': i[2], 'name': i[3], 'url': i[4]}, 'issuer')
        fields(part('Holder'), {'pub_key': self.raw(h[0]), 'key_algo': h[1] or '', 'uid': h[2], 'name': h[3]}, 'holder')
        got = part('Revocation Rules')
        self.same((str(got.pop('valid_after', '')).strip(), str(got.pop('valid_before', '')).strip()), (day(v[0]), day(v[1])), 'the tree shows another validity')
        fields(got, {'url': v[2], 'extra_bytes': v[3] and self.raw(v[3])}, 'revocation')
        fields(part('Delegation Rules'), {'extra_bytes': f['delegation'] and self.raw(f['delegation'])}, 'delegation')
        atts = [{n: x[0] for n, x, _ in k} for _, _, k in t.get('Attribute Set', ())]
        self.same(len(atts), len(f['attributes']), 'the tree shows another number of attributes')
        for a, (aid, at, av, an, ax) in zip(atts, f['attributes']):
            if av is not None and av.lower() == 'none':
                a.pop('value', None)
                av = None
            a.pop('extra_bytes', None)
            fields(a, {'id': aid or '', 'type': at, 'value': av, 'name': an}, 'attribute')
        ext = [{n: x[0] for n, x, _ in k} for _, _, k in t.get('Extensions', ())]
        self.same([(str(e.get('eid')), plain(e.get('extra_bytes'))) for e in ext],
                  [(e or '', str(x and self.raw(x))) for e, x in f['extensions']], 'the tree shows other extensions')
        sig = part('Signature')
        if f['signature'] is None:
            self.same(sig, {}, 'the tree shows a signature')
        else:
            self.same(str(sig.get('sig_algo')), f['signature'][0], 'the tree shows another signature algorithm')
            if f['signature'][1].hex() not in str(sig.get('sig_value')).lower():
                self.bad('the tree shows another signature', got=sig)

    @staticmethod
    def raw(b):
        """Bytes as the tree shows them (it is given the bytes of the decoded certificate)."""
        return str(bytes(b or b''))

    # viewing ------------------------------------------------------------------------------------------------------------
    def view(self):
        r = self.rng
        what = r.choice(('View as Bytes', 'View as Text', 'View as Base64', 'Verify', 'Verify', 'Clear', 'Clear answer'))
        raw = 'Raw Attribute Certificate'
        if what == 'Clear answer':
            self.press(self.button('Clear', 'Commands', 'Request Response'))
            self.shown_result = ''
        elif what == 'Clear':
            self.press(self.button('Clear', 'Commands', raw))
            self.shown_cert, self.verdict = '', 'Not Checked'
        else:
            self.press(self.button(what, 'Commands', raw), () if self.data is not None else (Exception,))
            if self.data is not None:
                self.shown_cert = self.area(raw).text if what != 'Verify' else self.shown_cert
                from hgaa.attcert import AttributeCertificate, ExportFormat
                if what == 'View as Bytes':
                    self.hex()
                elif what == 'View as Base64':
                    self.same(base64.b64decode(''.join(x for x in self.shown_cert.splitlines() if '--' not in x and '==' not in x[:2] and ' ' not in x.strip())), self.data,
                              'the base64 shown is another certificate')
                elif what == 'View as Text':
                    text = AttributeCertificate.decode(bytearray(self.data)).export_ac(ExportFormat.TEXT)
                    if text not in self.shown_cert:
                        self.bad('the text shown is not that of the certificate', got=self.shown_cert[:1500], want=text[:1500])
                else:
                    good = self.valid()
                    self.verdict = 'TRUE' if good else 'FALSE'
                    self.mon.event('verified' if good else 'refuted')
                self.mon.event('views')
        self.compare()

    def valid(self):
        """The signature, judged by the library on the bytes received."""
        f, (at, _, _) = cg.read(self.data)
        if f['signature'] is None or f['signature'][1] is None:
            return False
        try:
            pkcs1_15.new(RSA.import_key(f['issuer'][0])).verify(SHA256.new(self.data[:at]), f['signature'][1])
            return True
        except (ValueError, IndexError, TypeError):
            return False


@c31.workload('window', 320, 8000, setup=setup)
def c31_window(mon, rng, i):
    with Wire() as wire:
        wire.cls.REFUSE = set()
        try:
            win = Window(mon, rng)
            win.compare()
            sent = 0
            for _ in range(rng.randint(8, 45)):
                x = rng.random()
                if x < 0.1:
                    win.accounts()
                elif x < 0.3:
                    win.lists()
                elif x < 0.31:
                    win.generate()
                elif x < 0.36:
                    win.reset()
                elif x < 0.45:
                    url = an_url(rng)
                    if rng.random() < 0.4:
                        wire.cls.REFUSE.add(url)
                    win.service(url if rng.random() < 0.7 else win.home)
                elif x < 0.48:
                    wire.cls.REFUSE.clear()
                elif x < 0.55:
                    win.ask_info(wire)
                elif x < 0.8:
                    if win.key is None:     # generating a key takes long: mostly one is put in by the window's first request
                        win.key_budget = getattr(win, 'key_budget', 0) + 1
                        if win.key_budget > 2:
                            continue
                    win.ask(wire)
                    sent += 1
                else:
                    win.view()
            mon.case(str(win.history), sent > 0)
            mon.sample(history=[str(h) for h in win.history[:20]])
        finally:
            wire.cls.REFUSE = ()
