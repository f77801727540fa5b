"""C16 who gets a certificate, C17 which attributes it carries, C18 what else it states."""
import base64
import datetime
import os
import threading
import time

from rv import certgen as cg, core, dictionary, interleave, keys, svc
from rv.core import Violation

TYPES = ('INT', 'FLOAT', 'STRING', 'BOOL', 'SET', 'NULL')


def word(rng, lo=1, hi=8, alphabet='abcdefghijklmnopqrstuvwxyz0123456789_.-'):
    return ''.join(rng.choice(alphabet) for _ in range(rng.randint(lo, hi)))


def password(rng):
    return rng.choice((
        lambda: word(rng, 1, 12), lambda: word(rng, 1, 12, 'abcABC123!@#$%^&*() '), lambda: 'p' * rng.randint(1, 30),
        lambda: word(rng, 1, 8, 'éü€中'), lambda: '', lambda: ' ' + word(rng), lambda: word(rng) + ' ',
        lambda: "' OR '1'='1", lambda: '%s%d', lambda: 'None', lambda: word(rng, 20, 40), lambda: word(rng, 40, 56)))()


def accounts(rng, n):
    """Distinct lower-case account names, some of them prefixes of each other."""
    out = []
    while len(out) < n:
        r = rng.random()
        if out and r < 0.3:
            u = (rng.choice(out) + word(rng, 1, 2))[:25]
        elif out and r < 0.4 and len(out[-1]) > 1:
            u = out[-1][:-1]
        elif r < 0.5:
            u = rng.choice(('admin', 'root', 'dan', 'a', 'none', 'null', 'test', 'user 1', 'o\'brien', '%', '_', '*',
                            'stra\xdfe', 'strasse', 'jos\xe9', 'jose', '\xf1and\xfa', '\u03c9\u03bc\u03b5\u03b3\u03b1', 'true', '0', '1'))
        else:
            u = word(rng)
        if u not in out:
            out.append(u)
    return out


def cased(rng, u):
    """The name in some case that is still the same name."""
    return rng.choice([u] + [x for x in (u.upper(), u.swapcase(), u.title()) if x.lower() == u])


class World(object):
    """The content of the authority's database, as the oracle knows it."""

    def __init__(self, rng, tag, n=None, natts=None, same_password=0.2):
        import hgaa.schema.aauth as sch
        from hgaa.attcert import AttributeType
        self.sch, self.types = sch, AttributeType
        self.pepper = svc.SECRETS['pepper']
        self.tag, self.hashes = tag, 0
        self.users, self.attrs, self.assigned = {}, {}, {}
        names = accounts(rng, n or rng.randint(1, 5))
        ids = rng.sample(range(1, 60) if rng.random() < 0.6 else sorted(
            {0, 1, 2, 3, 7, 10, 11, 100, 2 ** 31 - 1} | {c for c in dictionary.constants('hgaa')[0] if 0 <= c < 2 ** 31}),
            len(names))
        for u, i in zip(names, ids):
            pw = password(rng)
            if self.users and rng.random() < same_password:
                pw = rng.choice(list(self.users.values()))['password']
            self.users[u] = {'id': i, 'password': pw, 'hash': self.hash(pw)}
        m = natts if natts is not None else rng.randint(0, 8)
        while len(self.attrs) < m:
            r = rng.random()
            name = word(rng, 1, 6)
            if self.attrs and r < 0.15:
                name = rng.choice(list(self.attrs.values()))['name']
            elif self.attrs and r < 0.3:
                name = rng.choice(list(self.attrs.values()))['name'].swapcase()
            aid = rng.choice(('/attribute/user/%s' % name, '/attribute/connection/%s' % name, name, word(rng, 1, 6),
                              '/attribute/user/%s%d' % (name, len(self.attrs))))
            if aid not in self.attrs and aid.lower() not in self.attrs:
                self.attrs[aid] = {'name': name, 'type': rng.choice(TYPES)}
        for u in self.users:
            for a in self.attrs:
                if rng.random() < (0.5 if m < 50 else 0.95):
                    self.assigned[u, a] = self.value(rng)

    def value(self, rng):
        return rng.choice((lambda: str(dictionary.integer(rng, 'hgaa')), lambda: 'True', lambda: 'False',
                           lambda: word(rng), lambda: repr(rng.random() * 100), lambda: cg.text(rng, 1, 60),
                           lambda: '[1, 2, 3]', lambda: '0', lambda: rng.choice(('', None, 'None', ' ', ' x', 'x ', '\n', '0.0', 'NULL')),
                           lambda: '00%d' % rng.randint(0, 9)))()

    def hash(self, pw):
        self.hashes += 1
        return svc.bcrypt_hash(pw, self.pepper, '%s/%d' % (self.tag, self.hashes))

    def rows(self):
        s = self.sch
        out = [s.User(id=u['id'], username=n, password=u['hash']) for n, u in self.users.items()]
        out += [s.Attribute(id=a, name=v['name'], type=self.types[v['type']]) for a, v in self.attrs.items()]
        out += [s.AttributeAssignment(user_id=self.users[u]['id'], att_id=a, value=v)
                for (u, a), v in self.assigned.items()]
        return out

    def store(self):
        svc.fill('aauth', self.rows())

    def of(self, user):
        """{attribute id: (type, value, name)} assigned to an account."""
        return {a: (self.attrs[a]['type'], v, self.attrs[a]['name']) for (u, a), v in self.assigned.items() if u == user}


def tag(mon):
    return '%s/%s' % mon.current


CONNECTION = '/attribute/connection/'

_AA = {}


def aa(**conf):
    """An authority with the given configuration (kept: the key file is slow to open)."""
    k = tuple(sorted(conf.items()))
    if k not in _AA:
        svc.start_quiet()
        if len(_AA) > 40:
            _AA.clear()
        svc.configure('AAUTH', **{n: v for n, v in conf.items() if not n.startswith('SERVICE_')})
        svc.configure('LADON', **{n: v for n, v in conf.items() if n.startswith('SERVICE_')})
        _AA[k] = svc.new_aa()
    return _AA[k]


STD = {'AAUTH_ID': 'authority one', 'A_URI': 'hgabac://aa.test:1', 'AC_EXPIRE_LENGTH': '3600', 'REV_URI': '',
       'SERVICE_HOST': '', 'SERVICE_PORT': '8888', 'PASS_PEPPER': svc.SECRETS['pepper']}


def std():
    return aa(**STD)


def parsed(answer):
    f, _ = cg.read(answer.data)
    return f


def split_attributes(f, world_ids):
    """({id: (type, value, name)} of the user's attributes, the rest); an identifier may not be stated twice."""
    user, con = {}, {}
    for aid, t, v, n, x in f['attributes']:
        if x is not None:
            raise Violation('an attribute carries bytes nobody assigned', attribute=aid)
        con.setdefault(aid, []).append((t, v, n))
    return con


def same_value(got, want):
    return got == want or (want in (None, '') and got in (None, ''))


def confined(mon, got, want, witness):
    """got: {id: [(type, value, name)]} of the certificate; want: {id: (type, value, name)} of the account."""
    for aid, (t, v, n) in want.items():
        have = got.get(aid, [])
        mon.check(any(g[0] == t and same_value(g[1], v) and g[2] == n for g in have),
                  'an assigned attribute that was asked for is missing or altered', attribute=aid, want=(t, v, n),
                  certificate=have, **witness)
    for aid, have in got.items():
        for g in have:
            if aid in want and g[0] == want[aid][0] and same_value(g[1], want[aid][1]) and g[2] == want[aid][2]:
                continue
            if aid.startswith(CONNECTION) and aid[len(CONNECTION):] == g[2]:
                continue        # a connection attribute; C18 judges those
            raise Violation('the certificate carries an attribute that was not assigned and asked for', attribute=aid,
                            certificate=g, **witness)
    extra = sum(len(h) for h in got.values())
    return extra


# ---------------------------------------------------------------------------------------------------------------- C16
c16 = core.register(
    'C16', 'Random account databases; requests with right and wrong credentials in many shapes (other accounts\' '
    'passwords, prefixes, case, pepper and hash as password, missing and unknown names, SQL-looking text, unknown '
    'credential types), changes of passwords and accounts between requests, concurrent requests. A certificate may come '
    'out only for the account\'s current password, and then must; a refusal is one and the same fault, leaves no '
    'certificate behind and changes nothing. Non-trivial: every case; distinct by accounts and requests.',
    ['hgaa/services/aauth.py:attribute_request', 'hgaa/database.py', 'hgaa/schema/aauth.py'],
    require={'granted': 300, 'refused': 1500, 'concurrent_requests': 100, 'changes': 60, 'bursts': 40, 'set:attempt': 14},
    assumptions=['the Ladon web framework is replaced by a stand-in that passes calls through'])

REFUSED = 'Invalid credentials.'


def attempts(rng, w, user):
    """(kind, username, password, credential type, granted?)"""
    u, others = w.users[user], [x for x in w.users if x != user]
    pw = u['password']
    out = [('right', user, pw, 0, True), ('other case of the name', cased(rng, user), pw, 0, True),
           ('other case of the name', cased(rng, user), pw, 0, True),
           ('longer', user, pw + rng.choice(('x', ' ', '\n', '0')), 0, False),
           ('pepper appended', user, pw + w.pepper, 0, False),
           ('the hash', user, u['hash'], 0, False), ('the pepper', user, w.pepper, 0, False),
           ('no password', user, None, 0, False), ('no name', None, pw, 0, False), ('neither', None, None, 0, False),
           ('empty name', '', pw, 0, False),
           ('unknown type', user, pw, rng.choice((1, 2, -1, 3, 255, 256)), False),
           ('no type', user, pw, None, False),
           ('random', user, word(rng, 9, 14), 0, False),
           ('sql', rng.choice(("' OR 1=1 --", user + "' --", '%', '_' * len(user), user[:1] + '%', '*')), pw, 0, None),
           ('spaces', user + ' ', pw, 0, None), ('spaces', ' ' + user, pw, 0, None),
           ('nul', user + '\0', pw, 0, None),
           ('id as name', str(u['id']), pw, 0, None),
           ('unknown name', user + 'zz', pw, 0, None), ('shorter name', user[:-1], pw, 0, None),
           ('folded name', user.casefold(), pw, 0, None), ('expanded name', user.upper(), pw, 0, None),
           ('very long', user, 'x' * rng.choice((72, 73, 100, 5000)), 0, False),
           ('very long', user + 'zz', 'x' * rng.choice((72, 73, 100, 5000)), 0, None),
           ('right and very long', user, (pw + w.pepper + 'x' * 73)[:rng.choice((72, 73, 74, 90))], 0, None),
           ('not a text', user, rng.choice(('\ud800', pw + '\udfff', '\udc80' + pw)), 0, False)]
    if pw:
        out += [('empty', user, '', 0, False), ('shorter', user, pw[:-1], 0, False), ('tail', user, pw[1:], 0, False)]
        if pw.swapcase() != pw:
            out.append(('other case', user, pw.swapcase(), 0, False))
        if pw.strip() != pw:
            out.append(('stripped', user, pw.strip(), 0, False))
        if pw != 'None':
            out.append(('the text None', user, 'None', 0, False))
        if not pw.startswith('\0'):
            out.append(('nul in front', user, '\0' + pw, 0, False))
    for o in others:
        out.append(('password of another', user, w.users[o]['password'], 0, w.users[o]['password'] == pw))
    fixed = []
    for kind, n, p, t, ok in out:
        if ok is None:      # the name may happen to be another account
            acc = w.users.get(n.lower()) if n is not None else None
            ok = acc is not None and acc['password'] == p
        fixed.append((kind, n, p, t, ok))
    return fixed


def judge(mon, w, got, kind, n, p, ok, check_holder=True):
    witness = dict(attempt=kind, username=n, password=p, accounts={k: v['password'] for k, v in w.users.items()},
                   answer=repr(got))
    mon.seen('attempt', kind)
    if ok:
        mon.check(got.refusal is None, 'the right password is refused', **witness)
        f = parsed(got)
        mon.check(f['holder'][3] == n.lower() and f['holder'][2].endswith('/' + n.lower()),
                  'the certificate names another holder', holder=f['holder'][2:], **witness)
        mon.event('granted')
        return
    mon.check(got.refusal is not None, 'a certificate was issued without the right password', **witness)
    mon.check(got.refusal == 'ClientFault', 'a refusal is not reported as the client\'s fault', **witness)
    if kind not in ('unknown type', 'no type') and got.refusal == 'ClientFault':
        mon.check(got.text == REFUSAL[0] or REFUSAL[0] is None, 'refusals differ, which tells accounts apart',
                  other=REFUSAL[0], **witness)
        REFUSAL[0] = got.text
    mon.event('refused')


REFUSAL = [None]


@c16.workload('insistence', 16, 200, setup=svc.start_quiet)
def c16_insistence(mon, rng, i):
    """However often something was tried before, the next attempt is judged alone."""
    REFUSAL[0] = None
    w = World(rng, tag(mon), n=3)
    w.store()
    a = std()
    svc.clear_issued()
    users = list(w.users)
    user = rng.choice(users)
    for burst in range(3):
        n = rng.choice((3, 4, 5, 6, 10, 11, 12, 20, 21, 40))
        kind = rng.choice(('wrong', 'right', 'unknown', 'mixed'))
        for _ in range(n):
            ok = kind == 'right' or kind == 'mixed' and rng.random() < 0.3
            name, pw = (user, w.users[user]['password']) if ok else (user + 'zz' if kind == 'unknown' else user, word(rng, 9, 14))
            judge(mon, w, svc.request(a, name, pw, addr='10.0.0.1'), 'insistent', name, pw, ok)
        for name in users:
            pw = w.users[name]['password']
            judge(mon, w, svc.request(a, name, pw, addr=rng.choice(('10.0.0.1', '10.9.9.9'))), 'right after a burst', name, pw, True)
            judge(mon, w, svc.request(a, name, pw + 'x', addr='10.0.0.1'), 'wrong after a burst', name, pw + 'x', False)
        mon.event('bursts')
    svc.clear_issued()
    mon.case((w.users, i))


@c16.workload('credentials', 60, 2500, setup=svc.start_quiet)
def c16_credentials(mon, rng, i):
    REFUSAL[0] = None
    w = World(rng, tag(mon))
    w.store()
    a = std()
    svc.clear_issued()
    before = svc.dump('aauth')
    user = rng.choice(list(w.users))
    todo = attempts(rng, w, user)
    rng.shuffle(todo)
    granted = 0
    for kind, n, p, t, ok in todo:
        got = svc.request(a, n, p, ctype=t)
        judge(mon, w, got, kind, n, p, ok)
        granted += bool(ok)
        mon.check(len(svc.issued_files()) == granted, 'a refused request left a certificate behind', attempt=kind,
                  username=n, password=p)
    mon.equal(svc.dump('aauth'), before, 'requests changed the database')
    mon.case((sorted(w.users), [(k, n, p) for k, n, p, t, ok in todo]))
    mon.sample(accounts={k: v['password'] for k, v in w.users.items()}, attempts=[x[0] for x in todo], granted=granted)


@c16.workload('locked', 20, 500, setup=svc.start_quiet)
def c16_locked(mon, rng, i):
    """Accounts whose stored hash is no hash: no password opens them, however it compares with what is stored."""
    w = World(rng, tag(mon), n=rng.randint(1, 3))
    locked = rng.choice(list(w.users))
    pw = w.users[locked]['password']
    stored = rng.choice(('', ' ', '!', '*', 'x', 'None', '$2b$04$', w.users[locked]['hash'][:-1], pw[:60], 'plain-secret',
                         '0' * 60, '!' + w.users[locked]['hash'][:59]))
    if stored and (stored + w.pepper).encode() and stored == w.users[locked]['hash']:
        return
    w.users[locked]['hash'] = stored
    w.store()
    a = std()
    svc.clear_issued()
    before = svc.dump('aauth')
    for p in ('', ' ', None, 'None', stored, pw, w.pepper, pw + w.pepper, '*', '!', 'x'):
        got = svc.request(a, cased(rng, locked), p)
        mon.check(got.refusal is not None and not svc.issued_files(), 'an account without a password hash was opened',
                  stored=stored, password=p, username=locked)
        mon.event('refused')
    mon.equal(svc.dump('aauth'), before, 'requests changed the database')
    for u in w.users:
        if u != locked:
            judge(mon, w, svc.request(a, u, w.users[u]['password']), 'right', u, w.users[u]['password'], True)
    mon.event('locked')
    mon.case((sorted(w.users), stored))


@c16.workload('history', 25, 800, setup=svc.start_quiet)
def c16_history(mon, rng, i):
    """Passwords and accounts change between requests; the current state decides."""
    REFUSAL[0] = None
    w = World(rng, tag(mon))
    w.store()
    a = std()
    old = []
    log = []
    for step in range(rng.randint(4, 14)):
        users = list(w.users)
        r = rng.random()
        if r < 0.25 and users:
            u = rng.choice(users)
            old.append((u, w.users[u]['password']))
            pw = password(rng)
            w.users[u].update(password=pw, hash=w.hash(pw))
            svc.execute('aauth', 'UPDATE aauth_users SET password = :h WHERE id = :i', h=w.users[u]['hash'],
                        i=w.users[u]['id'])
            mon.event('changes')
            log.append('password of ' + u)
        elif r < 0.35 and users:
            u = rng.choice(users)
            old.append((u, w.users[u]['password']))
            svc.execute('aauth', 'DELETE FROM aauth_attribute_assignments WHERE user_id = :i', i=w.users[u]['id'])
            svc.execute('aauth', 'DELETE FROM aauth_users WHERE id = :i', i=w.users[u]['id'])
            del w.users[u]
            w.assigned = {k: v for k, v in w.assigned.items() if k[0] != u}
            mon.event('changes')
            log.append('removed ' + u)
        elif r < 0.45:
            u = accounts(rng, 1)[0]
            if u not in w.users:
                pw = password(rng)
                nid = max([x['id'] for x in w.users.values()] + [0]) + rng.randint(1, 3)
                w.users[u] = {'id': nid, 'password': pw, 'hash': w.hash(pw)}
                svc.execute('aauth', 'INSERT INTO aauth_users (id, username, password) VALUES (:i, :u, :h)', i=nid, u=u,
                            h=w.users[u]['hash'])
                mon.event('changes')
                log.append('added ' + u)
        for _ in range(rng.randint(1, 3)):
            if old and rng.random() < 0.6:
                u, p = rng.choice(old)
            elif w.users:
                u = rng.choice(list(w.users))
                p = w.users[u]['password']
            else:
                continue
            ok = u in w.users and w.users[u]['password'] == p
            judge(mon, w, svc.request(a, u, p), 'former password' if not ok else 'right', u, p, ok)
            log.append((u, ok))
    mon.case(log)
    mon.sample(history=log)


@c16.workload('concurrent', 14, 500, setup=svc.start_quiet)
def c16_concurrent(mon, rng, i):
    REFUSAL[0] = None
    w = World(rng, tag(mon), n=rng.randint(2, 5))
    w.store()
    a = std()
    svc.clear_issued()
    todo = []
    for _ in range(rng.randint(4, 10)):
        u = rng.choice(list(w.users))
        o = rng.choice(list(w.users))
        p = w.users[rng.choice((u, o))]['password']
        todo.append((u, p, w.users[u]['password'] == p))
    results, sig, n = interleave.jitter(rng, [lambda u=u, p=p: svc.request(a, u, p) for u, p, ok in todo])
    for (u, p, ok), r in zip(todo, results):
        judge(mon, w, r[1], 'concurrent', u, p, ok)
        mon.event('concurrent_requests')
    mon.check(len(svc.issued_files()) == sum(ok for _, _, ok in todo), 'certificates and grants differ in number')
    mon.seen('schedule', sig)
    mon.case((todo, sig))


@c16.workload('pepper', 15, 300, setup=svc.start_quiet)
def c16_pepper(mon, rng, i):
    """The configured pepper is part of the secret."""
    REFUSAL[0] = None
    pepper = rng.choice(('p2', 'other pepper', 'ü', '', 'Pepper-X9z'))
    w = World(rng, tag(mon), n=1)
    u = list(w.users)[0]
    pw = w.users[u]['password']
    w.store()
    a = aa(**dict(STD, PASS_PEPPER=pepper))
    judge(mon, w, svc.request(a, u, pw), 'hash under another pepper', u, pw, False)
    w.pepper = pepper
    w.users[u]['hash'] = w.hash(pw)
    w.store()
    judge(mon, w, svc.request(a, u, pw), 'right', u, pw, True)
    judge(mon, w, svc.request(std(), u, pw), 'hash under another pepper', u, pw, False)
    mon.case((u, pw, pepper))


# ---------------------------------------------------------------------------------------------------------------- C17
c17 = core.register(
    'C17', 'Random assignments of attributes to accounts; requests for all, for some by identifier or name, for '
    'unassigned ones, in sequences with assignments changed in between and concurrently across accounts. The '
    'certificate must carry exactly the account\'s assigned attributes that were asked for, with their assigned values; '
    'any other wish is refused and issues nothing. Non-trivial: accounts with assignments; distinct by world and '
    'request.', ['hgaa/services/aauth.py:attribute_request', 'hgaa/services/aauth.py:_make_ac', 'hgaa/schema/aauth.py'],
    require={'all': 100, 'some': 150, 'refused': 150, 'concurrent_requests': 100, 'revoked': 15},
    assumptions=['the Ladon web framework is replaced by a stand-in that passes calls through',
                 'names or identifiers in another case or with spaces around them may be refused or normalised'])

ALL = ([], ['*'], [''], [None], ['*', '', None], [None, None], ['', '*', '*'])


def _product(xs):
    out = 1
    for x in xs:
        out *= x
    return out


def wish(rng, w, user):
    """(kind, names, ids, wanted: {id: ...} | None refused | list of acceptable)"""
    mine = w.of(user)
    byname = {}
    for a, (t, v, n) in mine.items():
        byname.setdefault(n, []).append(a)
    r = rng.random()
    pad = lambda x: (x + [rng.choice(('*', '', None)) for _ in range(rng.choice((0, 0, 0, 1, 2)))])
    if r < 0.3:
        return 'all', list(rng.choice(ALL)), list(rng.choice(ALL)), [mine]
    ids = rng.sample(sorted(mine), rng.randint(0, len(mine)))
    names = rng.sample(sorted(byname), rng.randint(0, len(byname)))
    if rng.random() < 0.3 and ids:
        ids.append(rng.choice(ids))
    if rng.random() < 0.3 and names:
        names.append(rng.choice(names))
    if r < 0.65 and (ids or names):
        while _product(len(byname[n]) for n in set(names)) > 64:
            worst = max(names, key=lambda n: len(byname[n]))
            names = [n for n in names if n != worst]
        if not ids and not names:
            return 'all', [], [], [mine]
        options = [set(ids)]
        for n in sorted(set(names)):
            options = [o | {a} for o in options for a in byname[n]]
        ids, names = pad(ids), pad(names)
        rng.shuffle(ids)
        rng.shuffle(names)
        return 'some', names, ids, [{a: mine[a] for a in o} for o in options]
    # something not assigned
    foreign = [a for a in w.attrs if a not in mine]
    bad_ids = foreign + ['/attribute/user/none', 'zz', '%', 'remote_addr', CONNECTION + 'con_time', "' OR 1=1"]
    bad_names = [w.attrs[a]['name'] for a in foreign if w.attrs[a]['name'] not in byname] + \
        ['zz', '%', 'con_time', 'session_id', 'admin']
    magic = [x for x in dictionary.constants('hgaa')[1] if x.strip() not in ('', '*')] + ['all', 'any', 'none', 'None', 'null', '**']
    magic = [rng.choice(magic) for _ in range(3)]
    bad_ids += magic
    bad_names += magic
    bad_ids += list(byname)      # a name where an identifier is due, and the other way round
    bad_names = list(mine)[:2] + bad_names
    bad_ids = [b for b in bad_ids if b.strip().lower() not in {m.lower() for m in mine}]
    bad_names = [b for b in bad_names if b.strip().lower() not in {n.lower() for n in byname}]
    if r < 0.93:
        if rng.random() < 0.5:
            if rng.random() < 0.3:
                ids, names = [], []
            ids.insert(rng.randint(0, len(ids)), rng.choice(foreign if foreign and rng.random() < 0.6 else bad_ids))
        else:
            if rng.random() < 0.3:
                ids, names = [], []
            names.insert(rng.randint(0, len(names)), rng.choice(bad_names[:3] if rng.random() < 0.7 else bad_names))
        return 'refused', pad(names), pad(ids), None
    # another spelling
    if not mine:
        return 'all', [], [], [mine]
    a = rng.choice(sorted(mine))
    return 'spelling', [], [rng.choice((a.upper(), ' ' + a, a + ' '))], 'any'


def judge17(mon, w, user, kind, names, ids, want, got):
    witness = dict(user=user, names=names, ids=ids, assigned=w.of(user), answer=repr(got))
    if want is None:
        mon.check(got.refusal is not None, 'a request for an attribute that is not assigned gives a certificate', **witness)
        mon.check(got.refusal == 'ClientFault', 'the refusal is not the client\'s fault', **witness)
        mon.event('refused')
        return
    if want == 'any':
        if got.refusal:
            mon.event('spelling_refused')
            return
        a = ids[0].strip()
        mine = w.of(user)
        want = [{x: mine[x]} for x in mine if x.lower() == a.lower()] or [{}]
    mon.check(got.refusal is None, 'a rightful request is refused', **witness)
    f = parsed(got)
    have = {}
    for aid, t, v, n, x in f['attributes']:
        have.setdefault(aid, []).append((t, v, n))
        mon.check(x is None, 'an attribute carries bytes nobody assigned', attribute=aid, **witness)
    last = None
    for option in want:
        try:
            confined(mon, have, option, witness)
            break
        except Violation as e:
            last = e
    else:
        raise last
    mon.event('attributes_compared', len(want[0]))
    mon.event(kind)


@c17.workload('requests', 60, 2500, setup=svc.start_quiet)
def c17_requests(mon, rng, i):
    w = World(rng, tag(mon), natts=None if rng.random() < 0.85 else rng.choice((
        12, 40, 51, 65, 101, 130, dictionary.size(rng, 'hgaa', 260))))
    w.store()
    a = std()
    svc.clear_issued()
    before = svc.dump('aauth')
    issued = 0
    log = []
    for _ in range(10):
        u = rng.choice(list(w.users))
        kind, names, ids, want = wish(rng, w, u)
        keep = (list(names), list(ids))
        got = svc.request(a, cased(rng, u), w.users[u]['password'], list(names), list(ids))
        judge17(mon, w, u, kind, keep[0], keep[1], want, got)
        issued += got.refusal is None
        mon.check(len(svc.issued_files()) == issued, 'a refused request left a certificate behind', names=names, ids=ids)
        log.append((u, kind, keep))
    mon.equal(svc.dump('aauth'), before, 'requests changed the database')
    mon.case((w.assigned, log), nontrivial=bool(w.assigned))
    mon.sample(assigned=w.assigned, requests=log[:4])


@c17.workload('words', 12, 400, setup=svc.start_quiet)
def c17_words(mon, rng, i):
    """A word that is no attribute of the account means nothing, however it reads."""
    w = World(rng, tag(mon), natts=rng.randint(1, 5))
    w.store()
    a = std()
    u = rng.choice(list(w.users))
    mine = w.of(u)
    taken = {x.strip().lower() for m in mine for x in (m, mine[m][2])} | {'', '*'}
    words = ['all', 'any', 'none', 'None', 'null', '**', 'ALL', 'All', 'every', '.*', '?', '-', '0', 'true', '%', '_', '/attribute/user/*',
             '/attribute/user/', '/attribute/user', '/', '[]', 'user', u, w.users[u]['id'], 'admin', ',', '*,*', "'*'", '""']
    words += rng.sample(dictionary.constants('hgaa')[1], 12)
    for x in words:
        x = str(x)
        if x.strip().lower() in taken:
            continue
        for names, ids in (([x], []), ([], [x]), ([x], ['*']), (['*'], [x]), ([x, x], [x])):
            got = svc.request(a, u, w.users[u]['password'], list(names), list(ids)) if rng.random() < 0.5 or not ids == [x] else None
            if got is not None:
                judge17(mon, w, u, 'refused', names, ids, None, got)
                mon.event('words')
    mon.case((w.assigned, u, words), nontrivial=bool(mine))


@c17.workload('changing', 30, 1000, setup=svc.start_quiet)
def c17_changing(mon, rng, i):
    """Assignments come, change and go; the next certificate follows."""
    w = World(rng, tag(mon), natts=rng.randint(2, 7))
    w.store()
    a = std()
    log = []
    for _ in range(rng.randint(5, 12)):
        u = rng.choice(list(w.users))
        at = rng.choice(list(w.attrs))
        uid = w.users[u]['id']
        if rng.random() < 0.6:
            if (u, at) in w.assigned:
                if rng.random() < 0.5:
                    del w.assigned[u, at]
                    svc.execute('aauth', 'DELETE FROM aauth_attribute_assignments WHERE user_id=:u AND att_id=:a',
                                u=uid, a=at)
                    got = svc.request(a, u, w.users[u]['password'], [], [at])
                    judge17(mon, w, u, 'refused', [], [at], None, got)
                    mon.event('revoked')
                else:
                    w.assigned[u, at] = w.value(rng)
                    svc.execute('aauth', 'UPDATE aauth_attribute_assignments SET value=:v WHERE user_id=:u AND att_id=:a',
                                v=w.assigned[u, at], u=uid, a=at)
            else:
                w.assigned[u, at] = w.value(rng)
                svc.execute('aauth', 'INSERT INTO aauth_attribute_assignments (user_id, att_id, value) VALUES (:u,:a,:v)',
                            v=w.assigned[u, at], u=uid, a=at)
            log.append((u, at))
        kind, names, ids, want = wish(rng, w, u)
        keep = (list(names), list(ids))
        judge17(mon, w, u, kind, keep[0], keep[1], want,
                svc.request(a, u, w.users[u]['password'], list(names), list(ids)))
        log.append((u, kind, keep))
    mon.case(log)


@c17.workload('concurrent', 16, 600, setup=svc.start_quiet)
def c17_concurrent(mon, rng, i):
    w = World(rng, tag(mon), n=rng.randint(2, 5), natts=rng.randint(2, 8))
    w.store()
    a = std()
    todo = []
    for _ in range(rng.randint(4, 10)):
        u = rng.choice(list(w.users))
        todo.append((u,) + wish(rng, w, u))
    results, sig, n = interleave.jitter(
        rng, [lambda u=u, n=n, d=d: svc.request(a, u, w.users[u]['password'], list(n), list(d))
              for u, k, n, d, want in todo])
    for (u, k, n, d, want), r in zip(todo, results):
        judge17(mon, w, u, k, n, d, want, r[1])
        mon.event('concurrent_requests')
    mon.seen('schedule', sig)
    mon.case((w.assigned, todo, sig))


# ---------------------------------------------------------------------------------------------------------------- C18
c18 = core.register(
    'C18', 'Certificates issued under random configurations, addresses, keys and time zones, read by the independent '
    'reader: signed by the configured key, issuer, holder, validity, serial, version and every connection attribute '
    'recomputed from the request and the clock before and after it. Non-trivial: every certificate; distinct by '
    'configuration and request.',
    ['hgaa/services/aauth.py:_make_ac', 'hgaa/services/aauth.py:_make_con_att_set', 'hgaa/attcert.py:ACInformation'],
    require={'certificates': 250, 'v4': 60, 'v6': 60, 'serials': 250, 'set:zones': 3, 'other_times': 100, 'set:weekdays': 7,
             'set:months': 12},
    assumptions=['the Ladon web framework is replaced by a stand-in that passes calls through', 'C locale'])

V6 = ('::1', '::', 'fe80::1', '2001:db8::8a2e:370:7334', '2001:0db8:0000:0000:0000:8a2e:0370:7334', '::ffff:1.2.3.4',
      '::ffff:192.0.2.128', 'ff02::1:ff00:42', 'fe80::1%eth0', 'A:B:C:D:E:F:1:2', '1::8', '64:ff9b::10.0.0.1')


def address(rng):
    r = rng.random()
    if rng.random() < 0.06:
        return rng.choice(('', 'unix', 'localhost'))       # a connection that is not over IP
    if r < 0.45:
        return rng.choice(('0.0.0.0', '255.255.255.255', '127.0.0.1', '010.001.000.%03d' % rng.randrange(256), '%d.%d.%d.%d' % tuple(
            rng.randrange(256) for _ in range(4)), '10.%d.0.%d' % (rng.randrange(256), rng.randrange(256))))
    if r < 0.7:
        return rng.choice(V6)
    h = ['%x' % rng.choice((0, 1, 0xffff, rng.getrandbits(16))) for _ in range(8)]
    if rng.random() < 0.5:
        k, n = rng.randrange(8), rng.randint(1, 8)
        a, b = h[:k], h[min(8, k + n):]
        return ':'.join(a) + '::' + ':'.join(b)
    return ':'.join(h)


def hextets(addr):
    """Eight numbers of an IPv6 address, by hand."""
    addr = addr.split('%')[0]
    if '.' in addr:
        head, quad = addr.rsplit(':', 1)
        q = [int(x) for x in quad.split('.')]
        addr = '%s:%x:%x' % (head, q[0] * 256 + q[1], q[2] * 256 + q[3])
    if '::' in addr:
        a, b = addr.split('::')
        a, b = [x for x in a.split(':') if x], [x for x in b.split(':') if x]
        parts = a + ['0'] * (8 - len(a) - len(b)) + b
    else:
        parts = addr.split(':')
    return [int(x, 16) for x in parts]


DAYS = ('Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday')
MONTHS = ('January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November',
          'December')


def clock_attributes(t):
    d = datetime.datetime.fromtimestamp(t, datetime.timezone.utc)
    return {'con_time': ('INT', str(t)), 'con_time_weekdayname': ('STRING', DAYS[d.weekday()]),
            'con_time_monthname': ('STRING', MONTHS[d.month - 1]), 'con_time_month': ('INT', str(d.month)),
            'con_time_day': ('INT', str(d.day)), 'con_time_weekday': ('INT', str(d.weekday())),
            'con_time_year': ('INT', str(d.year)), 'con_time_yearday': ('INT', str(d.timetuple().tm_yday)),
            'con_time_hour': ('INT', str(d.hour)), 'con_time_min': ('INT', str(d.minute)),
            'con_time_sec': ('INT', str(d.second)), 'con_time_zone': ('STRING', 'GMT'), 'con_time_dst': ('BOOL', 'False')}


def connection_attributes(conf, req, serial, t):
    url = 'http://%s:%s/AttributeAuthority/jsonwsp/' % (conf['SERVICE_HOST'].strip() and conf['SERVICE_HOST'] or 'localhost',
                                                        conf['SERVICE_PORT'])
    pub = keys.key(svc.AUTHORITY_KEY).publickey().export_key()
    out = {k.lower(): ('STRING', v) for k, v in req['exports'].items() if k in (
        'REMOTE_ADDR', 'REMOTE_HOST', 'REMOTE_IDENT', 'REMOTE_USER')}
    addr = req['exports']['REMOTE_ADDR']
    v6 = ':' in addr
    if v6 or '.' in addr:
        out['ip_v4'], out['ip_v6'] = ('BOOL', str(not v6)), ('BOOL', str(v6))
    if v6:
        for k, x in enumerate(hextets(addr)):
            out['remote_addr_v6_hex%d' % k] = ('INT', str(x))
    elif '.' in addr:
        for k, x in enumerate(addr.split('.')):
            out['remote_addr_v4_oct%d' % k] = ('INT', str(int(x)))
    out.update(clock_attributes(t))
    out.update({
        'auth_method': ('INT', '0'), 'pub_key': ('STRING', base64.b64encode(req['pub_key']).decode('ascii')),
        'pub_key_size': ('INT', str(req['key_size'])), 'pub_key_algo': ('STRING', req['cipher']),
        'aauth_uid': ('STRING', conf['A_URI']), 'aauth_name': ('STRING', conf['AAUTH_ID']), 'aauth_url': ('STRING', url),
        'aauth_pub_key': ('STRING', base64.b64encode(pub).decode('ascii')), 'aauth_pub_key_size': ('INT', '2048'),
        'aauth_pub_key_algo': ('STRING', 'RSA'), 'aauth_version': ('INT', '1'), 'ac_version': ('INT', '1'),
        'session_id': ('INT', str(serial)), 'session_length': ('INT', str(int(conf['AC_EXPIRE_LENGTH'])))})
    return {CONNECTION + k: (v[0], v[1], k) for k, v in out.items()}


def verify_by_hand(data, key):
    """The certificate's signature, checked with the crypto library alone: over the bytes before the signature part
    followed by the empty signature part, as the format defines."""
    from Crypto.Hash import SHA256
    from Crypto.Signature import pkcs1_15
    f, (sig_at, algo_at, sig_value_at) = cg.read(data)
    algo, value = f['signature'] or (None, None)
    if value is None:
        return False
    for body in (data[:sig_at], data[:sig_at] + b'\0\0\0\0'):
        try:
            pkcs1_15.new(key.publickey()).verify(SHA256.new(body), value)
            return True
        except ValueError:
            pass
    return False


def configuration(rng):
    return dict(STD, AAUTH_ID=rng.choice(('authority one', 'aa', 'Autorité ü', word(rng))),
                A_URI=rng.choice(('hgabac://aa.test:1', 'urn:x', 'hgabac://%s:%d' % (word(rng), rng.randrange(1, 65536)))),
                AC_EXPIRE_LENGTH=str(rng.choice((1, 60, 3600, 86400, rng.randint(1, 10 ** 6)))),
                REV_URI=rng.choice(('', ' ', 'http://rev.test/list', 'ftp://x')),
                SERVICE_HOST=rng.choice(('', ' ', 'aa.example.org', '192.0.2.1', '0.0.0.0', '127.0.0.1', 'localhost', 'AA.Example.ORG',
                                         '::1', 'aa', '*', 'xn--p-8ga.test')),
                SERVICE_PORT=rng.choice(('8888', '80', '1', '443', '65535', '08080', '0')))


SERIALS = {}


def judge18(mon, a, conf, req, user, got, want_user, check_file=True):
    witness = dict(configuration=conf, request={k: v for k, v in req.items() if k != 'pub_key'}, user=user,
                   answer=repr(got))
    mon.check(got.refusal is None, 'a rightful request is refused', **witness)
    mon.check(got.version == 1 and got.fmt == 0, 'version or format of the answer is wrong', version=got.version,
              format=got.fmt, **witness)
    f = parsed(got)
    mon.check(verify_by_hand(got.data, keys.key(svc.AUTHORITY_KEY)), 'the certificate is not signed by the authority\'s key',
              **witness)
    mon.check(f['signature'][0] == 'RSASSA-PKCS1-v1_5:SHA256', 'another signature algorithm is stated',
              signature=f['signature'][0], **witness)
    from hgaa.attcert import AttributeCertificate, ExportFormat
    mon.check(AttributeCertificate.import_ac(got.data, ExportFormat.BYTES, verify=True).verify_signature(),
              'the issued certificate does not verify', **witness)
    url = 'http://%s:%s/AttributeAuthority/jsonwsp/' % (conf['SERVICE_HOST'].strip() and conf['SERVICE_HOST'] or 'localhost',
                                                        conf['SERVICE_PORT'])
    pub = keys.key(svc.AUTHORITY_KEY).publickey().export_key()
    mon.equal(f['issuer'], (pub, 'RSA[2048]', conf['A_URI'], conf['AAUTH_ID'], url), 'the issuer is stated wrongly', **witness)
    mon.equal(f['holder'], (req['pub_key'], '%s[%d]' % (req['cipher'], req['key_size']),
                            '%s/user/%s' % (conf['A_URI'], user), user), 'the holder is stated wrongly', **witness)
    version, serial, issued = f['info']
    mon.check(version == 1, 'another certificate version is stated', version=version, **witness)
    spans = [(int(got.t0), int(got.t1))] + ([(int(got.r0), int(got.r1))] if got.r0 is not None else [])
    mon.check(any(p <= issued <= q for p, q in spans), 'the time of issue is not the time of the request', issued=issued,
              between=(got.t0, got.t1), **witness)
    rev = conf['REV_URI'].strip() and conf['REV_URI'] or url + 'revocation_list'
    mon.equal(f['validity'], (issued, issued + int(conf['AC_EXPIRE_LENGTH']), rev, None), 'the validity is stated wrongly',
              **witness)
    mon.check(f['delegation'] is None and not f['extensions'], 'delegation or extensions nobody asked for', **witness)
    mon.check(serial not in SERIALS and serial.bit_length() <= 160, 'a serial number came twice', serial=serial,
              first=SERIALS.get(serial), **witness)
    SERIALS[serial] = user
    mon.event('serials')
    have = {}
    for aid, t, v, n, x in f['attributes']:
        mon.check(aid not in have, 'an attribute is stated twice', attribute=aid, **witness)
        have[aid] = (t, v, n)
    options = []
    for k, (t, v, n) in want_user.items():
        if k in have and v in (None, '') and same_value(have[k][1], v):
            have[k] = (have[k][0], v, have[k][2])
    for t in [t for p, q in spans for t in range(p, q + 1)]:
        want = connection_attributes(conf, req, serial, t)
        for k, (ty, v, n) in want.items():
            if v == '' and k in have and have[k][1] is None:
                have[k] = (have[k][0], '', have[k][2])
        want.update(want_user)
        options.append(want)
        if have == want:
            break
    else:
        want = options[0] if len(options) == 1 else next(
            (o for o in options if o[CONNECTION + 'con_time'] == have.get(CONNECTION + 'con_time')), options[0])
        diff = {k: (have.get(k), want.get(k)) for k in set(have) | set(want) if have.get(k) != want.get(k)}
        raise Violation('the certificate misstates the connection', stated_and_true=diff, **witness)
    if check_file:
        name = os.path.join(svc.SCRATCH, 'acs')
        files = [x for x in svc.issued_files() if open(os.path.join(name, x), 'rb').read() == got.data]
        mon.check(len(files) == 1, 'the issued certificate is not on file exactly once', files=len(files), **witness)
    mon.event('certificates')
    mon.event('v6' if ':' in req['exports']['REMOTE_ADDR'] else 'v4')
    return serial


def a_request(rng):
    k = rng.randrange(keys.COUNT)
    pub = rng.choice((keys.key(k).publickey().export_key(), keys.public_der(k), rng.randbytes(rng.randint(1, 60))))
    ex = {'REMOTE_ADDR': address(rng)}
    for n in ('REMOTE_HOST', 'REMOTE_IDENT', 'REMOTE_USER'):
        if rng.random() < 0.4:
            ex[n] = rng.choice((word(rng), word(rng), '', 'Jos\xe9', 'None', ' x'))
    if rng.random() < 0.5:
        ex['HTTP_COOKIE'] = 'secret=1'
    return {'pub_key': pub, 'cipher': rng.choice(('RSA', 'RSA', 'DSA')), 'key_size': rng.choice((1024, 2048, 4096, 1)),
            'exports': ex}


def send(a, user, pw, req, names=(), ids=()):
    ex = dict(req['exports'])
    return svc.request(a, user, pw, names, ids, pub_key=req['pub_key'], cipher=req['cipher'], key_size=req['key_size'],
                       addr=ex.pop('REMOTE_ADDR'), **ex)


def moment(rng):
    """Some second between 1970 and 2105: any, around midnight, turns of month and year, leap days, turns of summer time."""
    r = rng.random()
    if r < 0.5:
        return rng.randint(86400, 2 ** 32 - 3 * 10 ** 6)
    y = rng.randint(1971, 2104)
    m, d = rng.choice(((12, 31), (1, 1), (2, 28), (3, 1), (rng.randint(1, 12), 1), (3, 29), (10, 25), (11, 1), (7, 1)))
    t = datetime.datetime(y, m, d, tzinfo=datetime.timezone.utc).timestamp()
    return int(t) + rng.choice((-1, 0, 1, 3600, 7199, 7200, 43200, 86399, 86400, 12 * 3600 + 1))


def safe_world(mon, rng):
    """Accounts whose attributes do not collide with connection attributes or with each other."""
    w = World(rng, tag(mon), n=rng.randint(1, 3))
    w.attrs = {a: v for a, v in w.attrs.items() if not a.startswith(CONNECTION)}
    w.assigned = {k: v for k, v in w.assigned.items() if k[1] in w.attrs}
    return w


def c18_setup(mon):
    svc.start_quiet()


@c18.workload('certificates', 40, 1500, setup=c18_setup)
def c18_certificates(mon, rng, i):
    conf = configuration(rng)
    w = safe_world(mon, rng)
    w.store()
    a = aa(**conf)
    svc.clear_issued()
    zone = rng.choice(('UTC', 'EST5EDT', 'Asia/Tokyo', 'NZST-12', 'XXX+11:30', 'AAA0BBB,0/0,J365/25', 'CET-1CEST,0/0,J365/25'))
    os.environ['TZ'] = zone
    time.tzset()
    try:
        for _ in range(8):
            u = rng.choice(list(w.users))
            req = a_request(rng)
            if rng.random() < 0.5:
                got = send(a, cased(rng, u), w.users[u]['password'], req)
            else:
                with svc.clock(moment(rng)):
                    got = send(a, cased(rng, u), w.users[u]['password'], req)
                mon.event('other_times')
                mon.seen('weekdays', time.gmtime(got.t0).tm_wday)
                mon.seen('months', time.gmtime(got.t0).tm_mon)
            mine = {k: (t, v, n) for k, (t, v, n) in w.of(u).items()}
            judge18(mon, a, conf, req, u, got, mine)
            mon.seen('zones', zone)
            mon.case((conf, repr(req), u, mine))
    finally:
        os.environ['TZ'] = 'UTC'
        time.tzset()
    mon.sample(configuration=conf, user=u, address=req['exports']['REMOTE_ADDR'], certificate=parsed(got)['info'])


@c18.workload('concurrent', 12, 400, setup=c18_setup)
def c18_concurrent(mon, rng, i):
    conf = STD
    w = safe_world(mon, rng)
    w.store()
    a = std()
    svc.clear_issued()
    todo = []
    for _ in range(rng.randint(3, 8)):
        u = rng.choice(list(w.users))
        todo.append((u, a_request(rng)))
    results, sig, n = interleave.jitter(
        rng, [lambda u=u, r=r: send(a, u, w.users[u]['password'], r) for u, r in todo])
    for (u, req), r in zip(todo, results):
        judge18(mon, a, conf, req, u, r[1], w.of(u))
        mon.event('concurrent_requests')
    mon.seen('schedule', sig)
    mon.case((todo and [t[0] for t in todo], sig))


@c18.workload('info', 30, 600, setup=c18_setup)
def c18_info(mon, rng, i):
    """The authority's own description agrees with the certificates it issues."""
    conf = configuration(rng)
    a = aa(**conf)
    x = a.info(**svc.exports(address(rng)))
    url = 'http://%s:%s/AttributeAuthority/jsonwsp/' % (conf['SERVICE_HOST'].strip() and conf['SERVICE_HOST'] or 'localhost',
                                                        conf['SERVICE_PORT'])
    rev = conf['REV_URI'].strip() and conf['REV_URI'] or url + 'revocation_list'
    got = (x.aauth_id, x.attribute_authority_version, x.attribute_certificate_version, x.attribute_uri, x.revocation_url,
           bytes(x.public_key), sorted((c.name, c.value) for c in x.credential_types), x.key_algorithm.cipher,
           x.key_algorithm.key_size, x.signature_type.hash_algorithm, x.signature_type.signature_algorithm)
    want = (conf['AAUTH_ID'], 1, 1, conf['A_URI'], rev, keys.key(svc.AUTHORITY_KEY).publickey().export_key(),
            [('USER_PASS', 0)], 'RSA', 2048, 'SHA256', 'RSASSA-PKCS1-v1_5')
    mon.equal(got, want, 'the authority misdescribes itself', configuration=conf)
    mon.case(conf)
    mon.event('infos')
