"""C19 who is admitted to a session, C20 what is recorded of it, C21 the services' descriptions, C29 connections."""
import base64
import copy
import hashlib
import io
import threading
import time
from functools import lru_cache

from Crypto.PublicKey import RSA

from rv import certgen as cg, core, dictionary, interleave, keys, svc
from rv.core import Violation
from rv.certgen import (AttributeCertificate, ACInformation, ACIssuer, ACHolder, ACAttribute, ACRevocationRules,
                        ACSignature, AttributeType, ExportFormat)
from rv.checks import svc_aa

FORMATS = {0: ExportFormat.BYTES, 3: ExportFormat.BASE64, 4: ExportFormat.BASE64FULL}
DAY = 86400


def word(rng, lo=1, hi=8):
    return svc_aa.word(rng, lo, hi)


class Authorities(object):
    """The authorities a policy authority knows: uid -> {key, trust, pem}."""

    def __init__(self, rng, n=None):
        import hgaa.schema.pauth as sch
        self.sch = sch
        self.known = {}
        for _ in range(n or rng.randint(1, 4)):
            uid = rng.choice(('hgabac://aa.test:1', 'hgabac://%s:%d' % (word(rng), rng.randrange(1, 65536)), 'urn:' + word(rng)))
            if uid.lower() not in [x.lower() for x in self.known]:
                self.known[uid] = {'key': rng.randrange(keys.COUNT), 'trust': rng.choice((1, 2, 50, 100, 10 ** 6)),
                                   'name': word(rng), 'url': 'http://%s/' % word(rng), 'size': rng.choice((1024, 2048))}

    def distrust(self, rng):
        uid = 'hgabac://distrusted.test:%d' % rng.randrange(9)
        self.known[uid] = {'key': rng.randrange(keys.COUNT), 'trust': rng.choice((0, -1, -100)), 'name': 'd', 'url': 'u',
                           'size': 2048}
        return uid

    def trusted(self):
        return [u for u, a in self.known.items() if a['trust'] > 0]

    def rows(self):
        return [self.sch.AttributeAuthority(uid=u, name=a['name'], url=a['url'], key_cipher=a.get('cipher', 'RSA'), key_size=a['size'],
                                            pub_key=keys.key(a['key']).publickey().export_key().decode('ascii'),
                                            trust_level=a['trust']) for u, a in self.known.items()]

    def store(self):
        svc.fill('pauth', self.rows())


class Cert(object):
    """A certificate as the oracle knows it, and as it is handed in."""

    def __init__(self, rng, uid, key, issuer_key=None, after=None, before=None, issued=None, serial=None, now=None):
        now = int(now if now is not None else time.time())
        self.after = now - rng.choice((30, 60, 3600, 10 ** 6)) if after is None else after
        self.before = now + rng.choice((60, 3600, DAY - 60, DAY, DAY + 60, 3 * DAY, 10 ** 7)) if before is None else before
        self.before = min(self.before, 2 ** 32 - 1)
        self.issued = rng.choice((self.after, now - rng.randint(0, 10 ** 5), now + 500)) if issued is None else issued
        self.serial = (rng.choice((rng.getrandbits(160), rng.getrandbits(160), rng.getrandbits(64), 2 ** 159 + rng.getrandbits(64)))
                       if serial is None else serial)
        self.uid, self.key = uid, key
        ik = keys.key(key if issuer_key is None else issuer_key).publickey()
        pub = rng.choice((ik.export_key(), ik.export_key('DER')))
        atts = [ACAttribute('/attribute/user/' + word(rng), rng.choice(list(AttributeType)), word(rng), word(rng))
                for _ in range(rng.choice((0, 1, 2, 5)))]
        self.ac = AttributeCertificate(
            ACIssuer(pub, 'RSA[%d]' % ik.size_in_bits(), uid, word(rng), 'http://aa'),
            ACHolder(keys.public_der(rng.randrange(keys.COUNT)), 'RSA[1024]', uid + '/user/' + word(rng), word(rng)),
            ACInformation(1, self.serial, self.issued), atts, ACRevocationRules(self.after, self.before, 'http://rev'))
        self.ac.sign(keys.key(key))

    def raw(self):
        return bytes(self.ac.export_ac(ExportFormat.BYTES))

    def item(self, fmt):
        out = self.ac.export_ac(FORMATS[fmt])
        return (out.encode('utf-8') if isinstance(out, str) else bytes(out)), 1, fmt


def b64id(n):
    return base64.b64encode(n.to_bytes(20, 'little')).decode('ascii')


_PA = {}
STD = {'PAUTH_NAME': 'policy one', 'PAUTH_UID': 'hgabac://pa.test:1', 'SERVICE_HOST': '', 'SERVICE_PORT': '8888'}


def pa(**conf):
    conf = dict(STD, **conf)
    k = tuple(sorted(conf.items()))
    if k not in _PA:
        svc.start_quiet()
        svc.configure('PAUTH', **{n: v for n, v in conf.items() if not n.startswith('SERVICE_')})
        svc.configure('LADON', **{n: v for n, v in conf.items() if n.startswith('SERVICE_')})
        if len(_PA) > 40:
            _PA.clear()
        _PA[k] = svc.new_pa()
    return _PA[k]


def refused(mon, got, before, kind, **witness):
    mon.check(got.refusal is not None, 'a session was started that must be refused', defect=kind, answer=repr(got), **witness)
    mon.check('QueuePool' not in (got.text or ''), 'the service ran out of database connections', defect=kind)
    after = svc.dump('pauth')
    if after != before:
        raise Violation('a refused session left traces in the database', defect=kind,
                        tables=[t for t in after if after[t] != before[t]], **witness)
    mon.event('refused')
    mon.seen('defect', kind)
    if got.refusal == 'ClientFault':
        mon.event('client_faults')


def admitted(mon, got, **witness):
    mon.check(got.refusal is None, 'a set of valid certificates from trusted authorities is refused', answer=repr(got),
              **witness)
    mon.event('admitted')


def good_set(rng, auth, n=None, now=None):
    out = []
    for _ in range(n or rng.randint(1, 4)):
        u = rng.choice(auth.trusted())
        out.append(Cert(rng, u, auth.known[u]['key'], now=now))
    return out


# ---------------------------------------------------------------------------------------------------------------- C19
c19 = core.register(
    'C19', 'Sets of certificates handed to the policy authority: all valid, or with one certificate of the set made bad '
    'in one of many ways (issuer unknown, not trusted, impersonated with another key, tampered bytes or fields, expired, '
    'not yet valid, unsigned, wrong version or format, cut, garbage, nothing at all), trust given and withdrawn between '
    'requests, certificates running out. A session starts exactly when every certificate is sound, and a refusal leaves '
    'the database as it was. Non-trivial: every case; distinct by certificates.',
    ['hgaa/services/pauth.py:start_session', 'hgaa/services/pauth.py:_check_cert', 'hgaa/attcert.py'],
    require={'admitted': 150, 'refused': 700, 'set:defect': 24, 'trust_changes': 20, 'ran_out': 3, 'from_authority': 3},
    assumptions=['the Ladon web framework is replaced by a stand-in that passes calls through',
                 'certificates lie inside or outside their validity by at least 30 s, or the test waits'])


@lru_cache(None)
def _sibling(k, e):
    r = keys.key(k)
    try:
        return RSA.construct((r.n, e, pow(e, -1, (r.p - 1) * (r.q - 1))))
    except ValueError:
        return None


def sibling(k, rng):
    """A key pair of the same modulus as key k, with another exponent."""
    es = [3, 5, 7, 11, 13, 17, 19, 257, 65539]
    rng.shuffle(es)
    return next(x for x in (_sibling(k, e) for e in es if e != keys.key(k).e) if x is not None)


def defects(rng, auth):
    """(kind, item) of every way to hand in a bad certificate."""
    now = int(time.time())
    u = rng.choice(auth.trusted())
    k = auth.known[u]['key']
    other = rng.choice([x for x in range(keys.COUNT) if x != k])
    fmt = rng.choice((0, 3, 4))
    out = []

    def add(kind, cert, f=None):
        out.append((kind, cert.item(fmt if f is None else f)))
    for name in ('hgabac://unknown:1', u + '/', u + ' ', u.swapcase(), '', u[:-1], u + '\0', '%'):
        if name not in auth.known:
            add('issuer unknown', Cert(rng, name, k))
    bad = [x for x, a in auth.known.items() if a['trust'] <= 0]
    for x in bad:
        add('issuer not trusted', Cert(rng, x, auth.known[x]['key']))
    add('impersonated with another key', Cert(rng, u, other))
    for x, a in auth.known.items():
        if a['key'] != k:
            add('key of another authority', Cert(rng, u, a['key']))
    add('signed by another key', Cert(rng, u, other, issuer_key=k))
    d = Cert(rng, u, k)
    odd = sibling(k, rng)
    d.ac.issuer.pub_key = odd.publickey().export_key(rng.choice(('PEM', 'DER')))
    d.ac.sign(odd)
    add('key of the same modulus', d)
    for name in ('hgabac://stranger:%d' % rng.randrange(99), auth.known[u]['name'], auth.known[u]['url'], 'RSA'):
        if name not in auth.known:
            d = Cert(rng, name, k)
            d.ac.issuer.name, d.ac.issuer.url = auth.known[u]['name'], auth.known[u]['url']
            d.ac.holder.uid = u + '/user/' + word(rng)
            d.ac.sign(keys.key(k))
            add('issuer unknown', d)
    add('expired', Cert(rng, u, k, after=now - 1000, before=now - rng.choice((0, 1, 30, 900))))
    add('expired', Cert(rng, u, k, after=0, before=1))
    add('not yet valid', Cert(rng, u, k, after=now + rng.choice((60, 100, DAY)), before=now + 2 * DAY))
    add('inverted period', Cert(rng, u, k, after=now + 100, before=now - 100))
    c = Cert(rng, u, k)
    raw = c.raw()
    f, (sig_at, algo_at, value_at) = cg.read(raw)
    for _ in range(3):
        j = rng.randrange(sig_at)
        t = raw[:j] + bytes([raw[j] ^ (1 << rng.randrange(8))]) + raw[j + 1:]
        out.append(('tampered body', (t, 1, 0)))
        out.append(('tampered body', (base64.b64encode(t), 1, 3)))
    j = rng.randrange(value_at, len(raw))
    out.append(('tampered signature', (raw[:j] + bytes([raw[j] ^ (1 << rng.randrange(8))]) + raw[j + 1:], 1, 0)))
    for name, d in rng.sample(cg.changes(rng, c.ac), 4):
        if cg.fields(d) == cg.fields(c.ac):
            continue
        d.signature = copy.deepcopy(c.ac.signature)
        e = Cert.__new__(Cert)
        e.ac = d
        add('changed field', e)
    d = Cert(rng, u, k)
    d.ac.rev_rules.valid_before = now + 10 * DAY + 1
    add('prolonged', d)
    d = Cert(rng, u, k)
    d.ac.signature = None
    add('unsigned', d)
    d = Cert(rng, u, k)
    d.ac.signature = copy.deepcopy(c.ac.signature)
    add('signature of another certificate', d)
    d = Cert(rng, u, k)
    d.ac.signature = ACSignature(d.ac.signature.sig_algo, b'\0' * len(d.ac.signature.sig_value))
    add('empty signature', d)
    good = c.item(fmt)
    for v in (0, 2, -1, 256, None):
        out.append(('another version', (good[0], v, fmt)))
    for x in (1, 2, 5, 9, -1, None, 'BYTES'):
        out.append(('another format', (good[0], 1, x)))
    out.append(('text format', (str(c.ac).encode('utf-8'), 1, 1)))
    out.append(('format mislabelled', (raw, 1, rng.choice((3, 4)))))
    out.append(('format mislabelled', (c.item(3)[0], 1, rng.choice((0, 4)))))
    out.append(('format mislabelled', (c.item(4)[0], 1, 0)))
    out.append(('cut', (raw[:rng.randrange(len(raw))], 1, 0)))
    out.append(('extended', (raw + b'\0', 1, 0)))
    out.append(('two in one', (raw + raw, 1, 0)))
    for g in (b'', b'\0', b'garbage', rng.randbytes(rng.randint(1, 400)), b'\xff' * 300):
        out.append(('garbage', (g, 1, fmt)))
    return out


@c19.workload('one_bad', 40, 1500, setup=svc.start_quiet)
def c19_one_bad(mon, rng, i):
    auth = Authorities(rng)
    auth.distrust(rng)
    auth.store()
    p = pa()
    good = good_set(rng, auth)
    log = []
    admitted(mon, svc.start_session(p, [c.item(rng.choice((0, 3, 4))) for c in good]), certificates=len(good))
    before = svc.dump('pauth')
    many = [[c.item(0) for c in good_set(rng, auth, rng.choice((6, 9, 20)))] for _ in range(2)]
    todo = defects(rng, auth)
    rng.shuffle(todo)
    kinds = set()
    todo = [t for t in todo if not (t[0] in kinds and rng.random() < 0.5) and not kinds.add(t[0])]
    for kind, item in todo:
        items = [c.item(rng.choice((0, 3, 4))) for c in good_set(rng, auth, rng.choice((1, 1, 2, 3)))]
        items = items if rng.random() < 0.6 else []
        if rng.random() < 0.3:
            items += rng.choice(many)
        if rng.random() < 0.2:
            items += [good[0].item(0)]
        items.insert(rng.choice((rng.randint(0, len(items)), len(items))), item)
        got = svc.start_session(p, items)
        refused(mon, got, before, kind, position=items.index(item), size=len(items), item=item[0][:2000])
        log.append(kind)
    for kind, s in (('no set', None), ('empty set', [])):
        refused(mon, svc.start_session(p, s), before, kind)
    admitted(mon, svc.start_session(p, [c.item(rng.choice((0, 3, 4))) for c in good_set(rng, auth)]))
    mon.case((sorted(auth.known), log, i))
    mon.sample(authorities={u: a['trust'] for u, a in auth.known.items()}, defects=log)


@c19.workload('missing', 8, 50, setup=svc.start_quiet)
def c19_missing(mon, rng, i):
    """Requests with their parts absent."""
    auth = Authorities(rng)
    auth.store()
    p = pa()
    before = svc.dump('pauth')
    ClientFault, ServerFault = svc.faults()
    for kind in ('no list', 'no data', 'no certificate'):
        s = svc.cert_set([good_set(rng, auth, 1)[0].item(0)])
        if kind == 'no list':
            s.attribute_certificates = None
        elif kind == 'no data':
            s.attribute_certificates[0].data = None
        else:
            s.attribute_certificates = [None]
        try:
            p.start_session('hgabac://svc/1', s, **svc.exports())
        except Exception as e:
            got = svc.SessionAnswer(refusal=type(e).__name__, text=str(e)[:200])
        else:
            got = svc.SessionAnswer(1)
        refused(mon, got, before, kind)
    mon.case(i)


@c19.workload('trust', 20, 800, setup=svc.start_quiet)
def c19_trust(mon, rng, i):
    """Trust given, withdrawn and keys replaced between requests."""
    auth = Authorities(rng, n=rng.randint(2, 4))
    auth.store()
    p = pa()
    pool = []
    log = []
    for u, a in list(auth.known.items()):
        pool.append((Cert(rng, u, a['key']), a['key']))
    for _ in range(rng.randint(6, 14)):
        u = rng.choice(list(auth.known))
        a = auth.known[u]
        r = rng.random()
        if r < 0.35:
            a['trust'] = rng.choice((0, -1, 1, 100))
            svc.execute('pauth', 'UPDATE pauth_attribute_authorities SET trust_level=:t WHERE uid=:u', t=a['trust'], u=u)
            mon.event('trust_changes')
        elif r < 0.5:
            a['key'] = rng.randrange(keys.COUNT)
            svc.execute('pauth', 'UPDATE pauth_attribute_authorities SET pub_key=:k WHERE uid=:u', u=u,
                        k=keys.key(a['key']).publickey().export_key().decode('ascii'))
            pool.append((Cert(rng, u, a['key']), a['key']))
            mon.event('trust_changes')
        chosen = [rng.choice(pool) for _ in range(rng.choice((1, 1, 2, 3)))]
        ok = all(auth.known[c.uid]['trust'] > 0 and auth.known[c.uid]['key'] == k for c, k in chosen)
        before = svc.dump('pauth')
        got = svc.start_session(p, [c.item(0) for c, k in chosen])
        state = {x: (auth.known[x]['trust'], auth.known[x]['key']) for x in auth.known}
        if ok:
            admitted(mon, got, authorities=state, certificates=[(c.uid, k) for c, k in chosen])
        else:
            refused(mon, got, before, 'trust withdrawn', authorities=state, certificates=[(c.uid, k) for c, k in chosen])
        log.append((ok, [(c.uid, k) for c, k in chosen]))
    mon.case(log)


@c19.workload('running_out', 8, 100, setup=svc.start_quiet)
def c19_running_out(mon, rng, i):
    """A certificate is good until its end, not beyond; one not yet valid becomes so."""
    auth = Authorities(rng)
    auth.store()
    p = pa()
    u = rng.choice(auth.trusted())
    t = time.time()
    now = int(t)
    short = Cert(rng, u, auth.known[u]['key'], after=now - 50, before=now + 2)
    late = Cert(rng, u, auth.known[u]['key'], after=now + 2, before=now + 1000)
    long = Cert(rng, u, auth.known[u]['key'], after=now - 50, before=now + 1000)
    got = svc.start_session(p, [short.item(0), long.item(3)])
    if time.time() < now + 1.9:
        admitted(mon, got, note='certificate in its last seconds')
    before = svc.dump('pauth')
    got = svc.start_session(p, [late.item(0)])
    if time.time() < now + 1.9:
        refused(mon, got, before, 'not yet valid')
    time.sleep(max(0, now + 3.1 - time.time()))
    before = svc.dump('pauth')
    refused(mon, svc.start_session(p, [short.item(0)]), before, 'expired')
    refused(mon, svc.start_session(p, [long.item(0), short.item(0)]), before, 'expired')
    admitted(mon, svc.start_session(p, [late.item(0), long.item(3)]), note='certificate now valid')
    mon.event('ran_out')
    mon.case(i)


MOMENTS = (2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 30, 10 ** 9, 1709164800, 1798761599, 1798761600, 4102444800, 2 ** 32 - 3 * DAY)


def moment(rng):
    return rng.choice((rng.choice(MOMENTS) + rng.randint(-2, 2), rng.randint(10 ** 9, 2 ** 32 - 3 * DAY)))


@c19.workload('moments', 24, 800, setup=svc.start_quiet)
def c19_moments(mon, rng, i):
    """To the second, at any time."""
    auth = Authorities(rng)
    auth.store()
    p = pa()
    u = rng.choice(auth.trusted())
    k = auth.known[u]['key']
    now = moment(rng)
    with svc.frozen(now):
        if svc.start_session(p, [Cert(rng, u, k, after=now - 1000, before=now + 1000).item(0)]).refusal:
            mon.event('clock_not_followed')
            return
        for _ in range(10):
            a = rng.choice((now, now - 1, now - 2, now + 1, now - DAY, now - 10 ** 6, 0, 1))
            b = rng.choice((now, now - 1, now + 1, now + 2, now + DAY, now + DAY - 1, 2 ** 32 - 1))
            c = Cert(rng, u, k, after=a, before=b, issued=rng.choice((a, now, now - 5, 0)))
            items = [c.item(rng.choice((0, 3, 4)))]
            if rng.random() < 0.4:
                items.insert(rng.randint(0, 1), Cert(rng, u, k, after=now - 1000, before=now + 1000).item(0))
            before = svc.dump('pauth')
            got = svc.start_session(p, items)
            if a < now < b:
                admitted(mon, got, now=now, after=a, before=b)
            else:
                refused(mon, got, before, 'outside its period', now=now, period=(a, b))
            mon.event('moments')
    mon.case((now, i))


@c19.workload('from_authority', 8, 120, setup=svc.start_quiet)
def c19_from_authority(mon, rng, i):
    """Certificates as the attribute authority really issues them."""
    import hgaa.schema.pauth as sch
    w = svc_aa.World(rng, svc_aa.tag(mon), n=2)
    w.store()
    a = svc_aa.std()
    auth = Authorities(rng, n=1)
    auth.known = {'hgabac://aa.test:1': {'key': svc.AUTHORITY_KEY, 'trust': 100, 'name': 'aa', 'url': 'u', 'size': 2048}}
    auth.store()
    p = pa()
    got = [svc.request(a, u, v['password']) for u, v in w.users.items()]
    mon.check(all(g.refusal is None for g in got), 'the authority refuses', answers=repr(got))
    items = [(g.data, g.version, g.fmt) for g in got]
    issued = max(cg.read(g.data)[0]['info'][2] for g in got)
    time.sleep(max(0, issued + 1.05 - time.time()))
    admitted(mon, svc.start_session(p, items))
    auth.known['hgabac://aa.test:1']['trust'] = 0
    svc.execute('pauth', 'UPDATE pauth_attribute_authorities SET trust_level=0')
    refused(mon, svc.start_session(p, items), svc.dump('pauth'), 'trust withdrawn')
    mon.event('from_authority')
    mon.case(i)


@c19.workload('concurrent', 12, 400, setup=svc.start_quiet)
def c19_concurrent(mon, rng, i):
    auth = Authorities(rng)
    auth.distrust(rng)
    auth.store()
    p = pa()
    bad = defects(rng, auth)
    todo = []
    for _ in range(rng.randint(3, 8)):
        items = [c.item(rng.choice((0, 3, 4))) for c in good_set(rng, auth, rng.randint(1, 3))]
        kind = None
        if rng.random() < 0.5:
            kind, item = rng.choice(bad)
            items.insert(rng.randint(0, len(items)), item)
        todo.append((kind, items))
    results, sig, n = interleave.jitter(rng, [lambda s=s: svc.start_session(p, s) for k, s in todo])
    for (kind, items), r in zip(todo, results):
        if kind is None:
            admitted(mon, r[1])
        else:
            mon.check(r[1].refusal is not None, 'a session was started that must be refused', defect=kind)
            mon.event('refused')
    mon.equal(len(svc.rows('pauth', 'pauth_sessions')), sum(k is None for k, s in todo),
              'sessions recorded and sessions started differ in number')
    mon.seen('schedule', sig)
    mon.case(([k for k, s in todo], sig))


# ---------------------------------------------------------------------------------------------------------------- C20
c20 = core.register(
    'C20', 'Histories of sessions started with new, repeated and shared certificates, in sequence and concurrently; '
    'after each, the database must hold exactly the sessions, certificates and links that the answers imply. '
    'Non-trivial: every session; distinct by certificates.',
    ['hgaa/services/pauth.py:start_session', 'hgaa/schema/pauth.py'],
    require={'forgotten': 100, 'sessions': 250, 'reused': 60, 'repeated': 30, 'clashes': 20, 'concurrent_sessions': 60, 'capped_by_day': 40,
             'capped_by_certificate': 60, 'failures': 30},
    assumptions=['the Ladon web framework is replaced by a stand-in that passes calls through',
                 'two requests at the same moment do not introduce the same certificate'])


class Book(object):
    """What the database must hold."""

    def __init__(self):
        self.sessions, self.certs, self.links = {}, {}, set()


def record(mon, book, certs, items, got, service_uid, addr):
    sid = got.session_id
    witness = dict(session=sid, service=service_uid)
    mon.check(isinstance(sid, int) and 0 <= sid < 2 ** 160, 'a session id is not a 160-bit number', **witness)
    key = b64id(sid)
    mon.check(key not in book.sessions, 'a session id came twice', **witness)
    start = got.start
    mon.check(int(got.t0) <= start <= int(got.t1), 'the session does not start now', start=start,
              between=(got.t0, got.t1), **witness)
    end = min(c.before for c in certs)
    mon.check(got.valid_till == min(start + DAY, end), 'the session\'s end is not the earlier of a day and the first '
              'certificate\'s end', start=start, valid_till=got.valid_till, certificates_end=end, **witness)
    mon.event('capped_by_day' if start + DAY < end else 'capped_by_certificate')
    book.sessions[key] = {'id': key, 'cert_start': max(c.issued for c in certs), 'cert_valid_till': end,
                          'session_start': start, 'initial_service_ip': addr, 'name': service_uid,
                          'session_valid_till': got.valid_till}
    for c, (data, version, fmt) in zip(certs, items):
        s = b64id(c.serial)
        if s not in book.certs:
            book.certs[s] = {'serial': s, 'certificate': data, 'format': fmt, 'version': version, 'valid_till': c.before,
                             'hash': base64.b64encode(hashlib.sha256(data).digest()).decode('ascii')}
        book.links.add((s, key))
    mon.event('sessions')


def audit(mon, book):
    have = {r['id']: r for r in svc.rows('pauth', 'pauth_sessions')}
    mon.equal(have, book.sessions, 'the recorded sessions differ from those started')
    certs = {r['serial']: dict(r, certificate=bytes(r['certificate'])) for r in svc.rows('pauth', 'pauth_attribute_certificates')}
    for s in set(certs) | set(book.certs):
        mon.equal(certs.get(s), book.certs.get(s), 'the recorded certificates differ from those handed in', serial=s)
    links = [(r['ac_serial'], r['session_id']) for r in svc.rows('pauth', 'pauth_attribute_certificate_assignments')]
    mon.check(len(links) == len(set(links)) and set(links) == book.links, 'certificates and sessions are linked wrongly',
              missing=sorted(book.links - set(links)), extra=sorted(set(links) - book.links))
    mon.event('audits')


def service(rng):
    """(uid, address) of a service that starts a session."""
    uid = 'hgabac://svc/' + word(rng)
    uid = rng.choice((uid, uid, 'HGABAC://Svc.Example/' + word(rng).title(), uid + '/', ' ' + uid, uid + ' ', 'Ünï ' + uid, uid * 12,
                      "o'" + uid, '%' + uid, 'urn:uuid:%032X' % rng.getrandbits(128), rng.choice(dictionary.constants('hgaa')[1])))
    return uid, rng.choice(('10.0.0.1', '::1', '192.0.2.%d' % rng.randrange(256), '2001:DB8:0:0:8:800:200C:417A',
                            '::ffff:192.0.2.128', 'fe80:0000:0000:0000:0204:61ff:fe9d:f156', 'fe80::1%eth0', '127.0.0.1'))


def long_ago(mon, rng, auth, book):
    """Sessions of the past, with certificates that have run out; what is on record stays on record."""
    import hgaa.schema.pauth as sch
    now = int(time.time())
    rows, old = [], []
    for _ in range(rng.randint(1, 3)):
        end = now - rng.choice((1, 100, DAY, 10 ** 7))
        certs = [Cert(rng, u, auth.known[u]['key'], after=end - 5000, before=end, issued=end - 4000)
                 for u in [rng.choice(auth.trusted())] * rng.randint(1, 2)]
        sid = b64id(rng.getrandbits(160))
        for c in certs:
            data, version, fmt = c.item(rng.choice((0, 3, 4)))
            s = b64id(c.serial)
            old.append((c, (data, version, fmt)))
            book.certs[s] = {'serial': s, 'certificate': data, 'format': fmt, 'version': version, 'valid_till': c.before,
                             'hash': base64.b64encode(hashlib.sha256(data).digest()).decode('ascii')}
            rows.append(sch.AttributeCertificate(**book.certs[s]))
            rows.append(sch.AttributeCertificateAssignment(ac_serial=s, session_id=sid))
            book.links.add((s, sid))
        book.sessions[sid] = {'id': sid, 'cert_start': end - 4000, 'cert_valid_till': end, 'session_start': end - 3000,
                              'initial_service_ip': '10.0.0.9', 'name': 'old', 'session_valid_till': end}
        rows.append(sch.Session(**{('service_uid' if k == 'name' else k): v for k, v in book.sessions[sid].items()}))
    svc.fill('pauth', rows, wipe=False)
    mon.event('long_ago')
    return old


def forget(mon, rng, book):
    """Someone else clears out part of the records while the service runs."""
    gone = set(book.certs) if rng.random() < 0.3 else set(rng.sample(sorted(book.certs), rng.randint(1, len(book.certs))))
    for s in gone:
        svc.execute('pauth', 'DELETE FROM pauth_attribute_certificates WHERE serial = :s', s=s)
        svc.execute('pauth', 'DELETE FROM pauth_attribute_certificate_assignments WHERE ac_serial = :s', s=s)
        del book.certs[s]
    ended = {k for s, k in book.links if s in gone}
    book.links = {x for x in book.links if x[0] not in gone}
    for k in ended - {k for s, k in book.links}:
        svc.execute('pauth', 'DELETE FROM pauth_sessions WHERE id = :k', k=k)
        del book.sessions[k]
    mon.event('forgotten', len(gone))
    audit(mon, book)


@c20.workload('history', 40, 1500, setup=svc.start_quiet)
def c20_history(mon, rng, i):
    auth = Authorities(rng)
    auth.store()
    fixed = svc.dump('pauth')['pauth_attribute_authorities']
    p = pa()
    book = Book()
    pool = []
    log = []
    old = []
    if rng.random() < 0.4:
        old = long_ago(mon, rng, auth, book)
        audit(mon, book)
    for _ in range(rng.randint(3, 10)):
        certs = good_set(rng, auth, rng.choice((1, 1, 2, 3, 4)))
        items = [c.item(rng.choice((0, 3, 4))) for c in certs]
        pairs = list(zip(certs, items))
        if pool and rng.random() < 0.6:
            pairs = (pairs if rng.random() < 0.5 else []) + rng.sample(pool, min(len(pool), rng.choice((1, 1, 2))))
            mon.event('reused')
        if rng.random() < 0.25:
            pairs.append(rng.choice(pairs))
            mon.event('repeated')
        if book.certs and rng.random() < 0.2:
            forget(mon, rng, book)
            old = [x for x in old if b64id(x[0].serial) in book.certs]
        on_record = [x for x in pool if b64id(x[0].serial) in book.certs]
        if on_record and rng.random() < 0.25:
            # other content under a serial in use, in the database or in the set itself
            c, item = rng.choice(old if old and rng.random() < 0.4 else on_record + pairs)
            u = c.uid if rng.random() < 0.6 else rng.choice(auth.trusted())
            clash = Cert(rng, u, auth.known[u]['key'], serial=c.serial)
            bad = pairs + [(clash, clash.item(item[2] if rng.random() < 0.6 else rng.choice((0, 3, 4))))]
            if (c, item) not in on_record + old or rng.random() < 0.3:
                bad.append((c, item))
            rng.shuffle(bad)
            before = svc.dump('pauth')
            refused(mon, svc.start_session(p, [x[1] for x in bad]), before, 'serial in use', serial=c.serial)
            mon.event('clashes')
        rng.shuffle(pairs)
        uid, addr = service(rng)
        got = svc.start_session(p, [x[1] for x in pairs], uid, addr)
        admitted(mon, got, certificates=[(c.uid, c.serial, c.after, c.before) for c, _ in pairs])
        record(mon, book, [x[0] for x in pairs], [x[1] for x in pairs], got, uid, addr)
        audit(mon, book)
        pool += [x for x in pairs if x not in pool]
        log.append([c.serial for c, _ in pairs])
    mon.equal(svc.dump('pauth')['pauth_attribute_authorities'], fixed, 'starting sessions changed the authorities')
    mon.case(log)
    mon.sample(sessions=list(book.sessions)[:3], certificates=len(book.certs), links=len(book.links))


@c20.workload('concurrent', 14, 500, setup=svc.start_quiet)
def c20_concurrent(mon, rng, i):
    auth = Authorities(rng)
    auth.store()
    p = pa()
    book = Book()
    shared = good_set(rng, auth, 2)
    sitems = [c.item(rng.choice((0, 3, 4))) for c in shared]
    got = svc.start_session(p, sitems, 'first', '10.0.0.1')
    admitted(mon, got)
    record(mon, book, shared, sitems, got, 'first', '10.0.0.1')
    todo = []
    for k in range(rng.randint(3, 8)):
        certs = good_set(rng, auth, rng.randint(1, 3))
        items = [c.item(rng.choice((0, 3, 4))) for c in certs]
        if rng.random() < 0.6:
            j = rng.randrange(2)
            certs.append(shared[j])
            items.append(sitems[j])
        todo.append((certs, items, 'svc%d' % k, '10.0.0.%d' % k))
    results, sig, n = interleave.jitter(rng, [lambda t=t: svc.start_session(p, t[1], t[2], t[3]) for t in todo])
    for (certs, items, uid, addr), r in zip(todo, results):
        admitted(mon, r[1])
        record(mon, book, certs, items, r[1], uid, addr)
        mon.event('concurrent_sessions')
    audit(mon, book)
    mon.seen('schedule', sig)
    mon.case(sig)


@c20.workload('moments', 24, 800, setup=svc.start_quiet)
def c20_moments(mon, rng, i):
    """At any time; ends to the second."""
    auth = Authorities(rng)
    auth.store()
    p = pa()
    book = Book()
    now = moment(rng)
    with svc.frozen(now):
        certs = good_set(rng, auth, 1, now=now)
        r0 = svc.machine_time()
        got = svc.start_session(p, [certs[0].item(0)])
        if got.refusal or int(r0) <= got.start <= svc.machine_time():
            # the code reads the clock in another way than time.time (for the session, or for the certificates)
            mon.event('clock_not_followed')
            return
        auth.store()
        for _ in range(rng.randint(2, 5)):
            certs = good_set(rng, auth, rng.choice((1, 1, 2, 3)), now=now)
            if rng.random() < 0.7:
                u = rng.choice(auth.trusted())
                certs.append(Cert(rng, u, auth.known[u]['key'], after=now - rng.choice((1, 5)), issued=rng.choice((0, now, now - 1, now + 1)),
                                  before=now + rng.choice((1, 2, DAY - 1, DAY, DAY + 1, 2 * DAY))))
            items = [c.item(rng.choice((0, 3, 4))) for c in certs]
            uid, addr = service(rng)
            got = svc.start_session(p, items, uid, addr)
            admitted(mon, got, now=now, certificates=[(c.uid, c.serial, c.after, c.before) for c in certs])
            record(mon, book, certs, items, got, uid, addr)
            audit(mon, book)
            mon.event('moments')
    mon.case((now, i))


@c20.workload('broken', 30, 1000, setup=svc.start_quiet)
def c20_broken(mon, rng, i):
    """The database fails at some statement or at the commit: a session is recorded wholly or not at all."""
    auth = Authorities(rng)
    auth.store()
    p = pa()
    book = Book()
    pool = []
    hits = []
    for _ in range(rng.randint(3, 8)):
        certs = good_set(rng, auth, rng.choice((1, 2, 3)))
        pairs = [(c, c.item(rng.choice((0, 3, 4)))) for c in certs]
        if pool and rng.random() < 0.5:
            pairs.append(rng.choice(pool))
        uid, addr = service(rng)
        with svc.failing(rng.choice((1, 1, 2, 2, 3, 4, 5)), rng.choice(('write', 'write', 'commit', 'read'))) as hit:
            got = svc.start_session(p, [x[1] for x in pairs], uid, addr)
        if got.refusal:
            mon.check(hit, 'a session on good certificates is refused', refusal=got.refusal, text=got.text)
            mon.event('failures')
            mon.seen('failed_at', hit[0])
        else:
            # started, so it has to be on record, whatever failed
            record(mon, book, [x[0] for x in pairs], [x[1] for x in pairs], got, uid, addr)
            pool += [x for x in pairs if x not in pool]
        audit(mon, book)
        hits += hit
    mon.case((i, hits))


@c20.workload('identifiers', 8, 60, setup=svc.start_quiet)
def c20_identifiers(mon, rng, i):
    """Session identifiers are wide and do not repeat."""
    auth = Authorities(rng)
    auth.store()
    p = pa()
    item = good_set(rng, auth, 1)[0].item(0)
    ids = []
    for _ in range(40):
        got = svc.start_session(p, [item])
        admitted(mon, got)
        ids.append(got.session_id)
        mon.event('sessions')
    mon.check(len(set(ids)) == len(ids), 'session ids repeat', ids=ids)
    mon.check(max(ids).bit_length() > 140, 'session ids are short', widest=max(ids).bit_length())
    ones, zeros = 0, 2 ** 160 - 1
    for x in ids:
        ones |= x
        zeros &= x
    mon.check(bin(ones).count('1') == 160 and zeros == 0, 'some bits of the session ids never change')
    mon.case(ids)


# ---------------------------------------------------------------------------------------------------------------- C21
c21 = core.register(
    'C21', 'Random configurations and tables of known authorities, changed between requests: the policy authority\'s '
    'description and its list of known authorities must state exactly them. Non-trivial: every case; distinct by '
    'configuration and table.',
    ['hgaa/services/pauth.py:info', 'hgaa/services/pauth.py:trusted_attribute_authorities'],
    require={'infos': 100, 'lists': 150, 'listed': 200},
    assumptions=['the Ladon web framework is replaced by a stand-in that passes calls through'])


@c21.workload('descriptions', 120, 3000, setup=svc.start_quiet)
def c21_descriptions(mon, rng, i):
    conf = dict(STD, PAUTH_NAME=rng.choice(('policy one', word(rng), 'Ünï')),
                PAUTH_UID=rng.choice(('hgabac://pa.test:1', 'urn:' + word(rng))),
                SERVICE_HOST=rng.choice(('', ' ', 'pa.example.org', '::1', '0.0.0.0', '127.0.0.1', 'localhost', 'PA.Example.ORG',
                                         '::', 'pa', 'xn--p-8ga.test', '*', '255.255.255.255', 'pa.example.org/x')),
                SERVICE_PORT=rng.choice(('8888', '80', '9', '443', '65535', '0', '08080')))
    auth = Authorities(rng, n=rng.choice((None, None, None, 30, 60, 110, dictionary.size(rng, 'hgaa', 200))))
    for a in auth.known.values():
        if rng.random() < 0.3:
            a.update(name=rng.choice(('', 'Ünï Authority', 'A B', 'n' * 70)), url=rng.choice(('', 'HTTPS://AA.Example/Path/', 'u' * 200, 'aa ')),
                     trust=rng.choice((0, -1, 3, 10 ** 6)), cipher=rng.choice(('RSA', 'rsa', 'EC', 'DSA')), size=rng.choice((512, 1024, 3072, 4096, 0)))
    if rng.random() < 0.5:
        auth.distrust(rng)
    auth.store()
    p = pa(**conf)
    x = p.info(**svc.exports())
    url = 'http://%s:%s/PolicyAuthority/jsonwsp/' % (conf['SERVICE_HOST'].strip() and conf['SERVICE_HOST'] or 'localhost',
                                                     conf['SERVICE_PORT'])
    mon.equal((x.name, x.uid, x.version, x.attribute_certificate_version, x.url, x.policy_language_version),
              (conf['PAUTH_NAME'], conf['PAUTH_UID'], 1, 1, url, 1), 'the policy authority misdescribes itself',
              configuration=conf)
    mon.event('infos')
    for _ in range(2):
        got = p.trusted_attribute_authorities(**svc.exports()).attribute_authorities
        have = sorted((a.uid, a.name, a.url, a.public_key, a.trust_level, a.key_algorithm.cipher, a.key_algorithm.key_size)
                      for a in got)
        want = sorted((u, a['name'], a['url'], keys.key(a['key']).publickey().export_key().decode('ascii'), a['trust'],
                       a.get('cipher', 'RSA'), a['size']) for u, a in auth.known.items())
        have = [tuple(v.decode('ascii') if isinstance(v, bytes) else v for v in r) for r in have]
        mon.equal(have, want, 'the list of known authorities differs from the database')
        mon.event('lists')
        mon.event('listed', len(want))
        u = rng.choice(list(auth.known))
        auth.known[u]['trust'] = rng.choice((-1, 0, 1, 77))
        svc.execute('pauth', 'UPDATE pauth_attribute_authorities SET trust_level=:t WHERE uid=:u',
                    t=auth.known[u]['trust'], u=u)
    mon.case((conf, repr(sorted(auth.known.items()))))
    mon.sample(configuration=conf, authorities=sorted(auth.known))


# ---------------------------------------------------------------------------------------------------------------- C29
c29 = core.register(
    'C29', 'Long runs of requests of every outcome, one after the other and from many threads at once, with the cyclic '
    'garbage collector off: every request must be answered and database connections may not pile up. '
    'Non-trivial: every run; distinct by the mix of requests.',
    ['hgaa/services/aauth.py', 'hgaa/services/pauth.py', 'hgaa/database.py'],
    require={'requests': 1500, 'concurrent_requests': 300, 'set:kinds': 8},
    assumptions=['the Ladon web framework is replaced by a stand-in that passes calls through'])


class Connections(object):
    """Counts connections the services' engines have handed out and not got back (SQLAlchemy pool events)."""

    def __init__(self):
        self.out, self.most, self.total = 0, 0, 0
        self.lock = threading.Lock()

    def watch(self):
        from sqlalchemy import event
        from sqlalchemy.pool import Pool

        def took(*a):
            with self.lock:
                self.out += 1
                self.total += 1
                self.most = max(self.most, self.out)

        def back(*a):
            with self.lock:
                self.out -= 1
        event.listen(Pool, 'checkout', took)
        event.listen(Pool, 'checkin', back)
        return self


WATCH = []


def c29_setup(mon):
    svc.start_quiet()
    if not WATCH:
        WATCH.append(Connections().watch())


def a_call(rng, w, a, p, auth):
    """(kind, function, expected refusal?)"""
    u = rng.choice(list(w.users))
    pw = w.users[u]['password']
    certs = [c.item(0) for c in good_set(rng, auth, rng.randint(1, 2))] if auth.known else []
    bad = [rng.choice(((b'garbage', 1, 0), (b'', 1, 0), Cert(rng, 'urn:x', 0).item(0), Cert(rng, 'hgabac://aa.test:1', 0, issuer_key=1).item(0),
                       (certs[0] if certs else (b'',))[:1] + (2, 0)))]
    if not auth.known:
        return rng.choice((
            ('no authorities', lambda: p.trusted_attribute_authorities(**svc.exports()), False),
            ('session of strangers', lambda: svc.start_session(p, [Cert(rng, 'urn:x', 0).item(0)]), True),
            ('no certificates', lambda: svc.start_session(p, []), True),
            ('infos', lambda: (p.info(**svc.exports()), a.info(**svc.exports())), False)))
    return rng.choice((
        ('certificate', lambda: svc.request(a, u, pw), False),
        ('wrong password', lambda: svc.request(a, u, pw + 'x'), True),
        ('unknown account', lambda: svc.request(a, u + 'zz', pw), True),
        ('unassigned attribute', lambda: svc.request(a, u, pw, ['zz'], []), True),
        ('unknown type', lambda: svc.request(a, u, pw, ctype=7), True),
        ('very long password', lambda: svc.request(a, u, 'x' * 100), True),
        ('session', lambda: svc.start_session(p, certs), False),
        ('refused session', lambda: svc.start_session(p, certs + bad), True),
        ('no certificates', lambda: svc.start_session(p, []), True),
        ('authorities', lambda: p.trusted_attribute_authorities(**svc.exports()), False),
        ('infos', lambda: (p.info(**svc.exports()), a.info(**svc.exports())), False)))


@c29.workload('runs', 16, 400, setup=c29_setup)
def c29_runs(mon, rng, i):
    import gc
    w = svc_aa.World(rng, svc_aa.tag(mon), n=rng.randint(1, 3))
    w.users = {u + 'q': v for u, v in w.users.items()}
    w.assigned = {}
    w.store()
    auth = Authorities(rng)
    if rng.random() < 0.25:
        auth.known = {}
    auth.store()
    a, p = svc_aa.std(), pa()
    watch = WATCH[0]
    gc.collect()
    base = watch.out
    gc.disable()
    kinds = []
    try:
        for _ in range(120):
            kind, fn, bad = a_call(rng, w, a, p, auth)
            if rng.random() < 0.15:
                # the database fails under the request
                with svc.failing(rng.choice((1, 1, 2, 3)), rng.choice(('read', 'read', 'write', 'commit'))) as hit:
                    try:
                        got = fn()
                    except Exception as e:
                        got = svc.SessionAnswer(refusal=type(e).__name__, text=str(e)[:200])
                if hit:
                    bad, kind = True, kind + ', database failed'
                    mon.event('database_failures')
            else:
                got = fn()
            refusal = getattr(got, 'refusal', None)
            mon.check((refusal is not None) == bad, 'a request in a long run has another outcome', request=kind,
                      answer=repr(got), after=kinds[-10:])
            mon.check(watch.out - base <= 3, 'requests keep their database connections', request=kind, kept=watch.out - base,
                      after=kinds[-10:])
            kinds.append(kind)
            mon.seen('kinds', kind)
            mon.event('requests')
    finally:
        gc.enable()
        gc.collect()
    mon.case(kinds)
    mon.sample(requests=kinds[:20], connections_used=watch.total)


@c29.workload('crowds', 8, 150, setup=c29_setup)
def c29_crowds(mon, rng, i):
    import gc
    w = svc_aa.World(rng, svc_aa.tag(mon), n=2)
    w.users = {u + 'q': v for u, v in w.users.items()}
    w.assigned = {}
    w.store()
    auth = Authorities(rng)
    auth.store()
    a, p = svc_aa.std(), pa()
    watch = WATCH[0]
    gc.collect()
    base = watch.out
    todo = [[a_call(rng, w, a, p, auth) for _ in range(8)] for _ in range(rng.randint(3, 10))]

    def run(calls):
        return [(k, getattr(fn(), 'refusal', None), bad) for k, fn, bad in calls]
    gc.disable()
    try:
        results, sig, n = interleave.jitter(rng, [lambda c=c: run(c) for c in todo], p=0.02)
        for r in results:
            mon.check(r[0] == 'ok', 'a request failed', error=repr(r[1]))
            for kind, refusal, bad in r[1]:
                mon.check((refusal is not None) == bad, 'a request among many has another outcome', request=kind,
                          refusal=refusal)
                mon.event('concurrent_requests')
                mon.seen('kinds', kind)
        mon.check(watch.out - base <= len(todo), 'database connections stay out after the requests', kept=watch.out - base)
    finally:
        gc.enable()
        gc.collect()
    mon.seen('schedule', sig)
    mon.case(sig)
