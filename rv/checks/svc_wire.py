"""C32: clients and services joined over the interface that the services publish."""
import inspect
import io
import json
import time

from rv import certgen as cg, core, keys, svc
from rv.checks import svc_aa, svc_pa
from rv.checks.svc_admin import Response, Wire, raises
from rv.core import Violation

c32 = core.register(
    'C32', 'The real clients call the real services over a stand-in for the web framework that knows only the interface the '
    'services declare: calls and answers travel as JSON, by argument and field name, with attachments apart; what is not '
    'declared does not arrive, and a required field without a value is refused. Requests for certificates, sessions on sound '
    'and unsound certificates, descriptions and lists of authorities are sent; each must fit the interface on both ways and '
    'get the outcome the database model gives. Non-trivial: every case; distinct by database and requests.',
    ['hgaa/services/aauth.py', 'hgaa/services/pauth.py', 'hgaa/clients/aauth.py', 'hgaa/clients/pauth.py'],
    require={'calls': 1000, 'certificates': 150, 'refusals': 200, 'sessions': 80, 'infos': 150, 'lists': 60, 'null_fields': 200},
    assumptions=['the Ladon web framework is replaced by a stand-in that follows its declarations'])


class Unfit(Exception):
    """The framework would refuse this value."""


def fields(kind):
    out = {}
    for cls in reversed(kind.__mro__):
        for n, spec in vars(cls).items():
            if not n.startswith('_') and (isinstance(spec, (type, dict, list))):
                out[n] = spec
    return out


def split(spec):
    """(type, may be null) of a declaration"""
    if isinstance(spec, dict):
        return spec.get('type', str), spec.get('nullable', True)
    return spec, True


def attachment():
    from ladon.types.attachment import attachment
    return attachment


def take(spec, v, at):
    """A JSON value as the framework hands it to the service."""
    kind, nullable = split(spec)
    if v is None:
        if not nullable:
            raise Unfit('%s must have a value' % at)
        return None
    if isinstance(kind, list):
        if not isinstance(v, list):
            raise Violation('a call does not fit the interface of the service', field=at, want='a list', got=v)
        return [take(kind[0], x, '%s[%d]' % (at, n)) for n, x in enumerate(v)]
    if kind is attachment():
        if not isinstance(v, Attached):
            raise Violation('a call does not fit the interface of the service', field=at, want='an attachment', got=v)
        return kind(io.BytesIO(v.data))
    if kind is int:
        if isinstance(v, bool) or not isinstance(v, (int, str)) or isinstance(v, str) and not v.lstrip('-').isdigit():
            raise Violation('a call does not fit the interface of the service', field=at, want='a number', got=v)
        return int(v)
    if kind in (str, bytes):
        if not isinstance(v, str):
            raise Violation('a call does not fit the interface of the service', field=at, want='a text', got=v)
        return v if kind is str else v.encode('utf-8')
    if not isinstance(v, dict):
        raise Violation('a call does not fit the interface of the service', field=at, want=kind.__name__, got=v)
    known = fields(kind)
    if not set(v) <= set(known):
        raise Violation('a client sends something the interface of the service does not have', field=at,
                        sent=sorted(v), interface=sorted(known))
    o = kind()
    for n, s in known.items():
        setattr(o, n, take(s, v.get(n), '%s.%s' % (at, n)))
    return o


class Attached(object):
    def __init__(self, data):
        self.data = data


def give(spec, v, at):
    """An answer of a service as the framework sends it."""
    kind, nullable = split(spec)
    if v is None:
        if nullable and not isinstance(spec, type):
            return None
        raise Violation('an answer lacks a value the interface promises', field=at)
    bad = None
    if isinstance(kind, list):
        if isinstance(v, (list, tuple)):
            return [give(kind[0], x, '%s[%d]' % (at, n)) for n, x in enumerate(v)]
        bad = 'a list'
    elif kind is attachment():
        if isinstance(v, kind) or hasattr(v, 'read'):
            return Attached(bytes(v.read()))
        bad = 'an attachment'
    elif kind is int:
        if isinstance(v, int) and not isinstance(v, bool):
            return int(v)
        bad = 'a number'
    elif kind in (str, bytes):
        if isinstance(v, bytes):
            return v.decode('utf-8')
        if isinstance(v, str):
            return v
        bad = 'a text'
    elif isinstance(v, kind):
        known = fields(kind)
        more = [n for n in vars(v) if n not in known and not n.startswith('_')]
        if more:
            raise Violation('a service gives an answer its interface does not have', field=at, given=sorted(more), interface=sorted(known))
        return {n: give(s, getattr(v, n, None), '%s.%s' % (at, n)) for n, s in known.items()}
    raise Violation('an answer does not fit the interface of the service', field=at, want=bad or getattr(kind, '__name__', kind), got=repr(v)[:300])


def travel(v, apart):
    """Values as JSON text and back, attachments apart."""
    def strip(x):
        if isinstance(x, Attached):
            apart.append(x)
            return {'\0cid': len(apart) - 1}
        if hasattr(x, 'read') and not isinstance(x, (str, bytes)):
            apart.append(Attached(bytes(x.read())))
            return {'\0cid': len(apart) - 1}
        if isinstance(x, dict):
            return {k: strip(y) for k, y in x.items()}
        if isinstance(x, (list, tuple)):
            return [strip(y) for y in x]
        return x

    def back(x):
        if isinstance(x, dict):
            return apart[x['\0cid']] if '\0cid' in x else {k: back(y) for k, y in x.items()}
        return [back(y) for y in x] if isinstance(x, list) else x
    try:
        text = json.dumps(strip(v))
    except (TypeError, ValueError) as e:
        raise Violation('a call or answer cannot be sent', error=str(e), value=repr(v)[:500])
    return back(json.loads(text))


def opened(v):
    """What the client sees: attachments as open files."""
    if isinstance(v, Attached):
        return io.BytesIO(v.data)
    if isinstance(v, dict):
        return {k: opened(x) for k, x in v.items()}
    return [opened(x) for x in v] if isinstance(v, list) else v


def call(mon, target, method, kw, addr):
    fn = getattr(type(target), method, None)
    mon.check(fn is not None and getattr(fn, 'ladon_rtype', None) is not None, 'a client calls what the service does not offer', method=method)
    names = [p.name for p in list(inspect.signature(fn).parameters.values())[1:] if p.kind == p.POSITIONAL_OR_KEYWORD]
    mon.check(len(names) == len(fn.ladon_args), 'a service declares another number of arguments than it takes', method=method,
              takes=names, declared=[str(x) for x in fn.ladon_args])
    mon.check(sorted(kw) == sorted(names), 'a call does not fit the interface of the service', method=method, sent=sorted(kw), takes=names)
    kw = travel(kw, [])
    mon.event('calls')
    ClientFault, ServerFault = svc.faults()
    try:
        args = [take(t, kw[n], n) for t, n in zip(fn.ladon_args, names)]
        out = fn(target, *args, **svc.exports(addr))
    except Unfit as e:
        return Response(200, {'type': 'jsonwsp/fault', 'fault': {'code': 'client', 'string': str(e), 'detail': []}})
    except (ClientFault, ServerFault) as e:
        return Response(200, {'type': 'jsonwsp/fault', 'fault': {
            'code': 'client' if isinstance(e, ClientFault) else 'server', 'string': str(e), 'detail': []}})
    except Violation:
        raise
    except Exception as e:
        return Response(200, {'type': 'jsonwsp/fault', 'fault': {'code': 'server', 'string': '%s: %s' % (type(e).__name__, e), 'detail': []}})
    return Response(200, {'type': 'jsonwsp/response', 'result': opened(travel(give(fn.ladon_rtype, out, method), []))})


class Joined(Wire):
    """Calls of the clients arrive at these services."""

    def __init__(self, mon, aa, pa):
        Wire.__init__(self)
        self.broken = None

        def answer(url, method, kw):
            target = {'http://aa': aa, 'http://pa': pa}[url]
            try:
                return call(mon, target, method, kw, '192.0.2.7')
            except Violation as v:
                self.broken = v
                raise
        self.answer = answer

    def judge(self):
        """A client may have caught what was found on the way."""
        if self.broken is not None:
            raise self.broken


def setup(mon):
    svc.start_quiet()
    import hgaa.clients.aauth
    import hgaa.clients.pauth


def clients():
    import hgaa.clients.aauth as ca
    import hgaa.clients.pauth as cp
    import hgaa.config as config
    config.CLIENT_CONFIG['AAUTH'].update({'CLIENT_TYPE': 'JSONWSP', 'KEY_SIZE': '1024', 'SERVICE_DESCRIPTION': 'http://aa'})
    config.CLIENT_CONFIG['PAUTH'].update({'CLIENT_TYPE': 'JSONWSP', 'SERVICE_DESCRIPTION': 'http://pa'})
    return ca, cp, config


def answer(got):
    if got[0] != 'ok':
        return svc.Answer(refusal='ClientFault', text=got[1])
    r = got[1]
    return svc.Answer(r['data'].read(), r['format'], r['version'])


@c32.workload('certificates', 160, 4000, setup=setup)
def c32_certificates(mon, rng, i):
    ca, cp, config = clients()
    w = svc_aa.World(rng, svc_aa.tag(mon))
    w.store()
    a = svc_aa.std()
    svc.clear_issued()
    before = svc.dump('aauth')
    log, issued = [], 0
    with Joined(mon, a, None) as wire:
        for _ in range(6):
            u = rng.choice(list(w.users))
            kind, names, ids, want = svc_aa.wish(rng, w, u)
            names, ids = [x for x in names if x is not None], [x for x in ids if x is not None]
            good = rng.random() < 0.8
            pw = w.users[u]['password'] if good else w.users[u]['password'] + 'x'
            k = keys.key(rng.randrange(keys.COUNT))
            name = svc_aa.cased(rng, u)
            if rng.random() < 0.4:
                config.CLIENT_CONFIG['AAUTH'].update({'CRED_TYPE': '0', 'CRED_USER': name.replace('%', '%%'), 'CRED_PASS': pw.replace('%', '%%')})
                conf = [config.get_conf(x, False, 'AAUTH') for x in ('CRED_USER', 'CRED_PASS')]
                # what a settings file cannot hold is given directly
                c = ca.AttributeAuthorityClient() if conf == [name, pw] else \
                    ca.AttributeAuthorityClient({'type': 0, 'username': name, 'password': pw})
            else:
                c = ca.AttributeAuthorityClient({'type': 0, 'username': name, 'password': pw})
            keep = list(names), list(ids)
            got = raises(lambda: c.attribute_request(names, ids, k))
            wire.judge()
            if got[0] == 'ok':
                r = got[1]
                mon.check(sorted(r) == ['data', 'format', 'version'] and hasattr(r['data'], 'read'), 'the answer arrives in another form', answer=repr(r)[:400])
                mon.equal((r['version'], r['format']), (1, 0), 'the answer misstates version or format')
            x = answer(got)
            if not good:
                mon.check(x.refusal, 'a wrong password gets a certificate', user=u)
                mon.event('refusals')
            else:
                svc_aa.judge17(mon, w, u, kind, keep[0], keep[1], want, x)
                if x.refusal:
                    mon.event('refusals')
                else:
                    f, _ = cg.read(x.data)
                    mon.equal((f['holder'][0], f['holder'][1], f['holder'][3]), (k.publickey().export_key(), 'RSA[%d]' % k.size_in_bits(), u),
                              'the certificate is for another key or holder')
                    mon.check(c.last_key is not None and c.last_key == k, 'the client keeps another key than the certified one')
                    mon.event('certificates')
            issued += x.refusal is None
            mon.check(len(svc.issued_files()) == issued, 'a refused request left a certificate behind')
            log.append((u, good, keep))
        # a required field without a value
        u = rng.choice(list(w.users))
        for path in (('credentials', 'type'), ('user_public_key', 'public_key'), ('user_public_key', 'key_algorithm'),
                     ('user_public_key', 'key_algorithm', 'cipher')):
            k = keys.key(rng.randrange(keys.COUNT))
            kw = {'credentials': {'type': 0, 'username': u, 'password': w.users[u]['password']},
                  'user_public_key': {'public_key': k.publickey().export_key().decode(), 'key_algorithm': {'cipher': 'RSA', 'key_size': k.size_in_bits()}},
                  'attributes': {'attribute_names': [], 'attribute_ids': []}}
            at = kw
            for p in path[:-1]:
                at = at[p]
            if rng.random() < 0.5:
                at[path[-1]] = None
            else:
                del at[path[-1]]
            r = wire.answer('http://aa', 'attribute_request', kw)
            mon.check('fault' in r.response_dict, 'a request without a required value gets a certificate', missing=path)
            mon.event('null_fields')
        mon.check(len(svc.issued_files()) == issued, 'a refused request left a certificate behind')
        c = ca.AttributeAuthorityClient({'type': 0, 'username': 'x', 'password': 'y'})
        info = c.info()
        wire.judge()
        mon.equal((info['aauth_id'], info['attribute_uri'], info['attribute_authority_version'], info['attribute_certificate_version'],
                   [(x['name'], x['value']) for x in info['credential_types']]),
                  ('authority one', 'hgabac://aa.test:1', 1, 1, [('USER_PASS', 0)]), 'the description arrives altered')
        from Crypto.PublicKey import RSA
        key = keys.key(svc.AUTHORITY_KEY).publickey()
        mon.check(RSA.import_key(info['public_key']) == key, 'the described key is another one')
        mon.equal((info['key_algorithm'], info['signature_type']),
                  ({'cipher': 'RSA', 'key_size': key.size_in_bits()}, {'hash_algorithm': 'SHA256', 'signature_algorithm': 'RSASSA-PKCS1-v1_5'}),
                  'the described algorithms are others')
        mon.event('infos')
    mon.equal(svc.dump('aauth'), before, 'requests changed the database')
    mon.case((w.assigned, log))
    mon.sample(assigned=w.assigned, requests=log[:3])


@c32.workload('sessions', 120, 3500, setup=setup)
def c32_sessions(mon, rng, i):
    ca, cp, config = clients()
    auth = svc_pa.Authorities(rng)
    auth.distrust(rng)
    auth.store()
    p = svc_pa.pa()
    log = []
    with Joined(mon, None, p) as wire:
        uid = 'hgabac://svc/%d' % rng.randrange(99)
        c = cp.PolicyAuthorityClient(uid)
        bad = svc_pa.defects(rng, auth)
        for _ in range(5):
            certs = svc_pa.good_set(rng, auth)
            items = [x.item(rng.choice((0, 3, 4))) for x in certs]
            spoil = rng.choice(bad) if rng.random() < 0.4 else None
            if spoil:
                if not isinstance(spoil[1][0], bytes) or not isinstance(spoil[1][1], int) or not isinstance(spoil[1][2], int):
                    continue
                items.insert(rng.randint(0, len(items)), spoil[1])
            before = svc.dump('pauth')
            t0 = int(time.time())
            r = raises(lambda: c.start_session([{'data': io.BytesIO(d), 'version': v, 'format': f} for d, v, f in items]))
            t1 = int(time.time())
            wire.judge()
            body = r[1].response_dict if r[0] == 'ok' else {'fault': r[1]}
            after = svc.dump('pauth')
            if spoil:
                mon.check('fault' in body and 'result' not in body, 'a session was started that must be refused', defect=spoil[0], answer=body)
                mon.equal(after, before, 'a refused session left traces in the database')
                mon.event('refusals')
            else:
                mon.check('result' in body, 'a set of valid certificates from trusted authorities is refused', answer=body)
                s = body['result']
                mon.check(sorted(s) == ['session_id', 'start', 'valid_till'], 'the answer arrives in another form', answer=s)
                end = min(x.before for x in certs)
                mon.check(t0 <= s['start'] <= t1 and s['valid_till'] == min(s['start'] + svc_pa.DAY, end),
                          'the session answered has another time', answer=s, first_end=end, between=(t0, t1))
                row = [x for x in svc.rows('pauth', 'pauth_sessions') if x['id'] == svc_pa.b64id(s['session_id'])]
                mon.check(len(row) == 1 and row[0]['name'] == uid and row[0]['session_valid_till'] == s['valid_till'],
                          'the session answered is not the one recorded', answer=s, row=row)
                mon.event('sessions')
            log.append((spoil and spoil[0], len(items)))
        d, v, f = svc_pa.good_set(rng, auth, 1)[0].item(0)
        before = svc.dump('pauth')
        for missing in ('version', 'format'):
            one = {'data': io.BytesIO(d), 'version': v, 'format': f}
            one[missing] = None
            r = wire.answer('http://pa', 'start_session', {'service_uid': uid, 'att_cert_set': {'attribute_certificates': [one]}})
            mon.check('fault' in r.response_dict, 'a request without a required value starts a session', missing=missing)
            mon.event('null_fields')
        mon.equal(svc.dump('pauth'), before, 'a refused session left traces in the database')
        info = c.info()
        wire.judge()
        mon.equal({k: info.get(k) for k in ('name', 'uid', 'version', 'attribute_certificate_version', 'policy_language_version')},
                  {'name': svc_pa.STD['PAUTH_NAME'], 'uid': svc_pa.STD['PAUTH_UID'], 'version': 1, 'attribute_certificate_version': 1,
                   'policy_language_version': 1}, 'the description arrives altered')
        mon.event('infos')
        got = c.trusted_attribute_authorities()
        wire.judge()
        have = sorted((x['uid'], x['name'], x['url'], x['public_key'], x['trust_level'], x['key_algorithm']['cipher'], x['key_algorithm']['key_size'])
                      for x in got['attribute_authorities'])
        want = sorted((u, x['name'], x['url'], keys.key(x['key']).publickey().export_key().decode('ascii'), x['trust'],
                       x.get('cipher', 'RSA'), x['size']) for u, x in auth.known.items())
        mon.equal(have, want, 'the list of known authorities arrives altered')
        mon.event('lists')
    mon.case((sorted(auth.known), log, i))
    mon.sample(authorities=sorted(auth.known), sessions=log)
