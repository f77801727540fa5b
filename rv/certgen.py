"""Random attribute certificates and an independent reading of the certificate format."""
import base64
import copy
import struct

from rv import dictionary, keys

from hgaa.attcert import (AttributeCertificate, ACInformation, ACIssuer, ACHolder, ACAttribute, ACRevocationRules,
                          ACDelegationRules, ACExtensions, ACSignature, AttributeType, ExportFormat)

ALPHABETS = ('abcdefgh', 'aB3_.- /:', 'éüñ€', '中文\U0001f600', '\x00\x01\n\r\t "\'', '=#-\n',
             'e\u0301\u212b\ufb01\uff21', '\u200d\u00a0\u2028\x85\ufeff ')


def text(rng, least=0, limit=400):
    n = max(least, dictionary.size(rng, 'hgaa', limit))
    a = ''.join(rng.sample(ALPHABETS, rng.randint(1, 2)))
    return ''.join(rng.choice(a) for _ in range(n))


def blob(rng, limit=300):
    n = dictionary.size(rng, 'hgaa', limit)
    return rng.choice((bytes(n), rng.randbytes(n), rng.randbytes(n), b'\xff' * n))


def maybe(rng, fn, p=0.4):
    return None if rng.random() < p else fn()


def attribute(rng):
    a = ACAttribute(text(rng, 0 if rng.random() < 0.05 else 1), rng.choice(list(AttributeType)),
                    maybe(rng, lambda: text(rng), 0.2), maybe(rng, lambda: text(rng)),
                    maybe(rng, lambda: blob(rng), 0.7))
    if rng.random() < 0.1:       # the same text in several places
        a.att_name = a.att_id
    if rng.random() < 0.1:
        a.att_value = rng.choice((a.att_id, a.att_name, a.att_type.name, a.att_type.name.lower()))
    return a


def extension(rng):
    return ACExtensions(text(rng, 0 if rng.random() < 0.1 else 1), maybe(rng, lambda: blob(rng)))


def u32(rng):
    return rng.choice((0, 1, 2**31 - 1, 2**31, 2**32 - 1, rng.getrandbits(32), 1500000000, 1700000000,
                       dictionary.integer(rng, 'hgaa') % 2**32))


def serial(rng):
    return rng.choice((0, 1, 255, 256, 2**64, 2**159, 2**160 - 1, rng.getrandbits(160), rng.getrandbits(160),
                       rng.getrandbits(8 * rng.randint(1, 20))))


def certificate(rng, key=None, small=False):
    lim = 30 if small else 400
    pub = keys.public_der(key) if key is not None else rng.choice(
        (keys.public_der(rng.randrange(keys.COUNT)), blob(rng)))
    n = rng.choice((0, 1, 1, 2, 3, 5, 12)) if not small else rng.choice((0, 1, 2))
    m = rng.choice((0, 0, 1, 2, 4)) if not small else rng.choice((0, 1))
    return AttributeCertificate(
        ACIssuer(pub, rng.choice(('RSA', 'RSA', text(rng))), text(rng, 1, lim), maybe(rng, lambda: text(rng, 1, lim)),
                 maybe(rng, lambda: text(rng, 1, lim))),
        ACHolder(rng.choice((keys.public_der(rng.randrange(keys.COUNT)), blob(rng, lim))),
                 rng.choice(('RSA', text(rng, 0, lim))), text(rng, 1, lim), maybe(rng, lambda: text(rng, 1, lim))),
        ACInformation(rng.choice((0, 1, 2, 255)), serial(rng), u32(rng)),
        [attribute(rng) for _ in range(n)] if n or rng.random() < 0.7 else None,
        ACRevocationRules(u32(rng), u32(rng), maybe(rng, lambda: text(rng, 1, lim)), maybe(rng, lambda: blob(rng))),
        maybe(rng, lambda: ACDelegationRules(maybe(rng, lambda: blob(rng)))),
        [extension(rng) for _ in range(m)] if m or rng.random() < 0.3 else None)


def _b(x):
    return None if x is None or len(x) == 0 else bytes(x)


def _s(x):
    return None if x is None or x == '' else x


def fields(ac):
    """Everything a certificate states, read through its public fields (empty and absent are the same)."""
    i, h, n, r = ac.issuer, ac.holder, ac.info, ac.rev_rules
    return {
        'issuer': (_b(i.pub_key), _s(i.key_algo), _s(i.uid), _s(i.name), _s(i.url)),
        'holder': (_b(h.pub_key), _s(h.key_algo), _s(h.uid), _s(h.name)),
        'info': (n.version, n.serial, n.issued),
        'attributes': [(_s(a.att_id), a.att_type.name, _s(a.att_value), _s(a.att_name), _b(a.extra_bytes))
                       for a in ac.att_set or []],
        'validity': (r.valid_after, r.valid_before, _s(r.url), _b(r.extra_bytes)),
        'delegation': None if ac.del_rules is None else _b(ac.del_rules.extra_bytes),
        'extensions': [(_s(e.eid), _b(e.extra_bytes)) for e in ac.extensions or []],
        'signature': None if ac.signature is None else (_s(ac.signature.sig_algo), _b(ac.signature.sig_value)),
    }


def has_empty(ac):
    """An empty text or byte string where the format can only say absent."""
    vals = [ac.issuer.name, ac.issuer.url, ac.holder.name, ac.rev_rules.url, ac.rev_rules.extra_bytes]
    vals += [ac.del_rules.extra_bytes] if ac.del_rules is not None else []
    for a in ac.att_set or []:
        vals += [a.att_value, a.att_name, a.extra_bytes]
    vals += [e.extra_bytes for e in ac.extensions or []]
    return any(v is not None and len(v) == 0 for v in vals)


class Reader(object):
    def __init__(self, data):
        self.d, self.i = bytes(data), 0

    def take(self, n):
        if self.i + n > len(self.d):
            raise ValueError('short')
        self.i += n
        return self.d[self.i - n:self.i]

    def num(self, *sizes):
        return [int.from_bytes(self.take(n), 'little') for n in sizes]

    def s(self, n):
        return _s(self.take(n).decode('utf-8'))

    def b(self, n):
        return _b(self.take(n))


TYPE_NAME = {0: 'NULL', 1: 'INT', 2: 'FLOAT', 3: 'STRING', 4: 'BOOL', 5: 'SET'}


def read(data):
    """fields() of an encoded certificate, by an independent reader of the format (version 0 layout)."""
    r = Reader(data)
    out = {}
    k, a, u, n, l = r.num(2, 2, 2, 2, 2)
    out['issuer'] = (r.b(k), r.s(a), r.s(u), r.s(n), r.s(l))
    k, a, u, n = r.num(2, 2, 2, 2)
    out['holder'] = (r.b(k), r.s(a), r.s(u), r.s(n))
    v, z = r.num(1, 1)
    out['info'] = (v,) + tuple(r.num(z, 4))
    out['attributes'] = []
    for _ in range(r.num(2)[0]):
        i, v, n, x, t = r.num(2, 2, 2, 2, 1)
        i, v, n = r.s(i), r.s(v), r.s(n)
        out['attributes'].append((i, TYPE_NAME[t], v, n, r.b(x)))
    u, x, a, b = r.num(2, 2, 4, 4)
    u = r.s(u)
    out['validity'] = (a, b, u, r.b(x))
    out['delegation'] = r.b(r.num(2)[0])
    out['extensions'] = []
    for _ in range(r.num(2)[0]):
        e, x = r.num(2, 2)
        e = r.s(e)
        out['extensions'].append((e, r.b(x)))
    sig_at = r.i
    a, v = r.num(2, 2)
    algo_at = r.i
    algo = r.s(a)
    sig = r.b(v)
    out['signature'] = None if algo is None and sig is None else (algo, sig)
    if r.i != len(r.d):
        raise ValueError('trailing bytes')
    return out, (sig_at, algo_at, algo_at + a)


def changes(rng, ac):
    """(name, changed copy) for every single field of a certificate, and structural changes."""
    def s_other(x):
        x = x or ''
        return rng.choice([y for y in (x + 'x', x[:-1], x[1:], x + ' ', x.swapcase(), 'zzz', x[::-1]) if y != x and y])

    def b_other(x):
        x = bytes(x or b'')
        if not x:
            return b'\x01'
        k = rng.randrange(len(x))
        return rng.choice((x + b'\x00', x[:k] + bytes([x[k] ^ (1 << rng.randrange(8))]) + x[k + 1:]))

    def n_other(x, bits):
        return (x ^ (1 << rng.randrange(bits)))

    out = []

    def add(name, fn):
        c = copy.deepcopy(ac)
        fn(c)
        out.append((name, c))

    def setter(path, attr, other, *args):
        def fn(c):
            o = path(c)
            setattr(o, attr, other(getattr(o, attr), *args))
        return fn

    for a in ('pub_key',):
        add('issuer.' + a, setter(lambda c: c.issuer, a, b_other))
        add('holder.' + a, setter(lambda c: c.holder, a, b_other))
    for a in ('key_algo', 'uid', 'name', 'url'):
        add('issuer.' + a, setter(lambda c: c.issuer, a, s_other))
    for a in ('key_algo', 'uid', 'name'):
        add('holder.' + a, setter(lambda c: c.holder, a, s_other))
    add('info.version', setter(lambda c: c.info, 'version', n_other, 8))
    add('info.serial', setter(lambda c: c.info, 'serial', n_other, 160))
    add('info.issued', setter(lambda c: c.info, 'issued', n_other, 32))
    add('rev_rules.valid_after', setter(lambda c: c.rev_rules, 'valid_after', n_other, 32))
    add('rev_rules.valid_before', setter(lambda c: c.rev_rules, 'valid_before', n_other, 32))
    add('rev_rules.url', setter(lambda c: c.rev_rules, 'url', s_other))
    add('rev_rules.extra_bytes', setter(lambda c: c.rev_rules, 'extra_bytes', b_other))

    def deleg(c):
        c.del_rules = ACDelegationRules(b_other(c.del_rules.extra_bytes if c.del_rules else None))
    add('del_rules', deleg)
    n = len(ac.att_set or [])
    for k in sorted(set([0, n - 1, rng.randrange(n)])) if n else ():
        for a in ('att_id', 'att_value', 'att_name'):
            add('attribute.' + a, setter(lambda c: c.att_set[k], a, s_other))
        add('attribute.extra_bytes', setter(lambda c: c.att_set[k], 'extra_bytes', b_other))
        add('attribute.att_type', setter(lambda c: c.att_set[k], 'att_type', lambda t: rng.choice(
            [x for x in AttributeType if x != t])))
        add('attribute removed', lambda c: c.att_set.pop(k))
        add('attribute doubled', lambda c: c.att_set.insert(k, copy.deepcopy(c.att_set[k])))
        if n > 1:
            def swap(c):
                j = (k + 1) % n
                c.att_set[k].att_value, c.att_set[j].att_value = c.att_set[j].att_value, c.att_set[k].att_value
            if _s(ac.att_set[k].att_value) != _s(ac.att_set[(k + 1) % n].att_value):
                add('attribute values swapped', swap)

    def new_att(c):
        c.att_set = (c.att_set or []) + [ACAttribute('admin', AttributeType.BOOL, 'True')]
    add('attribute added', new_att)
    m = len(ac.extensions or [])
    for k in range(min(m, 2)):
        add('extension.eid', setter(lambda c: c.extensions[k], 'eid', s_other))
        add('extension.extra_bytes', setter(lambda c: c.extensions[k], 'extra_bytes', b_other))
        add('extension removed', lambda c: c.extensions.pop(k))

    def new_ext(c):
        c.extensions = (c.extensions or []) + [ACExtensions('x', b'1')]
    add('extension added', new_ext)
    return out
