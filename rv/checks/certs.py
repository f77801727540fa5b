"""C12 certificate formats, C13 signatures, C14 validity periods, C15 equality of certificates."""
import base64
import collections
import copy
import os
import re
import time

from rv import certgen as cg, core, dictionary, keys
from rv.core import Violation
from rv.certgen import (AttributeCertificate, ACInformation, ACIssuer, ACHolder, ACAttribute, ACRevocationRules,
                        ACDelegationRules, ACExtensions, ACSignature, AttributeType, ExportFormat)
from rv.paths import REPO

FORMATS = (ExportFormat.BYTES, ExportFormat.BASE64, ExportFormat.BASE64FULL)

# ---------------------------------------------------------------------------------------------------------------- C12
c12 = core.register(
    'C12', 'Random certificates (every field, Unicode, sizes from the source\'s own constants, signed or not) exported '
    'and imported in every format: all fields must come back, the bytes must read the same through an independent '
    'reader of the format, inputs stay untouched, appended bytes are refused, and no truncation gives a certificate that '
    'verifies. Non-trivial: every case; distinct by encoded bytes.', ['hgaa/attcert.py'],
    require={'round_trips': 6000, 'trailing_refused': 1000, 'truncations': 5000, 'signed': 300, 'non_ascii': 500})


def export(ac, fmt, **kw):
    return ac.export_ac(fmt, **kw)


def norm(f):
    return dict(f, delegation=f['delegation'] or None)


@c12.workload('round_trip', 1600, 40000)
def c12_trip(mon, rng, i):
    k = rng.randrange(4) if rng.random() < 0.3 else None
    ac = cg.certificate(rng, k)
    if k is not None:
        ac.sign(keys.key(k))
        mon.event('signed')
    elif rng.random() < 0.1:
        ac.signature = ACSignature(cg.text(rng, 1), cg.blob(rng) or b'x')
    want = norm(cg.fields(ac))
    raw = None
    for fmt in FORMATS:
        out = export(ac, fmt)
        if fmt == ExportFormat.BYTES:
            raw = bytes(out)
        elif fmt == ExportFormat.BASE64:
            mon.check(base64.b64decode(bytes(out), validate=True) == raw, 'base64 export differs from the bytes',
                      certificate=want)
        given = copy.copy(out)
        variants = [out]
        if fmt == ExportFormat.BYTES:
            variants = [bytes(out), bytearray(out)]
        elif fmt == ExportFormat.BASE64:
            variants = [bytes(out), bytes(out).decode('ascii')]
        elif fmt == ExportFormat.BASE64FULL:
            variants = [out, out.encode('utf-8')] if isinstance(out, str) else [bytes(out), bytes(out).decode('utf-8')]
        for v in variants:
            keep = bytes(v) if not isinstance(v, str) else v
            back = AttributeCertificate.import_ac(v, fmt)
            mon.check((bytes(v) if not isinstance(v, str) else v) == keep, 'importing consumed its input', format=fmt)
            got = norm(cg.fields(back))
            mon.check(got == want, 'a certificate changed on the way', format=fmt, got=got, want=want)
            mon.check(bytes(export(back, ExportFormat.BYTES)) == raw, 'exporting again gives other bytes', format=fmt,
                      certificate=want)
            if k is not None:
                mon.check(back.verify_signature() is True, 'a signed certificate does not verify after import',
                          format=fmt, certificate=want)
            mon.check(cg.has_empty(ac) or (back == ac and not back != ac),
                      'the imported certificate does not equal the original', format=fmt, certificate=want)
            mon.event('round_trips')
        mon.check(norm(cg.fields(ac)) == want, 'exporting changed the certificate', format=fmt)
    got, _ = cg.read(raw)
    mon.check(norm(got) == want, 'the exported bytes do not follow the certificate format', got=got, want=want)
    if any(ord(c) > 127 for c in repr(want)):
        mon.event('non_ascii')
    mon.case(raw)
    mon.sample(certificate=want)


@c12.workload('text', 600, 12000)
def c12_text(mon, rng, i):
    """The readable form states every field."""
    k = rng.randrange(4)
    ac = cg.certificate(rng, k)
    ac.sign(keys.key(k))
    out = export(ac, ExportFormat.TEXT)
    f = cg.fields(ac)
    wanted = collections.Counter()

    def need(v):
        if v is None:
            return
        if isinstance(v, bytes):
            v = base64.b64encode(v).decode('ascii')
        mon.check(str(v) in out, 'the text form lacks a field', value=v, text=out)
        wanted[str(v)] += 1
    for part in ('issuer', 'holder', 'info', 'validity', 'signature'):
        for v in f[part]:
            need(v)
    for a in f['attributes']:
        need(a[0]), need(a[2]), need(a[3]), need(a[4])
        mon.check(a[1] in out, 'the text form lacks a type', value=a[1], text=out)
    for e in f['extensions']:
        need(e[0]), need(e[1])
    need(f['delegation'])
    for v, n in wanted.items():      # as often as it is stated, apart from headings
        mon.check(len(re.findall('(?=%s)' % re.escape(v), out)) >= n, 'the text form lacks a field that has the value of another',
                  value=v, times=n, text=out)
        if n > 1:
            have = len(re.findall('(?=: %s\n)' % re.escape(v), out))
            mon.check(have >= n, 'the text form lacks a field that has the value of another', value=v, times=n, text=out)
            mon.event('same_text_twice')
    mon.check(out == str(ac), 'two text forms', text=out)
    for part, name in (('issuer', 'name'), ('issuer', 'url'), ('holder', 'name'), ('rev_rules', 'url'), ('att', 'att_name'), ('att', 'att_value')):
        if part == 'att' and not ac.att_set:
            continue
        texts = set()
        for v in (None, 'None', 'x'):
            c = copy.deepcopy(ac)
            setattr(c.att_set[rng.randrange(1)] if part == 'att' else getattr(c, part), name, v)
            texts.add(str(c))
        mon.check(len(texts) == 3, 'the text form does not tell an absent field from one with a value', field='%s.%s' % (part, name),
                  texts=sorted(texts))
        mon.event('absent_fields')
    mon.case(out)


def accepted(fn):
    """The certificate if the import succeeds and it verifies, else None."""
    try:
        ac = fn()
        return ac if ac.verify_signature() else None
    except Exception:
        return None


@c12.workload('cut_and_extended', 120, 3000)
def c12_cut(mon, rng, i):
    k = rng.randrange(4)
    ac = cg.certificate(rng, k, small=True)
    ac.sign(keys.key(k))
    raw = bytes(export(ac, ExportFormat.BYTES))
    for extra in (b'\x00', b'\x00\x00', b'\x01', rng.randbytes(rng.randint(1, 30)), raw):
        for fmt, data in ((ExportFormat.BYTES, raw + extra), (ExportFormat.BASE64, base64.b64encode(raw + extra))):
            try:
                AttributeCertificate.import_ac(data, fmt)
            except Exception:
                mon.event('trailing_refused')
            else:
                raise Violation('a certificate with bytes appended is accepted', extra=extra, format=fmt)
    unsigned = copy.deepcopy(ac)
    unsigned.signature = None
    try:
        AttributeCertificate.import_ac(bytes(export(unsigned, ExportFormat.BYTES)) + b'\x00', ExportFormat.BYTES)
    except Exception:
        mon.event('trailing_refused')
    else:
        raise Violation('an unsigned certificate with a byte appended is accepted')
    cuts = range(len(raw)) if len(raw) < 120 else sorted(rng.sample(range(len(raw)), 90)) + [len(raw) - 1]
    for n in cuts:
        mon.check(accepted(lambda: AttributeCertificate.import_ac(raw[:n], ExportFormat.BYTES)) is None,
                  'a truncated certificate verifies', kept=n, of=len(raw))
        try:
            AttributeCertificate.import_ac(raw[:n], ExportFormat.BYTES, True)
        except Exception:
            pass
        else:
            raise Violation('a truncated certificate is imported as verified', kept=n, of=len(raw))
        mon.event('truncations')
    mon.case(raw)


@c12.workload('limits', 200, 2000)
def c12_limits(mon, rng, i):
    """Fields beyond what the format can hold are refused, never stored as something else."""
    ac = cg.certificate(rng, 0, small=True)
    n = rng.choice((255, 256, 65534, 65535, 65536, 70000))
    s = rng.choice(('x', 'é', '中')) * n
    what = i % 20
    if rng.random() < 0.1:
        # text that has no encoding
        s = 'x' * rng.randint(0, 3) + rng.choice(('\ud800', '\udfff', '\udc80')) + 'y' * rng.randint(0, 3)
    if what == 0: ac.issuer.uid = s
    elif what == 1: ac.issuer.url = s
    elif what == 2: ac.holder.uid = s
    elif what == 3: ac.holder.name = s
    elif what == 4: ac.att_set = [ACAttribute('a', AttributeType.STRING, s)]
    elif what == 5: ac.att_set = [ACAttribute('a', AttributeType.SET, 'v', 'n', bytes(n))]
    elif what == 6: ac.att_set = [ACAttribute('a%d' % j, AttributeType.INT, str(j)) for j in
                                  range(rng.choice((255, 256, 257, 1000)))]
    elif what == 7: ac.extensions = [ACExtensions(s, b'1')]
    elif what == 8: ac.extensions = [ACExtensions('e%d' % j, b'') for j in range(rng.choice((255, 256, 300)))]
    elif what == 9: ac.info.serial = rng.choice((2**160, 2**161 + 1, 2**168, -1))
    elif what == 10: ac.rev_rules.valid_before = rng.choice((2**32, 2**32 + 5, -1))
    elif what == 11: ac.del_rules = ACDelegationRules(rng.randbytes(n))
    elif what == 12: ac.info.version = rng.choice((255, 256, 257, 511, 512, 65536, -1))
    elif what == 13: ac.info.issued = rng.choice((2**32 - 1, 2**32, 2**32 + 5, 2**33, -1))
    elif what == 14: ac.rev_rules.valid_after = rng.choice((2**32 - 1, 2**32, 2**32 + 5, -1))
    elif what == 15: ac.rev_rules.url = s
    elif what == 16: ac.issuer.name = s
    elif what == 17: ac.att_set = [ACAttribute(s, AttributeType.STRING, 'v', s)]
    elif what == 18: ac.rev_rules.extra_bytes = rng.randbytes(n)
    else:
        # large as a whole, no part of it is
        ac.att_set = [ACAttribute('a%d' % j, AttributeType.STRING, chr(97 + j % 26) * rng.randint(200, 2000))
                      for j in range(rng.choice((60, 100, 300)))]
    want = norm(cg.fields(ac))
    try:
        raw = bytes(export(ac, ExportFormat.BYTES))
    except Exception:
        mon.event('refused')
        return
    for fmt in FORMATS:
        got = norm(cg.fields(AttributeCertificate.import_ac(export(ac, fmt), fmt)))
        mon.check(got == want, 'a large certificate changed on the way', field=what, size=n, format=fmt)
    mon.event('large')
    mon.case((what, n, len(raw)))


@c12.workload('stored', 4, 4, procs=1)
def c12_stored(mon, rng, i):
    """Certificates stored by earlier versions stay readable: the ones in the repository and one kept here."""
    from rv.paths import VERIF
    paths = []
    for d in (os.path.join(REPO, 'hgaa', 'clients', 'test', 'test_attribute_certificates'),
              os.path.join(VERIF, 'fixtures', 'certificates')):
        if os.path.isdir(d):
            paths += [os.path.join(d, x) for x in sorted(os.listdir(d))]
    for p in paths:
        with open(p, 'rb') as f:
            data = f.read()
        fmt = ExportFormat.BASE64FULL if data.startswith(b'----') else ExportFormat.BYTES
        ac = AttributeCertificate.import_ac(data if fmt == ExportFormat.BYTES else data.decode('utf-8'), fmt)
        raw = base64.b64decode(data.split(b'\n')[3]) if fmt == ExportFormat.BASE64FULL else data
        mon.check(norm(cg.fields(ac)) == norm(cg.read(raw)[0]), 'a stored certificate is read differently', path=p)
        mon.event('stored_read')
        if 'fixtures' in p:
            mon.check(ac.verify_signature() is True, 'a stored certificate no longer verifies', path=p)
        mon.case(raw)


# ---------------------------------------------------------------------------------------------------------------- C13
c13 = core.register(
    'C13', 'Certificates signed with known keys, then changed in one field, one byte or bit of their encoding, one key '
    'or signature: only the untouched ones may verify, on every import path, and re-signing makes them verify again. '
    'The label naming the signature algorithm is outside the signature and exempt. Non-trivial: every case; distinct by '
    'encoded bytes.', ['hgaa/attcert.py'],
    require={'genuine_verified': 800, 'field_changes': 6000, 'byte_changes': 4000, 'foreign_keys': 500,
             'unsigned': 150, 'set:fields_changed': 25})


def refused(mon, ac, what):
    try:
        r = ac.verify_signature()
    except Exception:
        mon.event('verification_raised')
        return
    mon.check(not r, 'a certificate that was not signed this way verifies', change=what, certificate=cg.fields(ac))
    try:
        raw = bytes(export(ac, ExportFormat.BYTES))
    except Exception:
        return
    mon.check(accepted(lambda: AttributeCertificate.import_ac(raw, ExportFormat.BYTES)) is None,
              'a certificate that was not signed this way verifies after import', change=what)
    for fmt, data in ((ExportFormat.BYTES, raw), (ExportFormat.BASE64, base64.b64encode(raw)),
                      (ExportFormat.BASE64FULL, '---- BEGIN ATTRIBUTE CERTIFICATE ----\nFORMAT: BASE64\nVERSION: %s\n%s\n'
                       '---- END ATTRIBUTE CERTIFICATE ----' % (ac.info.version, base64.b64encode(raw).decode('ascii')))):
        try:
            AttributeCertificate.import_ac(data, fmt, True)
        except Exception:
            mon.event('refused_on_import')
            continue
        raise Violation('import with verification accepts a certificate that was not signed this way', change=what,
                        format=fmt, certificate=cg.fields(ac))


def grow(rng, ac):
    """Many kilobytes."""
    ac.att_set = list(ac.att_set or []) + [ACAttribute('/attribute/user/a%d' % j, AttributeType.STRING, 'v' * rng.randint(0, 90), 'a%d' % j)
                                           for j in range(rng.choice((60, 150, 300)))]
    if rng.random() < 0.5:
        ac.extensions = list(ac.extensions or []) + [ACExtensions('big', rng.randbytes(rng.choice((5000, 20000, 60000))))]


@c13.workload('fields', 220, 6000)
def c13_fields(mon, rng, i):
    k = i % keys.COUNT
    ac = cg.certificate(rng, k, small=rng.random() < 0.5)
    if i % 10 == 3:
        grow(rng, ac)
        mon.event('big')
    ac.sign(keys.key(k))
    mon.check(ac.verify_signature() is True, 'a freshly signed certificate does not verify', certificate=cg.fields(ac))
    for fmt in FORMATS:
        back = AttributeCertificate.import_ac(export(ac, fmt), fmt, True)
        mon.check(back.verify_signature() is True, 'a signed certificate does not verify after import', format=fmt)
        mon.event('genuine_verified')
    for name, c in cg.changes(rng, ac):
        if cg.read(bytes(export(c, ExportFormat.BYTES)))[0] == cg.read(bytes(export(ac, ExportFormat.BYTES)))[0]:
            continue
        refused(mon, c, name)
        mon.event('field_changes')
        mon.seen('fields_changed', name)
        if rng.random() < 0.05 and not name.startswith('issuer.pub_key'):
            c.sign(keys.key(k))
            mon.check(c.verify_signature() is True, 'signing again does not make it verify', change=name)
    mon.check(ac.verify_signature() is True, 'the untouched certificate no longer verifies')
    mon.case(bytes(export(ac, ExportFormat.BYTES)))
    mon.sample(certificate=cg.fields(ac))


@c13.workload('bytes', 80, 2500)
def c13_bytes(mon, rng, i):
    k = i % 4
    ac = cg.certificate(rng, k, small=True)
    ac.sign(keys.key(k))
    raw = bytes(export(ac, ExportFormat.BYTES))
    orig, (sig_at, algo_lo, algo_hi) = cg.read(raw)
    spots = list(range(len(raw)))
    if len(raw) > 120:
        spots = sorted(set(rng.sample(spots, 70) + list(range(sig_at, min(sig_at + 4, len(raw))))))
    for p in spots:
        b = raw[:p] + bytes([raw[p] ^ rng.choice((1, 2, 4, 8, 16, 32, 64, 128, 255))]) + raw[p + 1:]
        got = accepted(lambda: AttributeCertificate.import_ac(b, ExportFormat.BYTES))
        mon.event('byte_changes')
        if got is not None:
            f, g = cg.fields(ac), cg.fields(got)     # only what lies outside the signed part may differ
            same = all(norm(f)[x] == norm(g)[x] for x in f if x != 'signature') and f['signature'][1] == g['signature'][1]
            mon.check(same, 'a certificate with a changed byte verifies', at=p, length=len(raw), encoded=raw)
            mon.event('changed_outside_the_signed_part')
    mon.case(raw)


def usable(data, k):
    """Is this a key, and the one of k?"""
    from Crypto.PublicKey import RSA
    try:
        x = RSA.import_key(data)
    except Exception:
        return False
    return x.n == keys.key(k).n and x.e == keys.key(k).e


def spoiled(rng, k, n):
    """Keys in any of their spellings, with some bytes changed, lost or added."""
    key = keys.key(k)
    out = []
    for _ in range(n):
        x = bytearray(rng.choice((key.publickey().export_key('DER'), key.publickey().export_key(), key.publickey().export_key('OpenSSH'),
                                  key.publickey().export_key().replace(b'\n', b'\r\n'))))
        for _ in range(rng.choice((0, 1, 1, 2, 3))):
            at = rng.randrange(len(x) + 1)
            r = rng.random()
            if r < 0.4:
                x[at:at + 1] = bytes([rng.randrange(256)])
            elif r < 0.6:
                del x[at:]
            elif r < 0.8:
                del x[at:at + rng.randint(1, 9)]
            else:
                x[at:at] = rng.randbytes(rng.randint(1, 5))
        out.append(bytes(x))
    return tuple(out)


@c13.workload('keys', 150, 2500)
def c13_keys(mon, rng, i):
    k = i % keys.COUNT
    other = (k + 1 + rng.randrange(keys.COUNT - 1)) % keys.COUNT
    ac = cg.certificate(rng, k, small=True)
    refused(mon, ac, 'never signed')
    mon.event('unsigned')
    ac.sign(keys.key(other))
    refused(mon, ac, 'signed with a key that is not the stated one')
    label = rng.choice(('RSASSA-PKCS1-v1_5:SHA256', 'x', cg.text(rng, 1, 20)))
    twin, before = copy.copy(ac), norm(cg.fields(ac))
    ac.sign(keys.key(k), label)
    mon.equal(ac.signature.sig_algo, label, 'signing states another algorithm than the one it was given')
    mon.check(norm(cg.fields(twin)) == before, 'signing a certificate again changed the signature another one bears')
    ac.sign(keys.key(k))
    mon.check(ac.signature.sig_algo == 'RSASSA-PKCS1-v1_5:SHA256', 'signing states another algorithm than the default one',
              got=ac.signature.sig_algo)
    good = ac.signature
    c = copy.deepcopy(ac)
    c.issuer.pub_key = keys.public_der(other)
    refused(mon, c, 'issuer key replaced')
    ac2 = cg.certificate(rng, k, small=True)
    if cg.fields(ac2) != dict(cg.fields(ac), signature=None):
        ac2.signature = copy.deepcopy(good)
        refused(mon, ac2, 'signature of another certificate')
    for v in (b'', None, b'\x00' * len(good.sig_value), good.sig_value[:-1], good.sig_value + b'\x00', good.sig_value[::-1],
              rng.randbytes(len(good.sig_value)), b'\x01'):
        c = copy.deepcopy(ac)
        c.signature = ACSignature(good.sig_algo, v)
        if v == good.sig_value:
            continue
        try:
            r = c.verify_signature()
        except Exception:
            r = False
        mon.check(not r, 'a wrong signature value verifies', value=v)
    for bad in (b'', b'not a key', keys.public_der(k)[:-5], rng.randbytes(80), b'-----BEGIN PUBLIC KEY-----\nAAAA\n'
                b'-----END PUBLIC KEY-----', b'\x30\x00', b'ssh-rsa ', b'ssh-rsa') + spoiled(rng, k, 8):
        c = copy.deepcopy(ac)
        c.issuer.pub_key = bad
        for again in (False, True):
            if again:
                c.sign(keys.key(k))
            try:
                r = c.verify_signature()
            except Exception as e:
                raise Violation('verifying with a malformed key fails in another way', key=bad, error=repr(e))
            want = (again or bad == bytes(ac.issuer.pub_key)) and usable(bad, k)
            mon.check(bool(r) == want, 'a certificate with a malformed key verifies, or one with its signer\'s key does not', key=bad,
                      signed_anew=again, got=r)
            mon.event('malformed_keys')
    for a in (('signature', 'sig_algo'), ('issuer', 'pub_key'), ('issuer', 'key_algo')):
        c = copy.deepcopy(ac)
        setattr(getattr(c, a[0]), a[1], None)
        mon.check(not c.verify_signature(), 'a certificate without %s.%s verifies' % a)
    mon.check(ac.verify_signature() is True, 'the untouched certificate no longer verifies')
    # signing over an earlier signature: the last signature counts
    ac.sign(keys.key(other))
    refused(mon, ac, 'signed again with a key that is not the stated one')
    ac.issuer.pub_key = keys.public_der(other)
    refused(mon, ac, 'issuer key replaced after signing')
    ac.sign(keys.key(other))
    mon.check(ac.verify_signature() is True, 'signing again with the stated key does not verify')
    for fmt in FORMATS:
        name, c = rng.choice([x for x in cg.changes(rng, ac) if not x[0].startswith(('issuer.pub_key', 'signature'))])
        out = c.export_ac(fmt, True, keys.key(other))
        mon.check(c.verify_signature() is True and AttributeCertificate.import_ac(out, fmt, True).verify_signature() is True,
                  'a signed certificate changed and signed anew on export does not verify', change=name, format=fmt)
        mon.event('signed_anew')
    # signing through the exports
    for fmt in FORMATS + (ExportFormat.TEXT,):
        d = cg.certificate(rng, k, small=True)
        try:
            d.export_ac(fmt, True, None)
        except Exception:
            pass
        else:
            raise Violation('signing without a key succeeds', format=fmt)
        out = d.export_ac(fmt, True, keys.key(k))
        mon.check(d.verify_signature() is True, 'export with signing leaves the certificate unsigned', format=fmt)
        if fmt != ExportFormat.TEXT:
            mon.check(AttributeCertificate.import_ac(out, fmt, True).verify_signature() is True,
                      'a certificate signed on export does not verify', format=fmt)
        mon.event('genuine_verified')
    mon.event('foreign_keys', 4)
    mon.case(bytes(export(ac, ExportFormat.BYTES)))


@c13.workload('numbers', 8, 60)
def c13_numbers(mon, rng, i):
    """Another number, or the same number written otherwise, is not the signature."""
    k = rng.choice([x for x in range(keys.COUNT) if keys.key(x).size_in_bits() <= 1024])
    size = keys.key(k).size_in_bytes()
    ac = cg.certificate(rng, k, small=True)
    for n in range(4000):
        ac.info.serial = n
        ac.sign(keys.key(k))
        if ac.signature.sig_value[0] == 0:
            mon.event('leading_zero')
            break
    good = bytes(ac.signature.sig_value)
    mon.check(ac.verify_signature() is True and
              AttributeCertificate.import_ac(export(ac, ExportFormat.BYTES), ExportFormat.BYTES, True).verify_signature() is True,
              'a freshly signed certificate does not verify', signature=good)
    s, m = int.from_bytes(good, 'big'), keys.key(k).n
    wrong = [good.lstrip(b'\0'), b'\0' + good, b'\0' * 5 + good, good + b'\0', (s + m).to_bytes(size + 1, 'big'),
             (m - s).to_bytes(size, 'big'), good[::-1], base64.b64encode(good), good.hex().encode(), good + good, good[1:] + good[:1]]
    if (s + m).bit_length() <= size * 8:
        wrong.append((s + m).to_bytes(size, 'big'))
    for v in wrong:
        if v == good:
            continue
        c = copy.deepcopy(ac)
        c.signature = ACSignature(ac.signature.sig_algo, v)
        refused(mon, c, 'signature written otherwise')
        mon.event('signature_numbers')
    mon.case(good)


# ---------------------------------------------------------------------------------------------------------------- C14
c14 = core.register(
    'C14', 'Validity windows and instants around their bounds (also in several time zones and against the clock): a '
    'certificate is valid exactly strictly between its bounds; without bounds it is valid for one day from its making; '
    'information defaults to now and a fresh serial. Non-trivial: every case; distinct by (bounds, instant).',
    ['hgaa/attcert.py'], require={'instants': 20000, 'inside': 2000, 'outside': 2000, 'against_clock': 300,
                                 'defaults': 300})


def with_window(a, b):
    ac = AttributeCertificate(ACIssuer(b'k', 'RSA', 'i'), ACHolder(b'k', 'RSA', 'h'), ACInformation(0, 1, 1), [],
                              ACRevocationRules(a, b))
    return ac


@c14.workload('instants', 8000, 60000)
def c14_instants(mon, rng, i):
    a = cg.u32(rng)
    b = rng.choice((cg.u32(rng), a, a + 1, a + 2, a - 1, a + rng.randint(0, 5), a + 86400, a + 3600))
    b = min(max(b, 0), 2**32 - 1)
    ac = with_window(a, b)
    if i % 3 == 0:
        ac = AttributeCertificate.import_ac(ac.export_ac(ExportFormat.BYTES), ExportFormat.BYTES)
    for base in (a, b, (a + b) // 2):
        for d in (-86400, -2, -1, 0, 1, 2, 86400):
            now = base + d
            want = a < now and now < b
            got = ac.verify_time(now)
            mon.check(bool(got) == want, 'validity differs from the stated period', after=a, before=b, now=now, got=got,
                      want=want)
            mon.event('instants')
            mon.event('inside' if want else 'outside')
    for now in (0, a + 0.5, b - 0.5, cg.u32(rng)):
        mon.check(bool(ac.verify_time(now)) == (a < now < b), 'validity differs from the stated period', after=a,
                  before=b, now=now)
    mon.case((a, b))
    mon.sample(after=a, before=b)


ZONES = ('UTC', 'America/Toronto', 'Asia/Tokyo', 'EST5EDT', 'XXX-13', 'YYY+11:30')


@c14.workload('clock', 500, 4000)
def c14_clock(mon, rng, i):
    os.environ['TZ'] = ZONES[i % len(ZONES)]
    time.tzset()
    try:
        for _ in range(20):
            t0 = time.time()
            n = int(t0)
            spans = [(n - d1, n + d2) for d1 in (1, 2, 3600, 90000) for d2 in (1, 2, 3600, 90000)] + \
                    [(n, n + 10), (n - 10, n), (n + 1, n + 100), (n - 100, n - 1), (n, n), (0, 2**32 - 1),
                     (n + 50, n - 50)]
            got = [(a, b, with_window(a, b).verify_time(), with_window(a, b).verify_time(0)) for a, b in spans]
            r0 = ACRevocationRules()
            info = ACInformation()
            r1 = ACRevocationRules(valid_after=n - 7)
            r2 = ACRevocationRules(valid_before=n + 9)
            if int(time.time()) == n:
                break
        else:
            return
        for a, b, v, z in got:
            mon.check(bool(v) == (a < n < b), 'validity now differs from the stated period', after=a, before=b, now=n,
                      got=v)
            mon.check(not z, 'instant 0 is not taken as given', after=a, before=b)
            mon.event('against_clock')
        mon.check((r0.valid_after, r0.valid_before) == (n, n + 86400), 'the default period is not one day from now',
                  got=(r0.valid_after, r0.valid_before), now=n)
        mon.check((r1.valid_after, r1.valid_before) == (n - 7, n + 86400), 'default end with a given start', now=n,
                  got=(r1.valid_after, r1.valid_before))
        mon.check((r2.valid_after, r2.valid_before) == (n, n + 9), 'default start with a given end', now=n,
                  got=(r2.valid_after, r2.valid_before))
        mon.check((ACRevocationRules(0, 0).valid_after, ACRevocationRules(0, 0).valid_before) == (0, 0),
                  'bounds of 0 are not taken as given')
        mon.check(info.issued == n and info.version == 0, 'default information', got=(info.issued, info.version), now=n)
        mon.check(ACInformation(3, 0, 0).issued == 0 and ACInformation(3, 0, 0).serial == 0, 'information of 0 is not '
                  'taken as given')
        serials = {ACInformation().serial for _ in range(50)}
        mon.check(len(serials) == 50 and all(0 <= s < 2**160 for s in serials), 'serials repeat or are out of range')
        mon.check(max(serials) >= 2**140, 'serials are short', got=max(serials))
        mon.event('defaults')
        mon.case((i, n))
    finally:
        os.environ['TZ'] = 'UTC'
        time.tzset()


# ---------------------------------------------------------------------------------------------------------------- C15
c15 = core.register(
    'C15', 'Pairs and triples of related certificates (copies, permuted lists, one field changed, repeated elements): '
    'they are equal exactly when they state the same, attributes and extensions compared as multisets. Non-trivial: '
    'every case; distinct by encoded bytes.', ['hgaa/attcert.py'],
    require={'equal_pairs': 1500, 'different_pairs': 8000, 'permuted': 500, 'multisets': 500})


def both(mon, a, b, want, what):
    for x, y in ((a, b), (b, a)):
        mon.check(bool(x == y) == want, 'equality of certificates is wrong', what=what, got=bool(x == y), want=want,
                  one=cg.fields(x), other=cg.fields(y))
        mon.check(bool(x != y) == (not want), 'inequality of certificates is wrong', what=what, want=want)
    mon.event('equal_pairs' if want else 'different_pairs')


def sorted_fields(ac):
    f = cg.fields(ac)
    return repr(dict(f, attributes=sorted(f['attributes'], key=repr), extensions=sorted(f['extensions'], key=repr),
                     delegation=f['delegation'] or None))


@c15.workload('pairs', 500, 14000)
def c15_pairs(mon, rng, i):
    k = rng.randrange(4)
    ac = cg.certificate(rng, k, small=rng.random() < 0.7)
    if rng.random() < 0.5:
        ac.sign(keys.key(k))
    c = copy.deepcopy(ac)
    both(mon, ac, c, True, 'copy')
    mon.check(ac == ac, 'a certificate does not equal itself')
    for a in (c.att_set, c.extensions):
        if a:
            rng.shuffle(a)
            mon.event('permuted')
    both(mon, ac, c, True, 'permuted')
    for x in (None, 5, 'x', ac.issuer, b''):
        mon.check(not ac == x and ac != x, 'a certificate equals something else', other=repr(x))
    for name, d in cg.changes(rng, ac):
        if sorted_fields(d) == sorted_fields(ac):
            continue
        both(mon, ac, d, False, name)
    for part, attr, empty in (('issuer', 'name', ''), ('issuer', 'url', ''), ('holder', 'name', ''), ('rev_rules', 'url', ''),
                              ('rev_rules', 'extra_bytes', b'')):
        d, e = copy.deepcopy(ac), copy.deepcopy(ac)
        setattr(getattr(d, part), attr, empty)
        setattr(getattr(e, part), attr, None)
        both(mon, d, e, False, '%s.%s empty or absent' % (part, attr))
    for ac_list in ('att_set', 'extensions'):
        if getattr(ac, ac_list):
            d, e = copy.deepcopy(ac), copy.deepcopy(ac)
            j = rng.randrange(len(getattr(ac, ac_list)))
            getattr(d, ac_list)[j].extra_bytes, getattr(e, ac_list)[j].extra_bytes = b'', None
            both(mon, d, e, False, '%s extra bytes empty or absent' % ac_list)
    d = copy.deepcopy(ac)
    d.signature = None if ac.signature is not None else ACSignature('a', b'b')
    both(mon, ac, d, False, 'signature')
    none, half = copy.deepcopy(ac), copy.deepcopy(ac)
    none.signature, half.signature = None, rng.choice((ACSignature('a', None), ACSignature(None, b'b'), ACSignature('', None)))
    both(mon, none, half, False, 'half a signature')
    if ac.signature is not None:
        d = copy.deepcopy(ac)
        d.signature = ACSignature('other', ac.signature.sig_value)
        both(mon, ac, d, False, 'signature algorithm')
        d.signature = ACSignature(ac.signature.sig_algo, ac.signature.sig_value + b'x')
        both(mon, ac, d, False, 'signature value')
    back = AttributeCertificate.import_ac(export(ac, ExportFormat.BYTES), ExportFormat.BYTES)
    if not cg.has_empty(ac):
        both(mon, ac, back, True, 'imported')
    mon.case(bytes(export(ac, ExportFormat.BYTES)))
    mon.sample(certificate=cg.fields(ac))


@c15.workload('long', 60, 1500)
def c15_long(mon, rng, i):
    """Many attributes and extensions, one of them different, missing, doubled or moved."""
    base = cg.certificate(rng, 0, small=True)
    n = rng.choice((9, 16, 17, 31, 33, 64, 65, 100, 129, dictionary.size(rng, 'hgaa', 260)))
    base.att_set = [ACAttribute('/attribute/user/a%d' % (j % rng.choice((n + 1, 7))), AttributeType.INT, str(j)) for j in range(n)]
    base.extensions = [ACExtensions('e%d' % j, bytes([j % 256])) for j in range(rng.choice((0, n)))]
    same = copy.deepcopy(base)
    rng.shuffle(same.att_set)
    rng.shuffle(same.extensions)
    both(mon, base, same, True, 'permuted')
    for part in ('att_set', 'extensions'):
        if not getattr(base, part):
            continue
        for what in ('missing', 'added', 'added in front', 'doubled', 'replaced by another', 'changed', 'empty', 'none'):
            c = copy.deepcopy(rng.choice((base, same)))
            parts = getattr(c, part)
            j = rng.choice((0, len(parts) - 1, rng.randrange(len(parts))))
            other = copy.deepcopy(parts[rng.randrange(len(parts))])
            new = ACAttribute('admin', AttributeType.BOOL, 'True') if part == 'att_set' else ACExtensions('admin', b'1')
            if what == 'missing': parts.pop(j)
            elif what == 'added': parts.append(new)
            elif what == 'added in front': parts.insert(0, new)
            elif what == 'doubled': parts.insert(j, other)
            elif what == 'replaced by another': parts[j] = other
            elif what == 'changed': parts[j].extra_bytes = b'changed'
            elif what == 'empty': setattr(c, part, [])
            else: setattr(c, part, None)
            both(mon, base, c, sorted_fields(base) == sorted_fields(c), '%s: %s' % (part, what))
    mon.event('long_lists')
    mon.case(sorted_fields(base))


@c15.workload('multisets', 1500, 40000)
def c15_multi(mon, rng, i):
    """Few distinct elements, many repetitions."""
    base = cg.certificate(rng, 0, small=True)
    pool = [ACAttribute('a', AttributeType.INT, '1'), ACAttribute('a', AttributeType.INT, '2'),
            ACAttribute('a', AttributeType.INT, '1', 'n'), ACAttribute('b', AttributeType.STRING, '1')]
    exts = [ACExtensions('e', b'1'), ACExtensions('e', b'2'), ACExtensions('f', b'1')]

    def variant():
        c = copy.deepcopy(base)
        c.att_set = [copy.deepcopy(rng.choice(pool)) for _ in range(rng.randint(0, 4))]
        c.extensions = [copy.deepcopy(rng.choice(exts)) for _ in range(rng.randint(0, 2))]
        if not c.extensions and rng.random() < 0.5:
            c.extensions = None
        if not c.att_set and rng.random() < 0.5:
            c.att_set = None
        return c
    vs = [variant() for _ in range(3)]
    v = copy.deepcopy(vs[0])
    if v.att_set:
        rng.shuffle(v.att_set)
    vs.append(v)
    for x in vs:
        for y in vs:
            both(mon, x, y, sorted_fields(x) == sorted_fields(y), 'multiset')
    mon.event('multisets')
    mon.case(repr([sorted_fields(x) for x in vs]))
