"""The real services in this process: a scratch directory with their databases, key and certificates, the standing-in web
framework, captured logs. One environment per worker; a case fills the databases it needs."""
import base64
import contextlib
import io
import logging
import os
import sys
import tempfile
import threading
import time
from functools import lru_cache

from rv import keys
from rv.core import Inconclusive

SCRATCH = None
RECORDS = []          # formatted log records, when recording
RECORDING = [False]

SECRETS = {'pepper': 'Pepper-X9z!', 'key_pass': 'KeyPass-q7W_', 'db_pass': 'dbSecret77'}
AUTHORITY_KEY = 4     # 2048 bit


class _File(logging.FileHandler):
    """Log files go to the scratch directory, whatever the configuration says."""

    def __init__(self, filename, *a, **kw):
        super().__init__(os.path.join(SCRATCH, 'logs', os.path.basename(os.fspath(filename))), *a, **kw)


class _Capture(logging.Handler):
    def emit(self, record):
        if RECORDING[0]:
            try:
                RECORDS.append('%s %s %s' % (record.name, record.levelname, record.getMessage()))
            except Exception as e:
                RECORDS.append('unformattable record: %r' % e)


def start(level='ALL'):
    """Configure and import the services (once per worker)."""
    global SCRATCH
    if SCRATCH is not None:
        return
    SCRATCH = os.path.join(os.environ['RV_SCRATCH'], 'svc%s' % os.environ.get('RV_WORKER', '0'))
    for d in ('', 'logs', 'acs', 'db'):
        os.makedirs(os.path.join(SCRATCH, d), exist_ok=True)
    logging.FileHandler = _File
    logging.raiseExceptions = False
    key_file = os.path.join(SCRATCH, 'aauth_key.pem')
    with open(key_file, 'wb') as f:
        f.write(keys.key(AUTHORITY_KEY).export_key(passphrase=SECRETS['key_pass'], pkcs=8,
                                                    protection='PBKDF2WithHMAC-SHA1AndAES128-CBC'))
    import configparser
    import hgaa.config as config
    services, clients = configparser.ConfigParser(), configparser.ConfigParser()
    services.read_dict({
        'DEFAULT': {'DB_TYPE': 'SQLITE', 'DB_NAME': os.path.join(SCRATCH, 'db', 'default'), 'DB_USER': 'apps',
                    'DB_PASS': SECRETS['db_pass'], 'LOG_LEVEL': level, 'LOG_FILE': 'svc.log', 'LOG_STDOUT': 'False',
                    'SQL_LOG_LEVEL': level if level == 'ALL' else 'ERROR', 'SQL_LOG_STDOUT': 'False',
                    'SQL_LOG_FILE': 'sql.log', 'CLEAN_LOG_ON_START': 'True', 'LOG_NAME': 'services',
                    'SERVICE_ENABLED': 'True', 'PASS_PEPPER': SECRETS['pepper']},
        'TOOLS': {'LOG_NAME': 'tools', 'LOG_FILE': 'None'},
        'LADON': {'LOG_NAME': 'ladon', 'LOG_FILE': 'ladon.log', 'SERVICE_PORT': '8888', 'SERVICE_HOST': ''},
        'AAUTH': {'LOG_NAME': 'aauth', 'LOG_FILE': 'None', 'AAUTH_ID': 'authority one', 'A_URI': 'hgabac://aa.test:1',
                  'AC_EXPIRE_LENGTH': '3600', 'KEY_FILE': key_file, 'KEY_PASS': SECRETS['key_pass'],
                  'DB_NAME': os.path.join(SCRATCH, 'db', 'aauth')},
        'PAUTH': {'LOG_NAME': 'pauth', 'LOG_FILE': 'None', 'PAUTH_NAME': 'policy one', 'PAUTH_UID': 'hgabac://pa.test:1',
                  'DB_NAME': os.path.join(SCRATCH, 'db', 'pauth')},
    })
    clients.read_dict({
        'DEFAULT': {'LOG_LEVEL': level, 'LOG_FILE': 'client.log', 'LOG_STDOUT': 'False', 'CLEAN_LOG_ON_START': 'True'},
        'TOOLS': {'LOG_NAME': 'tools', 'LOG_FILE': 'None'},
        'AAUTH': {'LOG_NAME': 'aauth', 'LOG_FILE': 'None', 'CLIENT_TYPE': 'JSONWSP', 'KEY_SIZE': '1024',
                  'SERVICE_DESCRIPTION': 'http://aa.test/AttributeAuthority/jsonwsp/description', 'CRED_TYPE': '0',
                  'CRED_USER': 'Dan', 'CRED_PASS': 'client-secret-1'},
        'PAUTH': {'LOG_NAME': 'pauth', 'LOG_FILE': 'None', 'CLIENT_TYPE': 'JSONWSP',
                  'SERVICE_DESCRIPTION': 'http://pa.test/PolicyAuthority/jsonwsp/description'},
    })
    for have, want in ((config.SERVICE_CONFIG, services), (config.CLIENT_CONFIG, clients)):
        have.clear()
        have.read_dict({s: dict(want[s]) for s in ['DEFAULT'] + want.sections()})
    for name in ('hgaa', 'sqlalchemy', 'ladonlogger', ''):
        lg = logging.getLogger(name)
        if name in ('hgaa',):
            lg.addHandler(_Capture())
    import hgaa.log
    logging.getLogger('sqlalchemy').addHandler(_Capture())
    logging.getLogger('ladonlogger').addHandler(_Capture())
    logging.getLogger().addHandler(logging.NullHandler())
    logging.lastResort = None


def start_quiet(mon=None):
    start('ERROR')


def start_logged(mon=None):
    start('ALL')


# --------------------------------------------------------------------------------------------------------------------
# databases

_engines = {}


def engine(service):
    """Our own connection to a service's database."""
    if service not in _engines:
        from sqlalchemy import create_engine
        import hgaa.schema as schema
        e = create_engine('sqlite:///' + os.path.join(SCRATCH, 'db', service + '.db'))
        schema.ServiceBases[service].metadata.create_all(e)
        _engines[service] = e
    return _engines[service]


def fill(service, rows, wipe=True):
    from sqlalchemy.orm import Session
    import hgaa.schema as schema
    with Session(engine(service)) as s:
        if wipe:
            for t in reversed(schema.ServiceBases[service].metadata.sorted_tables):
                s.execute(t.delete())
        s.add_all(rows)
        s.commit()


def dump(service):
    """{table: sorted rows} of a service's database, read with plain SQL."""
    from sqlalchemy import text
    import hgaa.schema as schema
    out = {}
    with engine(service).connect() as c:
        for t in schema.ServiceBases[service].metadata.sorted_tables:
            out[t.name] = sorted((tuple(r) for r in c.execute(text('SELECT * FROM "%s"' % t.name))), key=repr)
    return out


def rows(service, table):
    """The rows of a table as dictionaries by column name."""
    from sqlalchemy import text
    with engine(service).connect() as c:
        return [dict(r._mapping) for r in c.execute(text('SELECT * FROM "%s"' % table))]


def execute(service, sql, **kw):
    from sqlalchemy import text
    with engine(service).begin() as c:
        c.execute(text(sql), kw)


@contextlib.contextmanager
def failing(nth, kind='write'):
    """Within it the nth write statement, read or commit sent to any database fails in the driver, as a full disk or a
    lost server would make it; yields a list that then holds what failed."""
    import sqlite3
    from sqlalchemy.engine.default import DefaultDialect as D
    hits, left = [], [nth]
    was = {n: getattr(D, n) for n in ('do_execute', 'do_executemany', 'do_execute_no_params', 'do_commit')}

    def count(what, stmt):
        if what == kind:
            left[0] -= 1
            if left[0] == 0:
                hits.append(stmt)
                raise sqlite3.OperationalError('disk I/O error')

    def wrap(n):
        def do(self, *a):
            if n == 'do_commit':
                try:
                    count('commit', 'COMMIT')
                except sqlite3.OperationalError:
                    a[0].rollback()     # the database gave the transaction up
                    raise
            else:
                count('read' if a[1].lstrip().upper().startswith('SELECT') else 'write', a[1][:45])
            return was[n](self, *a)
        return do
    for n in was:
        setattr(D, n, wrap(n))
    try:
        yield hits
    finally:
        for n in was:
            setattr(D, n, was[n])


# --------------------------------------------------------------------------------------------------------------------
# services

@lru_cache(None)
def aa_module():
    import hgaa.services.aauth as m
    m.AttributeAuthority.AC_DIR = os.path.join(SCRATCH, 'acs')
    return m


@lru_cache(None)
def pa_module():
    import hgaa.services.pauth as m
    return m


def configure(section, **values):
    import hgaa.config as config
    for k, v in values.items():
        config.SERVICE_CONFIG[section][k] = v


def new_aa():
    engine('aauth')
    return aa_module().AttributeAuthority()


def new_pa():
    engine('pauth')
    return pa_module().PolicyAuthority()


def faults():
    from ladon.exceptions.service import ClientFault, ServerFault
    return ClientFault, ServerFault


def exports(addr='10.1.2.3', **kw):
    return dict({'REMOTE_ADDR': addr}, **kw)


def issued_files():
    return sorted(os.listdir(os.path.join(SCRATCH, 'acs')))


def clear_issued():
    d = os.path.join(SCRATCH, 'acs')
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))


class Answer(object):
    """What a request gave: a certificate, or a refusal (kind, text)."""

    def __init__(self, data=None, fmt=None, version=None, refusal=None, text=None, t0=None, t1=None):
        self.data, self.fmt, self.version, self.refusal, self.text = data, fmt, version, refusal, text
        self.t0, self.t1 = t0, t1
        self.r0 = self.r1 = None      # the same by the machine's clock, when the clock was set to another time

    def __repr__(self):
        return '%s: %s' % (self.refusal, self.text) if self.refusal else 'certificate of %d bytes' % len(self.data)


_real_time = time.time
SHIFT = [0.0]


def machine_time():
    return _real_time()


@contextlib.contextmanager
def frozen(at):
    """Let time.time stand still at a moment. Callers first try whether the code follows time.time."""
    time.time = lambda: at
    try:
        yield
    finally:
        time.time = _real_time


@contextlib.contextmanager
def clock(at):
    """Let time.time tell another time within this process. Code that reads the clock in another way keeps the machine's
    time; oracles accept either."""
    SHIFT[0] = at - _real_time()
    time.time = lambda: _real_time() + SHIFT[0]
    try:
        yield
    finally:
        time.time = _real_time
        SHIFT[0] = 0.0


def request(aa, username, password, names=(), ids=(), ctype=0, pub_key=None, cipher='RSA', key_size=1024, addr='10.1.2.3',
            **ex):
    m = aa_module()
    c = m.Credentials()
    c.type, c.username, c.password = ctype, username, password
    k = m.PublicKey()
    k.public_key = keys.key(0).publickey().export_key() if pub_key is None else pub_key
    k.key_algorithm = m.KeyAlgorithm()
    k.key_algorithm.cipher, k.key_algorithm.key_size = cipher, key_size
    a = m.AttributeList()
    a.attribute_names, a.attribute_ids = list(names), list(ids)
    ClientFault, ServerFault = faults()
    t0 = time.time()
    try:
        r = aa.attribute_request(c, k, a, **exports(addr, **ex))
    except ClientFault as e:
        return Answer(refusal='ClientFault', text=str(e))
    except ServerFault as e:
        return Answer(refusal='ServerFault', text=str(e))
    except Exception as e:
        return Answer(refusal=type(e).__name__, text=str(e)[:300])
    t1 = time.time()
    data = r.data.read()
    try:
        r.data.close()
    except Exception:
        pass
    a = Answer(bytes(data), r.format, r.version, t0=t0, t1=t1)
    if SHIFT[0]:
        a.r0, a.r1 = t0 - SHIFT[0], t1 - SHIFT[0]
    return a


def cert_set(items):
    """items: (bytes, version, format)"""
    from ladon.types.attachment import attachment
    m = pa_module()
    s = m.AttributeCertificateSet()
    s.attribute_certificates = []
    for data, version, fmt in items:
        c = m.AttributeCertificateType()
        c.data, c.version, c.format = attachment(io.BytesIO(data)), version, fmt
        s.attribute_certificates.append(c)
    return s


class SessionAnswer(object):
    def __init__(self, session_id=None, start=None, valid_till=None, refusal=None, text=None, t0=None, t1=None):
        self.session_id, self.start, self.valid_till = session_id, start, valid_till
        self.refusal, self.text, self.t0, self.t1 = refusal, text, t0, t1

    def __repr__(self):
        return '%s: %s' % (self.refusal, self.text) if self.refusal else 'session %s' % self.session_id


def start_session(pa, items, service_uid='hgabac://svc/1', addr='10.9.8.7'):
    ClientFault, ServerFault = faults()
    s = None if items is None else cert_set(items)
    t0 = time.time()
    try:
        r = pa.start_session(service_uid, s, **exports(addr))
    except ClientFault as e:
        return SessionAnswer(refusal='ClientFault', text=str(e))
    except ServerFault as e:
        return SessionAnswer(refusal='ServerFault', text=str(e))
    except Exception as e:
        return SessionAnswer(refusal=type(e).__name__, text=str(e)[:300])
    return SessionAnswer(r.session_id, r.start, r.valid_till, t0=t0, t1=time.time())


@lru_cache(4000)
def bcrypt_hash(password, pepper, salt_seed):
    """Cheap bcrypt (4 rounds) of a password under a pepper; the salt is derived from the seed so that cases replay."""
    import bcrypt
    import hashlib
    raw = hashlib.sha256(salt_seed.encode()).digest()[:16]
    alphabet = b'./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'
    std = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
    salt = base64.b64encode(raw)[:22].translate(bytes.maketrans(std, alphabet))
    # the last character carries only two bits
    salt = salt[:21] + bytes([alphabet[alphabet.index(salt[21]) & 0x30]])
    return bcrypt.hashpw(('%s%s' % (password, pepper)).encode(), b'$2b$04$' + salt).decode()


def isolated(fn):
    """Run fn in a child process; its pickled result or ('error', text)."""
    import pickle
    import traceback
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            import signal
            signal.alarm(0)
            try:
                out = pickle.dumps(('ok', fn()))
            except SystemExit as e:
                out = pickle.dumps(('exit', str(e)))
            except BaseException as e:
                out = pickle.dumps(('error', '%s: %s' % (type(e).__name__, e), traceback.format_exc()[-3000:]))
            with os.fdopen(w, 'wb') as f:
                f.write(out)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Inconclusive('child process gave no answer')
    return pickle.loads(data)
