"""C22 configuration and logs, C23 databases, C24 secrets, C25 clients, C26 keys, passwords and commands, C27 the server."""
import base64
import contextlib
import copy
import importlib.util
import io
import logging
import os
import random
import re
import shutil
import sys
import time

from rv import certgen as cg, core, dictionary, interleave, keys, svc
from rv.core import Violation
from rv.checks import svc_aa, svc_pa
from rv.paths import REPO


def word(rng, lo=1, hi=8, alphabet='abcdefghijklmnopqrstuvwxyz0123456789_'):
    return ''.join(rng.choice(alphabet) for _ in range(rng.randint(lo, hi)))


def scratch(mon):
    d = os.path.join(os.environ['RV_SCRATCH'], 'c%s-%s-%s' % (os.environ.get('RV_WORKER', '0'), mon.current[0], mon.current[1]))
    os.makedirs(d, exist_ok=True)
    return d


def child(mon, fn):
    """Run fn in a forked process; its value, or the text of its error as ('error', text, trace)."""
    mon.event('processes')
    return svc.isolated(fn)


# ---------------------------------------------------------------------------------------------------------------- C22
c22 = core.register(
    'C22', 'Generated configuration files read by the real module (a copy beside them), looked up in every spelling of '
    'section and name and compared with a model: own section, then [DEFAULT], then the built-in value; the shipped files '
    'compared with an independent reading; loggers made from generated settings must take the level, file and format '
    'asked for. Non-trivial: every look-up; distinct by file contents.',
    ['hgaa/config.py', 'hgaa/log.py', 'hgaa/confs'],
    require={'lookups': 8000, 'own': 800, 'inherited': 800, 'built_in': 800, 'absent': 500, 'loggers': 60, 'levels': 300,
             'shipped': 60, 'startup_logs': 100})

SECTIONS = ('TOOLS', 'LADON', 'AAUTH', 'PAUTH', 'EXTRA', 'AAUTH_TEST')
NAMES = ('DB_TYPE', 'DB_NAME', 'DB_USER', 'DB_PASS', 'DB_PORT', 'DB_HOST', 'LOG_LEVEL', 'LOG_FILE', 'LOG_FORMAT',
         'LOG_DATE_FORMAT', 'LOG_NAME', 'LOG_STDOUT', 'SQL_LOG_LEVEL', 'SQL_LOG_FILE', 'SQL_LOG_STDOUT',
         'CLEAN_LOG_ON_START', 'SERVICE_ENABLED', 'SERVICE_PORT', 'SERVICE_HOST', 'PASS_PEPPER', 'AAUTH_ID', 'KEY_PASS',
         'KEY_FILE', 'CLIENT_TYPE', 'CRED_USER', 'CRED_PASS', 'KEY_SIZE', 'FOO', 'X1')

BUILT_IN = {
    True: {'DB_TYPE': 'mysql', 'DB_NAME': 'hgaa', 'DB_PORT': '3306', 'DB_HOST': 'localhost', 'LOG_LEVEL': 'ALL',
           'LOG_FILE': 'hgaa_service.log', 'LOG_FORMAT': '%(asctime)s: [%(levelname)s: %(name)s] %(message)s',
           'LOG_DATE_FORMAT': '%m/%d/%Y %I:%M:%S %p', 'LOG_NAME': 'services', 'LOG_STDOUT': 'True', 'SQL_LOG_LEVEL': 'ALL',
           'SQL_LOG_FILE': 'sql.log', 'SQL_LOG_FORMAT': '%(asctime)s: [%(levelname)s: %(name)s] %(message)s',
           'SQL_LOG_DATE_FORMAT': '%m/%d/%Y %I:%M:%S %p', 'SQL_LOG_STDOUT': 'True', 'CLEAN_LOG_ON_START': 'True',
           'SERVICE_ENABLED': 'True', 'SERVICE_PORT': '8888', 'SERVICE_HOST': ''},
    False: {'LOG_LEVEL': 'ALL', 'LOG_FILE': 'hgaa_client.log',
            'LOG_FORMAT': '%(asctime)s: [%(levelname)s: %(name)s] %(message)s',
            'LOG_DATE_FORMAT': '%m/%d/%Y %I:%M:%S %p', 'LOG_NAME': 'clients', 'LOG_STDOUT': 'True',
            'CLEAN_LOG_ON_START': 'False'},
}


def settings(rng):
    out = {}
    for s in rng.sample(SECTIONS, rng.randint(0, 5)) + (['DEFAULT'] if rng.random() < 0.8 else []):
        out[s] = {n: rng.choice((word(rng), word(rng) + ' ' + word(rng), '', 'True', '0', '%(name)s', 'a=b', 'x:y', 'None',
                                 'ünï', '[x]', '100%', 'C:/' + word(rng), '"%s"' % word(rng), "'q'", '"', 'a;b', 'a#b', 'a,b', '$HOME', '~/x',
                                 'UPPER Case', '1e3', '007', 'none', 'a\\b', '{x}', 'x' * 90, ' '.join(rng.choice(dictionary.constants('hgaa')[1]).split())))
                  for n in rng.sample(NAMES, rng.randint(0, 12))}
    return out


def as_file(rng, conf):
    lines = []
    names = list(conf)
    rng.shuffle(names)
    for s in names:
        lines.append('[%s]' % s)
        for n, v in conf[s].items():
            lines.append('%s%s%s' % (n if rng.random() < 0.7 else n.lower(), rng.choice(('=', ' = ', ': ')),
                                     v.replace('%', '%%')))
            if rng.random() < 0.1:
                lines.append(rng.choice(('', '# comment', '; comment')))
    return '\n'.join(lines) + '\n'


def expected(conf, name, service, sect):
    own = conf.get(sect.upper(), {}) if sect.upper() != 'DEFAULT' else {}
    for place, d in (('own', own), ('inherited', conf.get('DEFAULT', {})), ('built_in', BUILT_IN[service])):
        if name.upper() in d:
            return d[name.upper()], place
    return None, 'absent'


@c22.workload('lookups', 120, 4000)
def c22_lookups(mon, rng, i):
    d = scratch(mon)
    try:
        os.makedirs(os.path.join(d, 'confs'))
        confs = {True: settings(rng), False: settings(rng)}
        for service, name in ((True, 'services.ini'), (False, 'clients.ini')):
            if confs[service] or rng.random() < 0.5:
                with open(os.path.join(d, 'confs', name), 'w', encoding='utf-8') as f:
                    f.write(as_file(rng, confs[service]))
        shutil.copyfile(os.path.join(REPO, 'hgaa', 'config.py'), os.path.join(d, 'config.py'))
        import hgaa
        spec = importlib.util.spec_from_file_location('hgaa.rv_config_copy', os.path.join(d, 'config.py'))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for service in (True, False):
            for name in NAMES:
                for sect in ('DEFAULT',) + SECTIONS + ('NOSUCH',):
                    want, place = expected(confs[service], name, service, sect)
                    n, s = rng.choice(((name, sect), (name.lower(), sect.lower()), (name, sect.lower()), (name.title(), sect)))
                    got = m.get_conf(n, service, s)
                    mon.check(got == want, 'a setting reads as another value', setting=n, section=s, service=service,
                              got=got, want=want, place=place, settings=confs[service])
                    mon.event('lookups')
                    mon.event(place)
            n = rng.choice(NAMES)
            want, place = expected(confs[True], n, True, 'DEFAULT')
            mon.check(m.get_conf(n) == want, 'the default section is not the default', setting=n)
        mon.case(repr(confs))
        mon.sample(services=confs[True], clients=confs[False])
    finally:
        shutil.rmtree(d, ignore_errors=True)


@c22.workload('shipped', 1, 1)
def c22_shipped(mon, rng, i):
    """The files that come with the code, read by hand."""
    def raw(path):
        out, sect = {}, None
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if not line or line[0] in '#;':
                continue
            if line[0] == '[':
                sect = out.setdefault(line[1:-1], {})
            else:
                k, v = line.split('=', 1)
                sect[k.strip().upper()] = v.strip().replace('%%', '%')
        return out

    def look():
        for n in [n for n in sys.modules if n == 'hgaa' or n.startswith('hgaa.')]:
            del sys.modules[n]
        import hgaa.config as c
        out = {}
        for service in (True, False):
            for s in ('DEFAULT',) + SECTIONS:
                for n in NAMES + ('A_URI', 'AC_EXPIRE_LENGTH', 'PAUTH_NAME', 'PAUTH_UID', 'SERVICE_DESCRIPTION', 'CRED_TYPE'):
                    out[service, s, n] = c.get_conf(n, service, s)
        return out
    r = child(mon, look)
    mon.check(r[0] == 'ok', 'the shipped configuration cannot be read', error=r[1])
    files = {True: raw(os.path.join(REPO, 'hgaa', 'confs', 'services.ini')),
             False: raw(os.path.join(REPO, 'hgaa', 'confs', 'clients.ini'))}
    for (service, s, n), got in r[1].items():
        want, place = expected(files[service], n, service, s)
        mon.check(got == want, 'a shipped setting reads as another value', section=s, setting=n, got=got, want=want)
        mon.event('shipped')
    mon.case('shipped')


LEVELS = {'ALL': logging.DEBUG, 'DEBUG': logging.DEBUG, 'WARN': logging.WARNING, 'WARNING': logging.WARNING,
          'INFO': logging.INFO, 'INFORMATION': logging.INFO, 'ERROR': logging.ERROR, 'CRITICAL': logging.CRITICAL}


@c22.workload('loggers', 90, 1500, setup=svc.start_quiet)
def c22_loggers(mon, rng, i):
    import hgaa.config as config
    import hgaa.log as log
    for name in list(LEVELS) + ['', 'NONE', 'OFF', 'x', 'DEBUGG', 'ERR', 'INFO X', 'DEBUG2', ' INFO', 'INFO ', 'WARN,ERROR', 'TRACE', '10', '20',
                                 'INF', 'WARNINGS', 'CRIT', 'ERRORS', 'NOTSET', 'D', 'E', 'ALL,DEBUG']:
        for s in (name, name.lower(), name.title()):
            mon.check(log.str_to_log_level(s) == LEVELS.get(name, logging.NOTSET), 'a level name means another level',
                      name=s, got=log.str_to_log_level(s))
            mon.event('levels')
    service = rng.random() < 0.6
    sect = 'RV%d' % i
    level = rng.choice(list(LEVELS))
    fname = rng.choice(('%s.log' % sect, '%s.log' % sect, 'None', 'none', 'False', 'FALSE', 'NONE', ''))
    clean = rng.choice(('True', 'False', 'true', 'TRUE', 'yes', '1', 'on', '', 'T', 'truth', '0'))
    console = rng.choice(('False', 'false', 'True', 'true', 'TRUE', 'yes', '1', '', 'no', 'T'))
    has_file = fname.lower() not in ('none', 'false', '')
    path = os.path.join(svc.SCRATCH, 'logs', fname)
    if has_file:
        with open(path, 'w') as f:
            f.write('earlier line\n')
    values = {'LOG_LEVEL': rng.choice((level, level.lower())), 'LOG_FILE': fname, 'LOG_NAME': 'rv%d' % i,
              'LOG_FORMAT': '<%(asctime)s|%(levelname)s|%(name)s|%(message)s>', 'LOG_STDOUT': console,
              'CLEAN_LOG_ON_START': clean, 'LOG_DATE_FORMAT': rng.choice(('at', 'x-y', '[T]'))}
    conf = config.SERVICE_CONFIG if service else config.CLIENT_CONFIG
    conf[sect] = {k: v.replace('%', '%%') for k, v in values.items()}
    try:
        parent = rng.choice((None, log.SERVICE_LOG if service else log.CLIENT_LOG))
        shown = io.StringIO()
        with contextlib.redirect_stdout(shown), contextlib.redirect_stderr(shown):
            lg = log.make_logger(rng.choice((sect, sect.lower())), service, parent)
        base = (log.SERVICE_LOG if service else log.CLIENT_LOG).name
        mon.equal(lg.name, '%s.rv%d' % (base, i), 'a logger has another name', settings=values)
        mon.check(lg.level == LEVELS[level], 'a logger has another level', settings=values, got=lg.level)
        if has_file:
            mon.check(os.path.exists(path) and ('earlier line' in open(path).read()) == (clean.upper() != 'TRUE'),
                      'a log file is not cleared (or kept) from the start', settings=values)
        for n in ('debug', 'info', 'warning', 'error', 'critical'):
            getattr(lg, n)('message of %s', n)
        for h in lg.handlers:
            h.flush()
        for n in ('debug', 'info', 'warning', 'error', 'critical'):
            want = getattr(logging, n.upper()) >= LEVELS[level] and console.upper() == 'TRUE'
            line = '<%s|%s|%s|message of %s>' % (values['LOG_DATE_FORMAT'], n.upper(), lg.name, n)
            mon.check((line in shown.getvalue().splitlines()) == want, 'a record is shown or kept from the console wrongly', level=n,
                      settings=values, text=shown.getvalue())
        if has_file:
            text = open(path).read()
            mon.check(('earlier line' in text) == (clean.upper() != 'TRUE'), 'a log file is cleared or kept wrongly',
                      settings=values)
            for n in ('debug', 'info', 'warning', 'error', 'critical'):
                want = getattr(logging, n.upper()) >= LEVELS[level]
                line = '<%s|%s|%s|message of %s>' % (values['LOG_DATE_FORMAT'], n.upper(), lg.name, n)
                mon.check((line in text.splitlines()) == want, 'a record is logged or dropped against the level', level=n,
                          settings=values, text=text)
        else:
            mon.check(not fname or not os.path.exists(path), 'a log file is written that was not asked for', settings=values)
            mon.check(not any(isinstance(h, logging.FileHandler) for h in lg.handlers), 'a log file is open that was not '
                      'asked for', settings=values)
        for h in list(lg.handlers):
            lg.removeHandler(h)
            h.close()
    finally:
        conf.remove_section(sect)
        if has_file:
            os.remove(path)
    mon.event('loggers')
    mon.case(repr(values))


@c22.workload('startup', 30, 600, setup=svc.start_quiet)
def c22_startup(mon, rng, i):
    """The logs that are set up when the package is loaded: those of services, clients, the database and the web framework,
    each with its own settings, and a logger below one of them."""
    import logging
    kinds = ('services', 'clients', 'sql', 'ladon', 'below')
    conf = {}
    for k in kinds:
        conf[k] = {'LEVEL': rng.choice(list(LEVELS)), 'FILE': '%s-%s.log' % (k, word(rng)), 'STDOUT': rng.choice(('True', 'False', 'TRUE', 'no', 'true')),
                   'FORMAT': '<%s|%%(asctime)s|%%(levelname)s|%%(name)s|%%(message)s>' % k, 'DATE_FORMAT': rng.choice(('at', 'D-d', '[T]'))}
        if k in ('services', 'clients', 'below') and rng.random() < 0.3:
            conf[k]['FILE'] = rng.choice(('None', 'none', 'False', ''))
    names = {'services': 'S' + word(rng), 'clients': 'C' + word(rng), 'ladon': 'ladon', 'below': 'B' + word(rng)}
    clean = {True: rng.choice(('True', 'true', 'False', 'no')), False: rng.choice(('True', 'TRUE', 'False', ''))}
    below_service = rng.random() < 0.6
    opened = {k: c['FILE'] for k, c in conf.items() if c['FILE'].lower() not in ('none', 'false', '')}
    esc = lambda d: {n: v.replace('%', '%%') for n, v in d.items()}
    messages = [(rng.choice(kinds + ('sql below',)), rng.choice(('debug', 'info', 'warning', 'error', 'critical')), 'rv-%d' % n)
                for n in range(rng.randint(10, 30))]

    def go():
        d = os.path.join(svc.SCRATCH, 'startup%d' % i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, 'logs'))
        svc.SCRATCH = d
        logging.lastResort = None
        for n in [n for n in sys.modules if n == 'hgaa' or n.startswith('hgaa.')]:
            del sys.modules[n]
        logging.Logger.manager.loggerDict.clear()
        for f in opened.values():
            with open(os.path.join(d, 'logs', f), 'w') as out:
                out.write('earlier line\n')
        import hgaa.config as config
        section = lambda k: {'LOG_' + n: v for n, v in conf[k].items()}
        services = {'DEFAULT': dict(section('services'), LOG_NAME=names['services'], CLEAN_LOG_ON_START=clean[True],
                                    **{'SQL_LOG_' + n: v for n, v in conf['sql'].items()}),
                    'LADON': dict(section('ladon'), LOG_NAME=names['ladon'])}
        clients = {'DEFAULT': dict(section('clients'), LOG_NAME=names['clients'], CLEAN_LOG_ON_START=clean[False])}
        (services if below_service else clients)['BELOW'] = dict(section('below'), LOG_NAME=names['below'])
        for have, want in ((config.SERVICE_CONFIG, services), (config.CLIENT_CONFIG, clients)):
            have.clear()
            have.read_dict({s: esc(x) for s, x in want.items()})
        shown = io.StringIO()
        with contextlib.redirect_stdout(shown), contextlib.redirect_stderr(shown):
            import hgaa.log as log
            lg = {'services': log.SERVICE_LOG, 'clients': log.CLIENT_LOG, 'sql': log.SQL_LOG, 'ladon': log.LADON_LOG,
                  'below': log.make_logger('BELOW', below_service), 'sql below': logging.getLogger('sqlalchemy.engine.Engine')}
            for k, level, text in messages:
                getattr(lg[k], level)('%s %s', text, level)
        logging.shutdown()
        texts = {k: open(os.path.join(d, 'logs', f)).read() for k, f in opened.items()}
        files = sorted(os.listdir(os.path.join(d, 'logs')))
        shutil.rmtree(d, ignore_errors=True)
        return {k: (x.name, x.level) for k, x in lg.items()}, texts, shown.getvalue(), files
    r = child(mon, go)
    mon.check(r[0] == 'ok', 'the logs cannot be set up', error=r[1], settings=conf)
    have, texts, shown, files = r[1]
    parent = 'services' if below_service else 'clients'
    want = {'services': 'hgaa.' + names['services'], 'clients': 'hgaa.' + names['clients'],
            'below': 'hgaa.%s.%s' % (names[parent], names['below'])}
    for k in kinds:
        mon.check(have[k][1] == LEVELS[conf[k]['LEVEL']], 'a log has another level', log=k, settings=conf[k], got=have[k])
        mon.check(k not in want or have[k][0] == want[k], 'a log has another name', log=k, got=have[k], want=want.get(k))
    mon.equal(files, sorted(opened.values()), 'other log files exist than were asked for', settings=conf)
    above = {'below': ('below', parent), 'sql below': ('sql',)}
    level_of = dict({k: LEVELS[c['LEVEL']] for k, c in conf.items()}, **{'sql below': LEVELS[conf['sql']['LEVEL']]})
    for k in kinds:
        lines = ['<%s|%s|%s|%s|%s %s>' % (k, conf[k]['DATE_FORMAT'], level.upper(), have[src][0], text, level)
                 for src, level, text in messages
                 if getattr(logging, level.upper()) >= level_of[src] and k in above.get(src, (src,))]
        mine = lambda text: [x for x in text.splitlines() if x.startswith('<%s|' % k) and '|rv-' in x]
        if k in opened:
            mon.equal(mine(texts[k]), lines, 'records in a log file are not those of its log', log=k, settings=conf)
            cleaned = clean[k != 'clients' and (k != 'below' or below_service)].upper() == 'TRUE'
            mon.check(('earlier line' in texts[k]) == (not cleaned), 'a log file is cleared or kept wrongly', log=k, clean=clean)
            mon.check(all(x.startswith('<%s|' % k) or x == 'earlier line' for x in texts[k].splitlines()), 'records in a log '
                      'file have another form', log=k, text=texts[k])
        mon.equal(mine(shown), lines if conf[k]['STDOUT'].upper() == 'TRUE' else [], 'records on the console are not those '
                  'asked for', log=k, settings=conf)
        mon.event('startup_logs')
    mon.case((i, messages))


# ---------------------------------------------------------------------------------------------------------------- C23
c23 = core.register(
    'C23', 'Histories of building, populating, wiping and generating in scratch databases (each in a fresh process), '
    'audited by plain SQL after every step against a model: what was given is there, nothing else changed, the other '
    'service\'s database never changes, a failing step changes nothing; engines point where the configuration says. '
    'Non-trivial: every history; distinct by its steps.',
    ['hgaa/database.py', 'hgaa/tools.py:build_database', 'hgaa/tools.py:gen_atts', 'hgaa/schema'],
    require={'histories': 60, 'audits': 250, 'failed_steps': 40, 'engines': 100, 'wipes': 30, 'broken': 10})


def c23_setup(mon):
    svc.start_quiet()
    import hgaa.tools


TABLES = {'aauth': {'aauth_users': 3, 'aauth_attributes': 3, 'aauth_attribute_assignments': 3},
          'pauth': {'pauth_attribute_authorities': 7, 'pauth_attributes': 4, 'pauth_policies': 4,
                    'pauth_attribute_certificates': 6, 'pauth_attribute_certificate_assignments': 2, 'pauth_sessions': 7}}


def read_db(path):
    """{table: sorted rows as dictionaries} read with the standard library alone; None if there is no file."""
    import sqlite3
    if not os.path.exists(path):
        return None
    c = sqlite3.connect('file:%s?mode=ro' % path, uri=True)
    try:
        out = {}
        for (t,) in c.execute("SELECT name FROM sqlite_master WHERE type='table'").fetchall():
            cur = c.execute('SELECT * FROM "%s"' % t)
            cols = [x[0] for x in cur.description]
            out[t] = sorted((dict(zip(cols, r)) for r in cur.fetchall()), key=repr)
        return out
    finally:
        c.close()


def a_row(rng, service, used):
    """(table, key, stored row, maker)"""
    import hgaa.schema.aauth as A
    import hgaa.schema.pauth as P
    from hgaa.attcert import AttributeType
    t = rng.choice(list(AttributeType))
    if service == 'aauth':
        r = rng.random()
        if r < 0.5:
            k = rng.randint(1, 40)
            v = {'id': k, 'username': word(rng), 'password': word(rng, 1, 40)}
            return 'aauth_users', k, v, lambda: A.User(**v)
        if r < 0.7:
            k = (rng.randint(1, 40), '/attribute/user/' + word(rng, 1, 2))
            v = {'user_id': k[0], 'att_id': k[1], 'value': rng.choice((None, '', word(rng), word(rng, 1, 100)))}
            return 'aauth_attribute_assignments', k, v, lambda: A.AttributeAssignment(**v)
        k = '/attribute/user/' + word(rng, 1, 2)
        v = {'id': k, 'name': word(rng), 'type': t.name}
        return 'aauth_attributes', k, v, lambda: A.Attribute(id=k, name=v['name'], type=t)
    r = rng.random()
    k = 'hgabac://%s' % word(rng, 1, 2)
    if r < 0.15:
        k = word(rng, 1, 2)
        v = {'serial': k, 'certificate': rng.randbytes(20), 'format': rng.randint(0, 4), 'version': rng.randint(0, 9),
             'valid_till': rng.randrange(2 ** 32), 'hash': word(rng)}
        return 'pauth_attribute_certificates', k, v, lambda: P.AttributeCertificate(**v)
    if r < 0.3:
        k = (word(rng, 1, 1), word(rng, 1, 2))
        v = {'ac_serial': k[0], 'session_id': k[1]}
        return 'pauth_attribute_certificate_assignments', k, v, lambda: P.AttributeCertificateAssignment(**v)
    if r < 0.45:
        k = word(rng, 1, 2)
        n = {'id': k, 'cert_start': rng.randrange(2 ** 31), 'cert_valid_till': rng.randrange(2 ** 32), 'session_start': rng.randrange(2 ** 31),
             'initial_service_ip': word(rng), 'session_valid_till': rng.randrange(2 ** 32)}
        v = dict(n, name=word(rng))
        return 'pauth_sessions', k, v, lambda: P.Session(service_uid=v['name'], **n)
    if r < 0.65:
        v = {'uid': k, 'name': word(rng), 'url': word(rng), 'key_cipher': 'RSA', 'key_size': 2048, 'pub_key': word(rng, 1, 300),
             'trust_level': rng.randint(-5, 100)}
        return 'pauth_attribute_authorities', k, v, lambda: P.AttributeAuthority(**v)
    if r < 0.85:
        v = {'uid': k, 'name': word(rng), 'policy': 'user.x = %d' % rng.randint(0, 9), 'ast': rng.choice((None, rng.randbytes(9)))}
        return 'pauth_policies', k, v, lambda: P.Policy(**v)
    v = {'uid': k, 'name': None, 'type': t.name, 'value': word(rng)}
    return 'pauth_attributes', k, v, lambda: P.Attribute(uid=k, name=None, type=t, value=v['value'])


@c23.workload('histories', 80, 2500, setup=c23_setup)
def c23_histories(mon, rng, i):
    import hgaa.tools as tools
    import hgaa.database as database
    d = scratch(mon)
    paths = {'aauth': os.path.join(d, rng.choice(('one', 'One', 'ONE db', 'one.x'))), 'pauth': os.path.join(d, rng.choice(('two', 'Two', 'two-2')))}
    for s, p in paths.items():
        svc.configure(s.upper(), DB_TYPE=rng.choice(('SQLITE', 'sqlite')), DB_NAME=p)
    state = {'aauth': None, 'pauth': None}
    log = []
    reused = rng.random() < 0.3      # all steps in one process

    def audit(what):
        for s, p in paths.items():
            have = read_db(p + '.db')
            if have is not None:
                have = {t: r for t, r in have.items()}
            want = state[s]
            if want is None:
                mon.check(not have, 'a step wrote to another service\'s database', step=what, service=s, log=log)
                continue
            mon.equal(have, {t: sorted(r.values(), key=repr) for t, r in want.items()},
                      'the database differs from what was put into it', step=what, service=s, log=log)
        mon.event('audits')

    def plan():
        r = rng.random()
        s = rng.choice(('aauth', 'pauth'))
        if r < 0.25 or not any(state.values()):
            services = rng.choice((['aauth'], ['pauth'], ['aauth', 'pauth'], ['pauth', 'aauth'], ['aauth', 'aauth']))
            for x in services:
                if state[x] is None:
                    state[x] = {t: {} for t in TABLES[x]}
            return 'build %s' % services, lambda: tools.build_database(services), False
        if r < 0.3:
            named = rng.sample(('aauth', 'pauth'), rng.randint(0, 2)) + [rng.choice(('nosuch', '', 'all', 'AAUTH ', 'hgaa'))]
            rng.shuffle(named)
            return 'build of something unknown %s' % named, lambda: tools.build_database(named), True
        if state[s] is None:
            s = 'aauth' if s == 'pauth' else 'pauth'
        if r < 0.85 or s != 'aauth':
            wipe = rng.random() < 0.4
            rows = [a_row(rng, s, state[s]) for _ in range(rng.randint(0, 6) if rng.random() < 0.7 else
                                                         dictionary.size(rng, 'hgaa', 150, 40))]
            now = {t: ({} if wipe else dict(state[s][t])) for t in state[s]}
            clash = False
            if len(rows) > 10:
                seen, rows2 = set(), []
                for x in rows:
                    if (x[0], x[1]) not in seen and x[1] not in now[x[0]]:
                        rows2.append(x)
                    seen.add((x[0], x[1]))
                rows = rows2
                mon.event('big_batches')
            for t, k, v, mk in rows:
                clash = clash or k in now[t]
                now[t][k] = v
            makers = [x[3] for x in rows]
            if not clash and rng.random() < (0.15 if len(rows) < 8 else 0.5):
                import hgaa.schema.aauth as A
                import hgaa.schema.pauth as P
                makers.insert(rng.randint(0, len(makers)), (lambda: A.User(id=999, username=None, password='x'))
                              if s == 'aauth' else (lambda: P.Policy(uid='zz', policy=None)))
                clash = True
            if not clash:
                state[s] = now
            elif wipe:
                mon.event('failed_wipes')
            explicit = rng.random() < 0.5
            if wipe:
                mon.event('wipes')
            return ('populate %s%s with %d rows%s' % (s, ' afresh' if wipe else '', len(makers), ' (must fail)' if clash else ''),
                    lambda: database.populate_db(s.upper(), [m() for m in makers], **({'wipe_first': wipe} if wipe or explicit else {})), clash)
        n = rng.randint(0, 6)
        now = {t: dict(r) for t, r in state['aauth'].items()}
        clash = False
        for j in range(n):
            a = '/attribute/user/a%d' % j
            clash = clash or a in now['aauth_attributes'] or (1, a) in now['aauth_attribute_assignments']
            now['aauth_attributes'][a] = {'id': a, 'name': 'a%d' % j, 'type': 'INT'}
            now['aauth_attribute_assignments'][1, a] = {'user_id': 1, 'att_id': a, 'value': str(j)}
        if not clash:
            state['aauth'] = now
        return 'generate %d attributes%s' % (n, ' (must fail)' if clash else ''), lambda: tools.gen_atts(n), clash

    steps = []

    def attempt(fn):
        try:
            fn()
            return ('ok', None)
        except Exception as e:
            return ('error', '%s: %s' % (type(e).__name__, str(e)[:300]))

    for _ in range(rng.randint(3, 8)):
        what, fn, fails = plan()
        log.append(what)
        if reused:
            steps.append((what, fn, fails))
            continue
        r = child(mon, lambda: attempt(fn))
        mon.check(r[0] == 'ok', 'a step ended the process', step=what, log=log)
        r = r[1]
        mon.check((r[0] == 'error') == fails, 'a step succeeds or fails against expectation', step=what, error=r[1], log=log)
        mon.event('failed_steps' if fails else 'steps')
        audit(what)
    if reused:
        r = child(mon, lambda: [attempt(fn) for w, fn, f in steps])
        mon.check(r[0] == 'ok', 'the steps ended the process', log=log, error=r[1:])
        for (what, fn, fails), x in zip(steps, r[1]):
            mon.check((x[0] == 'error') == fails, 'a step succeeds or fails against expectation', step=what, error=x[1],
                      log=log)
            mon.event('failed_steps' if fails else 'steps')
        audit('all')
    mon.event('histories')
    mon.case(log)
    mon.sample(history=log)
    shutil.rmtree(d, ignore_errors=True)


@c23.workload('broken', 24, 600, setup=c23_setup)
def c23_broken(mon, rng, i):
    """The database fails under a step: what the step should add is there wholly or not at all, and nothing else goes
    but what it was told to empty."""
    import hgaa.tools as tools
    import hgaa.database as database
    d = scratch(mon)
    paths = {'aauth': os.path.join(d, 'one'), 'pauth': os.path.join(d, 'two')}
    for s, p in paths.items():
        svc.configure(s.upper(), DB_TYPE='SQLITE', DB_NAME=p)
    s = rng.choice(('aauth', 'pauth'))

    def batch(n, have):
        out = []
        for _ in range(n):
            x = a_row(rng, s, None)
            if x[1] not in have[x[0]] and not str(x[1]).startswith('/attribute/user/a') and not isinstance(x[1], tuple):
                have[x[0]][x[1]] = x[2]
                out.append(x[3])
        return out
    base = {t: {} for t in TABLES[s]}
    first = batch(rng.randint(1, 8), base)
    wipe = rng.random() < 0.4
    gen = s == 'aauth' and rng.random() < 0.4
    after = {t: ({} if wipe and not gen else dict(r)) for t, r in base.items()}
    if gen:
        n = rng.randint(1, 12)
        for j in range(n):
            a = '/attribute/user/a%d' % j
            after['aauth_attributes'][a] = {'id': a, 'name': 'a%d' % j, 'type': 'INT'}
            after['aauth_attribute_assignments'][1, a] = {'user_id': 1, 'att_id': a, 'value': str(j)}
        step = lambda: tools.gen_atts(n)
    else:
        second = batch(rng.randint(1, 8), after)
        step = lambda: database.populate_db(s.upper(), [m() for m in second], wipe_first=wipe)
    nth, kind = rng.choice((1, 1, 2, 2, 3, 4, 6, 9)), rng.choice(('write', 'write', 'commit'))

    def run():
        tools.build_database(['aauth', 'pauth'])
        database.populate_db(s.upper(), [m() for m in first])
        with svc.failing(nth, kind) as hit:
            try:
                step()
                return 'ok', hit
            except Exception as e:
                return type(e).__name__, hit
    r = child(mon, run)
    mon.check(r[0] == 'ok', 'the step ended the process', error=r[1:])
    outcome, hit = r[1]
    have = read_db(paths[s] + '.db')
    flat = lambda st: {t: sorted(r.values(), key=repr) for t, r in st.items()}
    if outcome == 'ok':
        allowed = [flat(after)]
        mon.event('unbroken')
    else:
        mon.check(hit, 'a step fails although the database does not', outcome=outcome, service=s)
        allowed = [flat(base)]
        mon.event('broken')
        mon.seen('failed_at', hit[0])
    mon.check(have in allowed, 'a step that failed left part of its work', service=s, wiping=wipe, failed=hit, have=have,
              allowed=allowed)
    other = read_db(paths['pauth' if s == 'aauth' else 'aauth'] + '.db')
    mon.check(all(not r for r in other.values()), 'a step wrote to another service\'s database', rows=other)
    mon.case((s, wipe, gen, nth, kind, i))
    shutil.rmtree(d, ignore_errors=True)


@c23.workload('schema', 4, 20, setup=c23_setup)
def c23_schema(mon, rng, i):
    """Tables and columns as documented."""
    import hgaa.tools as tools
    d = scratch(mon)
    svc.configure('AAUTH', DB_TYPE='SQLITE', DB_NAME=os.path.join(d, 'x'))
    svc.configure('PAUTH', DB_TYPE='SQLITE', DB_NAME=os.path.join(d, 'x'))
    r = child(mon, lambda: tools.build_database(['aauth', 'pauth']))
    mon.check(r[0] == 'ok', 'building fails', error=r[1])
    import sqlite3
    c = sqlite3.connect(os.path.join(d, 'x.db'))
    have = {t: len(c.execute('PRAGMA table_info("%s")' % t).fetchall())
            for (t,) in c.execute("SELECT name FROM sqlite_master WHERE type='table'").fetchall()}
    c.close()
    mon.equal(have, dict(TABLES['aauth'], **TABLES['pauth']), 'the tables differ from the schema')
    mon.case(i)
    shutil.rmtree(d, ignore_errors=True)


@c23.workload('engines', 60, 1500, setup=c23_setup)
def c23_engines(mon, rng, i):
    import hgaa.database as database
    name = 'RVE%d' % i
    kind = rng.choice(('mysql', 'MySQL', 'sqlite', 'SQLITE', 'memory', 'MEMORY', 'oracle', '', 'sqlite3'))
    odd = lambda: word(rng, 1, 12, 'abcXYZ019_') + rng.choice(('', '', rng.choice('@:/#?%&+ !;=$*ü') + word(rng)))
    v = {'DB_TYPE': kind, 'DB_NAME': word(rng, 1, 8, 'abcXYZ019_-'), 'DB_USER': odd(), 'DB_PASS': odd(),
         'DB_HOST': rng.choice(('localhost', 'db.test', '127.0.0.1', 'DB.Example.org', '10.0.0.7', '::1')),
         'DB_PORT': str(rng.randint(1, 65535)), 'LOG_NAME': 'rve'}
    import hgaa.config as config
    v = {k: x.replace('%', '%%') for k, x in v.items()}
    config.SERVICE_CONFIG[name] = v
    twin = dict(v, DB_HOST='twin.test', DB_PORT='1', DB_USER='twin')
    config.SERVICE_CONFIG[name + 'B'] = twin
    twin_first = rng.random() < 0.5

    def look():
        if twin_first and kind.upper() in ('MYSQL', 'MEMORY'):
            t = database.get_engine(name + 'B')
            if t is database.get_engine(name):
                return False, True, *[None] * 7
        e = database.get_engine(name)
        if e is None:
            return None
        f = database.get_engine(name)
        s = database.get_session(name)()
        u = s.get_bind().url
        g = database.get_engine('AAUTH')
        return (e is f, e is g, e.url.drivername, e.url.username, e.url.password and str(e.url.password), e.url.host,
                e.url.port, e.url.database, u == e.url)
    r = child(mon, look)
    config.SERVICE_CONFIG.remove_section(name)
    config.SERVICE_CONFIG.remove_section(name + 'B')
    v = {k: x.replace('%%', '%') for k, x in v.items()}
    mon.check(r[0] == 'ok', 'an engine cannot be made', settings=v, error=r[1])
    k = kind.upper()
    if k == 'MYSQL':
        want = ('mysql+mysqlconnector', v['DB_USER'], v['DB_PASS'], v['DB_HOST'], int(v['DB_PORT']), v['DB_NAME'])
    elif k == 'SQLITE':
        want = ('sqlite', None, None, None, None, v['DB_NAME'] + '.db')
    elif k == 'MEMORY':
        want = ('sqlite', None, None, None, None, None)
    else:
        mon.check(r[1] is None, 'an unsupported kind of database is accepted', settings=v)
        want = None
    if want:
        mon.check(r[1] is not None, 'a supported kind of database is not', settings=v)
        mon.check(r[1][0] and not r[1][1], 'engines of services are mixed up or not kept', settings=v)
        mon.equal(tuple(r[1][2:8]), want, 'an engine points elsewhere', settings=v)
        mon.check(r[1][8], 'a session is bound to another engine', settings=v)
    mon.event('engines', 2)
    mon.case(repr(v))


@c23.workload('test_databases', 12, 200, setup=c23_setup)
def c23_test_databases(mon, rng, i):
    """Populating the test database of a service leaves the real one alone, and the other way round."""
    import hgaa.config as config
    import hgaa.database as database
    import hgaa.schema as schema
    d = scratch(mon)
    s = rng.choice(('aauth', 'pauth'))
    names = {False: s.upper(), True: s.upper() + '_TEST'}
    paths = {t: os.path.join(d, 'test' if t else 'real') for t in names}
    for t, n in names.items():
        if not config.SERVICE_CONFIG.has_section(n):
            config.SERVICE_CONFIG.add_section(n)
        svc.configure(n, DB_TYPE='SQLITE', DB_NAME=paths[t], LOG_NAME='rvtest')
    state = {t: {x: {} for x in TABLES[s]} for t in names}
    steps = []
    for _ in range(rng.randint(2, 5)):
        t, wipe = rng.random() < 0.6, rng.random() < 0.4
        rows, have = [], set()
        for x in [a_row(rng, s, None) for _ in range(rng.randint(0, 6))]:
            if (x[0], x[1]) not in have and (wipe or x[1] not in state[t][x[0]]):
                rows.append(x)
                have.add((x[0], x[1]))
        if wipe:
            state[t] = {x: {} for x in TABLES[s]}
        for x in rows:
            state[t][x[0]][x[1]] = x[2]
        steps.append((t, wipe, [x[3] for x in rows], {k: {y: dict(z) for y, z in v.items()} for k, v in state.items()}))

    def go():
        for n in names.values():
            schema.ServiceBases[s].metadata.create_all(database.get_engine(n))
        out = []
        for t, wipe, makers, want in steps:
            database.populate_db(s.upper(), [m() for m in makers], wipe_first=wipe, use_test_db=t)
            out.append({x: read_db(p + '.db') for x, p in paths.items()})
        return out
    r = child(mon, go)
    config.SERVICE_CONFIG.remove_section(names[True])
    mon.check(r[0] == 'ok', 'populating fails', error=r[1])
    for have, (t, wipe, makers, want) in zip(r[1], steps):
        mon.equal(have, {k: {x: sorted(y.values(), key=repr) for x, y in v.items()} for k, v in want.items()},
                  'the databases differ from what was put into them', service=s, test_database=t, wipe=wipe)
        mon.event('test_databases')
    shutil.rmtree(d, ignore_errors=True)
    mon.case((s, repr([x[3] for x in steps])))


@c23.workload('many', 2, 12, setup=c23_setup)
def c23_many(mon, rng, i):
    """A great many generated attributes."""
    import hgaa.tools as tools
    d = scratch(mon)
    n = rng.choice((1001, 1025, 1500, 2100)) + rng.randint(0, 9)
    svc.configure('AAUTH', DB_TYPE='SQLITE', DB_NAME=os.path.join(d, 'm'))

    def go():
        tools.build_database(['aauth'])
        if i % 2:       # starts from an emptied database
            import hgaa.database as database
            import hgaa.schema.aauth as A
            from hgaa.attcert import AttributeType
            database.populate_db('AAUTH', [A.User(id=1, username='old', password='x'), A.User(id=9, username='older', password='y'),
                                           A.Attribute(id='/attribute/user/a0', name='a0', type=AttributeType.STRING),
                                           A.AttributeAssignment(user_id=9, att_id='/attribute/user/a0', value='v')])
        tools.pop_and_gen(n) if i % 2 else tools.gen_atts(n)
        return read_db(os.path.join(d, 'm.db'))
    r = child(mon, go)
    mon.check(r[0] == 'ok', 'generating attributes fails', error=r[1])
    mon.equal({x['att_id']: (x['user_id'], x['value']) for x in r[1]['aauth_attribute_assignments']},
              {'/attribute/user/a%d' % j: (1, str(j)) for j in range(n)}, 'other assignments were generated', count=n)
    mon.equal({x['id']: (x['name'], x['type']) for x in r[1]['aauth_attributes']},
              {'/attribute/user/a%d' % j: ('a%d' % j, 'INT') for j in range(n)}, 'other attributes were generated', count=n)
    mon.equal([(x['id'], x['username']) for x in r[1]['aauth_users']], [(1, 'dan')] if i % 2 else [], 'other accounts')
    shutil.rmtree(d, ignore_errors=True)
    mon.case((n, i))


# ---------------------------------------------------------------------------------------------------------------- C24
c24 = core.register(
    'C24', 'Services, clients and tools run with every log at its most talkative and all records captured, with '
    'distinctive secrets: no password, pepper, passphrase, database password or private key may turn up, plain or '
    'encoded, in a log, a fault, an answer or a certificate. Non-trivial: every run; distinct by secrets.',
    ['hgaa/log.py', 'hgaa/database.py:get_engine', 'hgaa/services/aauth.py', 'hgaa/services/pauth.py', 'hgaa/clients',
     'hgaa/tools.py'],
    require={'records': 3000, 'secrets': 200, 'scanned_answers': 200, 'set:loggers': 6, 'issued': 60, 'refused': 300,
             'database_failures': 12, 'made_keys': 3, 'commands_ok': 6, 'commands_error': 8},
    assumptions=['the password command prints the password it was given, on standard output, by design',
                 'bcrypt hashes are not treated as secrets'])


def forms(secret):
    """Spellings in which a secret would still be readable."""
    import urllib.parse
    b = secret if isinstance(secret, bytes) else secret.encode('utf-8')
    out = {b, base64.b64encode(b).rstrip(b'=')[:-1] or b, b.hex().encode(), b.hex().upper().encode(), b[::-1]}
    if not isinstance(secret, bytes):
        out.add(urllib.parse.quote(secret).encode())
        out.add(repr(secret)[1:-1].encode())
        out.add(urllib.parse.quote_plus(secret).encode())
    return [x for x in out if len(x) >= 6]


def scan(mon, secrets, text, where):
    data = text if isinstance(text, bytes) else text.encode('utf-8', 'replace')
    for what, s in secrets.items():
        for f in forms(s):
            if f in data:
                at = data.index(f)
                raise Violation('a secret turns up where it must not', secret=what, where=where,
                                around=data[max(0, at - 80):at + 60])
        mon.event('scans')


def private_parts(key):
    """Recognisable pieces of a private key."""
    out = {}
    lines = key.export_key().decode('ascii').split('\n')
    for n in (-3, -5):      # past the modulus: primes and exponents
        out['private key text %d' % n] = lines[n][:40]
    out['private exponent'] = str(key.d)
    out['private exponent hex'] = '%x' % key.d
    out['prime'] = str(key.p)
    return out


def c24_begin(mon):
    svc.start_logged()
    svc.RECORDING[0] = True
    import hgaa.database, hgaa.schema.aauth, hgaa.schema.pauth
    svc.aa_module(), svc.pa_module()


def c24_setup(mon):
    c24_begin(mon)
    svc_aa.std()
    svc_pa.pa()


def harvest(mon, secrets, where):
    recs, svc.RECORDS[:] = list(svc.RECORDS), []
    for r in recs:
        mon.event('records')
        mon.seen('loggers', r.split(' ', 1)[0].split('.0x')[0])
    scan(mon, secrets, '\n'.join(recs), 'log records: ' + where)
    return recs


def secret_word(rng):
    return ''.join(rng.choice('ABCDEFGHJKMNPQRSTUVWXYZabcdefghjkmnpqrstuvwxyz23456789!#') for _ in range(14))


@c24.workload('start', 16, 300, setup=c24_begin)
def c24_start(mon, rng, i):
    """Start-up of services with fresh secrets and every kind of database."""
    pw = {'db': secret_word(rng)[:7] + rng.choice('abc@:/#?!+') + secret_word(rng), 'wrong': secret_word(rng), 'pepper': secret_word(rng), 'pass': secret_word(rng)}
    secrets = {'database password': pw['db'], 'pepper': pw['pepper'], 'key passphrase': pw['pass']}
    d = scratch(mon)
    key = keys.key(rng.randrange(keys.COUNT))
    secrets['wrong passphrase'] = pw['wrong']
    secrets['part of the database password'] = pw['db'][8:]
    secrets.update(private_parts(key))
    kf = os.path.join(d, 'k.pem')
    with open(kf, 'wb') as f:
        f.write(key.export_key(passphrase=pw['pass'], pkcs=8, protection='PBKDF2WithHMAC-SHA1AndAES128-CBC'))
    kind = rng.choice(('MYSQL', 'MYSQL', 'MYSQL', 'mysql', 'SQLITE', 'MEMORY', 'ORACLE'))
    host = rng.choice(('h', 'localhost', '127.0.0.1', '::1', 'db.example.org', '10.0.0.1', '0.0.0.0'))

    def go():
        import hgaa.database as database
        svc.RECORDS[:] = []
        name = 'RV%d' % i
        import hgaa.config as config
        config.SERVICE_CONFIG[name] = {'DB_TYPE': kind, 'DB_NAME': os.path.join(d, 'x'), 'DB_USER': 'u', 'DB_PASS': pw['db'],
                                       'DB_HOST': host, 'DB_PORT': '1', 'LOG_NAME': 'rv'}
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            e = database.get_engine(name)
            text = [repr(e), str(e)]
            svc.configure('AAUTH', DB_TYPE='SQLITE', DB_PASS=pw['db'], KEY_FILE=kf, KEY_PASS=pw['pass'], PASS_PEPPER=pw['pepper'])
            svc.configure('PAUTH', DB_TYPE=kind if kind != 'ORACLE' else 'MYSQL', DB_PASS=pw['db'])
            svc.new_aa()
            svc.new_pa()
            svc.configure('AAUTH', KEY_PASS=pw['wrong'])
            try:
                svc.new_aa()
            except Exception as e:
                text.append(str(e))
        return out.getvalue(), text, list(svc.RECORDS)
    r = child(mon, go)
    mon.check(r[0] == 'ok', 'the services do not start', error=r[1], kind=kind)
    out, text, recs = r[1]
    for n in recs:
        mon.event('records')
        mon.seen('loggers', n.split(' ', 1)[0].split('.0x')[0])
    mon.check(recs, 'no records were captured')
    scan(mon, secrets, '\n'.join(recs), 'log records of start-up')
    scan(mon, secrets, out, 'output of start-up')
    scan(mon, secrets, '\n'.join(text), 'descriptions')
    mon.event('secrets', len(secrets))
    mon.event('scanned_answers', len(text))
    shutil.rmtree(d, ignore_errors=True)
    mon.case(sorted(pw.values()))


@c24.workload('authority', 24, 800, setup=c24_setup)
def c24_authority(mon, rng, i):
    w = svc_aa.World(rng, svc_aa.tag(mon), n=2)
    secrets = {'pepper': svc.SECRETS['pepper'], 'key passphrase': svc.SECRETS['key_pass'],
               'database password': svc.SECRETS['db_pass']}
    for u in w.users:
        pw = secret_word(rng)
        w.users[u].update(password=pw, hash=w.hash(pw))
        secrets['password of ' + u] = pw
    secrets.update({'authority ' + k: v for k, v in private_parts(keys.key(svc.AUTHORITY_KEY)).items()})
    harvest(mon, secrets, 'start')
    w.store()
    svc.RECORDS[:] = []
    a = svc_aa.std()
    for u in w.users:
        pw = w.users[u]['password']
        wrong = secret_word(rng)
        secrets['wrong password'] = wrong
        for got in (svc.request(a, u, pw), svc.request(a, u, wrong), svc.request(a, u + 'zz', pw), svc.request(a, u, pw, ['zz']),
                    svc.request(a, u, pw, ctype=9), svc.request(a, u, wrong * 8), svc.request(a, None, pw),
                    svc.request(a, u, ''), svc.request(a, '', pw), svc.request(a, '', ''), svc.request(a, u, None), svc.request(a, u.upper(), pw),
                    svc.request(a, u, pw, [], ['/attribute/user/zz']), svc.request(a, u, pw, ctype=None), svc.request(a, u, ' ' + pw),
                    svc.request(a, u, pw, [], [], addr='::1')):
            scan(mon, secrets, got.data if got.refusal is None else got.text or '', 'answer')
            mon.event('scanned_answers')
            mon.event('issued' if got.refusal is None else 'refused')
        with svc.failing(rng.randint(1, 4), rng.choice(('read', 'read', 'write', 'commit'))) as hits:
            try:
                got = svc.request(a, u, pw)
                text = got.data if got.refusal is None else got.text or ''
            except Exception as e:      # what the caller would be shown of an error that is no fault
                text = '%s %r' % (e, e)
        scan(mon, secrets, text, 'answer with a failing database')
        mon.event('database_failures', len(hits))
    a.info(**svc.exports())
    x = a.info(**svc.exports())
    scan(mon, secrets, repr([(k, getattr(v, '__dict__', v)) for k, v in vars(x).items()]), 'info')
    recs = harvest(mon, secrets, 'requests')
    for f in svc.issued_files()[:4]:
        with open(os.path.join(svc.SCRATCH, 'acs', f), 'rb') as h:
            scan(mon, secrets, h.read(), 'certificate on file')
    svc.clear_issued()
    mon.event('secrets', len(secrets))
    mon.case(sorted(secrets.values()))
    mon.sample(records=recs[:6], secrets=sorted(secrets))


@c24.workload('client', 16, 300, setup=c24_setup)
def c24_client(mon, rng, i):
    from ladon.clients.jsonwsp import JSONWSPClient
    import hgaa.clients.aauth as ca
    pw = secret_word(rng)
    secrets = {'client password': pw}
    svc.RECORDS[:] = []
    import hgaa.config as config
    explicit = rng.random() < 0.5
    config.CLIENT_CONFIG['AAUTH']['CRED_PASS'] = 'unused' if explicit else pw
    c = ca.AttributeAuthorityClient({'type': 0, 'username': 'dan', 'password': pw} if explicit else None)
    key = keys.key(rng.randrange(keys.COUNT))
    secrets.update(private_parts(key))
    texts = []
    for status, body in ((200, {'result': {'ok': 1}}), (500, {}), (200, {'fault': {'string': 'bad', 'detail': ['d']}})):
        JSONWSPClient.TRANSPORT = lambda u, m, kw: Response(status, body)
        try:
            c.attribute_request(key=key)
            c.info()
        except Exception as e:
            texts.append(str(e))
    JSONWSPClient.TRANSPORT = lambda u, m, kw: Response(200, {'result': {'ok': 1}})
    if i % 4 == 0:
        c.attribute_request(key=None)
        mon.check(c.last_key is not None, 'no key is kept')
        secrets.update({'made ' + k: v for k, v in private_parts(c.last_key).items()})
        mon.event('made_keys')
    texts += [repr(c), str(c)]
    JSONWSPClient.TRANSPORT = None
    for bad in (lambda: c.update_service('http://x', 'SOAP'),):
        try:
            bad()
        except Exception as e:
            texts.append(str(e))
    scan(mon, secrets, '\n'.join(texts), 'errors of the client')
    recs = harvest(mon, secrets, 'client')
    mon.check(recs, 'no records were captured')
    mon.event('scanned_answers', len(texts))
    mon.event('secrets', len(secrets))
    mon.case(pw)


@c24.workload('tools', 6, 60, setup=c24_setup)
def c24_tools(mon, rng, i):
    import hgaa.tools as tools
    pw = secret_word(rng)
    d = scratch(mon)
    kf = os.path.join(d, 'k.bin')

    def go():
        svc.RECORDS[:] = []
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            tools.gen_aauth_key(kf, pw, 1024)
        return out.getvalue(), list(svc.RECORDS)
    r = child(mon, go)
    mon.check(r[0] == 'ok', 'making a key fails', error=r[1])
    from Crypto.PublicKey import RSA
    data = open(kf, 'rb').read()
    key = RSA.import_key(data, passphrase=pw)
    secrets = dict(private_parts(key), passphrase=pw)
    scan(mon, secrets, r[1][0], 'output')
    scan(mon, secrets, '\n'.join(r[1][1]), 'log records of the tools')
    scan(mon, secrets, data, 'key file')
    der = key.export_key('DER')
    mon.check(der[40:90] not in data and base64.b64encode(der[39:90])[:60] not in data.replace(b'\n', b''),
              'the key file holds the key unencrypted')
    mon.event('secrets', len(secrets))
    mon.event('records', len(r[1][1]))
    shutil.rmtree(d, ignore_errors=True)
    mon.case(pw)


@c24.workload('commands', 24, 300, setup=c24_begin)
def c24_commands(mon, rng, i):
    """The commands as they are run from a shell, right and wrong."""
    d = scratch(mon)
    pw = secret_word(rng)
    pepper = {s: secret_word(rng) for s in ('AAUTH', 'PAUTH')}
    db, phrase = secret_word(rng), secret_word(rng)
    secrets = {'pepper of ' + s: v for s, v in pepper.items()}
    secrets.update({'database password': db, 'key passphrase': phrase})
    for s, v in pepper.items():
        svc.configure(s, PASS_PEPPER=v, DB_TYPE='SQLITE', DB_NAME=os.path.join(d, s), DB_PASS=db)
    svc.configure('AAUTH', KEY_FILE=os.path.join(d, 'k.bin'), KEY_PASS=phrase)
    s = rng.choice(('aauth', 'pauth'))
    argv = [('password', s, pw), ('build', s), ('populate', s), ('genatts', '2'), ('password', s), ('nosuch', s), ('build', 'nosuch'),
            ('genkey', 'pauth'), (), ('help',), ('genatts', 'x'), ('populate', 'nosuch'), ('genkey',)][i % 13]
    if i == 0 or i % 40 == 39:
        argv = ('genkey', 'aauth')

    def go():
        svc.RECORDS[:] = []
        err = io.StringIO()
        with contextlib.redirect_stderr(err):
            if argv[:1] in (('populate',), ('genatts',)):
                run_tool('build', 'all')
            got = run_tool(*argv)
        return got, err.getvalue(), list(svc.RECORDS)
    r = child(mon, go)
    mon.check(r[0] == 'ok', 'a command cannot be run', command=argv, error=r[1])
    (outcome, out), err, recs = r[1]
    for n in ('k.bin', 'AAUTH', 'PAUTH'):
        if os.path.exists(os.path.join(d, n)):
            with open(os.path.join(d, n), 'rb') as f:
                scan(mon, secrets, f.read(), 'file left by a command')
    if argv == ('genkey', 'aauth'):
        from Crypto.PublicKey import RSA
        secrets.update(private_parts(RSA.import_key(open(os.path.join(d, 'k.bin'), 'rb').read(), passphrase=phrase)))
    scan(mon, secrets, out, 'output of a command')
    scan(mon, secrets, err, 'output of a command')
    scan(mon, dict(secrets, password=pw), '\n'.join(recs), 'log records of a command')
    mon.event('secrets', len(secrets))
    mon.event('records', len(recs))
    mon.event('commands_' + outcome)
    shutil.rmtree(d, ignore_errors=True)
    mon.case((argv, sorted(secrets.values())))


# ---------------------------------------------------------------------------------------------------------------- C25
c25 = core.register(
    'C25', 'The clients against a recording transport with random configurations, credentials, keys and answers, and '
    'joined to the real services: what is sent is what was asked and configured, the answer comes back unchanged, errors '
    'are raised and leave the remembered key alone, and a key obtained with a certificate fits it. Non-trivial: every '
    'call; distinct by request.', ['hgaa/clients/aauth.py', 'hgaa/clients/pauth.py'],
    require={'calls': 500, 'errors': 150, 'generated_keys': 8, 'end_to_end': 25, 'updates': 60, 'failed_updates': 25},
    assumptions=['the Ladon client is replaced by a stand-in that hands calls to the monitor'])


class Response(object):
    def __init__(self, status, body):
        self.status, self.response_dict = status, body


class Wire(object):
    """Records the calls and answers them."""

    def __init__(self):
        from ladon.clients.jsonwsp import JSONWSPClient
        self.cls = JSONWSPClient
        self.calls = []
        self.answer = None

    def __enter__(self):
        def go(url, method, kw):
            self.calls.append((url, method, kw))
            return self.answer(url, method, kw) if callable(self.answer) else self.answer
        self.cls.TRANSPORT = staticmethod(go)
        return self

    def __exit__(self, *a):
        self.cls.TRANSPORT = None


def c25_setup(mon):
    svc.start_quiet()
    import hgaa.clients.aauth
    import hgaa.clients.pauth


def raises(fn):
    try:
        return ('ok', fn())
    except Exception as e:
        return ('error', '%s: %s' % (type(e).__name__, e))


def change_service(mon, rng, wire, c, url):
    """Points a client at another service, or fails to; returns the service it should be at."""
    new = an_url(rng)
    how = rng.choice(('change', 'change', 'kind', 'kind only', 'unreachable', 'again'))
    args = {'change': (new, rng.choice((None, 'JSONWSP'))), 'kind': (new, rng.choice(('SOAP', '', 'jsonwsp'))), 'kind only': (None, 'XML'),
            'unreachable': (new, None), 'again': (None, None)}[how]
    wire.cls.REFUSE = (new,) if how == 'unreachable' else ()
    n = len(wire.calls)
    got = raises(lambda: c.update_service(*args))
    wire.cls.REFUSE = ()
    mon.check((got[0] == 'ok') == (how in ('change', 'again')), 'changing the service succeeds or fails wrongly', how=how, got=got)
    mon.check(len(wire.calls) == n, 'changing the service calls it')
    mon.event('updates')
    mon.event('failed_updates', how not in ('change', 'again'))
    want = new if how == 'change' else url
    mon.check(c.service_desc == want, 'a client names another service than the one it talks to', how=how, got=c.service_desc, want=want)
    return want


ODD = []


def odd_key(rng):
    """A key whose size is no whole number of bytes."""
    from Crypto.PublicKey import RSA
    if len(ODD) < 2:
        ODD.append(RSA.generate((1025, 1027)[len(ODD)]))
    return rng.choice(ODD)


def an_url(rng):
    return rng.choice(('http://%s/d', 'http://%s/d/', 'HTTPS://%s.Example/Desc/', 'http://%s:8080', '%s', 'http://%s/?a=b#c', ' http://%s ')) % word(rng)


@c25.workload('attribute_client', 60, 2000, setup=c25_setup)
def c25_attribute_client(mon, rng, i):
    import hgaa.clients.aauth as ca
    import hgaa.config as config
    url = 'http://%s/AttributeAuthority/jsonwsp/description' % word(rng)
    conf = {'SERVICE_DESCRIPTION': url, 'CRED_USER': word(rng), 'CRED_PASS': word(rng), 'CRED_TYPE': rng.choice(('0', '1')),
            'KEY_SIZE': '1024', 'CLIENT_TYPE': 'JSONWSP'}
    for k, v in conf.items():
        config.CLIENT_CONFIG['AAUTH'][k] = v
    creds = rng.choice((None, {'type': 0, 'username': word(rng), 'password': word(rng)}, {}, {'type': 0, 'username': '', 'password': ''},
                        {'type': '1', 'username': 'Ünï ' + word(rng).upper(), 'password': ' ' + word(rng) + ' ', 'more': [word(rng)]}))
    given = copy.deepcopy(creds)
    config.CLIENT_CONFIG['AAUTH']['CLIENT_TYPE'] = rng.choice(('SOAP', '', 'jsonwsp '))
    r = raises(lambda: ca.AttributeAuthorityClient(creds))
    mon.check(r[0] == 'error', 'an unsupported kind of client is accepted')
    config.CLIENT_CONFIG['AAUTH']['CLIENT_TYPE'] = 'JSONWSP'
    with Wire() as wire:
        c = ca.AttributeAuthorityClient(creds)
        want_creds = given if given is not None else {'type': conf['CRED_TYPE'], 'username': conf['CRED_USER'], 'password': conf['CRED_PASS']}
        last = None
        for step in range(rng.randint(3, 7)):
            r = rng.random()
            status = rng.choice((200, 200, 200, 200, 404, 500, 201, 0, 503, 429, 204, 302, 401, 399, 100))
            result = {'x': word(rng), 'n': rng.randint(0, 9)}
            wire.calls.clear()
            if r < 0.2:
                url = change_service(mon, rng, wire, c, url)
                mon.check(not wire.calls, 'changing the service calls it')
            elif r < 0.4:
                wire.answer = Response(status, {'result': result})
                got = raises(c.info)
                mon.equal(wire.calls, [(url, 'info', {})], 'another call was sent')
                mon.check(got == ('ok', result) if status == 200 else got[0] == 'error', 'an answer is passed on wrongly',
                          status=status, got=got)
                mon.event('calls')
                mon.event('errors', status != 200)
            else:
                names = rng.choice((None, [], [word(rng)], [word(rng), word(rng)]))
                ids = rng.choice((None, [], ['/attribute/user/' + word(rng)], [word(rng), word(rng), word(rng)]))
                if names and rng.random() < 0.25:
                    # repeated, and the same word as name and as identifier
                    ids = (ids or []) + rng.sample(names, 1)
                    names = names + rng.choice(([], names, ['', '*', None]))
                k = None if rng.random() < 0.08 else rng.randrange(keys.COUNT)
                key = None if k is None else odd_key(rng) if rng.random() < 0.15 else keys.key(k)
                fault = rng.random() < 0.25
                body = {'fault': {'string': 'F-' + word(rng), 'detail': ['d']}} if fault else {'result': result}
                if fault and rng.random() < 0.3:
                    body['result'] = rng.choice((None, result))
                wire.answer = Response(status, body)
                got = raises(lambda: c.attribute_request(attribute_names=names, attribute_ids=ids, key=key))
                mon.check(len(wire.calls) == 1, 'not exactly one call was sent', calls=len(wire.calls))
                u, m, kw = wire.calls[0]
                sent = kw.get('user_public_key') or {}
                mon.equal((u, m, sorted(kw)), (url, 'attribute_request', ['attributes', 'credentials', 'user_public_key']),
                          'another call was sent')
                mon.equal(kw['credentials'], want_creds, 'other credentials were sent')
                mon.equal(kw['attributes'], {'attribute_names': names, 'attribute_ids': ids}, 'other attributes were asked for')
                from Crypto.PublicKey import RSA
                pub = RSA.import_key(sent['public_key'])
                mon.check('PRIVATE' not in str(sent['public_key']) and not pub.has_private(), 'a private key was sent')
                size = 1024 if k is None else key.size_in_bits()
                mon.equal(sent['key_algorithm'], {'cipher': 'RSA', 'key_size': size}, 'the key is described wrongly')
                mon.check(pub.size_in_bits() == size, 'the key has another size', size=pub.size_in_bits())
                if k is not None:
                    mon.check(pub == key.publickey(), 'another key was sent')
                else:
                    mon.event('generated_keys')
                if status == 200 and not fault:
                    mon.check(got == ('ok', result), 'the answer is passed on wrongly', got=got, want=result)
                    mon.check(c.last_key is not None and c.last_key.has_private() and c.last_key.publickey() == pub,
                              'the remembered key is not the one of the certificate')
                    last = c.last_key
                else:
                    mon.check(got[0] == 'error', 'an error is not reported', status=status, body=body, got=got)
                    if fault and status == 200:
                        mon.check(body['fault']['string'] in got[1], 'the fault is not told', got=got[1])
                    mon.check(c.last_key is last, 'a failed request changed the remembered key')
                    mon.event('errors')
                mon.event('calls')
    mon.case((conf, repr(creds), i))
    mon.sample(configuration=conf, credentials=want_creds)


@c25.workload('policy_client', 60, 2000, setup=c25_setup)
def c25_policy_client(mon, rng, i):
    import hgaa.clients.pauth as cp
    import hgaa.config as config
    url = 'http://%s/PolicyAuthority/jsonwsp/description' % word(rng)
    config.CLIENT_CONFIG['PAUTH']['SERVICE_DESCRIPTION'] = url
    config.CLIENT_CONFIG['PAUTH']['CLIENT_TYPE'] = 'XML'
    mon.check(raises(lambda: cp.PolicyAuthorityClient('x'))[0] == 'error', 'an unsupported kind of client is accepted')
    config.CLIENT_CONFIG['PAUTH']['CLIENT_TYPE'] = 'JSONWSP'
    uid = 'hgabac://svc/' + word(rng)
    with Wire() as wire:
        c = cp.PolicyAuthorityClient(uid)
        for step in range(rng.randint(3, 7)):
            wire.calls.clear()
            status = rng.choice((200, 200, 200, 404, 500, 503, 502, 429, 201, 204, 302, 408))
            result = {'x': word(rng)}
            wire.answer = Response(status, {'result': result})
            m = rng.choice(('info', 'trusted_attribute_authorities', 'start_session', 'update'))
            if m == 'update':
                url = change_service(mon, rng, wire, c, url)
                continue
            if m == 'start_session':
                certs = [{'data': word(rng), 'version': 1, 'format': 0} for _ in range(rng.choice((0, 1, 2, 3, 20)))]
                certs += [dict(x) for x in certs[:rng.choice((0, 0, 1, 2))]]
                got = raises(lambda: c.start_session([dict(x) for x in certs]))
                mon.equal(wire.calls, [(url, m, {'service_uid': uid, 'att_cert_set': {'attribute_certificates': certs}})],
                          'another call was sent')
                if status == 200:
                    mon.check(got[0] == 'ok' and getattr(got[1], 'response_dict', {}).get('result') == result,
                              'the answer is passed on wrongly', got=repr(got))
                else:
                    # an answer that says itself what it is, or an error: never a result
                    mon.check(got[0] == 'error' or getattr(got[1], 'status', None) == status, 'a failed start is passed on as '
                              'something else', status=status, got=repr(got))
            else:
                got = raises(getattr(c, m))
                mon.equal(wire.calls, [(url, m, {})], 'another call was sent')
                mon.check(got == ('ok', result) if status == 200 else got[0] == 'error', 'an answer is passed on wrongly',
                          status=status, got=got, method=m)
                mon.event('errors', status != 200)
            mon.event('calls')
    mon.case((url, uid, i))


def to_service(kind, value):
    """JSON values as the web framework would hand them to the service."""
    if isinstance(kind, list):
        return [to_service(kind[0], v) for v in (value or [])]
    if isinstance(kind, dict):
        kind = kind['type']
    if value is None:
        return None
    if kind is bytes:
        return value.encode('utf-8') if isinstance(value, str) else bytes(value)
    if kind in (int, str):
        return kind(value)
    from ladon.types.attachment import attachment
    if kind is attachment:
        return value if isinstance(value, attachment) else attachment(io.BytesIO(value))
    o = kind()
    for n in vars(kind):
        if not n.startswith('_') and n in value:
            setattr(o, n, to_service(vars(kind)[n], value[n]))
    return o


def to_client(v):
    from ladon.types.attachment import attachment
    if isinstance(v, list):
        return [to_client(x) for x in v]
    if isinstance(v, attachment):
        return v.read()
    if hasattr(v, '__dict__'):
        return {k: to_client(x) for k, x in vars(v).items()}
    return v


@c25.workload('end_to_end', 30, 800, setup=c25_setup)
def c25_end_to_end(mon, rng, i):
    """A user's client, the attribute authority, a service's client, the policy authority."""
    import hgaa.clients.aauth as ca
    import hgaa.clients.pauth as cp
    import hgaa.config as config
    config.CLIENT_CONFIG['AAUTH'].update({'CLIENT_TYPE': 'JSONWSP', 'KEY_SIZE': '1024', 'SERVICE_DESCRIPTION': 'http://aa'})
    config.CLIENT_CONFIG['PAUTH'].update({'CLIENT_TYPE': 'JSONWSP', 'SERVICE_DESCRIPTION': 'http://pa'})
    w = svc_aa.World(rng, svc_aa.tag(mon), n=2)
    w.store()
    auth = svc_pa.Authorities(rng, n=1)
    auth.known = {'hgabac://aa.test:1': {'key': svc.AUTHORITY_KEY, 'trust': 100, 'name': 'aa', 'url': 'u', 'size': 2048}}
    auth.store()
    a, p = svc_aa.std(), svc_pa.pa()
    ClientFault, ServerFault = svc.faults()

    def answer(url, method, kw):
        target = {'http://aa': a, 'http://pa': p}[url]
        fn = getattr(target, method)
        names = {'attribute_request': ('credentials', 'user_public_key', 'attributes'),
                 'start_session': ('service_uid', 'att_cert_set')}.get(method, ())
        args = [to_service(t, kw[n]) for t, n in zip(fn.ladon_args, names)]
        try:
            return Response(200, {'result': to_client(fn(*args, **svc.exports('192.0.2.7')))})
        except ClientFault as e:
            return Response(200, {'fault': {'string': str(e), 'detail': []}})
    with Wire() as wire:
        wire.answer = answer
        u = rng.choice(list(w.users))
        k = rng.randrange(keys.COUNT)
        good = rng.random() < 0.7
        c = ca.AttributeAuthorityClient({'type': 0, 'username': u, 'password': w.users[u]['password'] + ('' if good else 'x')})
        info = c.info()
        mon.equal((info['aauth_id'], info['attribute_uri']), ('authority one', 'hgabac://aa.test:1'), 'the description got lost')
        got = raises(lambda: c.attribute_request([], [], keys.key(k)))
        if not good:
            mon.check(got[0] == 'error' and c.last_key is None, 'a wrong password gets an answer', got=repr(got))
        else:
            mon.check(got[0] == 'ok', 'the right password gets no answer', got=got)
            f, _ = cg.read(got[1]['data'])
            mon.equal(f['holder'], (keys.key(k).publickey().export_key(), 'RSA[%d]' % keys.key(k).size_in_bits(),
                                    'hgabac://aa.test:1/user/' + u, u), 'the certificate is for another key or holder')
            have = {}
            for aid, t, v, n, x in f['attributes']:
                have.setdefault(aid, []).append((t, v, n))
            svc_aa.confined(mon, have, w.of(u), {'user': u})
            time.sleep(max(0, f['info'][2] + 1.05 - time.time()) if rng.random() < 0.5 or i < 8 else 0)
            early = time.time() < f['info'][2] + 1.01
            s = cp.PolicyAuthorityClient('hgabac://svc/9')
            ans = s.start_session([got[1]])
            if not early:
                mon.check('result' in ans.response_dict, 'a fresh certificate gets no session', answer=ans.response_dict)
                mon.check(ans.response_dict['result']['valid_till'] == f['validity'][1], 'the session ends at another time')
            ids = [x['uid'] for x in s.trusted_attribute_authorities()['attribute_authorities']]
            mon.equal(ids, ['hgabac://aa.test:1'], 'the list of authorities got lost')
    mon.event('end_to_end')
    mon.event('calls', len(wire.calls))
    mon.case((u, i, good))


# ---------------------------------------------------------------------------------------------------------------- C26
c26 = core.register(
    'C26', 'Key and password tools and the command line run in forked processes on scratch files: a key file opens only '
    'with its passphrase and carries a fresh key of the size asked for, a printed hash opens the account for exactly that '
    'password at that service, commands do what they name and wrong ones fail and change nothing. Non-trivial: every run; '
    'distinct by arguments.', ['hgaa/tools.py'],
    require={'keys': 6, 'hashes': 12, 'wrong_commands': 100, 'commands': 8, 'mixed_builds': 6})


def run_tool(*argv):
    """(outcome, standard output) of python -m hgaa.tools argv, in this (forked) process."""
    import runpy
    out = io.StringIO()
    sys.argv = ['tools'] + list(argv)
    sys.modules.pop('hgaa.tools', None)
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_module('hgaa.tools', run_name='__main__')
        return 'ok', out.getvalue()
    except SystemExit as e:
        return ('ok' if not e.code else 'error'), out.getvalue()
    except Exception as e:
        return 'error', '%s: %s' % (type(e).__name__, e)


@c26.workload('keys', 8, 120, setup=c23_setup)
def c26_keys(mon, rng, i):
    from Crypto.PublicKey import RSA
    d = scratch(mon)
    by_command = i % 8 == 0
    pw = rng.choice((secret_word(rng), 'p', 'pass phrase ü', secret_word(rng)) +
                    (() if by_command else (' p ', secret_word(rng) + ' ', '\t' + secret_word(rng), 'Q' * 200, 'a\x00b', 'é')))
    size = 2048 if by_command else rng.choice((1024, 1024, 1280))
    kf = os.path.join(d, 'key.bin')
    svc.configure('AAUTH', KEY_FILE=kf, KEY_PASS=pw.replace('%', '%%'))

    def go():
        import hgaa.tools as tools
        outs = []
        for n in range(1 if by_command else 2):
            if by_command:
                r = run_tool('genkey', rng.choice(('aauth', 'AAUTH')))
                if r[0] != 'ok':
                    raise Exception(r[1])
            else:
                tools.gen_aauth_key(kf, pw, size)
            with open(kf, 'rb') as f:
                outs.append(f.read())
        return outs
    r = child(mon, go)
    mon.check(r[0] == 'ok', 'making a key fails', error=r[1])
    seen = []
    for data in r[1]:
        key = RSA.import_key(data, passphrase=pw)
        mon.check(key.has_private() and key.size_in_bits() == size, 'the key is not a private key of the size asked for',
                  size=key.size_in_bits(), want=size)
        for bad in (None, '', pw + 'x', pw[:-1], pw.swapcase() if pw.swapcase() != pw else 'zz',
                    pw.strip() if pw.strip() != pw else ' ' + pw, pw[:64] if len(pw) > 64 else pw + ' ',
                    pw.encode('ascii', 'ignore').decode() if not pw.isascii() else pw + 'é'):
            try:
                RSA.import_key(data, passphrase=bad)
            except Exception:
                pass
            else:
                raise Violation('the key file opens without its passphrase', given=bad, passphrase=pw)
        mon.check(b'PRIVATE' not in data or b'ENCRYPTED' in data, 'the key file is not encrypted')
        mon.check(key.n not in seen, 'the same key came twice')
        seen.append(key.n)
        mon.event('keys')
    # the authority works with it
    if not by_command:
        svc.configure('AAUTH', DB_TYPE='SQLITE', DB_NAME=os.path.join(d, 'x'))
        r = child(mon, lambda: bytes(svc.new_aa().info(**svc.exports()).public_key))
        mon.check(r[0] == 'ok' and RSA.import_key(r[1]) == key.publickey(), 'the authority does not use the new key', got=r)
    shutil.rmtree(d, ignore_errors=True)
    mon.case((pw, size, i))


@c26.workload('passwords', 14, 200, setup=c23_setup)
def c26_passwords(mon, rng, i):
    import bcrypt
    pw = svc_aa.password(rng)
    pepper = {'AAUTH': rng.choice((word(rng), 'ü!')), 'PAUTH': word(rng) + 'P'}
    for s, v in pepper.items():
        svc.configure(s, PASS_PEPPER=v)
    s = rng.choice(('aauth', 'AAUTH', 'pauth', 'Aauth'))
    r = child(mon, lambda: run_tool(rng.choice(('password', 'pass', 'PASSWORD')), s, pw))
    mon.check(r[0] == 'ok' and r[1][0] == 'ok', 'making a password fails', got=r)
    m = re.search(r'Hash: (\S+)', r[1][1])
    mon.check(m is not None, 'no hash is printed', output=r[1][1])
    h = m.group(1)
    own = pepper[s.upper()]
    mon.check(bcrypt.checkpw((pw + own).encode(), h.encode()), 'the printed hash does not open for the password',
              password=pw, hash=h)
    for bad in (pw + 'x' + own, pw[:-1] + own if pw else 'x' + own, pw, pw + pepper['PAUTH' if s.upper() == 'AAUTH' else 'AAUTH']):
        if bad != pw + own:
            mon.check(not bcrypt.checkpw(bad.encode(), h.encode()), 'the printed hash opens for another password',
                      password=pw, other=bad)
    cost = int(h.split('$')[2])
    mon.check(cost >= 10 and len(h) == 60, 'the printed hash is cheap or does not fit its column', hash=h)
    mon.event('hashes')
    mon.seen('salts', h[:29])
    mon.case((pw, s, i))


WRONG = ([], ['build'], ['nosuch'], ['genkey'], ['genkey', 'pauth'], ['genkey', 'aauth', 'x'], ['populate'],
         ['populate', 'nosuch'], ['pop', 'aauth', 'x'], ['password'], ['password', 'aauth'], ['pass', 'aauth', 'a', 'b'],
         ['genatts'], ['genatts', 'x'], ['genatts', '1', '2'], ['build', 'nosuch'], [''])
UNKNOWN = ('nosuch', '', 'gen', 'genatt', 'genattss', 'builds', 'buil', 'genkeys', 'keygen', 'popul', 'pops', 'pas', 'passwd', '-h', '--help',
           'help', 'all', 'aauth', 'drop', 'wipe', 'build ', ' genatts', 'build,genkey')
ARGUMENTS = ([], ['aauth'], ['AAUTH'], ['pauth'], ['all'], ['3'], ['1'], ['aauth', 'pw'], ['pauth', 'pw'], ['aauth', 'pauth'])


@c26.workload('commands', 24, 300, setup=c23_setup)
def c26_commands(mon, rng, i):
    from hgaa.schema.test import test_aauth, test_pauth
    d = scratch(mon)
    paths = {'aauth': os.path.join(d, 'one'), 'pauth': os.path.join(d, 'two')}
    kf = os.path.join(d, 'k')
    for s, p in paths.items():
        svc.configure(s.upper(), DB_TYPE='SQLITE', DB_NAME=p)
    svc.configure('AAUTH', KEY_FILE=kf, KEY_PASS='x')

    def contents():
        return {s: read_db(p + '.db') or None for s, p in paths.items()}, os.path.exists(kf)

    def compare_test_set(s):
        want = {}
        for o in (test_aauth if s == 'aauth' else test_pauth).DB_TEST_SET:
            t = o.__table__
            row = {}
            for c in t.columns:
                v = getattr(o, o.__mapper__.get_property_by_column(c).key)
                row[c.name] = None if v is None else getattr(v, 'name', None) or str(v)
            want.setdefault(t.name, []).append(row)
        have = contents()[0][s]
        for t in TABLES[s]:
            got = [{k: None if v is None else str(v) for k, v in r.items()} for r in have.get(t, [])]
            key = lambda r: sorted((k, str(v)) for k, v in r.items())
            for g, w in zip(sorted(got, key=key), sorted(want.get(t, []), key=key)):
                mon.equal({k: v for k, v in g.items() if w.get(k) is not None}, {k: v for k, v in w.items() if v is not None},
                          'another row than in the test set', service=s, table=t)
            mon.equal(len(got), len(want.get(t, [])), 'other rows than the test set', service=s, table=t)

    def wrong():
        for argv in rng.sample(WRONG, 3) + [[rng.choice(UNKNOWN)] + rng.choice(ARGUMENTS) for _ in range(3)]:
            before = contents()
            r = child(mon, lambda: run_tool(*argv))
            mon.check(r[0] == 'ok', 'a command ended the process', command=argv)
            mon.check(r[1][0] == 'error', 'a wrong command succeeds', command=argv, output=r[1][1])
            after = contents()
            mon.check(after == before, 'a wrong command changed something', command=argv)
            mon.event('wrong_commands')
    def mixed():
        # words that name no service among those that do
        argv = rng.choice((['aauth', 'all'], ['all', 'aauth'], ['aauth', 'nosuch'], ['pauth', 'nosuch'], ['nosuch', 'aauth'], ['aauth', ''],
                           ['aauth,pauth'], ['all', 'all'], ['*'], ['pauth', 'aauth', 'nosuch'], ['aauth', 'aauth', 'ALL']))
        before = contents()[0]
        r = child(mon, lambda: run_tool('build', *argv))
        mon.check(r[0] == 'ok' and r[1][0] == 'error', 'a wrong command succeeds', command=argv, output=r[1])
        mon.check(contents()[0] == before, 'a wrong command changed something', command=argv)
        if any(s in paths and before[s] is None for s in argv):
            mon.event('mixed_builds')
        mon.event('wrong_commands')
    wrong()
    mixed()
    which = rng.choice(('all', 'both', 'aauth', 'pauth'))
    r = child(mon, lambda: run_tool('build', *{'all': ['all'], 'both': ['AAUTH', 'pauth']}.get(which, [which])))
    mon.check(r[1][0] == 'ok', 'building fails', output=r[1])
    built = {'all': ('aauth', 'pauth'), 'both': ('aauth', 'pauth')}.get(which, (which,))
    have = contents()[0]
    for s in paths:
        mon.equal(sorted(have[s] or {}), sorted(TABLES[s]) if s in built else [], 'the command built other tables', command=which)
    mon.event('commands')
    wrong()
    mixed()
    for s in built:
        for again in range(rng.choice((1, 2))):
            r = child(mon, lambda: run_tool(rng.choice(('populate', 'POP')), s))
            mon.check(r[1][0] == 'ok', 'populating fails', output=r[1], service=s)
        compare_test_set(s)
        mon.event('commands')
    if len(built) == 2 and rng.random() < 0.6:
        r = child(mon, lambda: run_tool(rng.choice(('populate', 'pop')), rng.choice(('all', 'ALL'))))
        mon.check(r[1][0] == 'ok', 'populating fails', output=r[1], service='all')
        for s in built:
            compare_test_set(s)
        mon.event('commands')
    if 'aauth' in built:
        for n in rng.sample(('0', '-1', '-3', '-100'), 2):
            before = contents()
            r = child(mon, lambda: run_tool('genatts', n))
            mon.check(r[0] == 'ok' and contents() == before, 'generating no attributes changed something', count=n)
        n = rng.randint(1, 5)
        r = child(mon, lambda: run_tool('genatts', str(n)))
        mon.check(r[1][0] == 'ok', 'generating attributes fails', output=r[1])
        db = contents()[0]['aauth']
        got = sorted(x['att_id'] for x in db['aauth_attribute_assignments'] if re.match(r'/attribute/user/a\d+$', x['att_id']) and x['user_id'] == 1)
        mon.equal(got, ['/attribute/user/a%d' % j for j in range(n)], 'other attributes were generated')
        mon.event('commands')
    wrong()
    shutil.rmtree(d, ignore_errors=True)
    mon.case((which, i))


# ---------------------------------------------------------------------------------------------------------------- C27
c27 = core.register(
    'C27', 'The server module imported in a fresh process under generated settings, with the framework recording: it '
    'offers exactly the enabled services, under names that exist and from the directory that holds them, at the '
    'configured log level. Non-trivial: every import; distinct by settings.', ['hgaa/handler.py', 'hgaa/services/__init__.py'],
    require={'imports': 40, 'set:combination': 4, 'set:level': 5, 'served': 12, 'not_served': 4},
    assumptions=['the Ladon server is replaced by a stand-in that records how it is made'])

LADON_LEVEL = {'ALL': 6, 'DEBUG': 6, 'WARN': 5, 'WARNING': 5, 'INFO': 4, 'INFORMATION': 4, 'ERROR': 3, 'CRITICAL': 1, 'x': 0}


@c27.workload('imports', 60, 1200, setup=svc.start_quiet)
def c27_imports(mon, rng, i):
    import hgaa.log
    level = rng.choice(list(LADON_LEVEL))
    on = {s: rng.choice(('True', 'true', 'TRUE', 'tRUE', 'False', 'false', 'no', '', 't', 'T', 'truth', 'yes', 'on', '1', 'tr', 'Truex',
                         'not true', 'enabled', 'y', 'None')) for s in ('AAUTH', 'PAUTH')}
    if rng.random() < 0.2:
        on = {}
    svc.configure('LADON', LOG_LEVEL=level)
    import hgaa.config as config
    for s in ('AAUTH', 'PAUTH'):
        config.SERVICE_CONFIG.remove_option(s, 'SERVICE_ENABLED')
    svc.configure('DEFAULT', SERVICE_ENABLED='True')
    for s, v in on.items():
        svc.configure(s, SERVICE_ENABLED=v)

    def look():
        from ladon.server.wsgi import LadonWSGIApplication
        import ladon.tools.log as tl
        import hgaa.handler as h
        a = LadonWSGIApplication.MADE
        out = []
        for name in a[0].service_list:
            m = importlib.import_module('hgaa.services.' + name)
            import hgaa.services as s
            out.append(hasattr(getattr(m, s.ServiceList[name]), 'info') and hasattr(m, s.ServiceList[name]))
        return len(a), list(a[0].service_list), a[0].path_list, out, tl.CALLS, h.application is a[0], \
            [x for x in [dict(s.ServiceList) for s in [importlib.import_module('hgaa.services')]]][0]
    r = child(mon, look)
    mon.check(r[0] == 'ok', 'the server does not start', error=r[1:], settings=on)
    n, names, path, classes, calls, same, known = r[1]
    want = sorted(s.lower() for s in ('AAUTH', 'PAUTH') if on.get(s, 'True').upper() == 'TRUE')
    mon.check(n == 1 and same, 'not exactly one application is made')
    mon.equal(sorted(names), want, 'other services are offered than enabled', settings=on)
    mon.check(all(classes), 'an offered service does not exist', services=names)
    p = path if isinstance(path, str) else path[0]
    mon.check(os.path.realpath(p) == os.path.realpath(os.path.join(REPO, 'hgaa', 'services')), 'services are sought elsewhere', path=path)
    mon.equal(known, {'aauth': 'AttributeAuthority', 'pauth': 'PolicyAuthority'}, 'the service list names other classes')
    lv = [v for k, v in calls if k == 'level']
    mon.equal(lv, [LADON_LEVEL[level]], 'the framework logs at another level', setting=level)
    mon.event('imports')
    mon.seen('combination', tuple(want))
    mon.seen('level', level)
    mon.case((level, repr(on)))
    mon.sample(settings=on, level=level, offered=names)


def ask(host, port, nonce, method, path, body, patience):
    """The answer of the server at that address; None if nobody answers there, or somebody else."""
    import http.client
    import json
    end = time.monotonic() + patience
    while True:
        try:
            c = http.client.HTTPConnection(host, port, timeout=20)
            c.request(method, path, body)
            r = json.loads(c.getresponse().read())
            c.close()
            return r if r[0] == nonce else None
        except (OSError, ValueError, http.client.HTTPException, TypeError):
            if time.monotonic() > end:
                return None
            time.sleep(0.05)


@c27.workload('program', 16, 160, setup=svc.start_quiet)
def c27_program(mon, rng, i):
    """Run as a program it listens where the configuration says, and hands requests to the application."""
    import signal
    import socket
    import hgaa.log
    import hgaa.config as config
    on = {s: rng.choice(('True', 'False')) for s in ('AAUTH', 'PAUTH')}
    for s, v in on.items():
        svc.configure(s, SERVICE_ENABLED=v)
    host = rng.choice(('', '127.0.0.1', 'localhost', '127.0.0.%d' % rng.randint(2, 250)))
    at = '127.0.0.1' if host in ('', 'localhost') else host
    nonce = '%032x' % rng.getrandbits(128)
    for attempt in range(20):
        with socket.socket() as probe:
            probe.bind(('', 0))
            port = probe.getsockname()[1]
        # the place of its own is the server's section; another section names another place
        svc.configure('LADON', SERVICE_HOST=host, SERVICE_PORT=str(port), LOG_LEVEL='ERROR')
        svc.configure('AAUTH', SERVICE_PORT=str(port % 60000 + 1025))
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.alarm(120)
                os.environ['RV_NONCE'] = nonce
                null = os.open(os.devnull, os.O_RDWR)
                for n in (0, 1, 2):
                    os.dup2(null, n)
                import runpy
                sys.modules.pop('hgaa.handler', None)
                try:
                    runpy.run_module('hgaa.handler', run_name='__main__')
                    text = 'it ended'
                except OSError as e:
                    text = 'taken' if e.errno == 98 else repr(e)
                except BaseException as e:
                    text = repr(e)
                os.write(w, text.encode('utf-8', 'replace')[:900])
            finally:
                os._exit(0)
        os.close(w)
        try:
            method, path, body = rng.choice((('GET', '/', None), ('POST', '/AttributeAuthority/jsonwsp', 'x' * rng.randint(1, 5000))))
            import select
            end, got = time.monotonic() + 30, None
            while got is None and time.monotonic() < end and not select.select([r], [], [], 0)[0]:
                got = ask(at, port, nonce, method, path, body, 0.2)
            if got is None:
                text = os.read(r, 1000).decode('utf-8', 'replace') if select.select([r], [], [], 0)[0] else 'no answer'
                if text == 'taken':
                    continue
                raise Violation('the server does not answer at the configured place', host=host, port=port, outcome=text)
            want = sorted(s.lower() for s in on if on[s] == 'True')
            mon.equal(got[1:], [want, method, path, body or ''], 'the server passes on something else', host=host)
            mon.event('served')
            # more requests, one after the other
            for n in range(3):
                mon.check(ask(at, port, nonce, 'GET', '/%d' % n, None, 5) == [nonce, want, 'GET', '/%d' % n, ''],
                          'the server stops answering', host=host, request=n)
            elsewhere = ask('127.0.0.251', port, nonce, 'GET', '/', None, 0)
            mon.check((elsewhere is not None) == (host == ''), 'the server listens at other addresses than the configured one',
                      host=host)
            mon.event('not_served' if host else 'served_everywhere')
            break
        finally:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
    else:
        mon.event('no_port')
    svc.configure('AAUTH', SERVICE_PORT='8888')
    mon.case((host, repr(on), i))
