#!/opt/venv/bin/python
"""run.py ID [--replay FILE] | --list

Runs the check of one property. VERIF_SEED and VERIF_TIER (or --seed, --tier) choose the cases.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
if os.environ.get('RV_EXEC') != '1':
    env = dict(os.environ)
    env.update(RV_EXEC='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8', LC_ALL='C.UTF-8', TZ='UTC')
    env.pop('PYTHONPATH', None)
    env.pop('PYTHONSTARTUP', None)
    os.execve(PY, [PY, '-B', '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)

import argparse
import json

sys.dont_write_bytecode = True
for out in (sys.stdout, sys.stderr):
    out.reconfigure(errors='backslashreplace')
sys.path.insert(0, HERE)
from rv.paths import REPO, STUBS
sys.path[:0] = [REPO, STUBS]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or '1'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    from rv import core
    from rv.checks import load
    load(a.id)
    only = None
    if a.replay:
        r = json.load(open(a.replay))
        only = (r['workload'], r['case'])
        a.seed, a.tier = r['seed'], r['tier']
    sys.exit(core.run_check(a.id, a.tier, a.seed, only))


main()
