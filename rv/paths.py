import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# The tree under test. Checks always run against /repo; the variable exists so that seeded bugs can be tried on
# scratch copies without touching /repo.
REPO = os.path.realpath(os.environ.get('HGABAC_REPO', '/repo'))
STUBS = os.path.join(VERIF, 'stubs')
EVIDENCE = os.environ.get('RV_EVIDENCE', os.path.join(VERIF, 'evidence'))
FIXTURES = os.path.join(VERIF, 'fixtures')
