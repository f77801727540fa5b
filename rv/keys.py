import os
from functools import lru_cache

from Crypto.PublicKey import RSA

from rv.paths import VERIF

COUNT = 6


@lru_cache(None)
def key(i):
    with open(os.path.join(VERIF, 'fixtures', 'keys', 'k%d.pem' % i), 'rb') as f:
        return RSA.import_key(f.read())


@lru_cache(None)
def public_der(i):
    return key(i).publickey().export_key('DER')
