"""Automatic dictionary: constants that occur in the source under test, offered to the generators (as fuzzers do), so
that workloads reach comparisons against particular values. It only steers inputs; no oracle depends on it."""
import ast
import os

from rv.paths import REPO

_cache = {}


def constants(package):
    """(ints, strings) occurring in the non-test sources of hgpl or hgaa."""
    if package in _cache:
        return _cache[package]
    ints, strs = set(), set()
    for root, dirs, files in os.walk(os.path.join(REPO, package)):
        dirs[:] = sorted(d for d in dirs if d not in ('test', 'tests', 'gui', 'demos', 'logs', '__pycache__', 'docs'))
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            try:
                with open(os.path.join(root, f), encoding='utf-8', errors='replace') as h:
                    tree = ast.parse(h.read())
            except SyntaxError:
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant):
                    v = n.value
                    if isinstance(v, bool) or v is None:
                        continue
                    if isinstance(v, int) and abs(v) < 2 ** 70:
                        ints.add(v)
                    elif isinstance(v, str) and 0 < len(v) <= 24:
                        strs.add(v)
                    elif isinstance(v, float) and v == v and abs(v) < 1e18:
                        ints.add(int(v))
    _cache[package] = (sorted(ints), sorted(strs))
    return _cache[package]


def size(rng, package, limit, common=8):
    """A length or count: mostly small, sometimes around a power of two or a constant of the source, at most limit."""
    r = rng.random()
    if r < 0.75:
        n = rng.randint(0, common)
    elif r < 0.85:
        n = rng.randint(0, limit)
    elif r < 0.93:
        n = 2 ** rng.randint(0, max(1, limit.bit_length())) + rng.randint(-1, 1)
    else:
        ints = [v for v in constants(package)[0] if 0 <= v <= limit]
        n = (rng.choice(ints) if ints else 0) + rng.randint(-1, 1)
    return max(0, min(limit, n))


def integer(rng, package):
    r = rng.random()
    if r < 0.5:
        return rng.randint(-9, 9)
    if r < 0.65:
        return rng.randint(-1000, 1000)
    if r < 0.8:
        ints = constants(package)[0]
        return (rng.choice(ints) if ints else 0) + rng.randint(-1, 1)
    if r < 0.95:
        k = rng.randint(0, 70)
        return rng.choice((1, -1)) * (2 ** k + rng.randint(-1, 1))
    return rng.choice((1, -1)) * rng.randint(0, 10 ** rng.randint(1, 30))
