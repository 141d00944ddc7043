"""helpers shared by the rules"""
import os
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp
from absint import *
from facts import Facts, AllSlots

_job = {}


def _one(i):
    import sys
    sys.setrecursionlimit(100000)
    try:
        return _job['f'](_job['xs'][i])
    except Exception as x:
        import traceback
        return ('__err__', traceback.format_exc())


def pmap(f, xs, n=8):
    """runs f over xs in forked workers; the results must be plain data"""
    xs = list(xs)
    _job['f'], _job['xs'] = f, xs
    if len(xs) < 2 or os.environ.get('SA_SERIAL'):
        out = [_one(i) for i in range(len(xs))]
    else:
        with ProcessPoolExecutor(min(n, len(xs)), mp_context=mp.get_context('fork')) as ex:
            out = list(ex.map(_one, range(len(xs)), chunksize=1))
    for r in out:
        if isinstance(r, tuple) and r and r[0] == '__err__':
            raise RuntimeError(r[1])
    return out


_facts = {}


def facts(P):
    if id(P) not in _facts:
        _facts[id(P)] = Facts(P)
        _facts[id(P)].nullable = AllSlots()
    return _facts[id(P)]


def unref(t):
    while t.op == 'R':
        t = t.a[0]
    return t


def reach(fa, P, roots, stop=()):
    """functions reachable over the call graph (calls, virtual targets, functions whose address is taken, lambdas)"""
    seen, st = set(), list(roots)
    while st:
        f = st.pop()
        if f in seen or f in stop:
            continue
        seen.add(f)
        st += list(fa.calls.get(f, ()))
    return seen
