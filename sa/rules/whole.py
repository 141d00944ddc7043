"""The abstract interpreter over the whole program: every function is analysed, either inside its callers or on its own with
nothing assumed about its parameters, and the obligations met on all paths are collected per program point."""
import time
from absint import *
from rules import common
import engine_driver as ed

_fa = {}


def one(fid):
    P, fa = ed.G['P'], ed.G['fa']
    E = Engine(P, fa)
    seen = ed.G['watch'](P, E) if ed.G.get('watch') else None
    err = None
    try:
        E.run_root(P.fns[fid])
    except RecursionError:
        err = 'recursion'
    obls = {}
    for kind, f, eid, ok, detail, fr in E.obls:
        o = obls.setdefault((kind, f, eid), [0, 0, None])
        if ok:
            o[0] += 1
        else:
            o[1] += 1
            if o[2] is None:
                o[2] = (tuple(show(x) for x in detail), tuple(P.fns[x].short for x in fr.stack))
    return fid, obls, list(E.havoced), list(E.cut), E.steps, err, seen


def analyse(P, fa, kinds, watch=None, watched=None):
    """-> ({(kind, fn, expr): [good, bad, example]}, functions analysed as roots)"""
    ed.G['P'], ed.G['fa'], ed.G['watch'] = P, fa, watch
    text = fa.text_functions()
    good = []
    for r in common.pmap(one, text):
        if r[5] is None and not any(v[1] for k, v in r[1].items() if k[0] in kinds):
            fa.no_inline.add(r[0])
            good.append(r)
    fa.no_inline |= ed.heavy(P, fa)
    rts = set(ed.roots(P, fa)) | set(text)
    todo, res = set(rts), {r[0]: r for r in good}
    todo -= set(res)
    while todo:
        batch = sorted(todo, key=lambda f: -len(P.fns[f].blocks))
        todo = set()
        for r in common.pmap(one, batch):
            if r[5]:
                raise RuntimeError('%s: %s' % (P.fns[r[0]].short, r[5]))
            res[r[0]] = r
            for h in r[2]:
                if h in P.fns and h not in rts and not P.fns[h].lam:
                    rts.add(h)
                    todo.add(h)
        todo -= set(res)
    out = {}
    for fid in sorted(res):
        for k, (a, b, d) in res[fid][1].items():
            if k[0] not in kinds:
                continue
            o = out.setdefault(k, [0, 0, None])
            o[0] += a
            o[1] += b
            if o[2] is None and d is not None:
                o[2] = d
    if watched is not None:
        watched.update({f: r[6] for f, r in res.items()})
    return out, rts
