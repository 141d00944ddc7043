"""Runs the abstract interpreter over all root functions to a fixpoint of the nullable slots."""
import sys, time, os, gc
sys.setrecursionlimit(50000)
import prog
from absint import *
from facts import Facts
import multiprocessing as mp

G = {}


def roots(P, fa):
    out = set()
    created = set()
    for F in P.fns.values():
        for e in F.ex.values():
            if e['k'] == 'ctor':
                created.add(nonref(e['t']).rec)
            if e['k'] == 'call' and e.get('c') in P.decls and P.decls[e['c']]['name'] == 'std::make_shared' and nonref(e['t']).targs:
                created.add(nonref(e['t']).targs[0].rec)
    for F in P.fns.values():
        if F.lam or fa.is_ctor(F) and F.cls in created:
            continue
        d = P.decls.get(F.id, {})
        if d.get('implicit'):
            continue
        if F.id in fa.taken or d.get('virtual') or F.name.endswith('::main') or F.name == 'main':
            out.add(F.id)
        elif not fa.callers.get(F.id):
            out.add(F.id)
    return out


def slotname(P, sl):
    return (sl[0],) + tuple(P.fns[x].short[:60] if x in P.fns else P.decls[x]['name'] if x in P.decls else x for x in sl[1:])


def one(fid):
    P, fa = G['P'], G['fa']
    E = Engine(P, fa)
    if G.get('hook'):
        G['hook'](P, E)
    F = P.fns[fid]
    t = time.time()
    err = None
    fa.nullable.asked = set()
    try:
        E.run_root(F)
    except RecursionError as x:
        err = 'recursion'
    except Exception as x:
        import traceback
        err = traceback.format_exc()
    obls = {}
    for kind, f, eid, ok, detail, fr in E.obls:
        k = (kind, f, eid)
        o = obls.get(k)
        if o is None:
            o = obls[k] = [0, 0, None]
        if ok:
            o[0] += 1
        else:
            o[1] += 1
            if o[2] is None:
                o[2] = (tuple(show(x) for x in detail), tuple(P.fns[x].short for x in fr.stack))
    return fid, obls, E.events, list(E.havoced), E.steps, time.time() - t, err, list(E.cut), fa.nullable.asked


WMAX = 650


def heavy(P, fa):
    """functions too large to be analysed again in every caller: they are summarised and become roots"""
    E = Engine(P, fa)
    w = {}

    def weight(f, st):
        if f in w:
            return w[f]
        if f in st or f in fa.no_inline:
            return 0
        F = P.fns[f]
        dm = E.doomed(F)
        eb = eblocks(F)
        t = len(F.blocks)
        for i, e in F.ex.items():
            if e['k'] in ('call', 'ctor') and e.get('c') in P.fns and eb.get(i) not in dm:
                x = weight(e['c'], st | {f})
                t += x if x <= WMAX else 0
        w[f] = t
        return t
    for f in sorted(P.fns):
        weight(f, frozenset())
    return {f for f, x in w.items() if x > WMAX}


def analyse(P, verbose=False, only=None, rounds=40, nproc=8, hook=None):
    fa = Facts(P)
    G['P'], G['fa'], G['hook'] = P, fa, hook
    rts = roots(P, fa) if only is None else set(only)
    info = {'rounds': 0, 'errors': [], 'time': {}, 'slots': {}}
    res = {}
    text = fa.text_functions()
    with mp.get_context('fork').Pool(nproc) as pool:
        for r in pool.imap_unordered(one, text, chunksize=1):
            if verbose:
                print('   text %.1f %s %s' % (r[5], P.fns[r[0]].short, [k for k, v in r[1].items() if v[1]]), file=sys.stderr, flush=True)
            if not r[6] and not any(v[1] for v in r[1].values()):
                fa.no_inline.add(r[0])
    fa.no_inline |= heavy(P, fa)
    todo = set(rts)
    while todo and info['rounds'] < rounds:
        info['rounds'] += 1
        batch = sorted(todo, key=lambda f: (-info['time'].get(f, (0, 0))[0], -len(P.fns[f].blocks)))
        todo = set()
        new = set()
        gc.freeze()
        with mp.get_context('fork').Pool(nproc) as pool:
            for r in pool.imap_unordered(one, batch, chunksize=1):
                fid = r[0]
                res[fid] = r
                info['time'][fid] = (r[5], r[4])
                if verbose and r[5] > 15:
                    print('   slow %.1f %d %s' % (r[5], r[4], P.fns[fid].short), file=sys.stderr, flush=True)
                for e in r[2]:
                    if not set.__contains__(fa.nullable, e[1]):
                        fresh = e[1] not in new
                        new.add(e[1])
                        info['slots'].setdefault(e[1], []).append((e[2], e[3]))
                        if verbose and fresh:
                            print('     ', slotname(P, e[1]), P.fns[e[2]].short, e[3], file=sys.stderr)
                if only is None:
                    for h in r[3]:
                        if h in P.fns and h not in rts and not P.fns[h].lam:
                            rts.add(h)
                            todo.add(h)
        if verbose:
            print('round', info['rounds'], 'ran', len(batch), 'new slots', len(new), file=sys.stderr, flush=True)
        fa.nullable.asked = None
        fa.nullable |= new
        if only is None:
            for fid, r in res.items():
                if r[8] & new:
                    todo.add(fid)
    obls = {}
    for fid in sorted(res):
        r = res[fid]
        if r[6]:
            info['errors'].append((fid, r[6]))
        for k, (a, b, d) in r[1].items():
            o = obls.setdefault(k, [0, 0, None])
            o[0] += a
            o[1] += b
            if o[2] is None and d is not None:
                o[2] = d
    info['roots'] = rts
    if verbose:
        for f, e in info['errors'][:5]:
            print('ERROR', P.fns[f].short, e, file=sys.stderr)
    return obls, info, fa


if __name__ == '__main__':
    P = prog.load()
    t = time.time()
    only = None
    if len(sys.argv) > 1:
        only = [F.id for F in P.fns.values() if F.short in sys.argv[1:]]
    from rules import null
    obls, info, fa = analyse(P, verbose=True, only=only, hook=null.pairs)
    import collections
    c = collections.Counter()
    for (kind, f, eid), (a, b, d) in obls.items():
        c[kind, 'fail' if b else 'ok'] += 1
    for k in sorted(c):
        print(k, c[k])
    print('time', time.time() - t)
    for fid, (dt, steps) in sorted(info['time'].items(), key=lambda x: -x[1][0])[:12]:
        print('%.1f %d %s' % (dt, steps, P.fns[fid].short))
    import pp
    with open('/tmp/obls.txt', 'w') as fo:
        for (kind, f, eid), (a, b, d) in sorted(obls.items(), key=lambda x: (x[0][0], P.fns[x[0][1]].file, P.fns[x[0][1]].line)):
            if b:
                F = P.fns[f]
                e = F.ex.get(eid)
                fo.write('%s %s:%s %s | %s | %s | %s\n' % (kind, F.file.split('/')[-1], e.get('l') if e else '?', F.short, pp.ex(P, F, eid), d[0], ' > '.join(d[1])))
