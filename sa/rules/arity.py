"""P01: the number of arguments a builtin accepts is the number it documents, and no builtin reads an argument the call
did not supply.

Every native function of the default environment is analysed once per argument count (each count up to two more than
documented, and all larger counts at once) with the size of the argument vector fixed."""
import re
from absint import *
from rules.common import *
from rules import registry


def documented(sig):
    """(min, max or None) from '(name a b [c] ...)'"""
    if not (sig.startswith('(') and sig.endswith(')')):
        return None
    toks, d, cur = [], 0, ''
    for ch in sig[1:-1] + ' ':
        if ch in '([':
            d += 1
        if ch in ')]':
            d -= 1
        if ch == ' ' and d == 0:
            if cur:
                toks.append(cur)
            cur = ''
        else:
            cur += ch
    if not toks:
        return None
    if d != 0:
        return None
    a = toks[1:]
    var = '...' in a
    a = [t for t in a if t != '...']
    opt = [t for t in a if t.startswith('[')]
    req = len(a) - len(opt)
    return (req, None if var else len(a))


def args_param(fn):
    for p in fn.params:
        t = nonref(p['t'])
        if tkind(t) == 'cont' and t.targs and tkind(t.targs[0]) == 'smart':
            return p
    return None


def analyse(P, fa, fid, n, more=False):
    """run fid with n arguments (or more than n): (number of normal exits, [(where, index, ok)])"""
    F = P.fn(fid)
    p = args_param(F)
    E = Engine(P, fa)
    E.inline_filter = lambda fr, fn: args_param(fn) is not None or len(fn.blocks) <= 8 and len(fr.stack) < 4
    box = {}

    def setup(E, s, fr):
        L = s.env[mk('var', fr.fid, p['v'])]
        L = unref(L) if L.op == 'R' else L
        box['L'] = L
        E.stable = frozenset((root_of(L),))
        sz = E.size(s, L)
        if more:
            s.add_le(const(n + 1), sz)
        else:
            s.env[mk('sz', L)] = const(n)
    ex = E.run_root(F, setup)
    idx = []
    for kind, f, eid, ok, det, fr in E.obls:
        if kind in ('idx', 'throwoob') and det[0] is box['L']:
            idx.append((P.fn(f).where(P.fn(f).ex[eid].get('l')), P.fn(f).short, show(det[1]), ok))
    return len(ex), idx


def check(P, R, tier):
    fa = facts(P)
    tab, root = registry.extract(P, fa, R)
    R.need(len(tab) > 100, 'only %d builtins found' % len(tab))
    byfn = {}
    for b in tab:
        R.need(b.fn is not None and b.name, 'a builtin without a constant name or native function: %s' % b)
        if args_param(b.fn) is None:
            continue
        byfn.setdefault(b.fn.id, []).append(b)
    jobs = []
    for fid, bs in sorted(byfn.items()):
        mx = 0
        for b in bs:
            d = documented(registry.text(b.sig) or '')
            R.add('signature of %s' % b.name, b.fn.where(), d is not None and registry.text(b.sig)[1:].split(' ')[0].rstrip(')').lstrip('_') == b.name.lstrip('_'),
                  'the documented signature %s does not describe a call of %s' % (registry.text(b.sig), b.name))
            if d:
                mx = max(mx, d[0] if d[1] is None else d[1])
        for n in range(0, mx + 3):
            jobs.append((fid, n, False))
        jobs.append((fid, mx + 2, True))
    res = pmap(lambda j: analyse(P, fa, *j), jobs)
    private(P, R, fa, byfn)
    R.stats['functions'] = len(byfn)
    R.stats['runs'] = len(jobs)
    acc = {}
    nreads = 0
    bad = {}
    for (fid, n, more), (ex, idx) in zip(jobs, res):
        acc.setdefault(fid, {})[(n, more)] = ex
        for w, f, i, ok in idx:
            nreads += 1
            if not ok:
                bad.setdefault((fid, w, f, i), []).append('%s%d' % ('>' if more else '', n))
    R.stats['argument_reads'] = nreads
    for fid, bs in sorted(byfn.items()):
        F = P.fn(fid)
        b_ = sorted(bad_ for bad_ in bad if bad_[0] == fid)
        R.add('reads of %s' % '/'.join(b.name for b in bs), F.where(), not b_,
              '; '.join('argument %s is read at %s when the call has %s arguments' % (x[3], x[1], ','.join(bad[x])) for x in b_))
        for b in bs:
            d = documented(registry.text(b.sig) or '')
            if d is None:
                continue
            lo, hi = d
            for (n, more), ex in sorted(acc[fid].items()):
                inside = (not more) and n >= lo and (hi is None or n <= hi)
                if inside:
                    R.add('%s accepts %d' % (b.name, n), F.where(), ex > 0, 'a call with %d arguments, as documented by %s, never returns' % (n, registry.text(b.sig)))
                elif hi is None:
                    if more:
                        R.add('%s accepts more than %d' % (b.name, n), F.where(), ex > 0, 'documented with any number of arguments')
                elif n < lo and not more or hi > 0:
                    R.add('%s rejects %s%d' % (b.name, 'more than ' if more else '', n), F.where(), ex == 0,
                          'a call with %s%d arguments is not rejected; documented: %s' % ('more than ' if more else '', n, registry.text(b.sig)))


def private(P, R, fa, byfn):
    """the argument vector of a native call belongs to the call: nothing the callee runs can change it"""
    native = set(byfn)
    n = 0
    for F in P.fns.values():
        for i, e in F.ex.items():
            if e['k'] != 'call':
                continue
            d = P.decls.get(e.get('c')) if e.get('c') else None
            ind = d is None or d['name'].endswith('operator()') and d.get('clsq') == 'std::function'
            if not ind and e.get('c') not in native:
                continue
            for a in e.get('a', ()):
                if a < 0:
                    continue
                t = F.ex[a]['t']
                t = nonref(t) if t is not None else None
                if t is None or tkind(t) != 'cont':
                    continue
                b = contbase(t)
                if not (b.targs and tkind(b.targs[0]) == 'smart' and b.targs[0].targs and 'object' in b.targs[0].targs[0].s):
                    continue
                r = fa.lroot(F, a)
                ok = r is None or isinstance(r, tuple) and F.id in native or isinstance(r, tuple) and all(
                    G in native or P.fn(G) is not None and P.fn(G).lam for G in fa.callers.get(F.id, ())) or captured(P, F, a) or fresh_local(P, F, a)
                n += 1
                R.add('arguments passed in %s' % F.short, F.where(e.get('l')), ok,
                      'the argument vector is storage that the called function can modify while it reads it (%s)' % (r,))
    R.need(n >= 5, 'calls through function values not found')
    R.stats['argument_vectors'] = n


def captured(P, F, a):
    """a variable captured by value"""
    e = F.ex[a]
    while e['k'] == 'cast':
        e = F.ex[e['e']]
    if e['k'] != 'var' or not F.lam:
        return False
    for G in P.fns.values():
        for x in G.ex.values():
            if x['k'] == 'lambda' and x['c'] == F.id:
                for c in x['caps']:
                    if c.get('v') == e['v']:
                        return not c.get('byref')
    return False


def fresh_local(P, F, a):
    """an object only a local smart pointer, initialised with a new allocation, refers to"""
    e = F.ex[a]
    for _ in range(8):
        if e['k'] == 'cast':
            e = F.ex[e['e']]
        elif e['k'] == 'call' and e.get('o', -1) >= 0 and e.get('lv'):
            e = F.ex[e['o']]
        elif e['k'] == 'call' and e.get('o', -1) >= 0 and (P.decls.get(e.get('c')) or {}).get('name', '').rsplit('::', 1)[-1] in ('operator->', 'operator*', 'get'):
            e = F.ex[e['o']]
        else:
            break
    if e['k'] != 'var' or e.get('glob') or tkind(e['t']) != 'smart':
        return False
    init = None
    for b in F.blocks.values():
        for el in b['els']:
            if el[0] == 'decl' and el[1].get('v') == e['v']:
                init = el[1].get('e', -1)
    while init is not None and init >= 0:
        x = F.ex[init]
        if x['k'] == 'call' and (P.decls.get(x.get('c')) or {}).get('name') in ('std::make_shared', 'std::make_unique'):
            uses = sum(1 for i, y in F.ex.items() if y['k'] in ('call', 'ctor') and any(z >= 0 and F.ex[z].get('v') == e['v'] for z in y.get('a', ())))
            return uses == 0
        init = x.get('e', x.get('a', [-1])[0] if x.get('a') else -1)
    return False
