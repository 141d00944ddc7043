"""P02: no access beyond what exists.

  index       every element access of a list, vector, string or array is inside its bounds on every path
  iterator    every iterator that is read refers to an element
  loops       while a loop runs over a container nothing it does can change that container"""
from absint import *
from rules import common, whole
from prog import children
import pp

KINDS = {'idx', 'iter', 'rawidx'}


def check(P, R, tier):
    fa = common.facts(P)
    obls, roots = whole.analyse(P, fa, KINDS)
    R.stats['functions_analysed'] = len(roots)
    rng = {}
    for F in P.fns.values():
        for L in loops(P, F):
            rng[F.id, L.begin] = L
            bad = changes(P, fa, F, L)
            R.add('loop over %s in %s' % (pp.ex(P, F, L.over)[:40], F.short), F.where(L.line), bad is None,
                  'the loop can change the container it runs over: %s' % bad)
    R.stats['range_loops'] = len(rng)
    for (kind, f, eid), (a, b, d) in sorted(obls.items(), key=lambda x: (x[0][0], P.fns[x[0][1]].file, P.fns[x[0][1]].line, str(x[0][2]))):
        F = P.fns[f]
        if kind == 'iter' and any(v.startswith('v:__begin') for v in names(F, eid)):
            continue        # the iterator of a range based loop: see above
        e = F.ex.get(eid) if isinstance(eid, int) else None
        if kind == 'rawidx' and b and entry(P, F, e):
            b = 0
        R.add('%s %s in %s' % (kind, pp.ex(P, F, eid)[:50], F.short), F.where(e.get('l') if e else None), not b,
              'may be outside (%s), reached by %s' % (', '.join(d[0]) if d else '', ' > '.join(d[1]) if d else ''))


def names(F, x, d=0):
    e = F.ex.get(x) if isinstance(x, int) else None
    if e is None or d > 6:
        return set()
    r = {e['v']} if e['k'] == 'var' else set()
    for c in children(e):
        r |= names(F, c, d + 1)
    return r


def entry(P, F, e):
    """argv[i] with i below argc, in a function whose parameters are those of a program entry"""
    ps = F.params
    if len(ps) != 2 or tkind(ps[0]['t']) != 'int' or tkind(ps[1]['t']) != 'ptr' or F.cls:
        return False
    vs = names(F, e['id'])
    if ps[1]['v'] not in vs:
        return False
    idx = [v for v in vs if v != ps[1]['v']]
    # the loop (or branch) that guards the access compares the index with the count
    for b in F.blocks.values():
        c = b.get('cond')
        if c is not None and c >= 0:
            x = F.ex[c]
            if x['k'] == 'bin' and x['op'] == '<' and names(F, x['e']) == set(idx) and names(F, x['r']) == {ps[0]['v']}:
                eb = eblocks(F).get(e['id'])
                if eb in guarded(F, b['id']):
                    return True
    return False


def guarded(F, b):
    """blocks that are only reached through the true branch of b"""
    t = F.blocks[b]['succ'][0]
    seen, st = {F.entry}, [F.entry]
    while st:
        x = st.pop()
        for s in F.extra['edges'][x]:
            if x == b and s == t:
                continue
            if s not in seen:
                seen.add(s)
                st.append(s)
    return {x for x in F.blocks if x not in seen}


class Loop:
    pass


def loops(P, F):
    """the range based loops of F"""
    if 'rloops' in F.extra:
        return F.extra['rloops']
    out = []
    decl = {}
    for b in F.blocks.values():
        for el in b['els']:
            if el[0] == 'decl':
                decl[el[1]['v']] = (el[1], b['id'])
    for h, body in F.loops.items():
        c = F.blocks[h].get('cond')
        if c is None or c < 0:
            continue
        vs = [v for v in names(F, c) if v.startswith('v:__begin')]
        if len(vs) != 1:
            continue
        L = Loop()
        L.begin, L.head, L.body = vs[0], h, body
        L.line = F.ex[c].get('l')
        i = [v for v in names(F, decl[vs[0]][0]['e']) if v.startswith('v:__range')]
        if not i:
            continue
        L.over = decl[i[0]][0]['e']
        L.type = nonref(decl[i[0]][0]['t'])
        out.append(L)
    F.extra['rloops'] = out
    return out


def strip(F, x):
    while x is not None and x >= 0 and F.ex[x]['k'] in ('cast', 'load', 'opaque') and F.ex[x].get('e', -1) >= 0:
        x = F.ex[x]['e']
    return x


def local_of(fa, F, x):
    """the local variable (by value) the container is, if it is one that nothing else can refer to; 'temp' for a temporary"""
    x = strip(F, x)
    e = F.ex[x]
    if e['k'] == 'var' and not e.get('glob'):
        owned, refs, par = fa.fn_info(F)
        if e['v'] in owned:
            return e['v']
    if e['k'] in ('ctor', 'list') or e['k'] == 'call' and not e.get('lv'):
        return 'temp'
    return None


def aliased(F, v):
    """is the address of the local variable (or a lasting reference to it) taken"""
    for e in F.ex.values():
        if e['k'] == 'un' and e['op'] == '&' and v in names(F, e['e']):
            return True
        if e['k'] == 'lambda' and any(c.get('byref') and c.get('v') == v for c in e['caps']):
            return True
    return False


def private_param(P, fa, F, v, seen):
    """a parameter by constant reference that only ever refers to something its caller keeps for itself: the argument vector of
    a function that is called through a function value (which is private to the call, see P01), or one handed on"""
    i = [n for n, p in enumerate(F.params) if p['v'] == v]
    if not i or not F.params[i[0]]['t'].cst or (F.id, i[0]) in seen:
        return bool(i) and (F.id, i[0]) in seen
    seen.add((F.id, i[0]))
    if F.id in fa.taken:
        return True
    sites = 0
    for c in fa.callers.get(F.id, ()):
        G = P.fns[c]
        for e in G.ex.values():
            if e['k'] == 'call' and e.get('c') == F.id:
                sites += 1
                a = strip(G, e['a'][i[0]])
                own = local_of(fa, G, a)
                if own == 'temp' or own is not None and not aliased(G, own):
                    continue
                x = G.ex[a]
                if x['k'] == 'var' and private_param(P, fa, G, x['v'], seen):
                    continue
                return False
    return sites > 0


def changes(P, fa, F, L):
    if tkind(L.type) not in ('cont', 'rec'):
        return None
    ks = fa.invalidates(L.type, 'erase')
    if not ks:
        return None
    own = local_of(fa, F, L.over)
    if own == 'temp':
        return None
    private = own is not None and not aliased(F, own)
    if own is None:
        v = F.ex[strip(F, L.over)]
        if v['k'] == 'var' and private_param(P, fa, F, v['v'], set()):
            own, private = v['v'], True
    eb = eblocks(F)
    for x, e in F.ex.items():
        if eb.get(x) not in L.body:
            continue
        k = e['k']
        if k == 'asg' and fa.invalidates(F.ex[e['e']]['t'], 'operator=') & ks:
            if not private or own in names(F, e['e']):
                if fa.lroot(F, e['e']) is not None or own in names(F, e['e']):
                    return 'assignment %s' % pp.ex(P, F, x)[:50]
        if k not in ('call', 'ctor'):
            continue
        d = P.decls.get(e.get('c'))
        if d is None:
            if k == 'call' and not private:
                return 'call of an unknown function %s' % pp.ex(P, F, x)[:50]
            continue
        nm = d['name'].rsplit('::', 1)[-1]
        o = e.get('o', -1) if k == 'call' else -1
        if o is None:
            o = -1
        if not d['mine']:
            if d.get('clsq') == 'std::function' and nm == 'operator()':
                if private:
                    continue
                tg = fa.fn_targets().get(nonref(F.ex[o]['t']).s)
                if tg is None or any(ks & set(fa.mods(t)) or fa.mods(t) is fa.all_keys for t in tg):
                    return 'call of the function value %s' % pp.ex(P, F, x)[:50]
                continue
            if o >= 0 and not d.get('const') and not d.get('static') and nm not in fa.CONTREAD:
                t = F.ex[o]['t']
                if nonref(t).k == 'ptr':
                    t = nonref(t).to
                if fa.invalidates(t, nm) & ks:
                    r = fa.lroot(F, o)
                    if own is not None and own in names(F, o) or not private and r is not None or own is None and r is None and False:
                        return pp.ex(P, F, x)[:60]
            if nm in ('swap', 'move', 'getline'):
                for a in e.get('a', ()):
                    if a >= 0 and fa.invalidates(F.ex[a]['t'], nm) & ks and (own in names(F, a) if private else fa.lroot(F, a) is not None):
                        return pp.ex(P, F, x)[:60]
            continue
        # a function of the repository: by its receiver, its arguments, or anything else it can reach
        tg = {e['c']} | (set(fa.over.get(e['c'], ())) if e.get('virt') else set())
        for c in tg:
            ef = fa.effects().get(c)
            if c not in P.fns:
                continue
            if ef is None:
                if not private:
                    return 'call of %s, which can do anything' % pp.ex(P, F, x)[:50]
                continue
            for r, kk in ef.items():
                if not ks & kk:
                    continue
                if r == 'this':
                    if k == 'ctor':
                        continue
                    if own is not None and own in names(F, o) or not private and fa.lroot(F, o) is not None:
                        return pp.ex(P, F, x)[:60]
                elif r == 'other':
                    if not private:
                        return pp.ex(P, F, x)[:60]
                elif isinstance(r, tuple):
                    a = e['a'][r[1]] if r[1] < len(e['a']) else -1
                    if a >= 0 and (own in names(F, a) if own is not None else fa.lroot(F, a) is not None):
                        return pp.ex(P, F, x)[:60]
    return None
