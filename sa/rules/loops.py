"""P24: every loop of the interpreter ends, apart from those a script asks for."""
import time
from absint import *
from rules import common

_P = {}

# loops that no measure is found for: (kind, file or field) -> (how many, why)
ACCEPTED = {
    ('walk', 'follows LispScope::Previous'): (2, 'the frames of the calls in progress; PushNextScope links each new frame to the one that was there before'),
    ('script', 'Environment.cpp'): (1, 'the loop of the special form while goes on as long as the condition of the script holds'),
    ('script', 'Interpreter.cpp'): (1, 'macros are expanded until none is left: how often is up to the macros of the script'),
    ('script', 'Debugger.cpp'): (1, 'the debugger runs the script again until the user leaves it'),
    ('arguments', 'Interpreter.cpp'): (1, 'EvalAst walks over the arguments of a call: the position grows, and the list is its own (made by ResolveArgsInScopes), so it keeps its length while the arguments are evaluated'),
}


def stable_term(E, fr, body):
    """terms whose value does not change from one round of the loop to the next"""
    born = E.born_in(fr, body)
    blk = fr.F.extra['eblk']
    n = len(fr.fid)
    memo = {}

    def point(x):
        """a program point inside of the loop"""
        if len(x) >= 3 and isinstance(x[0], str) and isinstance(x[1], tuple):
            f, e = x[1], x[2]
            if x[0] in ('j', 'jc', 'm', 'x', 'r'):
                return f == fr.fid and (e in body or isinstance(e, tuple))
            if f == fr.fid:
                return blk.get(e if not isinstance(e, tuple) else e[0]) in body
            if len(f) > n and f[:n] == fr.fid:
                return blk.get(f[n][1]) in body
        return False

    def bad(x):
        if isinstance(x, Term):
            r = memo.get(x)
            if r is None:
                memo[x] = False
                r = memo[x] = x.op == 'old' or born(x) or any(bad(y) for y in x.a)
            return r
        if isinstance(x, tuple):
            return point(x) or any(bad(y) for y in x)
        return False
    return lambda t: not bad(t)


def progress(E, fr, head, backs, body, any_bound=False):
    """a variable that moves in every round towards something that stays where it is"""
    same = {head.env[l] for l in head.env if head.env[l].op == 'phi' and all(s.env.get(l) is head.env[l] for s in backs)}
    same |= {head.env[l].a[1] for l in head.env if head.env[l].op == 'it' and head.env[l].a[1].op == 'phi' and all(s.env.get(l) is head.env[l] for s in backs)}
    stay = stable_term(E, fr, body)

    def keep(t):
        return t in same or stay(t)
    best = None
    for l in head.env:
        if l.op == 'al':
            continue
        vh = head.env[l]
        if vh.op == 'it':
            vh = vh.a[1]
        if not isinstance(vh, Term):
            continue
        kind = set()
        for s in backs:
            vb = s.env.get(l)
            if vb is not None and vb.op == 'it':
                if vb.a[0] is not head.env[l].a[0] if head.env[l].op == 'it' else True:
                    vb = None
                else:
                    vb = vb.a[1]
            if vb is None or not isinstance(vb, Term):
                kind.add(None)
                break
            for up in (True, False):
                d = s.lt(vh, vb) if up else s.lt(vb, vh)
                if d and any_bound:
                    kind.add(up)
                    break
                if d and (bound(s, vb, up, keep) or bound(s, vh, up, keep)):
                    kind.add(up)
                    break
            else:
                kind.add(None)
                break
        if kind == {True} or kind == {False}:
            return '%s %s' % (show(l)[:40], 'grows' if kind == {True} else 'shrinks')
    return None


def bound(s, v, up, keep):
    """v stays on one side of something that does not change"""
    if up:
        return any(keep(b) for b in reachable(s, v, True))
    return s.dist(v, ZERO) is not None or any(keep(b) for b in reachable(s, v, False))


def reachable(s, v, up):
    x, _ = base(v)
    if up:
        seen, todo = {x}, [x]
        while todo:
            a = todo.pop()
            for b in s.z.get(a, ()):
                if b not in seen:
                    seen.add(b)
                    todo.append(b)
    else:
        rev = {}
        for a, m in s.z.items():
            for b in m:
                rev.setdefault(b, []).append(a)
        seen, todo = {x}, [x]
        while todo:
            a = todo.pop()
            for b in rev.get(a, ()):
                if b not in seen:
                    seen.add(b)
                    todo.append(b)
    seen.discard(x)
    if ZERO in seen:
        d = s.dist(x, ZERO) if up else s.dist(ZERO, x)
        if d is None or abs(d) >= 2 ** 31 - 1:
            seen.discard(ZERO)
    return seen


def walks(P, fr, head, backs):
    """the loop follows a chain of objects: a variable takes the value of a field of the object it points to"""
    for l, vh in head.env.items():
        if l.op == 'al' or not isinstance(vh, Term) or vh.op not in ('phi', 'sym', 'init', 'old'):
            continue
        names = set()
        for s in backs:
            vb = s.env.get(l)
            names.add(step(vb, vh, 0) if isinstance(vb, Term) and vb is not vh else None)
        if len(names) == 1 and None not in names:
            return 'follows %s' % names.pop()
    return None


def replaced(E, s, fr, e, this):
    """text.replace(position, count, other): remembered with what the text grows by"""
    ex = fr.F.ex
    g = mk('ghost', 'replaced')
    s.env[g] = NULL
    if len(e['a']) != 3 or tkind(ex[e['a'][0]]['t']) != 'int' or not is_string(ex[e['a'][2]]['t']) or not E.is_loc(ex[e['a'][2]]):
        return
    p, n = E.rval(s, fr, e['a'][0]), E.rval(s, fr, e['a'][1])
    if s.le(const(1), n):
        s.env[g] = mk('rep', p, E.size(s, E.loc(s, fr, e['a'][2])))


def rewrites(E, head, backs):
    """a text is searched for a part that is not empty, each match is replaced, and the search goes on behind the replacement"""
    for l, vh in head.env.items():
        if l.op != 'var' or not isinstance(vh, Term):
            continue
        for s in backs:
            r = s.env.get(mk('ghost', 'replaced'))
            vb = s.env.get(l)
            if r is None or r.op != 'rep' or vb is None or not s.le(vh, r.a[0]):
                break
            on = [x for x, m in E.sums.items() if m and all({a, b} == set(r.a) for a, b in m)]
            if not any(x is vb or vb.op == 'find' and s.le(x, vb) for x in on):
                break
        else:
            return 'the text behind %s shrinks' % show(l)[:40]
    return None


def step(t, src, n):
    """t is read out of the object that src points to: the name of the field"""
    if n > 4:
        return None
    if t.op == 'fld' and mentions(t.a[0], src, 0):
        return '%s::%s' % (str(t.a[2]).rsplit('::', 1)[-1], t.a[1])
    for x in t.a:
        if isinstance(x, Term):
            r = step(x, src, n + 1)
            if r:
                return r
    return None


def mentions(t, src, n):
    return t is src or n < 5 and any(isinstance(x, Term) and mentions(x, src, n + 1) for x in t.a)


def calls(P, F, body, names):
    return any(F.ex[el[1]].get('c') in names for x in body for el in F.blocks[x]['els'] if el[0] == 'e')


def reads(P, F, body):
    """a round reads a line of the input"""
    names = {G.id for G in P.fns.values() if G.short.endswith('TextReader::ReadLine')}
    start = [F.ex[el[1]]['c'] for x in body for el in F.blocks[x]['els'] if el[0] == 'e' and F.ex[el[1]].get('c') in P.fns]
    return bool(names & (set(start) | set(common.reach(_P['fa'], P, start))))


def evaluates(P, F, body):
    """each round runs a part of the script"""
    names = {G.id for G in P.fns.values() if G.short in ('LispInterpreter::EvalAst', 'Lisp::Eval', 'LispInterpreter::ExpandMacros')}
    return calls(P, F, body, names)


def one(job):
    fid, eof = job
    P, fa = _P['P'], _P['fa']
    E = Engine(P, fa)
    res = {}
    used = set()
    lemma = _P['lemma']

    def on_back(E, fr, h, head, backs, body):
        k = (fr.fid, fr.F.id, h)
        if not backs:
            res.setdefault(k, ('ends', 'no second round'))
        elif head is not None:
            v = progress(E, fr, head, backs, body)
            if v is None:
                v = walks(P, fr, head, backs) or rewrites(E, head, backs)
                if v is not None:
                    v = ('walk' if v.startswith('follows') else 'ends', v)
                else:
                    v = progress(E, fr, head, backs, body, True)
                    if v is not None:
                        v = ('moves', v)
            else:
                v = ('ends', v)
            E.sums.clear()
            res[k] = v or ('open', '')
    read = [F.id for F in P.fns.values() if F.short.endswith('TextReader::ReadLine')]

    def on_call(E, s, fr, e, d, this):
        if d is None:
            return None
        if d['name'].rsplit('::', 1)[-1] == 'replace' and this is not None and is_string(fr.F.ex[e['o']]['t']):
            replaced(E, s, fr, e, this)
            return None
        if eof and d['id'] in read:
            r = E.havoc_call(s, fr, e, d)
            s.add_eq(E.size(s, r), ZERO)
            return r
        if d['id'] in lemma and (d['id'] == fid or not E.inlinable(fr, P.fn(d['id']))):
            used.add(d['id'])
            vs = [(i, E.rval(s, fr, e['a'][i])) for i in lemma[d['id']] if i < len(e['a'])]
            r = E.havoc_call(s, fr, e, d)
            for i, v in vs:
                ty = d['params'][i]['t']
                s.add_le(v, E.load(s, E.loc(s, fr, e['a'][i]), nonref(ty)) if ty.ref else r)
            return r
        return None
    E.on_back = on_back
    E.sums = {}
    E.on_call = on_call
    E.restart = True
    E.inline_filter = lambda fr, fn: (len(fn.blocks) <= 12 or fn.lam) and len(fr.fid) <= 3
    F = P.fns[fid]
    t0 = time.time()
    try:
        exits = E.run_root(F)
    except RecursionError:
        return job, [], [], 'recursion', used, 0
    broken = []
    for i in sorted(lemma.get(fid, ())):
        v, ty = F.params[i]['v'], F.params[i]['t']
        if ty.ref:
            l = mk('pref', (('root', fid),), v, False)
            ok = all(s.le(mk('init', l, ()), E.load(s, l, nonref(ty))) for s, rv in exits)
        else:
            ok = all(rv is not None and s.le(mk('sym', (('root', fid),), ('p', v), 'p'), rv) for s, rv in exits)
        if not ok:
            broken.append(i)
    return job, [(k[1], k[2], v) for k, v in res.items()], broken, None, used, time.time() - t0


def reader(P, R):
    """a reader hands out each line once, and nothing when there is none left"""
    for F in P.fns.values():
        if not F.short.endswith('TextReader::ReadLine'):
            continue
        E = Engine(P, _P['fa'])
        took = mk('ghost', 'took')

        def on_call(E, s, fr, e, d, this):
            if d is not None and d['name'].rsplit('::', 1)[-1] == 'getline' and len(e['a']) >= 2:
                # leaves the text alone when the stream has ended already
                x = E.loc(s, fr, e['a'][1])
                s.env[took] = const(1 if s.le(E.size(s, x), ZERO) else 0)
            return None
        E.on_call = on_call
        flds = [(f, cls, ft) for cls, f, ft in _P['fa'].fields_by_cls(F.cls) if tkind(ft) == 'int']
        at_entry = {}

        def setup(E, s, fr):
            for f, cls, ft in flds:
                at_entry[f] = E.load(s, mk('fld', fr.this, f, cls), ft)
        n = 0
        bad = []
        for s, rv in E.run_root(F, setup=setup):
            n += 1
            ok = s.env.get(took) is const(1)
            ok = ok or s.le(E.size(s, rv), ZERO)
            ok = ok or any(s.lt(at_entry[f], E.load(s, mk('fld', mk('this', F.id), f, cls), ft)) for f, cls, ft in flds)
            if not ok:
                bad.append(n)
        R.add('%s hands out each line once' % F.short, F.where(F.line), not bad, '%d ways out' % n if not bad else 'a way out hands out text without moving on: at the end of the input it comes again and again')


def candidates(P):
    """functions that hand back a position which is not before the one they are given"""
    c = {}
    for F in P.fns.values():
        if F.lam or P.decls[F.id].get('ctor'):
            continue
        pos = F.ret is not None and tkind(F.ret) == 'int' and not F.ret.ref
        ps = [i for i, p in enumerate(F.params) if tkind(p['t']) == 'int' and not p['t'].rref and (not p['t'].cst if p['t'].ref else pos)]
        if ps:
            c[F.id] = set(ps)
    return c


def check(P, R, tier):
    fa = common.facts(P)
    _P.update(P=P, fa=fa, lemma=candidates(P))
    loops = [F.id for F in P.fns.values() if F.loops]
    # a position that a function hands back: assumed not to be smaller, then shown for each of them, until nothing changes
    done = {}
    again = set(loops) | set(_P['lemma'])
    while again:
        for job, rs, broken, err, used, secs in common.pmap(one, [(f, False) for f in sorted(again)]):
            if err:
                raise RuntimeError('%s: %s' % (P.fns[job[0]].short, err))
            done[job[0]] = (rs, broken, used, secs)
        wrong = {(f, i) for f in again for i in done[f][1]}
        for f, i in wrong:
            _P['lemma'][f].discard(i)
            if not _P['lemma'][f]:
                del _P['lemma'][f]
        wrong = {f for f, i in wrong}
        again = {f for f in done if done[f][2] & wrong} | {f for f in wrong if f in _P['lemma']}
    found = {}
    for rs, _, _, _ in done.values():
        for f, h, v in rs:
            found.setdefault((f, h), []).append(v)
    todo = sorted({f for (f, h), vs in found.items() if any(v[0] in ('open', 'moves') for v in vs) and reads(P, P.fns[f], P.fns[f].loops[h])})
    reader(P, R)
    at_end = {}
    for job, rs, _, err, _, _ in common.pmap(one, [(f, True) for f in todo]):
        if err:
            raise RuntimeError('%s: %s' % (P.fns[job[0]].short, err))
        for f, h, v in rs:
            at_end.setdefault((f, h), []).append(v)
    left = {}
    n = 0
    for F in sorted(P.fns.values(), key=lambda F: (F.file, F.line)):
        for h in sorted(F.loops):
            n += 1
            vs = found.get((F.id, h), [])
            line = min([F.ex[el[1]].get('l') for x in F.loops[h] for el in F.blocks[x]['els'] if el[0] == 'e' and F.ex[el[1]].get('l')] or [F.line])
            name = 'loop at line %s of %s' % (line, F.short)
            kinds = {v[0] for v in vs}
            if kinds <= {'ends'}:
                R.add(name, F.where(line), True, '; '.join(sorted({v[1] for v in vs})) or 'not reached')
                continue
            if kinds <= {'ends', 'walk'}:
                k = ('walk', '; '.join(sorted({v[1] for v in vs if v[0] == 'walk'})))
            elif at_end.get((F.id, h)) and all(v[0] == 'ends' for v in at_end[(F.id, h)]):
                R.add(name, F.where(line), True, 'a round reads a line of input, and there is no further round once the input is at its end')
                continue
            elif evaluates(P, F, F.loops[h]):
                k = ('script', F.file.rsplit('/', 1)[-1]) if 'open' in kinds else ('arguments', F.file.rsplit('/', 1)[-1])
            else:
                k = ('open', F.file.rsplit('/', 1)[-1])
            left.setdefault(k, []).append((name, F.where(line)))
    for k, items in sorted(left.items()):
        allowed = ACCEPTED.get(k, (0, ''))
        for name, where in items:
            ok = len(items) <= allowed[0]
            R.add(name, where, ok, 'accepted: ' + allowed[1] if ok else 'nothing is seen to move towards an end in every round (%s)' % k[1])
    R.need(n >= 40, 'only %d loops found' % n)
    R.stats['loops'] = n
    R.stats['functions'] = len(loops)
    R.stats['positions_handed_back'] = sorted('%s argument %d' % (P.fns[f].short, i) for f, s in _P['lemma'].items() for i in s)[:40]
    R.stats['accepted'] = ['%s: %s' % (k[1], v[1]) for k, v in sorted(ACCEPTED.items())]
