"""P10: values of a script change in place only through the builtins that are there to change them."""
from absint import *
from rules import common, whole


def recname(t):
    if t is None:
        return '?'
    u = nonref(t)
    if u.k == 'ptr' and u.to is not None:
        u = nonref(u.to)
    return u.s if u.rec and u.rec.endswith('Dictionary') else u.rec or u.s


READS = ('find', 'find_if', 'find_if_not', 'count', 'count_if', 'any_of', 'all_of', 'none_of', 'distance', 'advance', 'next', 'prev', 'accumulate', 'equal', 'lower_bound', 'upper_bound', 'binary_search',
         'max_element', 'min_element', 'mismatch', 'search', 'getline', 'operator<<', 'operator>>', 'make_shared', 'to_string', 'forward', 'operator==', 'operator!=', 'operator+', 'operator<', 'begin', 'end',
         'static_pointer_cast', 'dynamic_pointer_cast', 'ref', 'get', 'make_pair')


def typing(E, l, n=0):
    """the type of what a term denotes, as far as it shows"""
    if n > 40 or not isinstance(l, Term):
        return None
    op = l.op
    if op == 'fld':
        for c, f, t in E.facts.fields_by_cls(l.a[2]):
            if f == l.a[1] and c == l.a[2]:
                return t
        return None
    if op == 'deref':
        t = typing(E, l.a[0], n + 1)
        return pointee_of(t)
    if op in ('init', 'R'):
        return l.meta if hasattr(l.meta, 'u') or hasattr(l.meta, 'k') else typing(E, l.a[0], n + 1)
    if op == 'elem':
        t = typing(E, l.a[0], n + 1)
        return elemtype(t) if t is not None else None
    if hasattr(l.meta, 'k'):
        return l.meta
    return None


def pointee_of(t):
    if t is None:
        return None
    u = nonref(t)
    if u.k == 'ptr':
        return u.to
    return u.targs[0] if u.targs else None


def origin(l):
    """where a location is, from the parameters of the function: steps from the outside in"""
    out = []
    for _ in range(60):
        if l.op == 'fld':
            out.append(l.a[1])
            l = l.a[0]
        elif l.op == 'elem':
            out.append('[%s]' % (l.a[1].a[0] if l.a[1].op == 'c' else '*'))
            l = l.a[0]
        elif l.op in ('deref', 'init', 'R', 'sz', 'content', 'old') and l.a and isinstance(l.a[0], Term):
            l = l.a[0]
        elif l.op in ('sym', 'pref') and len(l.a) > 1 and isinstance(l.a[1], tuple) and l.a[1] and l.a[1][0] == 'p':
            out.append(l.a[1][1])
            break
        elif l.op == 'pref':
            out.append(l.a[1])
            break
        else:
            out.append(l.op + (':%s' % (l.a[0],) if l.op == 'glob' else ''))
            break
    return tuple(reversed(out))


def watch(P, E):
    """writes to objects that the function has not made itself"""
    seen = {}

    def note(fr, eid, what, ty, l):
        seen.setdefault((fr.F.id, eid, what, recname(ty), origin(l)), tuple(fr.stack))

    def summarised(E, s, fr, e, d, fn, this):
        where = {}
        if this is not None:
            where['this'] = origin(this) if E.heap(this) else None
        for p, a in zip(fn.params, e.get('a', ())):
            if a < 0:
                continue
            k = tkind(p['t'])
            if p['t'].ref and E.is_loc(fr.F.ex[a]):
                l = E.loc(s, fr, a)
                if k in ('smart', 'ptr'):
                    l = deref(E.load(s, l, nonref(p['t'])))
            elif k in ('smart', 'ptr'):
                l = deref(E.rval(s, fr, a))
            else:
                continue
            where[p['v']] = origin(l) if E.heap(l) else None
        seen.setdefault((fr.F.id, e['id'], 'call', fn.id, tuple(sorted(where.items(), key=str))), tuple(fr.stack))

    def on_call(E, s, fr, e, d, this):
        fn = P.fn(d['id']) if d is not None and d['mine'] else None
        if fn is not None and not fn.lam and not (d.get('virtual') and e.get('virt')) and not E.inlinable(fr, fn):
            summarised(E, s, fr, e, d, fn, this)
        if d is not None and not d['mine'] and this is None and str(d['name']).startswith('std::') and d['name'].rsplit('::', 1)[-1] not in READS:
            for i, a in enumerate(e.get('a', ())):
                ty = fr.F.ex[a]['t'] if a >= 0 else None
                if ty is None:
                    continue
                if tkind(ty) == 'iter':
                    v = E.rval(s, fr, a)
                    if v.op == 'it' and E.heap(v.a[0]):
                        note(fr, e['id'], d['name'], typing(E, v.a[0]), v.a[0])
                elif i < len(d['params']) and d['params'][i]['t'].ref and not d['params'][i]['t'].cst and E.is_loc(fr.F.ex[a]):
                    l = E.loc(s, fr, a)
                    if E.heap(l) and not fr.F.ex[a]['t'].cst:
                        note(fr, e['id'], d['name'], nonref(ty), l)
        if d is None or this is None or d.get('const') or d.get('static') or d.get('ctor') or d.get('dtor'):
            return None
        ty = nonref(fr.F.ex[e['o']]['t'])
        if ty.k == 'ptr' and ty.to is not None:
            ty = nonref(ty.to)
        if tkind(ty) == 'cont' and not d['mine'] or d.get('asg'):
            n = d['name'].rsplit('::', 1)[-1]
            if n in ('begin', 'end', 'find', 'at', 'front', 'back', 'rbegin', 'rend', 'data') or n == 'operator[]' and not is_assoc(ty):
                return None
            if not E.heap(this):
                return None
            if n == 'operator[]':
                idx = E.keyidx(s, fr, this, e['a'][0])
                if s.lt(idx, E.size(s, this)):
                    return None         # finds it
            note(fr, e['id'], n, ty, this)
        return None

    def on_store(E, s, l, v):
        if not E.heap(l) or l.op not in ('fld', 'elem', 'deref', 'pref'):
            return
        fr, eid = E.now
        if l.op in ('fld', 'elem'):
            if l.op == 'fld' and l.a[1] in ('first', 'second') and str(l.a[2]).startswith('std::pair') and l.a[0].op == 'elem':
                l = l.a[0]
            own = l.a[0]
            while own.op == 'fld':
                own = own.a[0]
            ty = typing(E, own)
            if ty is None and l.op == 'fld':
                seen.setdefault((fr.F.id, eid, 'store', l.a[2], origin(l)), tuple(fr.stack))
            else:
                note(fr, eid, 'store', ty, l)
        else:
            note(fr, eid, 'store', typing(E, l), l)
    E.on_call = on_call
    E.on_store = on_store
    return seen


def effects(P, fa):
    """function -> {(function, expression, what, type, origin)}; what a summarised function does to its parameters is
    mapped to what its callers hand to it"""
    w = {}
    whole.analyse(P, fa, (), watch=watch, watched=w)
    out = {f: {k for k in v if k[2] != 'call'} for f, v in w.items()}
    calls = {f: [k for k in v if k[2] == 'call'] for f, v in w.items()}
    change = True
    while change:
        change = False
        for f, ks in calls.items():
            for g, eid, _, callee, where in ks:
                m = dict(where)
                for (g2, e2, what, ty, org) in list(out.get(callee, ())):
                    o = m.get(org[0]) if org else None
                    if o is None or len(o) + len(org) > 14:
                        continue
                    x = (g, eid, what, ty, o + org[1:])
                    if x not in out[f]:
                        out[f].add(x)
                        change = True
    return out


# builtins that change a value in place: script name -> (argument that is changed, only through the place it returns (setf))
CHANGES = {'push': (1, False), 'pop': (0, False), 'dict-set': (0, False), 'dict-remove': (0, False), 'dict-clear': (0, False),
           'first': (0, True), 'car': (0, True), 'last': (0, True), 'nth': (1, True)}
# (class, member) -> how many places, why
ACCEPTED = {
    ('LispVariant', 'IsUnQuoted'): (1, 'the mark of an unquoted part is set on the result of an evaluation, which is a copy made for the caller'),
}


def short(q):
    if 'Dictionary<' in str(q):
        return q
    return str(q).split('<')[0].rsplit('::', 1)[-1]


def value_classes(P):
    """classes of script values: everything a value can consist of"""
    out = set()
    for q, r in P.records.items():
        if any(f['name'] == 'pVariant' for f in r['fields']):
            out.add(q)
    return out


MAKES = ('list', 'cons', 'append', 'rest', 'cdr', 'reverse', 'map', 'args', 'dict-keys')


def check(P, R, tier):
    fa = common.facts(P)
    from rules import registry
    bs, croot = registry.extract(P, fa, R)
    names = {}
    for b in bs:
        if b.fn is not None:
            names.setdefault(b.fn.id, set()).add(b.name)
    live = set(common.reach(fa, P, list(names) + [F.id for F in P.fns.values() if F.short in ('Lisp::Eval', 'Lisp::SaveEval') or F.short.startswith('Fuel::Main') or P.decls.get(F.id, {}).get('virtual')]))
    w = effects(P, fa)
    called = {c for c, by in fa.callers.items() if by} - set(fa.taken)
    n = {}
    acc = {}
    for f, eff in sorted(w.items(), key=lambda x: (P.fns[x[0]].file, P.fns[x[0]].line, x[0])):
        F = P.fns[f]
        if f not in live or P.decls.get(f, {}).get('ctor'):
            continue
        bad = []
        params = {p['v'] for p in F.params} | {'this'}
        for g, eid, what, ty, org in sorted(eff, key=str):
            G = P.fns[g]
            if not is_value(short(ty), what, org):
                continue
            n[f] = n.get(f, 0) + 1
            where = G.where(G.ex[eid].get('l'))
            if org and org[0] == 'glob:g:CppLisp::g_Nil' or fresh_list(F, G):
                continue
            if f not in names and org and org[0] in params and f in called:
                continue            # belongs to the callers
            ok = False
            if f in names:
                al = [CHANGES.get(x) for x in names[f]]
                ok = all(a is not None and is_arg(F, org, a[0]) and (not a[1] or G.lam) for a in al)
            if not ok:
                k = (short(ty), org[-1] if org else '')
                if k in ACCEPTED:
                    acc.setdefault(k, []).append((F, G, where))
                    continue
                bad.append((where, what, ty, org))
        title = '%s%s' % (F.short[:60], ' (%s)' % ', '.join(sorted(names[f])) if f in names else '')
        for where, what, ty, org in bad:
            R.add(title, where, False, 'changes a value in place: %s of %s (%s)' % (what, short(ty), '.'.join(org)))
        if not bad:
            R.add(title, F.where(F.line), True, '%d changes of values, all its task' % n[f] if n.get(f) else 'changes no value')
    for k, items in sorted(acc.items()):
        sites = {x[2] for x in items}
        R.add('%s::%s set on the result of an evaluation' % k, sorted(sites)[0], len(sites) <= ACCEPTED[k][0], 'accepted: ' + ACCEPTED[k][1] if len(sites) <= ACCEPTED[k][0] else 'set at %d places' % len(sites))
    # the builtins that make lists make new ones: a later change of the result must not be one of an argument
    V = 'CppLisp::LispVariant'
    ty = {f: t for c, f, t in fa.fields_by_cls(V)}
    R.need('Value' in ty, 'the content of a value was not found')
    made = 0
    for b in bs:
        if b.fn is None or b.name not in MAKES:
            continue
        made += 1
        E = Engine(P, fa)
        bad = None
        for s, rv in E.run_root(b.fn):
            if rv is None:
                continue
            for x in (rv, E.load(s, mk('fld', deref(rv), 'Value', V), ty['Value'])):
                # what is joined in the function itself is one of several new ones
                if x.op != 'new' and not (x.op == 'phi' and x.a[0] == (('root', b.fn.id),)):
                    bad = bad or '.'.join(map(str, origin(x)))
        R.add('%s: a new list' % b.name, b.fn.where(b.fn.line), bad is None, 'what is returned was made by the call' if bad is None else 'what is returned can be the storage of an argument (%s)' % bad)
    R.need(made >= len(MAKES) - 1, 'the builtins that make lists were not found')
    # a place is only changed by the assignment
    setters = [F for F in P.fns.values() if F.short.endswith('::ToSetterAction')]
    R.need(setters, 'the accessor of places was not found')
    own = {F.id for F in setters}
    allowed = {F for F, ns in names.items() if 'setf' in ns}
    ok = common.reach(fa, P, sorted(allowed))
    for F in P.fns.values():
        for eid, e in F.ex.items():
            if e['k'] == 'call' and e.get('c') in own and F.id not in own and F.id in live:
                R.add('%s fetches the assignment of a place' % F.short, F.where(e['l']), F.id in allowed or F.id not in set(names) and F.id in ok and only_from(fa, F.id, allowed), 'part of setf')
    R.need(sum(1 for f in names if n.get(f)) >= 5, 'the builtins that change values were not recognised')
    R.stats['functions'] = len(w)
    R.stats['builtins'] = len(names)
    R.stats['changes_of_values'] = sum(n.values())


def only_from(fa, f, allowed, seen=()):
    cs = fa.callers.get(f, ())
    return bool(cs) and all(c in allowed or c not in seen and only_from(fa, c, allowed, tuple(seen) + (f,)) for c in cs)


def is_value(cls, what, org):
    if cls in ('LispVariant', 'object', 'DataType', 'IEnumerable') or 'Dictionary<CppLisp::LispVariant' in cls:
        return not (cls == 'IEnumerable' and org and org[-1] == 'Tokens')
    return 'pString' in org and cls in ('string', 'basic_string') or cls in ('?', 'shared_ptr') and len(org) > 1 and ('pList' in org or 'pDictionary' in org or 'pVariant' in org)


def fresh_list(F, G):
    """the parser builds the lists it hands out"""
    return 'LispParser' in str(F.cls) or 'LispTokenizer' in str(F.cls)


def is_arg(F, org, i):
    """inside of argument i of the builtin"""
    return len(org) > 2 and F.params and org[0] == F.params[0]['v'] and org[1] == '[%d]' % i
