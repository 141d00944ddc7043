"""P06: no script and no input makes the interpreter follow a pointer that points to nothing."""
import engine_driver
from absint import mk, tkind, nonref

# a lookup after the test that it will find something; both look in the same table
PAIRS = {'LispEnvironment::IsMacro': ('macro', None), 'LispEnvironment::GetMacro': ('macro', 'get'),
         'LispEnvironment::IsInModules': ('modules', None), 'LispEnvironment::GetFunctionInModules': ('modules', 'get')}


def pairs(P, E):
    ids = {}
    for F in P.fns.values():
        if F.short in PAIRS:
            ids[F.id] = PAIRS[F.short]

    def on_call(E, s, fr, e, d, this):
        if d is None or d['id'] not in ids:
            return None
        name, get = ids[d['id']]
        keys = []
        for i, a in enumerate(e['a']):
            ty = d['params'][i]['t']
            if tkind(ty) in ('smart', 'ptr', 'int', 'bool', 'enum'):
                keys.append(E.rval(s, fr, a))
            else:
                keys.append(E.content(s, E.loc(s, fr, a)))
        g = mk('ghost', 'tested', name, *keys)
        E.havoced.add(d['id'])
        if get:
            t = s.env.get(g)
            if t is not None and E.truth(s, t) is True:
                return E.fresh(s, fr, e['id'], e['t'], 'nn')
            return None
        E.check_args(s, fr, e, d)
        t = E.fresh(s, fr, e['id'], e['t'])
        s.env[g] = t
        return t
    E.on_call = on_call


KINDS = ('null', 'nullelem', 'nullarg')

# obligations which hold for a reason the analysis does not see: file, kind, type of the pointer -> how many places, the reason.
# A place more than these is a violation.
ACCEPTED = {
    ('Interpreter.cpp', 'null', 'object'): (1, 'ResolveArgsInScopes: the handler is entered after the first element was read, the list of resolved values has at least the element just stored'),
    ('Parser.cpp', 'null', 'IEnumerable'): (2, 'ParseTokens: current is the top of listStack whenever the stack is not empty'),
    ('Scope.h', 'null', 'LispScope'): (1, 'PopNextScope: only called by ~LispCallFrame, whose constructor has set Next, and every nested frame puts the value back'),
    ('Variant.cpp', 'null', 'IEnumerable'): (1, 'LispVariant::Add: a variant of the type list holds a list; not reachable from scripts'),
}


def pointee(F, e):
    """the type behind the pointer of an obligation"""
    for i in (e.get('o', -1), e.get('e', -1), e.get('b', -1)) + tuple(e.get('a', ())):
        if isinstance(i, int) and i in F.ex:
            t = F.ex[i]['t']
            if tkind(t) == 'smart':
                n = nonref(t)
                if n.targs and n.targs[0].rec:
                    return n.targs[0].rec.rsplit('::', 1)[-1].split('<')[0]
            if tkind(t) == 'ptr':
                n = nonref(t)
                if n.to is not None and n.to.rec:
                    return n.to.rec.rsplit('::', 1)[-1].split('<')[0]
    return '?'


def check(P, R, tier):
    import pp
    obls, info, fa = engine_driver.analyse(P, hook=pairs)
    if info['errors']:
        raise RuntimeError('%s: %s' % info['errors'][0])
    bad = {}
    n = 0
    fns = set()
    for (kind, f, eid), (good, fails, ex) in sorted(obls.items(), key=lambda x: (P.fns[x[0][1]].file, P.fns[x[0][1]].line, str(x[0]))):
        if kind not in KINDS:
            continue
        n += 1
        F = P.fns[f]
        fns.add(f)
        e = F.ex.get(eid, {})
        item = ('%s in %s' % (pp.ex(P, F, eid)[:80], F.short), F.where(e.get('l')), ex, F)
        if not fails:
            R.add(item[0], item[1], True)
        else:
            bad.setdefault((F.file.rsplit('/', 1)[-1], kind, pointee(F, e)), []).append(item)
    for k, items in sorted(bad.items()):
        allowed = ACCEPTED.get(k, (0, ''))
        for name, where, ex, F in items:
            ok = len(items) <= allowed[0]
            R.add(name, where, ok, 'accepted: ' + allowed[1] if ok else
                  'may be null here%s' % ('' if not ex else ' (value %s; reached through %s)' % (ex[0][0][:60], ' > '.join(ex[1][-4:]))))
    R.need(n >= 800, 'only %d uses of pointers found' % n)
    R.stats['pointer_uses'] = n
    R.stats['functions'] = len(fns)
    R.stats['functions_analysed_on_their_own'] = len(info['roots'])
    R.stats['rounds'] = info['rounds']
    R.stats['slots_that_may_be_null'] = len(info['slots'])
    R.stats['accepted'] = ['%s: %s' % (k[0], v[1]) for k, v in sorted(ACCEPTED.items())]
