"""P37: nothing is used after its lifetime ends, and nothing is lost.

  closures    a closure that refers to the variables (or the object) of the function that makes it stays inside that function:
              it is only called, or handed to a function that only calls it
  results     no function returns a reference or pointer to its own variables or temporaries
  references  no local reference is bound into a temporary that ends with the statement
  ownership   the result of every new goes straight to an owner (a smart pointer, the storage of a value, or the caller of a
              factory); a class that is deleted through a base class has a virtual destructor"""
from absint import *
from rules import common
from prog import children
import pp


def check(P, R, tier):
    fa = common.facts(P)
    closures(P, R, fa)
    results(P, R, fa)
    references(P, R, fa)
    owners(P, R, fa)
    unload(P, R, fa)


def parents(F):
    ps = F.extra.get('parents')
    if ps is None:
        ps = {}
        for e in F.ex.values():
            for c in children(e):
                ps.setdefault(c, []).append(e['id'])
        decl = {}
        for b in F.blocks.values():
            for el in b['els']:
                if el[0] in ('decl', 'init') and el[1].get('e', -1) >= 0:
                    decl.setdefault(el[1]['e'], []).append(el)
                elif el[0] == 'ret':
                    x = el[1] if isinstance(el[1], int) else el[1].get('e', -1)
                    decl.setdefault(x, []).append(el)
        ps = F.extra['parents'] = (ps, decl)
    return ps


def escapes(P, fa, F, eid, seen, depth=0):
    """where the function value eid of F goes beyond being called: a description, or None"""
    ps, decl = parents(F)
    if depth > 6:
        return 'passed on too far'
    for el in decl.get(eid, ()):
        if el[0] == 'decl':
            r = var_escapes(P, fa, F, el[1]['v'], seen, depth)
            if r:
                return r
        elif el[0] == 'ret':
            return 'returned from %s' % F.short
        else:
            return 'stored in a member'
    for p in ps.get(eid, ()):
        e = F.ex[p]
        k = e['k']
        if k in ('load', 'cast', 'opaque') or k == 'ctor' and len(e['a']) >= 1 and tkind(nonref(e['t'])) in ('func', 'other', 'rec') and (tkind(nonref(e['t'])) == 'func' or nonref(e['t']).lam):
            r = escapes(P, fa, F, p, seen, depth)
            if r:
                return r
            continue
        if k == 'call':
            if e.get('o') == eid or e.get('fx') == eid:
                continue
            d = P.decls.get(e.get('c'))
            if d is None:
                return 'handed to an unknown function'
            i = e['a'].index(eid) if eid in e['a'] else -1
            if d.get('op') == '==' or e.get('op') in ('==', '!='):
                continue
            if not d['mine']:
                if d['name'].startswith('std::') and not d.get('clsq'):
                    continue        # an algorithm of the library calls it only
                if d['name'].rsplit('::', 1)[-1] == 'operator()':
                    continue
                return 'handed to %s' % d['name']
            G = P.fns.get(e['c'])
            if G is None:
                return 'handed to %s' % d['name']
            v = G.params[i]['v']
            if (G.id, v) in seen:
                continue
            seen.add((G.id, v))
            r = var_escapes(P, fa, G, v, seen, depth + 1)
            if r:
                return r
            continue
        if k == 'lambda':
            return 'captured by another closure in %s' % F.short
        return 'used in %s' % pp.ex(P, F, p)[:60]
    return None


def var_escapes(P, fa, F, v, seen, depth):
    for e in list(F.ex.values()):
        if e['k'] == 'var' and e['v'] == v:
            r = escapes(P, fa, F, e['id'], seen, depth)
            if r:
                return r
        if e['k'] == 'lambda':
            for c in e['caps']:
                if c.get('v') == v:
                    if c.get('byref'):
                        r = escapes(P, fa, F, e['id'], seen, depth)
                        if r:
                            return r
                    else:
                        r = escapes(P, fa, F, e['id'], seen, depth)
                        if r:
                            return 'captured by a closure that is ' + r
    return None


def closures(P, R, fa):
    n = m = 0
    for F in P.fns.values():
        for e in F.ex.values():
            if e['k'] != 'lambda':
                continue
            n += 1
            byref = [c for c in e['caps'] if c.get('byref') or c.get('this')]
            if not byref:
                # captured raw pointers are references as well
                byref = [c for c in e['caps'] if c.get('t') is not None and c['t'].k == 'ptr' or c.get('t') is not None and tkind(nonref(c['t'])) == 'iter']
            if not byref:
                R.add('closure in %s' % F.short, F.where(e['l']), True)
                continue
            m += 1
            r = escapes(P, fa, F, e['id'], set())
            R.add('closure in %s' % F.short, F.where(e['l']), r is None,
                  'captures %s by reference and is %s' % (', '.join(str(c.get('v', 'this')).split(':')[1] if c.get('v') else 'this' for c in byref), r))
    R.need(n >= 20, 'only %d closures found' % n)
    R.stats['closures'] = n
    R.stats['closures_by_reference'] = m


def results(P, R, fa):
    for F in P.fns.values():
        r = F.ret
        if r is None or not (r.ref or r.rref or r.k == 'ptr'):
            continue
        bad = None
        for b in F.blocks.values():
            for el in b['els']:
                if el[0] != 'ret':
                    continue
                x = el[1] if isinstance(el[1], int) else el[1].get('e', -1)
                if x is None or x < 0:
                    continue
                w = local_root(P, F, x, r.k == 'ptr')
                if w:
                    bad = w
        R.add('result of %s' % F.short, F.where(), bad is None, 'returns a reference to ' + str(bad))


def isref(F, v):
    for p in F.params:
        if p['v'] == v:
            return p['t'].ref or p['t'].rref
    for b in F.blocks.values():
        for el in b['els']:
            if el[0] == 'decl' and el[1]['v'] == v:
                return el[1].get('static') or el[1]['t'].ref or el[1]['t'].rref
    return True     # captured or global


def local_root(P, F, x, pointer, d=0):
    """the local object an lvalue (or the pointer to it) belongs to; None: not a local"""
    if d > 20 or x < 0:
        return None
    e = F.ex[x]
    k = e['k']
    if k == 'var':
        if pointer or e.get('glob'):
            return None
        if isref(F, e['v']):
            i = init(F, e['v'])
            return local_root(P, F, i, False, d + 1) if i is not None and i >= 0 and not any(p['v'] == e['v'] for p in F.params) else None
        return 'the variable ' + e['v'].split(':')[1]
    if k == 'un' and e['op'] == '&':
        return local_root(P, F, e['e'], False, d + 1)
    if k == 'un' and e['op'] == '*':
        return local_root(P, F, e['e'], True, d + 1)
    if k == 'mem':
        return local_root(P, F, e['b'], bool(e['arrow']), d + 1)
    if k == 'load':
        return None if not pointer else local_root(P, F, e['e'], True, d + 1)
    if k in ('cast', 'opaque'):
        return local_root(P, F, e['e'], pointer, d + 1) if e.get('e', -1) >= 0 else None
    if k == 'cond':
        return local_root(P, F, e['e'], pointer, d + 1) or local_root(P, F, e['r'], pointer, d + 1)
    if k == 'idx':
        return None
    if k == 'ctor':
        return 'a temporary' if not pointer and tkind(nonref(e['t'])) in ('cont', 'rec', 'string') and not e.get('lv') else None
    if k == 'call':
        dd = P.decls.get(e.get('c'))
        n = dd['name'].rsplit('::', 1)[-1] if dd else ''
        if not e.get('lv') and not pointer:
            return 'a temporary' if tkind(nonref(e['t'])) in ('cont', 'rec') else None
        o = e.get('o', -1)
        # an element or the content of a local container
        if o >= 0 and tkind(nonref(F.ex[o]['t'])) == 'cont' and not e.get('arrow') and dd is not None and not dd['mine'] and n in ('operator[]', 'at', 'front', 'back', 'c_str', 'data'):
            return local_root(P, F, o, False, d + 1)
        if dd is not None and dd['mine'] and o >= 0 and not e.get('arrow') and tkind(nonref(F.ex[o]['t'])) in ('cont', 'rec') and (e.get('lv') or pointer):
            # a member function that returns a part of the object itself
            G = P.fns.get(e['c'])
            if G is not None and own_part(P, G):
                return local_root(P, F, o, False, d + 1)
        return None
    return None


def init(F, v):
    for b in F.blocks.values():
        for el in b['els']:
            if el[0] == 'decl' and el[1]['v'] == v:
                return el[1].get('e', -1)
    return None


def own_part(P, G, d=0):
    """does the member function return a reference into its own object"""
    if not (G.ret.ref or G.ret.k == 'ptr') or d > 4:
        return False
    for b in G.blocks.values():
        for el in b['els']:
            if el[0] != 'ret':
                continue
            x = el[1] if isinstance(el[1], int) else el[1].get('e', -1)
            if x is not None and x >= 0 and into_this(P, G, x, d):
                return True
    return False


def into_this(P, G, x, d):
    e = G.ex[x]
    k = e['k']
    if k == 'mem':
        b = G.ex[e['b']]
        if b['k'] == 'this':
            return True
        return not e['arrow'] and into_this(P, G, e['b'], d)
    if k == 'un' and e['op'] == '*' and G.ex[e['e']]['k'] == 'this':
        return True
    if k in ('cast', 'opaque') and e.get('e', -1) >= 0:
        return into_this(P, G, e['e'], d)
    if k == 'cond':
        return into_this(P, G, e['e'], d) or into_this(P, G, e['r'], d)
    if k == 'call' and e.get('o', -1) >= 0:
        dd = P.decls.get(e.get('c'))
        o = G.ex[e['o']]
        n = dd['name'].rsplit('::', 1)[-1] if dd else ''
        if tkind(nonref(o['t'])) == 'cont' and n in ('operator[]', 'at', 'front', 'back') and not (dd['mine'] and tkind(nonref(o['t'])) != 'cont'):
            return o['k'] == 'this' or into_this(P, G, e['o'], d)
    return False


def references(P, R, fa):
    n = 0
    for F in P.fns.values():
        for b in F.blocks.values():
            for el in b['els']:
                if el[0] != 'decl' or not el[1]['t'].ref and not el[1]['t'].rref or el[1].get('e', -1) < 0:
                    continue
                n += 1
                x = el[1]['e']
                w = temp_root(P, F, x, True)
                R.add('reference %s in %s' % (el[1]['v'].split(':')[1], F.short), F.where(F.ex[x].get('l')), w is None, 'bound into %s, which ends with the statement' % w)
    R.need(n >= 20, 'only %d local references found' % n)


def temp_root(P, F, x, top, d=0):
    """is the lvalue x part of a temporary (other than the temporary as a whole, whose lifetime the reference extends)"""
    if d > 20 or x < 0:
        return None
    e = F.ex[x]
    k = e['k']
    if k in ('cast', 'opaque', 'load'):
        return temp_root(P, F, e['e'], top, d + 1) if e.get('e', -1) >= 0 else None
    if k == 'mem':
        if e['arrow']:
            return smart_temp(P, F, e['b'], d + 1)
        return None if top and not F.ex[e['b']].get('lv') else temp_root(P, F, e['b'], False, d + 1)
    if k == 'ctor':
        return None if top else 'a temporary %s' % nonref(e['t']).s[:40]
    if k == 'cond':
        return temp_root(P, F, e['e'], top, d + 1) or temp_root(P, F, e['r'], top, d + 1)
    if k == 'un' and e['op'] == '*':
        return smart_temp(P, F, e['e'], d + 1)
    if k == 'call':
        if not e.get('lv'):
            if tkind(nonref(e['t'])) == 'smart':
                return None if top else None
            return None if top else 'the temporary %s' % pp.ex(P, F, x)[:60]
        dd = P.decls.get(e.get('c'))
        n = dd['name'].rsplit('::', 1)[-1] if dd else ''
        o = e.get('o', -1)
        if n in ('operator*', 'operator->') and o >= 0 and tkind(nonref(F.ex[o]['t'])) == 'smart':
            return smart_temp(P, F, o, d + 1)
        if o >= 0 and not e.get('arrow') and dd is not None:
            if not dd['mine'] or (P.fns.get(e['c']) is not None and own_part(P, P.fns[e['c']])):
                if tkind(nonref(F.ex[o]['t'])) in ('cont', 'rec'):
                    return temp_root(P, F, o, False, d + 1)
        return None
    return None


FACTORY = ('make_shared', 'make_unique', 'allocate_shared')


def smart_temp(P, F, x, d):
    """x: a pointer valued expression that is dereferenced; is it the only owner, and a temporary"""
    if x < 0 or d > 20:
        return None
    e = F.ex[x]
    if e['k'] in ('cast', 'load', 'opaque') and e.get('e', -1) >= 0:
        return smart_temp(P, F, e['e'], d + 1)
    if e['k'] == 'call':
        dd = P.decls.get(e.get('c'))
        n = dd['name'].rsplit('::', 1)[-1] if dd else ''
        if n in ('operator->', 'get') and e.get('o', -1) >= 0:
            return smart_temp(P, F, e['o'], d + 1)
        if n in FACTORY:
            return 'the temporary object of %s' % n
        if dd is not None and dd['mine'] and not e.get('lv') and tkind(nonref(e['t'])) == 'smart':
            G = P.fns.get(e['c'])
            if G is not None and makes(P, G):
                return 'the object made by %s' % G.short
    return None


def makes(P, G):
    """does the function return an object it has made itself (so that nobody else owns it)"""
    for b in G.blocks.values():
        for el in b['els']:
            if el[0] == 'ret':
                x = el[1] if isinstance(el[1], int) else el[1].get('e', -1)
                for _ in range(8):
                    if x is None or x < 0:
                        break
                    e = G.ex[x]
                    if e['k'] == 'call' and P.decls.get(e.get('c')) and P.decls[e['c']]['name'].rsplit('::', 1)[-1] in FACTORY:
                        return True
                    if e['k'] in ('cast', 'load', 'opaque'):
                        x = e.get('e', -1)
                    elif e['k'] == 'ctor' and e['a']:
                        x = e['a'][0]
                    elif e['k'] == 'var' and not e.get('glob') and not isref(G, e['v']):
                        x = init(G, e['v'])
                    else:
                        break
    return False


def owners(P, R, fa):
    U = fa.ucls
    for F in P.fns.values():
        for e in F.ex.values():
            if e['k'] != 'new':
                continue
            w = owned(P, F, e['id'], U)
            R.add('new in %s' % F.short, F.where(e.get('l')), w is None, 'the new object is %s' % w)
        for e in F.ex.values():
            if e['k'] == 'delete':
                ok = F.cls == fa.tag_cls
                R.add('delete in %s' % F.short, F.where(e.get('l')), ok, 'storage is released by hand outside the tagged value')
    virt = {d['clsq'] for d in P.decls.values() if d.get('virtual') and d.get('clsq') and d['mine']}
    for q in sorted(virt):
        derived = [c for c, r in P.records.items() if any(nonref(b['t']).s.endswith(q) or nonref(b['t']).rec == q for b in r['bases'])]
        if not derived:
            continue
        dt = [d for d in P.decls.values() if d.get('clsq') == q and d['name'].rsplit('::', 1)[-1].startswith('~')]
        R.add('destructor of %s' % q, q, bool(dt) and all(d.get('virtual') for d in dt), 'derived objects are deleted through it without a virtual destructor')


def owned(P, F, x, U):
    ps, decl = parents(F)
    for el in decl.get(x, ()):
        if el[0] == 'ret':
            return None
        if el[0] == 'init':
            return None
        if el[0] == 'decl' and tkind(nonref(el[1]['t'])) == 'smart':
            return None
        return 'kept in the plain variable %s' % el[1].get('v', '?').split(':')[1]
    for p in ps.get(x, ()):
        e = F.ex[p]
        if e['k'] in ('cast', 'opaque', 'load'):
            return owned(P, F, p, U)
        if e['k'] == 'ctor' and tkind(nonref(e['t'])) == 'smart':
            return None
        if e['k'] == 'call' and P.decls.get(e.get('c')) and P.decls[e['c']]['name'].rsplit('::', 1)[-1] == 'reset':
            return None
        if e['k'] == 'asg':
            l = F.ex[e['e']]
            if l['k'] == 'mem' and l.get('cls') == U:
                return None
            return 'assigned to the plain pointer %s' % pp.ex(P, F, e['e'])[:40]
        return 'used in %s' % pp.ex(P, F, p)[:50]
    return 'lost'


UNLOAD = ('dlclose', 'FreeLibrary')
LOOKUP = ('dlsym', 'GetProcAddress')


def reaching(P, fa, names):
    """functions from which one of the named C functions can be called"""
    out = {d['id'] for d in P.decls.values() if d['name'] in names}
    for F in P.fns.values():
        if any(e['k'] == 'call' and e.get('c') in out for e in F.ex.values()):
            out.add(F.id)
    more = True
    while more:
        more = False
        for f, cs in fa.calls.items():
            if f not in out and any(c in out for c in cs):
                out.add(f)
                more = True
    return out


def unload(P, R, fa):
    """an object whose code comes from a library is gone before the library is: at every call that can unload a library no local
    owner of such an object is still set"""
    down, up = reaching(P, fa, UNLOAD), reaching(P, fa, LOOKUP)
    for F in P.fns.values():
        calls = [e['id'] for e in F.ex.values() if e['k'] == 'call' and e.get('c') in down]
        if not calls:
            continue
        owners_ = set()
        for b in F.blocks.values():
            for el in b['els']:
                if el[0] == 'decl' and tkind(nonref(el[1]['t'])) == 'smart' and el[1].get('e', -1) >= 0:
                    if sets(F, el[1]['e'], up):
                        owners_.add(el[1]['v'])
        for e in F.ex.values():
            if e['k'] == 'call' and e.get('op') == '=' and e.get('o', -1) >= 0 and F.ex[e['o']]['k'] == 'var' and sets(F, e['a'][0], up):
                owners_.add(F.ex[e['o']]['v'])
        for v in sorted(owners_):
            bad = held(F, v, calls)
            R.add('library objects in %s' % F.short, F.where(bad), bad is None,
                  'variable %s can still own an object of the library that this call unloads' % v.split(':')[1])


def sets(F, x, fs, d=0):
    e = F.ex.get(x)
    if e is None or d > 12:
        return False
    return e['k'] == 'call' and e.get('c') in fs or any(sets(F, c, fs, d + 1) for c in children(e))


def isnull(F, x):
    for _ in range(8):
        e = F.ex.get(x)
        if e is None:
            return False
        if e['k'] in ('null', 'nullptr'):
            return True
        if e['k'] == 'ctor' and not e['a']:
            return True
        if e['k'] == 'ctor' and len(e['a']) == 1:
            x = e['a'][0]
        elif e['k'] in ('cast', 'load', 'opaque'):
            x = e.get('e', -1)
        else:
            return e['k'] == 'int' and e.get('val') == 0
    return False


def held(F, v, calls):
    """the line of a call before which v may be set, or None"""
    start = F.entry
    seen, st = set(), [(start, False)]
    while st:
        b, on = st.pop()
        if (b, on) in seen:
            continue
        seen.add((b, on))
        mid = {on}
        for el in F.blocks[b]['els']:
            if el[0] == 'decl' and el[1]['v'] == v:
                on = el[1].get('e', -1) >= 0 and not isnull(F, el[1]['e'])
            elif el[0] == 'dtor' and isinstance(el[1], dict) and el[1].get('v') == v:
                on = False
            elif el[0] == 'e':
                e = F.ex[el[1]]
                if e['k'] == 'call' and e.get('o', -1) >= 0 and F.ex[e['o']]['k'] == 'var' and F.ex[e['o']]['v'] == v:
                    if e.get('op') == '=':
                        on = not isnull(F, e['a'][0])
                    elif (F.ex[e['o']].get('lv') and str(e.get('c', '')).find('@F@reset#') >= 0):
                        on = bool(e['a'])
                elif el[1] in calls and on:
                    return e.get('l')
            mid.add(on)
        for s in F.blocks[b]['succ']:
            if s is not None and s >= 0:
                st.append((s, on))
    return None
