"""P20: nothing is used before it has a value.

  objects   every constructor gives every scalar or pointer member a value on every path; a class with such members has a
            constructor (or the member an initialiser)
  locals    a scalar or pointer local is assigned on every path before it is read
  globals   the initialiser of a global reads no global of another unit that is itself initialised at start-up (no order is
            defined between units), and none of its own unit that comes later"""
import os
from absint import *
from rules import common


def scalars(t):
    return tkind(t) in ('int', 'bool', 'ptr', 'float', 'double', 'enum') or t.k in ('int', 'bool', 'ptr', 'float', 'double', 'enum')


def check(P, R, tier):
    fa = common.facts(P)
    objects(P, R, fa)
    locals_(P, R, fa)
    globals_(P, R, fa)


def isunion(P, q):
    return P.records[q].get('union')


def objects(P, R, fa):
    n = 0
    unions = {P.records[q] and q for q in P.records if isunion(P, q)}
    for q, r in sorted(P.records.items()):
        if isunion(P, q) or '::(' in q or not r['fields']:
            continue
        fs = [f for f in r['fields'] if scalars(f['t']) and not f.get('static')]
        if not fs:
            continue
        ctors = [F for F in P.fns.values() if F.cls == q and fa.is_ctor(F)]
        n += 1
        for F in ctors:
            d = P.decls[F.id]
            if d.get('implicit') and d.get('ctor') in ('copy', 'move'):
                continue
            E = Engine(P, fa)
            this = mk('this', F.id)
            # (a constructor that leaves it to another one is covered by that)
            other = any(el[0] == 'init' and el[1].get('deleg') for b in F.blocks.values() for el in b['els'])
            has = {mk('fld', this, f['name'], q): mk('ghost', 'has', f['name']) for f in fs}

            def on_store(E, s, l, v, has=has):
                g = has.get(l)
                if g is not None and isinstance(v, Term) and not (v.op == 'init' and root_of(v.a[0]) is root_of(l)):
                    s.env[g] = const(1)

            def setup(E, s, fr, has=has):
                for g in has.values():
                    s.env[g] = const(0)
            E.on_store = on_store
            exits = E.run_root(F, setup=setup)
            for f in fs:
                bad = False
                for st, _ in exits:
                    v = st.env.get(mk('fld', this, f['name'], q))
                    if v is None or v.op == 'init' and root_of(v.a[0]) is this:
                        bad = True
                    elif not other and v.op == 'phi' and v.a[-1] is mk('fld', this, f['name'], q) and st.env.get(mk('ghost', 'has', f['name'])) is not const(1):
                        # (paths with and without a value have been joined)
                        bad = True
                R.add('%s sets %s (%d parameters)' % (F.short, f['name'], len(F.params)), F.where(), not bad, 'member %s has no value on a path' % f['name'])
    R.need(n >= 5, 'only %d classes with scalar members found' % n)


def locals_(P, R, fa):
    n = 0
    for F in P.fns.values():
        un = {}
        for b in F.blocks.values():
            for i, el in enumerate(b['els']):
                if el[0] == 'decl' and el[1].get('e', -1) < 0 and 't' in el[1] and scalars(el[1]['t']) and not el[1].get('static'):
                    un[el[1]['v']] = (b['id'], i)
        if not un:
            continue
        n += len(un)
        # uses: element ids in evaluation order per block
        reads, writes = {}, {}
        loads = {e['e']: e['id'] for e in F.ex.values() if e['k'] == 'load'}
        for e in F.ex.values():
            if e['k'] == 'var' and e['v'] in un:
                if e['id'] in loads:
                    reads.setdefault(loads[e['id']], []).append(e['v'])
                else:
                    # plain assignment counts when the assignment is reached, anything else (reference, address) at once
                    p = [x for x in F.ex.values() if x['k'] == 'asg' and x['e'] == e['id']]
                    if p and p[0]['op'] == '=':
                        writes.setdefault(p[0]['id'], []).append(e['v'])
                    elif p:
                        reads.setdefault(e['id'], []).append(e['v'])
                    else:
                        writes.setdefault(e['id'], []).append(e['v'])
            if e['k'] == 'lambda':
                for c in e['caps']:
                    if c.get('v') in un:
                        (writes if c.get('byref') else reads).setdefault(e['id'], []).append(c['v'])
        state = {F.entry: frozenset()}
        todo = [F.entry]
        bad = {}
        while todo:
            b = todo.pop()
            cur = set(state[b])
            outs = []
            for i, el in enumerate(F.blocks[b]['els']):
                if el[0] == 'decl' and el[1]['v'] in un and un[el[1]['v']][0] == b:
                    cur.add(el[1]['v'])
                x = el[1] if el[0] == 'e' else (el[1].get('e', -1) if isinstance(el[1], dict) else el[1])
                if isinstance(x, int) and x >= 0:
                    for y in order(F, x, set()):
                        for v in reads.get(y, ()):
                            if v in cur:
                                bad.setdefault(v, F.ex[y].get('l'))
                        for v in writes.get(y, ()):
                            cur.discard(v)
            for s in F.extra['edges'][b]:
                # on an exceptional edge an assignment of this block may not have happened
                new = frozenset(cur | (state[b] if s not in F.blocks[b]['succ'] else frozenset()) | state.get(s, frozenset()))
                if s not in state or new != state[s]:
                    state[s] = new
                    todo.append(s)
        for v in un:
            R.add('local %s in %s' % (v.split(':')[1], F.short), F.where(bad.get(v)), v not in bad, 'may be read before it is assigned')
    R.stats['locals_without_initialiser'] = n


def order(F, x, seen):
    """expressions below x, operands first"""
    from prog import children
    if x in seen:
        return
    seen.add(x)
    for c in children(F.ex[x]):
        yield from order(F, c, seen)
    yield x


def globals_(P, R, fa):
    dyn = {q: g for q, g in P.globals.items() if g.get('dyn') and not g.get('local')}
    R.need(len(dyn) >= 20, 'only %d globals with an initialiser at start-up found' % len(dyn))
    greads = {}

    def reads(f, seen):
        out = set()
        st = [f]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            F = P.fns.get(x)
            if F is None:
                continue
            for e in F.ex.values():
                if e['k'] == 'var' and e['v'].startswith('g:'):
                    out.add(e['v'][2:])
            st += list(fa.calls.get(x, ()))
        return out
    for q, g in sorted(dyn.items()):
        rs = set()
        for d in g.get('deps', ()):
            if d.startswith('g:'):
                rs.add(d[2:])
            else:
                rs |= reads(d, set())
        bad = []
        for r in sorted(rs):
            h = dyn.get(r)
            if h is None or r == q:
                continue
            if h.get('deffile') != g.get('deffile'):
                # a library is initialised after the libraries it is linked to
                a, b = os.path.dirname(g['deffile']), os.path.dirname(h['deffile'])
                if a != b and b.endswith('CppLispInterpreter'):
                    continue
                bad.append('%s of %s' % (r, os.path.basename(h['deffile'])))
            elif h.get('defline', 0) > g.get('defline', 0):
                bad.append('%s, defined later' % r)
        R.add('initialiser of %s' % q, '%s:%s' % (os.path.relpath(g['deffile'], '/repo'), g.get('defline')), not bad, 'reads ' + ', '.join(bad))
