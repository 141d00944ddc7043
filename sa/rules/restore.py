"""P08: the bookkeeping of a session survives every construct, however it is left.

The registers are the members of the scope class the evaluator steers itself with.  For every function a forward analysis
computes which registers of which scopes may differ from their value at the entry, at every normal exit and at every
operation that can let an exception out; a register is clean again when the value saved from it is stored back or when an
object that restores it in its destructor dies.  What a callee leaves changed is mapped to the caller's scopes through the
arguments.  Roots are all functions the evaluator calls through function values and the callbacks of the debugger."""
from absint import *
from rules import common, registry, errors

STEER = ('Debugger', 'Tracing', 'Tokens', 'Next', 'ClosureChain', 'ModuleName', 'IsInEval', 'IsInReturn', 'NeedsLValue', 'UserData', 'UserDoc', 'Name', 'GlobalScope', 'Output', 'Input')
EVAL = {'ModuleName', 'Tracing', 'Output', 'Input', 'Tokens', 'IsInReturn'}     # an evaluation establishes them for the scope it is given
SETUP = {'Tracing', 'Output', 'Input'}
MAXP = 3


class State:
    __slots__ = ('dirt', 'guards', 'saved')

    def __init__(self, dirt=None, guards=None, saved=None):
        self.dirt = dirt or {}          # (path, field) -> origin (function, line)
        self.guards = guards or {}      # var -> (try, root vars, {reg: dirt at construction or None})
        self.saved = saved or {}        # local -> reg

    def copy(self):
        return State(dict(self.dirt), dict(self.guards), dict(self.saved))

    def join(self, o):
        ch = False
        for r, w in o.dirt.items():
            if r not in self.dirt:
                self.dirt[r] = w
                ch = True
        for v in list(self.guards):
            if v not in o.guards:
                del self.guards[v]
                ch = True
            else:
                a, b = self.guards[v], o.guards[v]
                snap = dict(a[2])
                for r in list(snap):
                    if r not in b[2]:
                        del snap[r]
                    elif snap[r] is None and b[2][r] is not None:
                        snap[r] = b[2][r]
                if snap != a[2]:
                    self.guards[v] = (a[0], a[1], snap)
                    ch = True
        for v in list(self.saved):
            if o.saved.get(v) != self.saved[v]:
                del self.saved[v]
                ch = True
        return ch


class Restore:
    def __init__(self, P, fa, R):
        self.P, self.fa = P, fa
        self.X = errors.Exc(P, fa)
        S = [q for q, r in P.records.items() if len({f['name'] for f in r['fields']} & set(STEER)) >= 10]
        R.need(len(S) == 1, 'the class of scopes was not found: %s' % S)
        self.S = S[0]
        self.regs = {f['name'] for f in P.records[self.S]['fields']} & set(STEER)
        R.need(len(self.regs) >= 14, 'registers not found')
        self.M = {f: {} for f in P.fns}         # function -> {(path, field): origin}; at any exit
        self.paths = {}
        self.gd = {}
        self.guard_classes()
        self.callers = {}
        self.solve()

    # -- names of scopes
    def strip(self, F, i):
        """through casts, copies, the operators of smart pointers"""
        for _ in range(12):
            e = F.ex.get(i)
            if e is None:
                return None
            k = e['k']
            if k in ('cast', 'load'):
                i = e['e']
            elif k == 'ctor' and len(e.get('a', ())) == 1:
                i = e['a'][0]
            elif k == 'call' and e.get('op') in ('->', '*') and not e.get('a'):
                i = e.get('o')
            elif k == 'call' and e.get('c') and (self.P.decls.get(e['c']) or {}).get('name') in ('std::move', 'std::forward') and e.get('a'):
                i = e['a'][0]
            elif k == 'call' and e.get('o') is not None and (self.P.decls.get(e.get('c')) or {}).get('name', '').endswith('::get') and not e.get('a'):
                i = e['o']
            elif k == 'un' and e.get('op') in ('*', '&'):
                i = e['e']
            else:
                return e
        return F.ex.get(i)

    def vars(self, F):
        """local variable -> the expressions it is set from"""
        if 'p08vars' not in F.extra:
            d = {}
            for b in F.blocks.values():
                for x in b['els']:
                    if x[0] == 'decl' and x[1].get('e') is not None:
                        d.setdefault(x[1]['v'], []).append(x[1]['e'])
            for e in F.ex.values():
                if e['k'] == 'asg' and F.ex[e['e']]['k'] == 'var':
                    d.setdefault(F.ex[e['e']]['v'], []).append(e['r'])
                elif e['k'] == 'call' and e.get('op') == '=' and e.get('o') is not None and F.ex[e['o']]['k'] == 'var' and e.get('a'):
                    d.setdefault(F.ex[e['o']]['v'], []).append(e['a'][0])
            F.extra['p08vars'] = d
        return F.extra['p08vars']

    def path(self, F, i, seen=frozenset()):
        """the objects an expression may denote, as access paths from the entry of F"""
        e = self.strip(F, i)
        if e is None:
            return {'?'}
        k = e['k']
        if k == 'var':
            v = e['v']
            for n, p in enumerate(F.params):
                if p['v'] == v:
                    r = {'p%d' % n}
                    for x in self.vars(F).get(v, ()):
                        if v not in seen:
                            r |= self.path(F, x, seen | {v})
                    return r
            if v.startswith('g:'):
                return {v}
            xs = self.vars(F).get(v)
            if e.get('cap') or not xs:
                return {v}
            if v in seen:
                return set()
            out = set()
            for x in xs:
                out |= self.path(F, x, seen | {v})
            return out
        if k == 'this':
            return {'this'}
        if k == 'mem':
            out = set()
            for b in self.path(F, e['b'], seen):
                out.add(b if b.startswith(('?', 'fresh')) or b.count('.') >= MAXP else b + '.' + e['f'])
            return out
        if k == 'cond':
            return self.path(F, e['e'], seen) | self.path(F, e['r'], seen)
        if k == 'new':
            return {'fresh'}
        if k == 'nullptr' or k == 'null':
            return set()
        if k in ('call', 'ctor'):
            d = self.P.decls.get(e.get('c')) or {}
            if d.get('name') in ('std::make_shared', 'std::make_unique') or k == 'ctor':
                return {'fresh'}
            if d.get('name', '').endswith('::CreateDefaultScope'):
                return {'fresh'}
            return {'?'}
        return {'?'}

    def reg(self, F, i):
        """the registers an lvalue expression may denote"""
        e = F.ex.get(i)
        while e is not None and (e['k'] == 'cast' or e['k'] == 'load'):
            e = F.ex.get(e['e'])
        if e is None or e['k'] != 'mem' or e['f'] not in self.regs or e.get('cls') != self.S:
            return set()
        return {(p, e['f']) for p in self.path(F, e['b'])}

    def read(self, F, i):
        """the register a value was copied from"""
        for _ in range(8):
            r = self.reg(F, i)
            if r:
                return next(iter(r)) if len(r) == 1 else None
            e = F.ex.get(i)
            if e is None:
                return None
            if e['k'] in ('cast', 'load'):
                i = e['e']
            elif e['k'] == 'ctor' and len(e.get('a', ())) == 1:
                i = e['a'][0]
            else:
                return None

    # -- classes that restore in their destructor
    def guard_classes(self):
        """constructor -> [(parameter, field or None)]: what the object restores when it dies"""
        P = self.P
        self.dt = {}
        for F in P.fns.values():
            if F.cls and F.name.rsplit('::', 1)[-1].startswith('~'):
                back = []
                for e in F.ex.values():
                    if e['k'] == 'asg' and e.get('op') in (None, '='):
                        l, r = e['e'], e['r']
                    elif e['k'] == 'call' and e.get('op') == '=' and e.get('o') is not None and e.get('a'):
                        l, r = e['o'], e['a'][0]
                    else:
                        continue
                    s = self.member(F, r)
                    if s is None:
                        continue
                    le = F.ex.get(l)
                    m = self.member(F, l)
                    if m is not None:
                        back.append((m, None, s))
                    elif le['k'] == 'mem' and le['f'] in self.regs and le.get('cls') == self.S:
                        m = self.member(F, le['b'])
                        if m is not None:
                            back.append((m, le['f'], s))
                if back:
                    self.dt[F.cls] = (F, back)
        for _ in range(3):
            for F in P.fns.values():
                if not F.cls or not (P.decls.get(F.id) or {}).get('ctor'):
                    continue
                inits = {}
                for b in F.blocks.values():
                    for x in b['els']:
                        if x[0] == 'init' and x[1].get('e') is not None and x[1].get('f'):
                            inits[x[1]['f']] = x[1]['e']
                out = []
                if F.cls in self.dt:
                    for m, f, s in self.dt[F.cls][1]:
                        if m not in inits or s not in inits:
                            continue
                        pm = self.path(F, inits[m])
                        if len(pm) != 1:
                            continue
                        pm = next(iter(pm))
                        if f is None:
                            if pm.startswith('p') and self.path(F, inits[s]) == {pm} and self.isref(F, pm):
                                out.append((pm, None))
                        elif self.read(F, inits[s]) == (pm, f):
                            out.append((pm, f))
                for m, i in inits.items():
                    e = F.ex.get(i)
                    if e is not None and e['k'] == 'ctor' and e.get('c') in self.gd:
                        out += self.protects(F, e)
                if out:
                    self.gd[F.id] = sorted(set(out), key=str)

    def isref(self, F, p):
        return p[1:].isdigit() and F.params[int(p[1:])]['t'].s.rstrip().endswith('&')

    def member(self, F, i):
        """the own data member an expression reads"""
        e = self.strip(F, i)
        if e is not None and e['k'] == 'mem' and self.strip(F, e['b'])['k'] == 'this' and not (e['f'] in self.regs and e.get('cls') == self.S):
            return e['f']
        return None

    def protects(self, F, e):
        """registers (paths of F) an object constructed by the expression restores"""
        out = []
        for p, f in self.gd.get(e.get('c'), ()):
            n = int(p[1:].split('.')[0])
            rest = p[1 + len(str(n)):]
            if n >= len(e['a']):
                continue
            if f is None:
                out += list(self.reg(F, e['a'][n]))
            else:
                out += [(q + rest, f) for q in self.path(F, e['a'][n])]
        return out

    # -- effects of one element
    def map(self, F, e, eff, callee, this):
        """what a callee leaves changed, in terms of F"""
        out = {}
        args = list(e.get('a', ()))
        for (p, f), w in eff.items():
            base, dot, rest = p.partition('.')
            rest = dot + rest
            if base.startswith('p') and base[1:].isdigit():
                n = int(base[1:])
                if n >= len(args):
                    continue
                if f is None:
                    for r in self.reg(F, args[n]):
                        out.setdefault(r, w)
                    continue
                ps = self.path(F, args[n])
            elif base == 'this':
                ps = this
            elif base.startswith(('g:', '?')):
                ps = {base}
            elif base.startswith('v:'):
                ps = {base}         # captured by a lambda: the variable of the enclosing function
                if base in self.vars(F):
                    ps = self.path_of_var(F, base)
            else:
                ps = {'?'}
            for q in ps:
                if q.startswith('fresh'):
                    continue
                t = q + rest
                if t.count('.') > MAXP:
                    t = '?'
                out.setdefault((t, f), w)
        return out

    def path_of_var(self, F, v):
        out = set()
        for x in self.vars(F)[v]:
            out |= self.path(F, x, frozenset({v}))
        return out

    def effects(self, F, e):
        """(registers changed, register set from a saved value or None)"""
        P, fa = self.P, self.fa
        k = e['k']
        out = {}
        w = (F.short, F.where(e.get('l')))
        if k == 'asg':
            for r in self.reg(F, e['e']):
                out[r] = w
            t = F.ex[e['e']]
            if t['k'] == 'var':
                for n, p in enumerate(F.params):
                    if p['v'] == t['v'] and p['t'].s.rstrip().endswith('&'):
                        out[('p%d' % n, None)] = w
            return out
        if k == 'un' and e.get('op') in ('++', '--', 'post++', 'pre++'):
            for r in self.reg(F, e['e']):
                out[r] = w
            return out
        if k not in ('call', 'ctor'):
            return out
        c = e.get('c')
        d = P.decls.get(c) or {}
        if k == 'call' and e.get('o') is not None and self.reg(F, e['o']) and not d.get('const') and e.get('op') not in ('->', '*', '()', 'bool') and not d.get('static'):
            n = d.get('name', '').rsplit('::', 1)[-1]
            if e.get('op') == '=' or n in ('operator=', 'reset', 'swap', 'clear', 'push_back', 'pop_back', 'erase', 'insert', 'assign', 'append', 'emplace_back', 'resize'):
                for r in self.reg(F, e['o']):
                    out[r] = w
        if k == 'call' and e.get('op') == '=' and e.get('o') is not None and F.ex[e['o']]['k'] == 'var':
            for n, p in enumerate(F.params):
                if p['v'] == F.ex[e['o']]['v'] and p['t'].s.rstrip().endswith('&') and not p['t'].s.startswith('const'):
                    out[('p%d' % n, None)] = w
        tg = set()
        if c in P.fns:
            tg.add(c)
        if e.get('virt'):
            tg |= {x for x in fa.over.get(c, ()) if x in P.fns}
        if d and not d.get('mine') and d.get('name') not in ('std::make_shared', 'std::make_unique'):
            for a in e.get('a', ()):
                l = self.X.lam(F, a)
                if l and not d['name'].startswith('std::function'):
                    tg.add(l)
        if k == 'call' and not tg and (not c or d.get('name', '').endswith('operator()')):
            # a function value: native functions are analysed themselves; only the request to return may be left in the scope
            for a in e.get('a', ()) if len(e.get('a', ())) > 1 else ():
                if self.S in F.ex[a]['t'].s:
                    for p in self.path(F, a):
                        if not p.startswith('fresh'):
                            out.setdefault((p, 'IsInReturn'), w)
        this = {'fresh'} if k == 'ctor' else (self.path(F, e['o']) if e.get('o') is not None else {'this'})
        for t in tg:
            if (P.decls.get(t) or {}).get('ctor') and t in self.gd:
                pass        # what it sets up it takes back
            for r, o in self.map(F, e, self.M[t], t, this).items():
                out.setdefault(r, o)
        return out

    def throws(self, F, i, e):
        """exception types that can leave the expression"""
        return self.bysite(F).get(i, ())

    def bysite(self, F):
        if 'p08thr' not in F.extra:
            d = {}
            X = self.X
            ind = {}
            for f in X.indirect_targets:
                ind.update(X.out.get(f, {}))
            for kind, x, l, tr, i in X.sites[F.id]:
                if kind == 'throw':
                    ts = {x: 1}
                elif kind == 'rethrow':
                    h = X.handler_of(F, x)
                    ts = dict(X.entering.get((F.id, h), {})) if h is not None else {}
                elif kind == 'indirect':
                    ts = ind
                else:
                    ts = {}
                    for c in x:
                        ts.update(X.out.get(c, {}))
                if ts:
                    d.setdefault(i, (tr, {}))[1].update(ts)
            F.extra['p08thr'] = d
        return F.extra['p08thr']

    def inside(self, F, t, outer):
        while t is not None:
            if t == outer:
                return True
            t = F.tries[t].get('parent') if t in F.tries else None
        return False

    def release(self, s, vs):
        for v in vs:
            g = s.guards.pop(v, None)
            if g is None:
                continue
            for r, was in g[2].items():
                if was is None:
                    s.dirt.pop(r, None)
                else:
                    s.dirt[r] = was

    def analyse(self, F):
        P = self.P
        exits = {}
        st = {F.entry: State()}
        work = [F.entry]
        n = 0
        thr = self.bysite(F)

        def flow(b, s):
            if b < 0:
                return
            if b not in st:
                st[b] = s.copy()
                work.append(b)
            elif st[b].join(s) and b not in work:
                work.append(b)

        def leave(s, why):
            t = s.copy()
            self.release(t, list(reversed(list(t.guards))))
            for r, w in t.dirt.items():
                exits.setdefault(r, (w, why))

        def raised(s, tr, types, l):
            left = dict(types)
            while tr is not None and tr in F.tries and left:
                t = s.copy()
                self.release(t, [v for v in reversed(list(t.guards)) if self.inside(F, t.guards[v][0], tr)])
                for h in F.tries[tr]['handlers']:
                    c = F.blocks[h]['catch']
                    hit = [x for x in left if 'all' in c or nonref(c['t']).rec in self.X.bases(x)]
                    if hit:
                        flow(h, t)
                    for x in hit:
                        del left[x]
                tr = F.tries[tr].get('parent')
            if left:
                leave(s, 'an exception of line %s' % l)
        while work:
            b = work.pop()
            s = st[b].copy()
            n += 1
            if n > 4000:
                raise RuntimeError('no fixpoint in ' + F.name)
            for x in F.blocks[b]['els']:
                if x[0] == 'e':
                    i = x[1]
                    e = F.ex[i]
                    eff = self.effects(F, e)
                    if e['k'] in ('asg',) or e['k'] == 'call' and e.get('op') == '=':
                        le, r = (e['e'], e['r']) if e['k'] == 'asg' else (e.get('o'), (e.get('a') or [None])[0])
                        if le is not None and r is not None:
                            t = F.ex[le]
                            if t['k'] == 'var':
                                s.saved.pop(t['v'], None)
                                for v in list(s.guards):
                                    if t['v'] in s.guards[v][1]:
                                        del s.guards[v]
                                q = self.read(F, r)
                                if q is not None and q not in s.dirt:
                                    s.saved[t['v']] = q
                            rg = self.reg(F, le)
                            ve = self.strip(F, r)
                            if len(rg) == 1 and ve is not None and ve['k'] == 'var' and s.saved.get(ve['v']) in rg:
                                s.dirt.pop(next(iter(rg)), None)
                                eff = {}
                    if i in thr:
                        # the callee may have changed it before it failed, or not at all
                        t = s.copy()
                        if e['k'] in ('call', 'ctor'):
                            for r, w in eff.items():
                                t.dirt.setdefault(r, w)
                        raised(t, thr[i][0], thr[i][1], e.get('l'))
                    for r, w in eff.items():
                        if not r[0].startswith('fresh'):
                            s.dirt.setdefault(r, w)
                elif x[0] == 'decl' and x[1].get('e') is not None:
                    v, i = x[1]['v'], x[1]['e']
                    e = F.ex.get(i)
                    q = self.read(F, i)
                    if q is not None and q not in s.dirt and not x[1]['t'].s.rstrip().endswith('&'):
                        s.saved[v] = q
                    if e is not None and e['k'] == 'ctor' and e.get('c') in self.gd:
                        rs = self.protects(F, e)
                        roots = {y['v'] for y in self.subvars(F, i)}
                        # (what its constructor changes is already in the state: it takes that back)
                        own = self.map(F, e, self.M.get(e['c'], {}), e['c'], {'fresh'})
                        s.guards[v] = (e.get('try'), roots, {r: (s.dirt.get(r) if r not in own or s.dirt.get(r) != own[r] else None) for r in rs})
                elif x[0] == 'dtor':
                    v = x[1].get('v')
                    if v in s.guards:
                        self.release(s, [v])
            succ = F.blocks[b]['succ']
            if not [y for y in succ if y >= 0] or b == F.exit:
                if b == F.exit:
                    leave(s, 'the return')
            for y in succ:
                if y >= 0:
                    flow(y, s)
        return exits

    def subvars(self, F, i, d=0):
        e = F.ex.get(i)
        if e is None or d > 12:
            return
        if e['k'] == 'var':
            yield e
        for k in ('e', 'b', 'o', 'r'):
            if isinstance(e.get(k), int):
                yield from self.subvars(F, e[k], d + 1)
        for a in e.get('a', ()) or ():
            yield from self.subvars(F, a, d + 1)

    def solve(self):
        P, fa = self.P, self.fa
        touched = set()
        # only what can reach a store to a register matters
        base = set()
        for F in P.fns.values():
            for e in F.ex.values():
                if e['k'] == 'mem' and e['f'] in self.regs and e.get('cls') == self.S or e['k'] == 'call' and not e.get('c') or \
                        e['k'] == 'call' and (P.decls.get(e.get('c')) or {}).get('name', '').endswith('operator()'):
                    base.add(F.id)
                    break
        rel, st = set(base), list(base)
        while st:
            f = st.pop()
            for c in fa.callers.get(f, ()):
                if c in P.fns and c not in rel:
                    rel.add(c)
                    st.append(c)
        self.rel = rel
        work = sorted(rel)
        n = 0
        self.why = {}
        while work:
            f = work.pop(0)
            n += 1
            if n > 6000:
                raise RuntimeError('summaries do not converge')
            F = P.fns[f]
            ex = self.analyse(F)
            new = {}
            for (p, fd), (w, why) in ex.items():
                if F.name.endswith('::InteractiveLoop') and fd in SETUP and w[0] == F.short:
                    continue        # the interactive loop establishes the streams of the session it works for
                new[(p, fd)] = self.M[f].get((p, fd), w)
                self.why.setdefault((f, (p, fd)), why)
            if set(new) != set(self.M[f]):
                new = dict(new)
                for r, w in self.M[f].items():
                    new.setdefault(r, w)        # monotone
                self.M[f] = new
                for c in fa.callers.get(f, ()):
                    if c in rel and c not in work:
                        work.append(c)
        self.steps = n


def check(P, R, tier):
    fa = common.facts(P)
    Q = Restore(P, fa, R)
    R.stats['functions'] = len(Q.rel)
    R.stats['guards'] = len(Q.gd)
    bs, root = registry.extract(P, fa, R)
    names = {}
    for b in bs:
        if b.fn is not None:
            names.setdefault(b.fn.id, b.name)
    roots = {}
    for f, n in names.items():
        roots[f] = ('builtin %s' % n, {'IsInReturn'})
    for F in P.fns.values():
        if F.id in roots:
            continue
        if F.lam and any(Q.S in p['t'].s for p in F.params):
            roots[F.id] = ('function value in %s' % F.where().split('/')[-1].split(':')[0], {'IsInReturn'} if len(F.params) == 2 and 'vector' in F.params[0]['t'].s else set())
        elif F.short in ('Lisp::Eval', 'Lisp::SaveEval'):
            roots[F.id] = (F.short, EVAL)
        elif F.short in ('LispInterpreter::EvalAst', 'LispInterpreter::ExpandMacros'):
            roots[F.id] = (F.short, {'IsInReturn'})
    dbg = [q for q, r in P.records.items() if q.endswith('::ILispDebugger')]
    R.need(len(dbg) == 1, 'the interface of the debugger was not found')
    for c, d in P.decls.items():
        if d.get('clsq') == dbg[0] and d.get('virtual') and not d['name'].rsplit('::', 1)[-1].startswith('~'):
            for t in fa.over.get(c, ()):
                if t in P.fns and any(Q.S in p['t'].s for p in P.fns[t].params) and P.fns[t].name.rsplit('::', 1)[-1] in ('NeedsBreak', 'HitsBreakpoint', 'InteractiveLoop'):
                    roots[t] = ('callback %s' % P.fns[t].short, set())
    for f, (what, allowed) in sorted(roots.items(), key=lambda x: (x[1][0], P.fns[x[0]].line)):
        F = P.fns[f]
        bad = {}
        for (p, fd), w in Q.M[f].items():
            if fd is None or fd in allowed:
                continue
            bad.setdefault(fd, (p, w, Q.why.get((f, (p, fd)), '')))
        for fd in sorted(Q.regs):
            R.add('%s leaves %s' % (what if not F.lam else '%s:%s' % (what, ''), fd), F.where(), fd not in bad,
                  '' if fd not in bad else '%s of %s is changed in %s (%s) and not restored at %s' % (fd, bad[fd][0], bad[fd][1][0], bad[fd][1][1], bad[fd][2]))
    fresh_start(P, R, fa)


def fresh_start(P, R, fa):
    """no return of a former evaluation is pending when an evaluation starts (but for one nested in the evaluation of a text)"""
    ev = [F for F in P.fns.values() if F.short == 'Lisp::Eval']
    R.need(len(ev) == 1, 'Lisp::Eval not found')
    F = ev[0]
    S = [q for q, r in P.records.items() if 'IsInReturn' in {f['name'] for f in r['fields']}][0]

    def member(i, f):
        e = F.ex.get(i)
        while e is not None and e['k'] in ('cast', 'load'):
            e = F.ex.get(e['e'])
        return e is not None and e['k'] == 'mem' and e['f'] == f and e.get('cls') == S

    def nested(b):
        """index of the successor taken when the scope is inside the evaluation of a text"""
        i, neg = F.blocks[b].get('cond'), False
        if not isinstance(i, int):
            return None
        while True:
            e = F.ex[i]
            if e['k'] in ('cast', 'load'):
                i = e['e']
            elif e['k'] == 'un' and e.get('op') == '!':
                i, neg = e['e'], not neg
            else:
                break
        return (1 if neg else 0) if member(i, 'IsInEval') else None
    evals, pend = [], []
    seen, st = set(), [F.entry]
    while st:
        b = st.pop()
        if b in seen or b < 0:
            continue
        seen.add(b)
        cleared = False
        for x in F.blocks[b]['els']:
            if x[0] != 'e':
                continue
            e = F.ex[x[1]]
            if e['k'] == 'asg' and member(e['e'], 'IsInReturn') and F.ex[e['r']]['k'] in ('bool', 'int') and not F.ex[e['r']]['val']:
                cleared = True
                break
            if e['k'] == 'call' and (P.decls.get(e.get('c')) or {}).get('name', '').endswith('LispInterpreter::EvalAst'):
                pend.append(F.where(e.get('l')))
        if cleared:
            continue
        skip = nested(b)
        st += [y for n, y in enumerate(F.blocks[b]['succ']) if n != skip]
    evals = [e for e in F.ex.values() if e['k'] == 'call' and (P.decls.get(e.get('c')) or {}).get('name', '').endswith('LispInterpreter::EvalAst')]
    R.need(evals, 'the evaluation in Lisp::Eval was not found')
    R.add('an evaluation starts without a pending return', F.where(evals[0].get('l')), not pend, 'IsInReturn of the scope may still be set by a former evaluation at %s' % ', '.join(pend))
