"""P29: the debugger stops where it was told to.

The class that implements the debugger of the interpreter is found by the method the evaluator asks before a call; its stop condition
is the function value the class holds, its stop flag the boolean next to it."""
from absint import *
from rules import common


def G(what, *a):
    return mk('ghost', what, *a)


def short(n):
    return n.rsplit('::', 1)[-1]


HIT, STEP, SAME, COND = (mk('sym', ('stepping', x), 'b') for x in ('hit', 'step', 'same module', 'condition'))


class Stops:
    def __init__(self, P, fa, R):
        self.P, self.fa, self.R = P, fa, R
        asks = [F for F in P.fns.values() if not F.lam and F.cls and F.short.endswith('NeedsBreak')]
        R.need(len(asks) == 1, 'the method that tells whether to stop was not found')
        self.asks = asks[0]
        self.cls = self.asks.cls
        flds = fa.fields_by_cls(self.cls)
        fns = [(c, f, t) for c, f, t in flds if tkind(t) == 'func' and 'bool' in str(t)]
        R.need(len(fns) == 1, 'the stop condition of the debugger was not found')
        self.fn = fns[0]
        mine = [F for F in P.fns.values() if F.cls == self.cls and not F.lam]
        # the flag: the boolean field the method reads
        read = {e['f'] for e in self.asks.ex.values() if e['k'] == 'mem'}
        todo, seen = [self.asks], {self.asks.id}
        while todo:
            F = todo.pop()
            read |= {e['f'] for e in F.ex.values() if e['k'] == 'mem'}
            for e in F.ex.values():
                g = P.fns.get(e.get('c')) if e['k'] == 'call' else None
                if g is not None and g.cls == self.cls and g.id not in seen and not g.loops:
                    seen.add(g.id)
                    todo.append(g)
        flags = [(c, f, t) for c, f, t in flds if f in read and str(nonref(t)) == 'Ty(bool)']
        R.need(len(flags) == 1, 'the stop flag of the debugger was not found')
        self.flag = flags[0]
        # who looks for a breakpoint: a boolean method with a loop, called by it
        called = {e.get('c') for i in seen for e in P.fns[i].ex.values() if e['k'] == 'call'}
        hits = [F for F in mine if F.id in called and F.loops and F.ret is not None and str(F.ret) == 'Ty(bool)']
        R.need(len(hits) == 1, 'the method that looks for a breakpoint was not found')
        self.hits = hits[0]
        # who sets the condition or the flag
        def reaches(F, seen):
            if any(e['k'] == 'mem' and e['f'] == self.fn[1] for e in F.ex.values()):
                return True
            gs = [P.fns[e['c']] for e in F.ex.values() if e['k'] == 'call' and e.get('c') in P.fns]
            return any(g.cls == self.cls and g.id not in seen and g is not self.asks and not g.loops and reaches(g, seen | {g.id}) for g in gs)
        self.setters = [F for F in mine if F is not self.asks and not F.loops and any(x['k'] == 'lambda' for x in F.ex.values()) and reaches(F, {F.id})]
        self.runs = [F for F in mine if short(F.name) == 'DoRun']

    def engine(self):
        E = Engine(self.P, self.fa)
        return E

    def at(self, this, f):
        return mk('fld', this, f[1], f[0])

    # ---- does it stop?
    def check_asks(self):
        E, R, F = self.engine(), self.R, self.asks
        this = mk('this', F.id)

        def on_call(E, s, fr, e, d, th):
            if d is None or th is None and d['name'].endswith('operator()'):
                return STEP
            if d['id'] == self.hits.id:
                return HIT
            return None
        E.on_call = on_call
        first = {}
        E.run_root_flag = None

        def setup(E, s, fr):
            first['v'] = E.load(s, self.at(this, self.flag), self.flag[2])
        exits = E.run_root(F, setup=setup)
        ok, okf, n = True, True, 0
        for s, rv in exits:
            for want in (True, False):
                for q in E.assume(s.copy(), rv, want):
                    n += 1
                    p, st, h = E.truth(q, first['v']), E.truth(q, STEP), E.truth(q, HIT)
                    now = E.load(q, self.at(this, self.flag), self.flag[2])
                    if want:
                        ok = ok and (p is True and st is True or h is True)
                        okf = okf and E.truth(q, now) is False
                    else:
                        ok = ok and h is False and (p is False or st is False)
                        okf = okf and (now is first['v'] or E.truth(q, now) is not None and E.truth(q, now) == p)
        R.need(n >= 2, '%s: no exit was understood' % F.short)
        R.add('%s: stops' % F.short, F.where(F.line), ok, 'it stops if and only if a step ends here or a breakpoint is hit (%d ways)' % n if ok else 'it does not stop exactly where a step ends or a breakpoint is hit')
        R.add('%s: the step is over' % F.short, F.where(F.line), okf, 'a stop ends the step, anything else leaves it' if okf else 'the stop flag after it is not right: a stop ends the step, anything else leaves it')

    # ---- the conditions of the commands
    def depth(self, e, d, th):
        return th is not None and d is not None and d.get('mine') and not e['a'] and 'LispScope' in str(d.get('clsq') or d['name']) and tkind(d['ret']) == 'int'

    def check_setter(self, F):
        E, R = self.engine(), self.R
        this = mk('this', F.id)
        E.defer_lambda = False

        def on_call(E, s, fr, e, d, th):
            if self.depth(e, d, th):
                return mk('sym', ('stepping', 'depth', d['name']), th)
            return None
        E.on_call = on_call
        root = []
        exits = E.run_root(F, setup=lambda E, s, fr: root.append(fr))
        name = short(F.name)
        flag = all(E.truth(s, E.load(s, self.at(this, self.flag), self.flag[2])) is True for s, rv in exits)
        R.add('%s: the step begins' % F.short, F.where(F.line), flag and bool(exits), 'the stop flag is set' if flag else 'the stop flag is not set')
        kinds = {self.kind(E, s, E.load(s, self.at(this, self.fn), self.fn[2]), root[0]) for s, rv in exits}
        R.need(kinds and None not in kinds, '%s: the stop condition it sets was not understood' % F.short)
        low = name.lower()
        want = 'out' if 'out' in low else 'over' if 'over' in low else 'always'
        R.add('%s: stop condition' % F.short, F.where(F.line), kinds == {want}, {'always': 'stops at the next call', 'over': 'stops at a call that is as deep as now or less', 'out': 'stops at a call that is less deep than now'}[want] + ('' if kinds == {want} else ' -- but it is: %s' % ', '.join(sorted(kinds))))

    def kind(self, E, s, f, root):
        L = self.P.fns.get(f.a[0]) if f.op == 'lam' else None
        fr = f.meta if L is not None else None
        if fr is None:
            # the closure was in a variable: the only one that is made here
            ls = {e['c'] for e in root.F.ex.values() if e['k'] == 'lambda'}
            if len(ls) != 1 or f.op == 'fnp':
                return None
            L, fr = self.P.fns.get(ls.pop()), root
            if L is None:
                return None
        nf = Frame(L, fr.fid + (('lam', L.id),), fr.this, fr, fr)
        s = s.copy()
        E.bind_root_params(s, nf)
        s.temps = {}
        outs = E.run(nf, [s])
        kinds = set()
        for q, rv in outs:
            if rv is None:
                return None
            for want in (True, False):
                for z in E.assume(q.copy(), rv, want):
                    ds = {t for t in self.depths(z)}
                    kinds.add((want, self.relation(E, z, ds)))
        if kinds == {(True, 'any')}:
            return 'always'
        if kinds == {(False, 'any')}:
            return 'never'
        if kinds == {(True, '<='), (False, '>')}:
            return 'over'
        if kinds == {(True, '<'), (False, '>=')}:
            return 'out'
        return 'something else'

    def depths(self, s):
        out = set()
        for a, m in s.z.items():
            for t in [a] + list(m):
                b = base(t)[0] if isinstance(t, Term) else None
                if b is not None and b.op == 'sym' and isinstance(b.a[0], tuple) and b.a[0][:2] == ('stepping', 'depth'):
                    out.add(b)
        return out

    def relation(self, E, s, ds):
        now = [d for d in ds if 'lam' in str([x for x in d.a[1].a]) or self.inner(d)]
        then = [d for d in ds if d not in now]
        if len(now) != 1 or len(then) != 1:
            return 'any' if not ds or len(ds) < 2 else '?'
        n, t = now[0], then[0]
        if s.le(n, lin(t, -1)):
            return '<'
        if s.le(lin(t, 1), n):
            return '>'
        if s.le(n, t):
            return '<='
        if s.le(t, n):
            return '>='
        return 'any'

    def inner(self, d):
        """the depth of the scope the condition is asked for"""
        todo = [d.a[1]]
        while todo:
            t = todo.pop()
            for x in getattr(t, 'a', ()):
                if isinstance(x, tuple) and any(isinstance(y, tuple) and y[:1] == ('lam',) for y in x):
                    return True
                if isinstance(x, Term):
                    todo.append(x)
        return False

    def check_run(self, F):
        E, R = self.engine(), self.R
        this = mk('this', F.id)
        exits = E.run_root(F)
        ok = bool(exits) and all(E.truth(s, E.load(s, self.at(this, self.flag), self.flag[2])) is False for s, rv in exits)
        R.add('%s: no step' % F.short, F.where(F.line), ok, 'run ends the step' if ok else 'the stop flag is still set')

    # ---- breakpoints
    def check_hits(self):
        E, R, F = self.engine(), self.R, self.hits
        fid = (('root', F.id),)
        els = [el[1] for x in {b for body in F.loops.values() for b in body} for el in F.blocks[x]['els'] if el[0] == 'decl' and 't' in el[1] and 'BreakpointInfo' in str(nonref(el[1]['t'])) and tkind(nonref(el[1]['t'])) not in ('iter', 'cont')]
        R.need(len(els) == 1 and len(F.loops) == 1, '%s: no loop over the breakpoints was found' % F.short)
        v = els[0]['v']
        C = nonref(els[0]['t'])
        flds = next((self.fa.fields_by_cls(c) for c in {cc for cc in (x.cls for x in self.P.fns.values()) if cc and 'BreakpointInfo' in cc}), [])
        line = [f for f in flds if tkind(f[2]) == 'int']
        cond = [f for f in flds if 'ondition' in f[1]]
        R.need(len(line) == 1 and len(cond) == 1, 'the fields of a breakpoint were not found')
        lp = [p for p in F.params if tkind(p['t']) == 'int']
        sp = [p for p in F.params if 'LispScope' in str(p['t'])]
        R.need(len(lp) == 1 and len(sp) == 1, '%s: its parameters were not understood' % F.short)
        E.inline_filter = lambda fr, fn: fn.cls == self.cls and str(fn.ret) != 'Ty(bool)'

        def on_call(E, s, fr, e, d, th):
            if d is None:
                return None
            if fr.fid == fid:
                if d.get('mine'):
                    s.env[G('round')] = TRUE
                # what is known of the breakpoint now: the call may change what it refers to
                eq, same, has, null, c = facts(s)
                for g, k in (('eq', eq), ('has', has)):
                    if k is not None:
                        s.env[G(g)] = TRUE if k else FALSE
            ret = str(nonref(d['ret'])) if d.get('ret') is not None else ''
            if d.get('mine') and ret == 'Ty(bool)' and len(e['a']) == 2:
                return SAME
            if short(d['name']) in ('BoolValue', 'ToBool') and th is not None:
                return COND
            return None
        E.on_call = on_call
        backs = []
        E.partition = lambda s, fr, b: 0 if b is not None else 0

        def at_head(s, fr, b):
            if fr.fid == fid:
                for g in ('round', 'eq', 'has'):
                    s.env.pop(G(g), None)
        E.at_head = at_head
        E.on_back = lambda E, fr, h, head, bs, body: backs.extend(b for b in bs) if fr.fid == fid else None
        def facts(s):
            l = mk('var', fid, v)
            if s.env.get(l) is not None and s.env[l].op == 'R':
                l = s.env[l].a[0]
            n = E.load(s, mk('fld', l, line[0][1], line[0][0]), line[0][2])
            p = lp[0]
            pv = E.load(s, mk('var', fid, p['v']), p['t'])
            eq = E.truth(s, E.cmp('==', pv, n))
            sz = E.size(s, mk('fld', l, cond[0][1], cond[0][0]))
            has = True if s.le(const(1), sz) else False if s.le(sz, const(0)) else None
            was = lambda g, k: k if k is not None else None if s.env.get(G(g)) is None else s.env[G(g)] is TRUE
            eq, has = was('eq', eq), was('has', has)
            sv = E.load(s, mk('var', fid, sp[0]['v']), sp[0]['t'])
            return eq, E.truth(s, SAME), has, E.nullness(s, sv), E.truth(s, COND)
        exits = E.run_root(F)
        ok = True
        for s in backs:
            eq, same, has, null, c = facts(s)
            ok = ok and (eq is False or same is False or has is True and c is not True)
        R.need(backs, '%s: no round of the loop was understood' % F.short)
        R.add('%s: next breakpoint' % F.short, F.where(F.line), ok, 'a breakpoint is passed over only if its line or module is another one or its condition does not hold' if ok else 'a breakpoint that has to stop is passed over')
        okt = okf = True
        for s, rv in exits:
            for want in (True, False):
                for q in E.assume(s.copy(), rv, want):
                    if want:
                        eq, same, has, null, c = facts(q)
                        okt = okt and eq is True and same is True and (has is False or null is True or c is True)
                    else:
                        okf = okf and q.env.get(G('round')) is None
        R.add('%s: hit' % F.short, F.where(F.line), okt, 'it stops only at the line and module of a breakpoint without condition or with one that holds' if okt else 'it stops where no breakpoint is or its condition does not hold')
        R.add('%s: all breakpoints' % F.short, F.where(F.line), okf, 'it does not stop only after every breakpoint was looked at' if okf else 'it gives up before every breakpoint was looked at')


def check_evaluator(P, fa, R):
    """every call of a function that is no special form asks the debugger first, and what it answers is done"""
    roots = [F for F in P.fns.values() if not F.lam and F.cls and F.cls.endswith('LispInterpreter') and any(e['k'] == 'call' and short(P.decls.get(e.get('c'), {}).get('name', '')) == 'NeedsBreak' for e in F.ex.values())]
    R.need(len(roots) == 1, 'the evaluator that asks the debugger was not found')
    F = roots[0]
    E = Engine(P, fa)
    fid = (('root', F.id),)
    E.inline_filter = lambda fr, fn: fn.cls == F.cls and not fn.loops and fn.id != F.id
    E.defer_lambda = False
    out = {}

    ptrs = {(c, f) for c in {G_.cls for G_ in P.fns.values() if G_.cls} for c, f, t in fa.fields_by_cls(c) if tkind(t) == 'ptr' and 'Debugger' in str(t)}

    def is_debugger(p):
        while p.op in ('old', 'R'):
            p = p.a[0]
        return p.op == 'init' and p.a[0].op == 'fld' and (p.a[0].a[2], p.a[0].a[1]) in ptrs

    def on_call(E, s, fr, e, d, th):
        name = short(d['name']) if d is not None else 'operator()'
        if name == 'NeedsBreak':
            s.env[G('asked')] = TRUE
            s.env.pop(G('looped'), None)
            return HIT
        if name == 'InteractiveLoop':
            s.env[G('looped')] = TRUE
            return None
        if th is None and name == 'operator()':
            null = any(v is True and is_debugger(p) for p, v in s.nul.items())
            h = E.truth(s, HIT)
            ok = null or s.env.get(G('asked')) is not None and (h is False or s.env.get(G('looped')) is not None)
            k = (fr.F.where(e.get('l')), fr.F.short)
            out[k] = out.get(k, True) and ok
        return None
    E.on_call = on_call
    exits = E.run_root(F)
    R.need(exits and out and not E.cut, 'no call of a function was found in the evaluator')
    for (where, f), ok in sorted(out.items()):
        R.add('%s: asks the debugger' % f, where, ok, 'a function is called only after the debugger, if there is one, was asked whether to stop here, and if so has taken over' if ok else 'a function can be called without the debugger having been asked, or without it taking over when it wants to stop')


def check(P, R, tier):
    fa = common.facts(P)
    T = Stops(P, fa, R)
    T.check_asks()
    R.need(len(T.setters) >= 3, 'the commands that step were not found')
    for F in sorted(T.setters, key=lambda F: F.id):
        T.check_setter(F)
    for F in T.runs:
        T.check_run(F)
    T.check_hits()
    check_evaluator(P, fa, R)
