"""P09: what is evaluated: each argument of a call once and in order, and of a special form just the parts it is for."""
from absint import *
from rules import common

EVAL = 'LispInterpreter::EvalAst'
# fixed forms: argument -> (at least, at most) evaluations on a way through that returns; nothing else is evaluated
FIXED = {'def': {0: (0, 1), 1: (1, 1)}, 'gdef': {0: (0, 1), 1: (1, 1)}, 'setf': {0: (0, 1), 1: (1, 1)}, 'quote': {}, '_unquote': {}, '_unquotesplicing': {}, 'define-macro': {}, 'define-macro-eval': {},
         'define-macro-expand': {'part': (0, 99)}, 'apply': {0: (1, 1)}, 'defn': {0: (0, 1)}, 'gdefn': {0: (0, 1)}, 'rval': {0: (0, 1)}, 'lambda': {}, 'eval': {'part': (1, 1)}}
SPECIAL = ('if', 'while', 'and', 'or', 'do', 'quasiquote')
NEXT, TRUTH, PHASE = mk('ghost', 'next'), mk('ghost', 'truth'), mk('ghost', 'phase')


def times(i):
    return mk('ghost', 'times', i)


def short(d):
    return d['name'].rsplit('::', 1)[-1]


class Run:
    def __init__(self, P, fa, F, name, special, evals):
        self.P, self.fa, self.F, self.name, self.special, self.evals = P, fa, F, name, special, evals
        self.out = {}
        self.E = E = Engine(P, fa)
        E.KMAX = 64
        E.merge_exits = lambda out, fr, e: list(out) if len(out) < 40 else Engine.merge_exits(E, out, fr, e)
        few = 40 if type(self) is not Ordinary else 8
        E.inline_filter = lambda fr, fn: (len(fn.blocks) <= few or few < 40 and fn.file == F.file) and (not fn.lam or name != 'lambda')
        E.on_call, E.on_back = self.on_call, self.on_back
        if hasattr(self, 'partition'):
            E.partition = self.partition
        E.calls_only = lambda fr, e: any(x['k'] == 'call' and x.get('c') == e['c'] for x in fr.F.ex.values())
        self.args = next((p for p in F.params if 'vector' in str(p['t'])), F.params[0])
        self.scope = next((p for p in F.params if 'LispScope' in str(p['t'])), None)
        self.all = mk('pref', (('root', F.id),), self.args['v'], True)
        self.exits = E.run_root(F, setup=self.setup)
        for s, rv in self.exits:
            self.exit(s, rv)

    def setup(self, E, s, fr):
        s.env[NEXT] = s.env[PHASE] = const(0)
        for i in (0, 1, 2, 3, 'part'):
            s.env[times(i)] = const(0)

    def add(self, what, where, ok, text):
        k = (what, where)
        if k not in self.out or not ok:
            self.out[k] = (ok, text)

    def n(self, s, i):
        t = s.env.get(times(i), ZERO)
        b, o = base(t)
        return o if b is ZERO else None

    def bump(self, s, i):
        s.env[times(i)] = lin(s.env.get(times(i), const(0)), 1)

    def index(self, t):
        """which argument a term is, None if it is none"""
        for _ in range(20):
            if t.op == 'elem':
                return t.a[1] if t.a[0] is self.all else None
            if t.op in ('R', 'init') and t.a and isinstance(t.a[0], Term):
                t = t.a[0]
            else:
                return None

    def truth(self, s):
        t = s.env.get(TRUTH)
        return self.E.truth(s, t) if t is not None else None

    def on_call(self, E, s, fr, e, d, this):
        if d is None:
            return None
        if short(d) in ('BoolValue', 'ToBool') and this is not None and tkind(e['t']) == 'bool' and not e.get('lv'):
            r = E.fresh(s, fr, e['id'], e['t'])
            s.env[TRUTH] = r
            return r
        if d['id'] in self.evals and len(e['a']) == 2 and not (self.name == 'lambda' and fr.F.lam):
            ast, sc = (E.rval(s, fr, a) for a in e['a'])
            self.event(s, fr, e, ast, sc)
            r = E.havoc_call(s, fr, e, d)
            s.env[mk('ghost', 'last')] = r
            s.env.pop(TRUTH, None)
            return r
        return self.more(E, s, fr, e, d, this)

    def more(self, E, s, fr, e, d, this):
        return None

    def on_back(self, E, fr, h, head, backs, body):
        pass

    def same(self, s, a, b):
        return a is b or s.le(a, b) and s.le(b, a)

    def inreturn(self, s):
        E = self.E
        ty = {f: t for c, f, t in self.fa.fields_by_cls('CppLisp::LispScope')}
        L = deref(self.param(s, self.scope))
        return E.truth(s, E.load(s, mk('fld', L, 'IsInReturn', 'CppLisp::LispScope'), ty['IsInReturn']))

    def param(self, s, p):
        return mk('sym', (('root', self.F.id),), ('p', p['v']), 'p') if not p['t'].ref else self.E.load(s, mk('pref', (('root', self.F.id),), p['v'], p['t'].cst), nonref(p['t']))

    def here(self, fr, e):
        return fr.F.where(e.get('l'))

    def event(self, s, fr, e, ast, sc):
        w = self.here(fr, e)
        p = self.param(s, self.scope) if self.scope is not None else None
        if type(self) is not Ordinary or self.index(ast) is not None:
            self.add('%s: where' % self.name, w, p is None or sc is p or origin_is(sc, self.scope['v']), 'evaluates in the scope of the call')
        if ast is NULL:
            return self.nothing(s, w)
        i = self.index(ast)
        if i is None:
            return self.part(s, fr, w, ast)
        if i.op != 'c':
            # the position may be known through the number of arguments
            i = next((const(k) for k in range(6) if self.same(s, i, const(k))), i)
        self.argument(s, w, i)

    def nothing(self, s, w):
        pass

    def part(self, s, fr, w, ast):
        self.add('%s: what' % self.name, w, False, 'something that is not an argument is evaluated')

    def argument(self, s, w, i):
        raise NotImplementedError

    def exit(self, s, rv):
        pass


def origin_is(t, v):
    for _ in range(10):
        if not isinstance(t, Term):
            return False
        if t.op in ('sym', 'pref') and any(a == v or isinstance(a, tuple) and a[1:2] == (v,) for a in t.a):
            return True
        if t.op not in ('R', 'init') or not t.a:
            return False
        t = t.a[0]
    return False


class Fixed(Run):
    def __init__(self, spec, *a):
        self.spec = spec
        super().__init__(*a)

    def argument(self, s, w, i):
        k = i.a[0] if i.op == 'c' else None
        if k not in self.spec:
            self.add('%s: argument %s' % (self.name, k), w, False, 'this argument is evaluated, but it is not for that')
            return
        n = self.n(s, k)
        later = [j for j in self.spec if j != 'part' and j > k and self.n(s, j) != 0]
        self.add('%s: argument %d' % (self.name, k), w, n is not None and n < self.spec[k][1] and not later, 'evaluated not more often than once, and in order')
        self.bump(s, k)

    def part(self, s, fr, w, ast):
        if 'part' not in self.spec:
            return super().part(s, fr, w, ast)
        hi = self.spec['part'][1]
        if hi == 1:
            self.add('%s: the expression' % self.name, w, self.n(s, 'part') == 0, 'evaluated once')
            self.bump(s, 'part')

    def exit(self, s, rv):
        for k, (lo, hi) in self.spec.items():
            if hi > 1:
                continue
            n = s.env.get(times(k), const(0))
            self.add('%s: argument %s when it returns' % (self.name, k), self.F.where(self.F.line), s.le(const(lo), n) and s.le(n, const(hi)), 'has been evaluated as often as it should')


class If(Run):
    def argument(self, s, w, i):
        k = i.a[0] if i.op == 'c' else None
        n = [self.n(s, j) for j in (0, 1, 2)]
        if k == 0:
            self.add('if: condition', w, n == [0, 0, 0], 'evaluated once, before the blocks')
        else:
            self.add('if: %s-block' % ('then' if k == 1 else 'else'), w, k in (1, 2) and n == [1, 0, 0] and self.truth(s) is (k == 1), 'evaluated only if the condition is %s' % ('true' if k == 1 else 'false'))
            s.env[mk('ghost', 'taken')] = const(k) if k in (1, 2) else const(0)
        if k in (0, 1, 2):
            if k == 0:
                self.bump(s, 0)
            else:
                t = s.env.get(TRUTH)
                self.bump(s, k)
                s.env[mk('ghost', 'cond')] = t if t is not None else NULL

    def nothing(self, s, w):
        self.add('if: no else-block', w, self.n(s, 0) == 1 and self.truth(s) is False and s.le(self.E.size(s, self.all), const(2)), 'the result is nil only if the condition is false and there is no else-block')
        s.env[mk('ghost', 'taken')] = const(3)

    def exit(self, s, rv):
        t = s.env.get(mk('ghost', 'taken'))
        last = s.env.get(mk('ghost', 'last'))
        none = t is None and self.truth(s) is False and self.n(s, 0) == 1 and s.le(self.E.size(s, self.all), const(2))
        self.add('if: result', self.F.where(self.F.line), none or t is not None and rv is last, 'that of the block')


class While(Run):
    def partition(self, s, fr, b):
        # before the first round and after a round are kept apart
        return s.env.get(PHASE, UNK).n, self.inreturn(s)

    def argument(self, s, w, i):
        k = i.a[0] if i.op == 'c' else None
        ph = s.env.get(PHASE, UNK)
        if k == 0:
            ok = ph is const(0) or ph is const(2) and self.inreturn(s) is False
            self.add('while: condition', w, ok, 'evaluated at the beginning and after each round, but not after return')
            s.env[PHASE] = const(1)
        else:
            self.add('while: block', w, k == 1 and ph is const(1) and self.truth(s) is True, 'evaluated once each time the condition is true')
            s.env[PHASE] = const(2)

    def exit(self, s, rv):
        ph = s.env.get(PHASE, UNK)
        ok = ph is const(1) and self.truth(s) is False or ph is const(2) and self.inreturn(s) is True
        self.add('while: end', self.F.where(self.F.line), ok, 'ends when the condition is false or with return')


class Sequence(Run):
    """do, and, or: one after the other"""

    def argument(self, s, w, i):
        nx = s.env.get(NEXT, UNK)
        self.add('%s: order' % self.name, w, self.same(s, i, nx), 'one after the other, each once')
        s.env[NEXT] = lin(i, 1)

    def on_back(self, E, fr, h, head, backs, body):
        if self.name == 'do' or not any(e['k'] == 'call' and e.get('c') in self.evals for b in body for el in fr.F.blocks[b]['els'] if el[0] == 'e' for e in (fr.F.ex[el[1]],)):
            return
        for b in backs:
            self.add('%s: goes on' % self.name, fr.F.where(fr.F.line), self.truth(b) is (self.name == 'and'), 'only after a value that is %s' % ('true' if self.name == 'and' else 'false'))

    def more(self, E, s, fr, e, d, this):
        if self.name != 'do' and short(d).startswith('make_shared') and len(e.get('a', ())) == 1 and tkind(nonref(fr.F.ex[e['a'][0]]['t'])) == 'bool':
            s.env[mk('ghost', 'made')] = E.rval(s, fr, e['a'][0])
        return None

    def exit(self, s, rv):
        E = self.E
        w = self.F.where(self.F.line)
        done = s.le(E.size(s, self.all), s.env.get(NEXT, UNK))
        if self.name == 'do':
            self.add('do: end', w, done or self.inreturn(s) is True, 'all parts have been evaluated, or there was a return')
            return
        stop = self.truth(s) is (self.name == 'or')
        self.add('%s: end' % self.name, w, done or stop, 'all have been evaluated, or the last one decides')
        v = s.env.get(mk('ghost', 'made'))
        if v is None:
            return
        t = E.truth(s, v)
        self.add('%s: result' % self.name, w, t is ((self.name == 'or') if stop else (self.name == 'and')), 'is %s if one decides, else %s' % (('true', 'false') if self.name == 'or' else ('false', 'true')))


class Quasi(Run):
    """only what is marked is evaluated, and everything that can contain a mark is looked at"""

    def index(self, t):
        return None

    def listish(self, s, this):
        return [s.env.get(mk('ghost', 'list', this, n)) for n in ('IsList', 'IsIEnumerableOfObject')]

    def on_call(self, E, s, fr, e, d, this):
        n = short(d) if d is not None else ''
        if n in ('IsList', 'IsIEnumerableOfObject') and this is not None and d.get('clsq', '').endswith('object'):
            k = mk('ghost', 'list', this, n)
            if k not in s.env:
                s.env[k] = E.fresh(s, fr, e['id'], e['t'])
            return s.env[k]
        return super().on_call(E, s, fr, e, d, this)

    def more(self, E, s, fr, e, d, this):
        if short(d) in ('Add', 'push_back') and this is not None and len(e['a']) == 1 and not E.heap(this):
            x = E.rval(s, fr, e['a'][0])
            t = x
            while t.op in ('R', 'init') and t.a:
                t = t.a[0]
            if t.op == 'elem' and fr.F is self.F:
                ls = self.listish(s, deref(x))
                self.add('quasiquote: kept as it is', self.here(fr, e), all(v is not None and E.truth(s, v) is False for v in ls), 'only what is no list')
        return None

    def argument(self, s, w, i):
        self.add('quasiquote: argument', w, False, 'the argument itself is evaluated')

    def part(self, s, fr, w, ast):
        t = ast
        while t.op in ('R', 'init') and t.a:
            t = t.a[0]
        self.add('quasiquote: evaluates', w, t.op == 'elem' and t.a[1] is const(1), 'what follows the mark')


class Ordinary(Run):
    """functions that get their arguments evaluated"""

    def argument(self, s, w, i):
        self.add('%s: arguments' % self.name, w, False, 'an argument that was evaluated already is evaluated again')

    def part(self, s, fr, w, ast):
        pass


class Call(Run):
    """evaluation of a call"""

    def event(self, s, fr, e, ast, sc):
        w = self.here(fr, e)
        p = self.param(s, self.scope)
        self.add('call: where', w, sc is p or origin_is(sc, self.scope['v']), 'everything is evaluated in the scope of the call')
        t = ast
        while t.op in ('R', 'init') and t.a:
            t = t.a[0]
        if t.op != 'elem':
            return
        i, nx = t.a[1], s.env.get(NEXT, UNK)
        self.add('call: order of arguments', w, s.le(nx, i), 'one after the other, none twice')
        sp = s.env.get(mk('ghost', 'special'))
        self.add('call: arguments of a special form', w, sp is not None and self.E.truth(s, sp) is False, 'are not evaluated by the call')
        s.env[NEXT] = lin(i, 1)

    def more(self, E, s, fr, e, d, this):
        if short(d) == 'IsSpecialForm' and this is not None:
            k = mk('ghost', 'special')
            r = E.fresh(s, fr, e['id'], e['t'])
            s.env[k] = r
            return r
        if short(d) == 'ResolveInScopes' and this is not None:
            self.add('call: meaning of names', self.here(fr, e), origin_is(this.a[0] if this.op == 'deref' else this, self.scope['v']), 'in the scope of the call')
        return None


def check(P, R, tier):
    fa = common.facts(P)
    from rules import registry
    bs, croot = registry.extract(P, fa, R)
    evals = {F.id for F in P.fns.values() if F.short.endswith(EVAL) and F.blocks}
    R.need(evals, 'LispInterpreter::EvalAst was not found')
    byname = {b.name: b for b in bs if b.fn is not None}
    done = set()
    work = []
    for n in list(FIXED) + list(SPECIAL):
        if n in byname:
            work.append((n, byname[n].fn.id))
            done.add(byname[n].fn.id)
    near = common.reach(fa, P, [b.fn.id for b in bs if b.fn is not None])
    for b in bs:
        if b.fn is not None and b.fn.id not in done:
            done.add(b.fn.id)
            work.append((b.name, b.fn.id))
    for f in evals:
        work.append(('', f))
    for f in common.reach(fa, P, [byname['quasiquote'].fn.id] if 'quasiquote' in byname else [], evals):
        F = P.fns[f]
        if f not in done and F.blocks and not F.lam and any('LispScope' in str(p['t']) for p in F.params) and any(e['k'] == 'call' and e.get('c') in evals for e in F.ex.values()):
            done.add(f)
            work.append(('quasiquote', f))
    _G.update(P=P, fa=fa, evals=evals)
    for name, items in common.pmap(one, work):
        for (what, where), (ok, text) in items:
            R.add(what, where, ok, text if ok else 'not so: ' + text)
        if not items and name:
            R.add('%s: arguments' % name, P.fns[dict(work)[name]].where(P.fns[dict(work)[name]].line), True, 'evaluates nothing that it was given')


_G = {}


def one(w):
    name, f = w
    P, fa, evals = _G['P'], _G['fa'], _G['evals']
    F = P.fns[f]
    if name == '':
        r = Call(P, fa, F, name, True, evals)
    elif name in FIXED:
        r = Fixed(FIXED[name], P, fa, F, name, True, evals)
    else:
        c = {'if': If, 'while': While, 'do': Sequence, 'and': Sequence, 'or': Sequence, 'quasiquote': Quasi}.get(name, Ordinary)
        r = c(P, fa, F, name, True, evals)
    return name, sorted(r.out.items())
