"""P14: which variable a name means, and which variables an assignment or a definition changes."""
from absint import *
from rules import common, values
from rules.values import origin

SCOPE = 'CppLisp::LispScope'
CHAIN, GLOBAL = 'ClosureChain', 'GlobalScope'


def fn_named(P, R, q):
    fs = [F for F in P.fns.values() if F.short.endswith('LispScope::' + q) and F.blocks and not F.lam]
    R.need(fs, 'LispScope::%s was not found' % q)
    return fs[0]


class Lookups:
    """one function with all table lookups it makes"""

    def __init__(self, P, fa, F, chain):
        self.P, self.fa, self.F, self.chain = P, fa, F, chain
        self.E = E = Engine(P, fa)
        self.looked, self.asked, self.stores, self.backs, self.before = {}, [], [], [], {}
        E.inline_filter = lambda fr, fn: fn.id != chain.id
        E.on_call, E.on_store, E.on_back = self.on_call, self.on_store, self.on_back
        self.this = mk('this', F.id)
        self.ty = {f: t for c, f, t in fa.fields_by_cls(SCOPE)}
        self.exits = E.run_root(F)

    def on_call(self, E, s, fr, e, d, this):
        if d is None:
            return None
        if d['id'] == self.chain.id:
            hh, E.havoc_heap = E.havoc_heap, lambda *a, **k: None   # it only looks, see check()
            try:
                r = E.havoc_call(s, fr, e, d)
            finally:
                E.havoc_heap = hh
            self.asked.append((this, r))
            return r
        if this is not None and not d['mine'] and d['name'].rsplit('::', 1)[-1] in ('find', 'count', 'contains', 'operator[]', 'at') and ('map<' in d['name'] or 'map' in str(d.get('clsq'))):
            self.looked.setdefault(this, set()).add(E.keyidx(s, fr, this, e['a'][0]))
            self.before[this] = s.copy()
        return None

    def on_store(self, E, s, l, v):
        if l.op == 'fld' and l.a[1] in ('first', 'second'):
            l = l.a[0]
        if l.op == 'elem' and E.heap(l):
            fr, eid = E.now
            self.stores.append((fr.F.where(fr.F.ex[eid].get('l')), l, v, self.before.get(l.a[0]) or s.copy()))

    def on_back(self, E, fr, h, head, backs, body):
        if fr.F is self.F:
            self.backs += [(h, b) for b in backs]

    def member(self, s, of, f):
        return self.E.load(s, mk('fld', of, f, SCOPE), self.ty[f])

    def absent(self, s, L):
        return any(s.le(self.E.size(s, L), i) for i in self.looked.get(L, ()))

    def present(self, s, L):
        return any(s.lt(i, self.E.size(s, L)) for i in self.looked.get(L, ()))

    def none_of(self, s, kind):
        """is it known that the name is not in this kind of table?"""
        if kind == 'own':
            return self.absent(s, self.this)
        p = self.member(s, self.this, CHAIN if kind == 'chain' else GLOBAL)
        if p is NULL or self.E.nullness(s, p) is True:
            return True
        if kind == 'global':
            return self.absent(s, deref(p))
        return any(t is self.this and self.E.truth(s, r) is False for t, r in self.asked)

    def kind(self, s, t):
        """the table that a value or a place is from"""
        for _ in range(60):
            if not isinstance(t, Term):
                return None
            if t.op == 'elem':
                L = t.a[0]
                if L is self.this:
                    return 'own'
                if L is deref(self.member(s, self.this, CHAIN)):
                    return 'chain'
                if L is deref(self.member(s, self.this, GLOBAL)):
                    return 'global'
                if mentions(L, lambda x: x.op == 'sym' and any(isinstance(a, tuple) and a[:2] == ('O', self.chain.id) for a in x.a)):
                    return 'chain'
                if origin(L)[-1:] == ('pScope',):
                    return 'module'
                return 'other'
            if t.op == 'sym' and any(isinstance(a, tuple) and a[:2] == ('O', self.chain.id) for a in t.a):
                return 'chain'
            if t.op == 'sym' and len(t.a) > 1 and isinstance(t.a[1], tuple) and t.a[1][0] == 'p':
                return 'param'
            if t is NULL:
                return 'null'
            if not t.a or not isinstance(t.a[0], Term):
                return 'other'
            t = t.a[0]
        return None


def mentions(t, want, n=0):
    if not isinstance(t, Term) or n > 30:
        return False
    return want(t) or any(mentions(a, want, n + 1) for a in t.a)


BEFORE = {'own': (), 'chain': ('own',), 'global': ('own', 'chain'), 'module': ('own', 'chain', 'global'), 'param': ('own', 'chain', 'global')}
SAY = {'own': 'the scope itself', 'chain': 'the enclosing functions', 'global': 'the global scope', 'module': 'the modules', 'param': 'nothing: the name stands for itself'}


def order(R, L, s, kind, where, what):
    if kind not in BEFORE:
        R.add(what, where, kind == 'null', 'a value that is from none of the tables' if kind != 'null' else 'nothing')
        return
    miss = [k for k in BEFORE[kind] if not L.none_of(s, k)]
    R.add('%s: from %s' % (what, SAY[kind]), where, not miss, 'the name is in no table that comes before' if not miss else 'although it can be in: ' + ', '.join(SAY[k] for k in miss))


def lookups(P, fa, R):
    chain = fn_named(P, R, 'IsInClosureChain')
    rs = fn_named(P, R, 'ResolveInScopes')
    L = Lookups(P, fa, rs, chain)
    for s, rv in L.exits:
        order(R, L, s, L.kind(s, rv), rs.where(rs.line), 'meaning of a name')
    st = fn_named(P, R, 'SetInScopes')
    L = Lookups(P, fa, st, chain)
    for where, l, v, s in L.stores:
        k = L.kind(s, l)
        order(R, L, s, k if k != 'param' else 'other', where, 'assignment')
        R.add('assignment: the value', where, origin(v) == (st.params[1]['v'],), 'the value given is what the variable holds afterwards')
    for s, rv in L.exits:
        done = [k for k in ('own', 'chain', 'global') if not L.none_of(s, k)]
        R.add('assignment returns', st.where(st.line), bool(done), 'only when there was such a variable')
    chain_search(P, fa, R, chain)


def chain_search(P, fa, R, F):
    L = Lookups(P, fa, F, F)
    E = L.E
    out = [p for p in F.params if p['t'].ref and not nonref(p['t']).cst and tkind(p['t']) == 'smart']
    R.need(out, 'IsInClosureChain hands no scope back')
    where = F.where(F.line)
    for h, s in L.backs:
        done = [x for x in L.looked if L.absent(s, x)]
        nxt = any(v is L.member(s, x, CHAIN) for x in done for v in s.env.values() if isinstance(v, Term))
        R.add('enclosing functions: next one', where, bool(done) and nxt, 'goes outwards from a function that has no such variable')
    for s, rv in L.exits:
        t = E.truth(s, rv)
        cc = L.member(s, L.this, CHAIN)
        rec = [(x, r) for x, r in L.asked if r is rv or E.truth(s, r) is t and t is not None]
        if rec:
            ok = any(x is deref(cc) and L.absent(s, x) for x, r in rec)
            R.add('enclosing functions: further out', where, ok, 'asks the one around, when the nearest has no such variable')
        elif t is False:
            ends = [v for v in s.env.values() if v is NULL] if L.backs else []
            R.add('enclosing functions: none', where, cc is NULL or E.nullness(s, cc) is True or bool(ends), 'there is none left')
        elif t is True:
            found = E.load(s, mk('pref', (('root', F.id),), out[0]['v'], False), nonref(out[0]['t']))
            R.add('enclosing functions: found', where, L.present(s, deref(found)), 'the function found has the variable')
        else:
            R.add('enclosing functions', where, False, 'the result is not decided by the tables')


# which tables the builtins write to
OWN, GLOB, META = 'own', 'global', 'meta'
TABLES = {'def': (OWN,), 'gdef': (GLOB,), 'setf': (OWN, 'chain', GLOB), 'import': (META,), 'define-macro': (META,), 'define-macro-eval': (META,), 'define-macro-expand': (META,),
          'delvar': (OWN,), 'trace': (OWN,), 'print': (OWN,), 'println': (OWN,)}


def table_of(org, params):
    """the variable table at the end of a path from a parameter"""
    o = [x for x in org]
    if o and o[-1] == '[*]':
        o = o[:-1]
    if o and o[-1] == 'second':
        o = o[:-1]
    if len(o) == 1 and o[0] in params:
        return OWN
    if len(o) == 2 and o[1] == GLOBAL:
        return GLOB
    if len(o) > 1 and o[1] == GLOBAL and o[-1] == 'pScope':
        return META
    if o and (o[-1] == CHAIN or o == ['sym']):
        return 'chain'
    return '.'.join(o)


def tables(P, fa, R, w):
    from rules import registry
    bs, croot = registry.extract(P, fa, R)
    names = {}
    for b in bs:
        if b.fn is not None:
            names.setdefault(b.fn.id, set()).add(b.name)
    called = {c for c, by in fa.callers.items() if by} - set(fa.taken)
    for f, eff in sorted(w.items(), key=lambda x: (P.fns[x[0]].file, P.fns[x[0]].line, x[0])):
        F = P.fns[f]
        if P.decls.get(f, {}).get('ctor'):
            continue
        params = {p['v'] for p in F.params if 'LispScope' in str(p['t'])} | {'this'}
        n, bad = 0, []
        for g, eid, what, ty, org in sorted(eff, key=str):
            if ty not in ('CppLisp::LispScope', 'LispScope', 'CppLisp::Dictionary') and not str(ty).startswith('CppLisp::Dictionary<') or 'pDictionary' in org:
                continue
            if what in ('operator[]', 'shared_from_this', 'weak_from_this') or what == 'store' and org[-1:] != ('[*]',) and org[-1:] != ('second',):
                continue
            if f not in names and org and org[0] in params | {p['v'] for p in F.params} and f in called:
                continue
            n += 1
            t = table_of(org, params)
            ok = f in names and all(t in TABLES.get(x, ()) for x in names[f])
            if not ok:
                bad.append((P.fns[g].where(P.fns[g].ex[eid].get('l')), t, what))
        title = '%s%s: variable tables' % (F.short[:60], ' (%s)' % ', '.join(sorted(names[f])) if f in names else '')
        for where, t, what in bad:
            R.add(title, where, False, 'writes to a table that is not its task: %s (%s)' % (t, what))
        if not bad and (n or f in names):
            R.add(title, F.where(F.line), True, '%d writes, all to the table it is for' % n if n else 'writes to none')


def root_of(t):
    """the variable that a term starts from"""
    for _ in range(60):
        if not isinstance(t, Term):
            return None
        if t.op in ('var', 'cap', 'pref', 'sym'):
            for a in t.a:
                if isinstance(a, str) and a.startswith('v:'):
                    return a
                if isinstance(a, tuple) and a and a[0] == 'p' and len(a) > 1:
                    return a[1]
            return None
        if not t.a:
            return None
        t = t.a[0]
    return None


def closures(P, fa, R):
    """what a call of a function made by lambda does with scopes"""
    from rules import registry
    bs, croot = registry.extract(P, fa, R)
    makers = {b.fn.id: b.fn for b in bs if b.fn is not None and b.name in ('lambda', 'fn')}
    R.need(makers, 'the builtin lambda was not found')
    ty = {f: t for c, f, t in fa.fields_by_cls(SCOPE)}
    for M in makers.values():
        parts = [M] + [P.fns[c] for c in common.reach(fa, P, [M.id]) if c in P.fns and P.fns[c].file == M.file and c != M.id]
        parts = [F for F in parts if not F.lam and any(e['k'] == 'lambda' and e.get('c') in P.fns and any(x['k'] == 'call' and P.decls.get(x.get('c'), {}).get('name', '').endswith('::EvalAst')
                                                                                                     for x in P.fns[e['c']].ex.values()) for e in F.ex.values())] or [M]
        outer = [p['v'] for F in parts for p in F.params if 'LispScope' in str(p['t'])]
        data = [p['v'] for F in parts for p in F.params if 'LispScope' not in str(p['t'])]
        lams = [P.fns[e['c']] for F in parts for e in F.ex.values() if e['k'] == 'lambda' and e.get('c') in P.fns]
        n = 0
        for F in lams:
            E = Engine(P, fa)
            mine = [p['v'] for p in F.params if 'LispScope' in str(p['t'])]
            given, byref = next(((p['v'], p['t'].ref) for p in F.params if 'LispScope' not in str(p['t'])), (None, False))
            named = {}
            out = {}

            def add(what, where, ok, text):
                k = (what, where)
                out[k] = (ok, text) if k not in out or not ok else out[k]

            def on_call(E, s, fr, e, d, this):
                if d is None:
                    return None
                n = d['name'].rsplit('::', 1)[-1]
                if n == 'ToString' and this is not None:
                    t = this.a[0] if this.op == 'deref' else this
                    while t.op in ('R', 'init', 'deref', 'fld') and t.a:
                        t = t.a[0]
                    named['idx'] = t.a[1] if t.op == 'elem' else None
                if n == 'EvalAst' and len(e['a']) == 2:
                    ast, sc = (E.rval(s, fr, a) for a in e['a'])
                    where = fr.F.where(e.get('l'))
                    L = deref(sc)
                    add('a call: body', where, root_of(ast) in data and origin(ast)[-1:] == ('[1]',), 'what is evaluated is the body given to lambda')
                    add('a call: its scope', where, not E.heap(L), 'made for this call')
                    cc = E.load(s, mk('fld', L, CHAIN, SCOPE), ty[CHAIN])
                    add('a call: what is around', where, cc.op in ('var', 'cap', 'sym', 'init', 'R') and root_of(cc) in outer and len(origin(cc)) == 1, 'the scope in which lambda was evaluated')
                return None

            def on_store(E, s, l, v):
                fr, eid = E.now
                where = fr.F.where(fr.F.ex[eid].get('l'))
                if l.op == 'fld' and l.a[1] == GLOBAL and l.a[2] == SCOPE and not E.heap(l):
                    add('a call: the global scope', where, origin(v)[-1:] == (GLOBAL,) and root_of(v) in outer + mine or E.nullness(s, v) is True, 'is the one of the caller or of the function')
                if l.op == 'fld' and l.a[1] == 'second' and l.a[0].op == 'elem':
                    l = l.a[0]
                if l.op == 'elem' and l.a[1].op != 'find2' and not E.heap(l) and fr.F is F:
                    x = v
                    while x.op in ('R', 'init') and x.a:
                        x = x.a[0]
                    if x.op == 'elem' and root_of(x) == given:
                        (bi, ki), (bj, kj) = base(x.a[1]), base(l.a[1])
                        ok = ki == kj if bi is bj else s.le(l.a[1], x.a[1])
                        add('a call: arguments kept', where, ok, 'an argument stays at its position, or the ones before it are left out')
                    elif x.op != 'elem':
                        add('a call: arguments not given', where, s.le(E.size(s, mk('pref', fr.fid, given, True) if byref else mk('var', fr.fid, given)), l.a[1]), 'only a parameter for which there is no argument gets a value of its own')
                if l.op == 'elem' and l.a[1].op == 'find2' and not E.heap(l) and v.op in ('R', 'init', 'elem') or l.op == 'elem' and l.a[1].op == 'find2' and v.op == 'elem':
                    key = l.a[1].a[1]
                    x = v
                    while x.op in ('R', 'init') and x.a:
                        x = x.a[0]
                    if key.op == 's' or x.op != 'elem':
                        return
                    i, j = named.get('idx'), x.a[1]
                    ok = i is not None and (i is j or s.le(i, j) and s.le(j, i))
                    add('a call: parameters', where, ok, 'the name at a position gets the argument at that position')
            E.on_call, E.on_store = on_call, on_store
            E.run_root(F)
            for (what, where), (ok, text) in sorted(out.items()):
                R.add(what, where, ok, text if ok else 'not so: ' + text)
                n += 1
        R.need(n >= 4, 'the functions that lambda makes were not recognised')


def check(P, R, tier):
    fa = common.facts(P)
    lookups(P, fa, R)
    closures(P, fa, R)
    w = values.effects(P, fa)
    F = fn_named(P, R, 'IsInClosureChain')
    out = {p['v'] for p in F.params}
    bad = [(P.fns[g].where(P.fns[g].ex[eid].get('l')), '.'.join(org)) for g, eid, what, ty, org in sorted(w.get(F.id, ()), key=str) if not (len(org) == 1 and org[0] in out) and org[:1] != ('null',)]
    R.add('enclosing functions: looking', F.where(F.line), not bad, 'changes nothing' if not bad else 'changes %s at %s' % bad[0][::-1])
    tables(P, fa, R, w)
