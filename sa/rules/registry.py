"""the table of builtin functions, as CreateDefaultScope builds it.

The function that builds the default environment is run abstractly (helpers inlined); every store of a function value into
the environment is recorded with the name it is stored under, the native function, and the attributes of its wrapper."""
from absint import *
from facts import Facts


class Builtin:
    __slots__ = ('name', 'fn', 'sig', 'doc', 'special', 'expand', 'builtin', 'module', 'where', 'order')

    def __repr__(self):
        return '%s->%s' % (self.name, self.fn)


def wrapper_class(fa, P):
    out = []
    for q, r in P.records.items():
        fs = fa.fields_by_cls(q)
        if sum(1 for c, f, t in fs if c == q and tkind(t) == 'func') == 1 and sum(1 for c, f, t in fs if c == q and is_string(t)) >= 2:
            out.append(q)
    return out


def extract(P, fa, R):
    """[Builtin]"""
    wc = wrapper_class(fa, P)
    R.need(len(wc) == 1, 'class of function wrappers not found: %s' % wc)
    W = wc[0]
    fields = [(f, t) for c, f, t in fa.fields_by_cls(W) if c == W]
    ff = [f for f, t in fields if tkind(t) == 'func'][0]

    def pick(sub, pred):
        c = [f for f, t in fields if sub in f.lower() and pred(t)]
        R.need(len(c) == 1, 'attribute %s of %s not found' % (sub, W))
        return c[0]
    isb = lambda t: tkind(t) == 'bool' or t.s == 'bool'
    fs, fd, fm = pick('signature', is_string), pick('documentation', is_string), pick('module', is_string)
    fsp, fex, fbi = pick('special', isb), pick('expand', isb), pick('builtin', isb)
    roots = [F for F in P.fns.values() if F.name.endswith('::CreateDefaultScope')]
    R.need(len(roots) == 1, 'the function building the default environment was not found')
    root = roots[0]
    out = []
    other = []

    def on_store(E, s, l, v):
        if l.op != 'fld' or l.a[1] != 'second' or v.op != 'new':
            return
        k = l.a[0]
        if k.op != 'elem' or k.a[1].op != 'find2':
            return
        key = k.a[1].a[1]
        reach, st = {v}, [deref(v)]
        found = None
        byroot = {}
        for x in s.env:
            r = root_of(x)
            if r.op == 'deref' and r.a[0].op == 'new':
                byroot.setdefault(r, []).append(x)
        seen = set()
        while st:
            o = st.pop()
            if o in seen:
                continue
            seen.add(o)
            for x in byroot.get(o, ()):
                if x.op == 'fld' and x.a[2] == W and x.a[1] == ff:
                    found = x.a[0]
                y = s.env[x]
                if isinstance(y, Term) and y.op == 'new' and len(seen) < 12:
                    st.append(deref(y))
        if found is None:
            other.append((key, v))
            return
        B = Builtin()
        B.name = key.a[0] if key.op == 's' else None
        f = s.env.get(mk('fld', found, ff, W))
        while f is not None and f.op not in ('fnp', 'lam') and f.a and isinstance(f.a[0], Term):
            f = f.a[0]
        B.fn = P.fn(f.a[0]) if f is not None and f.op in ('fnp', 'lam') else None
        g = lambda n: E.content(s, mk('fld', found, n, W))
        b = lambda n: s.env.get(mk('fld', found, n, W))
        B.sig, B.doc, B.module = g(fs), g(fd), g(fm)
        B.special, B.expand, B.builtin = b(fsp), b(fex), b(fbi)
        B.order = len(out)
        out.append(B)
        # the value is complete: forget its storage
        for o in seen:
            for x in byroot.get(o, ()):
                s.env.pop(x, None)
    E = Engine(P, fa)
    E.on_store = on_store
    ex = E.run_root(root)
    R.need(ex, 'the default environment is never completed')
    return out, root


def text(t):
    return t.a[0] if t is not None and t.op == 's' else None


def flag(t):
    return t.a[0] if t is not None and t.op == 'b' else None
