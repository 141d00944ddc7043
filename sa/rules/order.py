"""Comparisons of values, decided for every pair of kinds and every relation between their contents.

A value is a kind with a content: numbers on a line (and the double that is no number), texts on a line, truth values. What a
comparison can tell of two values is their kinds and how their contents relate, so a few values of each kind stand for all:
the comparison is run on each pair with the kinds fixed and the contents known only by their relation.

P21  < > <= >= = != agree with each other and with the order of the contents, for every pair of kinds they accept
P22  the order of the keys of a dictionary is a total order, and two keys are the same exactly if they are the same value"""
from absint import *
from rules import common, registry, values

VARIANT = 'CppLisp::LispVariant'
READ = {'IntValue': 'Int', 'DoubleValue': 'Double', 'BoolValue': 'Bool'}
NAN = 'nan'
# kind, content; contents of numbers compare as numbers, of texts as texts
VALUES = [('Int', 1), ('Int', 2), ('Int', 3), ('Double', 1.0), ('Double', 1.5), ('Double', 2.0), ('Double', 2.5), ('Double', NAN), ('String', 'a'), ('String', 'b'), ('String', 'c'),
          ('Symbol', 'a'), ('Symbol', 'b'), ('Symbol', 'c'), ('Bool', 0), ('Bool', 1), ('Nil', 0), ('List', 0), ('List', 1), ('Function', 0), ('Function', 1), ('NativeObject', 0), ('NativeObject', 1)]
CLASS = {'Int': 'number', 'Double': 'number', 'String': 'text', 'Symbol': 'text'}
THROWS, UNKNOWN = 'error', 'unknown'


def kinds(P):
    """the numbers of the kinds of values, from the queries for them"""
    out, many = {}, {}
    for F in P.fns.values():
        if F.cls and F.cls.endswith('LispVariant') and F.short.rsplit('::', 1)[-1].startswith('Is') and not F.params:
            k = F.short.rsplit('::', 1)[-1][2:]
            many[k] = {e['val'] for e in F.ex.values() if e['k'] in ('int', 'enum') and 'val' in e}
    for k, v in sorted(many.items(), key=lambda x: len(x[1])):
        v = v - set(out.values()) if len(v) > 1 else v
        if len(v) == 1:
            out[k] = v.pop()
    return out


def rel(op, a, b):
    if NAN in (a, b):
        return op == '!='
    return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[op]


class Cell:
    """one comparison of two values"""

    def __init__(self, P, fa, F, ks, sides, u, v):
        self.P, self.fa, self.F = P, fa, F
        self.val = {0: u, 1: v}
        self.args = next((p['v'] for p in F.params if 'vector' in str(p['t'])), None)
        self.E = E = Engine(P, fa)
        self.sides = sides
        self.ops = set()
        E.MAXDEPTH = 14
        E.inline_filter = self.inline
        E.on_call = self.on_call
        self.x_bin, self.x_cast, self.x_un = E.x_bin, E.x_cast, getattr(E, 'x_un', None)
        E.x_bin, E.x_cast = self.bin, self.cast
        if self.x_un is not None:
            E.x_un = self.un
        self.ks = ks
        self.exits = E.run_root(F, setup=self.setup)

    def inline(self, fr, fn):
        # what makes the answer: not the checks before it, not the making of errors
        ret = str(nonref(self.P.decls[fn.id]['ret']).s) if fn.id in self.P.decls and self.P.decls[fn.id].get('ret') is not None else ''
        return len(fn.blocks) <= 40 and 'Exception' not in ret and (ret != 'void' or self.P.decls[fn.id].get('ctor')) and not (fn.cls or '').endswith('::string') and not fn.short.endswith('TypeString')

    def setup(self, E, s, fr):
        for i in (0, 1):
            l = self.sides(self.F, i)
            for c, f, t in E.facts.fields_by_cls(VARIANT):
                if f == 'Type':
                    s.env[mk('fld', l, f, c)] = const(self.ks[self.val[i][0]])
                if f == 'Value':
                    s.env[mk('fld', l, f, c)] = mk('content of', i)
            self.loc = {**getattr(self, 'loc', {}), l: i}

    def side(self, l, s=None):
        for _ in range(10):
            if l in self.loc:
                return self.loc[l]
            if s is not None:
                # a copy has the same content
                for c, f, t in self.E.facts.fields_by_cls(VARIANT):
                    v = s.env.get(mk('fld', l, f, c)) if f == 'Value' else None
                    if v is not None and v.op == 'content of':
                        return v.a[0]
            if l.op in ('deref', 'R', 'init') and isinstance(l.a[0], Term):
                l = l.a[0]
            else:
                return None

    def key(self, t):
        """(type, content) of a term that is the content of one of the values"""
        if isinstance(t, Term):
            for _ in range(8):
                if t.op == 'key':
                    return t.a[0], t.a[1]
                if t.op in ('content', 'init', 'R') and t.a and isinstance(t.a[0], Term):
                    t = t.a[0]
                else:
                    return None
        return None

    def arg(self, s, fr, a):
        for x in (self.E.get, self.E.rval, self.E.loc):
            try:
                v = x(s, fr, a)
            except Exception:
                continue
            k = self.key(v) if v is not None else None
            if k is None and v is not None:
                try:
                    k = self.key(self.E.content(s, v))
                except Exception:
                    pass
            if k is not None:
                return k
        return None

    def on_call(self, E, s, fr, e, d, this):
        if d is None:
            return None
        n = d['name'].rsplit('::', 1)[-1]
        i = self.side(this, s) if this is not None else None
        if n in ('ToLispVariantRef', 'ToLispVariantNotConstRef', 'ToLispVariant') and this is not None and self.args is not None:
            o = values.origin(this)
            if len(o) == 2 and o[0] == self.args and o[1] in ('[0]', '[1]'):
                l = self.sides(self.F, int(o[1][1:-1]))
                return l if n != 'ToLispVariant' else mk('ref', l)
        if i is not None and d['mine']:
            k, c = self.val[i]
            if n in READ:
                return mk('key', READ[n], c) if READ[n] == k else None
            if n in ('ToString', 'StringValue', 'operator basic_string', 'operator string') and k in ('String', 'Symbol'):
                return mk('key', 'text', c)
            if n == 'ToString':
                return mk('key', 'print of %s' % k, c)
        if n in ('isnan',) and len(e['a']) == 1:
            k = self.arg(s, fr, e['a'][0])
            return bools(k[1] == NAN) if k is not None and k[0] == 'Double' else None
        if n in ('CompareOrdinal', 'compare', 'strcmp', 'Compare') or n in ('operator<', 'operator>', 'operator<=', 'operator>=', 'operator==', 'operator!=', 'Equals', 'equals'):
            at = list(e['a'])
            if d.get('clsq') and not d.get('static') and e.get('o') is not None and len(at) == 1:
                at = [e['o']] + at
            if len(at) >= 2:
                a, b = (self.arg(s, fr, x) for x in at[:2])
                if a is not None and b is not None and a[0] == b[0] == 'text':
                    if n in ('CompareOrdinal', 'compare', 'strcmp', 'Compare'):
                        return const(-1 if a[1] < b[1] else 1 if a[1] > b[1] else 0)
                    return bools(rel(n[8:] if n.startswith('operator') else '==', a[1], b[1]))
        if n in ('fmod',) and len(e['a']) == 2:
            a, b = (self.arg(s, fr, x) for x in e['a'])
            if a is not None and b is not None:
                self.ops.add(('%', a[0] if a[0] == b[0] else '%s and %s' % (a[0], b[0]), a[1], b[1]))
        if n in ('fabs', 'abs') and len(e['a']) == 1:
            k = self.arg(s, fr, e['a'][0])
            if k is not None and k[0] == 'difference':
                return mk('key', 'distance', NAN if k[1] == NAN else abs(k[1]))
        return None

    def cast(self, s, fr, e):
        if e['ck'] == 'IntegralCast':
            k = self.key(self.E.rval(s, fr, e['e']))
            if k is not None and k[0] in ('Int', 'UInt'):
                ty = nonref(e['t'])
                return mk('key', ('Int' if ty.sg else 'UInt') if ty.w == 32 else 'number of %s bits' % ty.w, k[1])
        if e['ck'] in ('IntegralToFloating', 'FloatingCast'):
            v = self.E.rval(s, fr, e['e'])
            k = self.key(v)
            if k is not None and k[0] in ('Int', 'Double'):
                return mk('key', 'Double', k[1])
            if v.op == 'c':
                return mk('key', 'Double', float(v.a[0]))
        r = self.x_cast(s, fr, e)
        return r

    def num(self, s, fr, i):
        e = self.F if False else fr.F.ex[i]
        v = self.E.rval(s, fr, i)
        k = self.key(v)
        if k is None and v.op in ('c', 'b'):
            return 'const', v.a[0]
        return k

    def un(self, s, fr, e):
        if e.get('op') == '!':
            k = self.num(s, fr, e['e'])
            if k is not None and k[0] == 'Bool':
                return bools(not k[1])
        return self.x_un(s, fr, e)

    def bin(self, s, fr, e):
        op = e['op']
        if op in ('<', '>', '<=', '>=', '==', '!='):
            a, b = self.num(s, fr, e['e']), self.num(s, fr, e['r'])
            if a is not None and b is not None and not (a[0] == b[0] == 'const'):
                if a[0] == b[0] and a[0] in ('Int', 'Double', 'Bool', 'text'):
                    return bools(rel(op, a[1], b[1]))
                if 'distance' in (a[0], b[0]):
                    x, y = (1e-9 if k[0] != 'distance' else k[1] for k in (a, b))
                    return bools(rel(op, x, y))
                return self.E.opaque(s, fr, e['id'])
            if (a is None) != (b is None) and 'distance' in ((a or b)[0],):
                x, y = (1e-9 if k is None else k[1] for k in (a, b))
                return bools(rel(op, x, y))
            o = self.owner(s, fr, e['e']), self.owner(s, fr, e['r'])
            if None not in o:
                # objects of different values are different objects
                x, y = (VALUES.index(self.val[i]) for i in o)
                return bools(rel(op, x, y))
        if op in ('+', '-', '*', '/', '%'):
            a, b = self.num(s, fr, e['e']), self.num(s, fr, e['r'])
            if a is not None and b is not None and 'const' not in (a[0], b[0]):
                self.ops.add((op, a[0] if a[0] == b[0] else '%s and %s' % (a[0], b[0]), a[1], b[1]))
        if op == '-':
            a, b = self.num(s, fr, e['e']), self.num(s, fr, e['r'])
            if a is not None and b is not None and a[0] == b[0] == 'Double':
                return mk('key', 'difference', NAN if NAN in (a[1], b[1]) else a[1] - b[1])
        if op in ('&&', '||'):
            a = self.num(s, fr, e['e'])
            if a is not None and a[0] == 'Bool':
                a = bool(a[1])
                if a == (op == '||'):
                    return bools(a)
                b = self.num(s, fr, e['r'])
                if b is not None and b[0] in ('Bool', 'const'):
                    return bools(bool(b[1]))
        return self.x_bin(s, fr, e)

    def owner(self, s, fr, i):
        """the value whose object an address is"""
        if tkind(fr.F.ex[i]['t']) not in ('ptr', 'smart'):
            return None
        v = self.E.rval(s, fr, i)
        for _ in range(8):
            if v in self.loc:
                return self.loc[v]
            if v.op == 'content of':
                return v.a[0]
            if v.op in ('fld', 'deref', 'init', 'R', 'get') and isinstance(v.a[0], Term):
                v = v.a[0]
            else:
                return None

    debug = False

    def result(self):
        if not self.exits:
            return THROWS
        got = set()
        for s, rv in self.exits:
            if self.args is not None:
                # the value that is returned
                rs = {v for l, v in s.env.items() if l.op == 'fld' and l.a[1] == 'b' and isinstance(v, Term)}
                if self.debug:
                    print(rv, rs)
                rv = rs.pop() if len(rs) == 1 else None
            k = self.key(rv) if rv is not None else None
            t = bool(k[1]) if k is not None and k[0] == 'Bool' else self.E.truth(s, rv) if rv is not None else None
            got.add(t)
        return got.pop() if len(got) == 1 and None not in got else UNKNOWN


def bools(b):
    return TRUE if b else FALSE


def two(F):
    ps = [p for p in F.params if (nonref(p['t']).rec or '').endswith('LispVariant')]
    return ps


def sides(F, i):
    ps = two(F)
    if len(ps) == 2:
        return mk('pref', (('root', F.id),), ps[i]['v'], True)
    return mk('this', F.id) if i == 0 else mk('pref', (('root', F.id),), ps[0]['v'], True)


def slots(F, i):
    return mk('argument', i)


def _row(x):
    P, fa, F, ks, u = x
    return [Cell(P, fa, F, ks, sides, u, v).result() for v in VALUES]


def table(P, fa, F, ks):
    rows = common.pmap(_row, [(P, fa, F, ks, u) for u in VALUES])
    return {(i, j): r for i, row in enumerate(rows) for j, r in enumerate(row)}


def show(v):
    return '%s %s' % v


def comparator(P):
    """the order of the keys of a dictionary"""
    own = [F for F in P.fns.values() if F.short.endswith('::operator()') and not F.lam and len(two(F)) == 2 and len(F.params) == 2]
    if own:
        return own[0] if len(own) == 1 else next((F for F in own if 'std::less' in F.short), own[0])
    return next((F for F in P.fns.values() if F.short == 'LispVariant::operator<'), None)


def same(u, v):
    """two keys are one: True/False, None: left open (1 and 1.0, the symbol a and the text "a")"""
    if u == v:
        return True
    if u[0] == v[0] or CLASS.get(u[0]) is None or CLASS.get(u[0]) != CLASS.get(v[0]) or u[1] != v[1]:
        return False
    return None


def entries(P, fa, F, name):
    """which dictionary, key and value a builtin works with"""
    E = Engine(P, fa)
    out = {}
    arg0 = next((p['v'] for p in F.params if 'vector' in str(p['t'])), F.params[0]['v'])

    def index(t):
        if t is None:
            return None
        o = values.origin(t)
        return int(o[1][1:-1]) if len(o) > 1 and o[0] == arg0 and o[1][1:-1].isdigit() else None

    def add(what, where, got, want, role):
        ok = got is None or got == want
        if (what, where) not in out or not ok:
            out[(what, where)] = (ok, 'uses argument %s as the %s' % (got, role))

    def on_call(E, s, fr, e, d, this):
        if d is None:
            return None
        n, c = d['name'].rsplit('::', 1)[-1], d.get('clsq') or ''
        if n in ('ToLispVariantRef', 'ToLispVariant', 'ToLispVariantNotConstRef') and this is not None and index(this) is not None and e['a'] == []:
            l = mk('fld', this, 'value', 'CppLisp::object')
            return l if n != 'ToLispVariant' else mk('init', l, ())
        if this is None or not ('Dictionary' in c or 'std::map' in c or 'unordered_map' in c):
            return None
        if index(this) is None:
            return None
        if n == 'insert_or_assign':
            stored.append(this)
        add('%s: %s of the dictionary' % (name, n), fr.F.where(e.get('l')), index(this), 0, 'dictionary')
        for p, a in zip(d['params'], e['a']):
            if a is None or a < 0:
                continue
            ty = str(nonref(p['t']).s)
            if 'std::pair' in ty:
                continue
            ty = ty if 'LispVariant' in ty or 'object' in ty else str(nonref(fr.F.ex[a]['t']).s)
            l = None
            for x in (E.loc, E.rval):
                try:
                    l = x(s, fr, a)
                    if index(l) is not None:
                        break
                except Exception:
                    pass
            add('%s: %s of %s' % (name, 'key' if 'LispVariant' in ty else 'value', n), fr.F.where(e.get('l')), index(l) if l is not None else None, 1 if 'LispVariant' in ty or 'Value' in n else 2, 'key or value looked for')
        return None

    stored = []

    def on_store(E, s, l, v):
        if l.op == 'fld' and l.a[1] == 'second' and isinstance(v, Term) and index(l.a[0]) == 0:
            stored.append(l)
            fr, eid = E.now
            add('%s: value of the entry' % name, fr.F.where(fr.F.ex[eid].get('l')) if eid in fr.F.ex else fr.F.where(), index(v), 2, 'value')
    E.on_call, E.on_store = on_call, on_store
    E.run_root(F)
    if name == 'dict-set':
        out[('%s: replaces the value' % name, F.where())] = (bool(stored), 'the value of an entry that exists already is not replaced')
    return [(a, b, ok, t) for (a, b), (ok, t) in out.items()]


def check22(P, R, tier):
    fa = common.facts(P)
    ks = kinds(P)
    R.need(all(k in ks for k, _ in VALUES), 'the kinds of values were not found: %s' % ks)
    F = comparator(P)
    R.need(F is not None, 'the order of the keys of a dictionary was not found')
    T = table(P, fa, F, ks)
    n = range(len(VALUES))
    w = F.where()
    for i in n:
        for j in n:
            u, v, r = VALUES[i], VALUES[j], T[i, j]
            what = 'key %s before key %s' % (show(u), show(v))
            if r not in (True, False):
                R.add(what, w, False, 'the order of the two %s' % ('is an error' if r == THROWS else 'depends on more than their values'))
                continue
            q = T[j, i]
            R.add(what, w, not (r and q), 'each is before the other')
            s = same(u, v)
            eq = not r and q is False
            if s is not None and q in (True, False):
                R.add('%s and %s are %s' % (show(u), show(v), 'one key' if s else 'two keys'), w, eq == s, 'one key' if eq else 'two keys')
    bad = []
    ok = [i for i in n]
    for i in ok:
        for j in ok:
            for k in ok:
                a, b, c = T[i, j], T[j, k], T[i, k]
                if a is True and b is True and c is False:
                    bad.append('%s before %s before %s, but not %s before %s' % (show(VALUES[i]), show(VALUES[j]), show(VALUES[k]), show(VALUES[i]), show(VALUES[k])))
                e = lambda x, y: T[x, y] is False and T[y, x] is False
                if e(i, j) and e(j, k) and (T[i, k] is True or T[k, i] is True):
                    bad.append('%s same as %s same as %s, but these two differ' % (show(VALUES[i]), show(VALUES[j]), show(VALUES[k])))
    R.add('the order is transitive', w, not bad, '; '.join(bad[:3]))
    bs, root = registry.extract(P, fa, R)
    n = 0
    for b in bs:
        if b.name and b.name.startswith('dict-') and b.fn is not None:
            for what, where, ok, text in entries(P, fa, b.fn, b.name):
                n += 1
                R.add(what, where, ok, text)
    R.need(n >= 8, 'only %d uses of dictionaries found' % n)
    R.stats['uses_of_dictionaries'] = n
    R.stats['pairs'] = len(T)
    R.stats['kinds'] = sorted({k for k, _ in VALUES})





COMPARE = {'<': '<', '>': '>', '<=': '<=', '>=': '>=', '=': '==', '==': '==', 'equal': '==', '!=': '!='}
MIRROR = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}


def _crow(x):
    P, fa, F, ks, u = x
    return [Cell(P, fa, F, ks, slots, u, v).result() for v in VALUES]


def expected(op, u, v):
    """what a comparison says of two values; None: not laid down"""
    (ku, cu), (kv, cv) = u, v
    if CLASS.get(ku) == CLASS.get(kv) == 'number' or ku == kv == 'String':
        return rel(op, cu, cv)
    if op in ('==', '!='):
        if ku == kv and ku in ('Symbol', 'Bool', 'Nil'):
            return rel(op, cu, cv)
        if ku != kv and ({ku, kv} & {'Symbol', 'Nil'}) and not {ku, kv} == {'List', 'Nil'}:
            return op == '!='
        if {ku, kv} == {'List', 'Nil'}:
            return None
    return None


NUMBERS = [('Int', 5), ('Double', 7.5)]
OTHER = [('Symbol', 'a'), ('Nil', 0), ('List', 0), ('Function', 0), ('NativeObject', 0)]


def made(op, u, v):
    """the kind of the result of an operation on two values; None: not laid down"""
    ku, kv = u[0], v[0]
    if CLASS.get(ku) == CLASS.get(kv) == 'number':
        return 'Double' if 'Double' in (ku, kv) else 'Int'
    if op == '+' and ('String' in (ku, kv)) and {ku, kv} <= {'String', 'Int', 'Double', 'Bool'}:
        return 'String'
    if op == '+' and ku == kv == 'List':
        return 'List'
    if {ku, kv} & {'List', 'Function', 'NativeObject'} and {ku, kv} & {'Int', 'Double'}:
        return THROWS
    return None


def _arith(x):
    P, fa, F, ks, op, u = x
    out = []
    for v in NUMBERS + [('Int', 6), ('Double', 8.5), ('String', 'a'), ('Bool', 1)] + OTHER:
        m = made(op, u, v)
        if m is None:
            continue
        c = Cell(P, fa, F, ks, sides, u, v)
        got = set()
        for s, rv in c.exits:
            for cl, f, t in c.E.facts.fields_by_cls(VARIANT):
                if f == 'Type':
                    k = s.env.get(mk('fld', rv, f, cl)) if rv is not None else None
                    got.add(next((n for n in ks if k is const(ks[n])), UNKNOWN))
        got = got or {THROWS}
        what = '%s %s %s' % (show(u), op, show(v))
        out.append(('the kind of %s' % what, got == {m}, 'is %s' % ', '.join(sorted(got))))
        if m in ('Int', 'Double'):
            ok = c.ops in [{(op, k, u[1], v[1])} for k in ((m,) if m == 'Double' or op in '/%' else ('Int', 'UInt'))]
            out.append(('the content of %s' % what, ok, 'is made by %s' % ('; '.join('%s %s %s of %s' % (a, o, b, k) for o, k, a, b in sorted(c.ops, key=str)) or 'something else')))
    return out


def check21(P, R, tier):
    fa = common.facts(P)
    ks = kinds(P)
    R.need(all(k in ks for k, _ in VALUES), 'the kinds of values were not found: %s' % ks)
    bs, root = registry.extract(P, fa, R)
    fs = {}
    for b in bs:
        if b.name in COMPARE and b.fn is not None:
            fs[b.name] = b.fn
    R.need(set(fs) == set(COMPARE), 'comparisons missing: %s' % sorted(set(COMPARE) - set(fs)))
    jobs = sorted({F.id for F in fs.values()})
    rows = common.pmap(_crow, [(P, fa, P.fns[f], ks, u) for f in jobs for u in VALUES])
    n = len(VALUES)
    T = {}
    for a, f in enumerate(jobs):
        for i in range(n):
            for j in range(n):
                T[f, i, j] = rows[a * n + i][j]
    known = 0
    for name, F in sorted(fs.items()):
        op = COMPARE[name]
        for i in range(n):
            for j in range(n):
                u, v, r = VALUES[i], VALUES[j], T[F.id, i, j]
                x = expected(op, u, v)
                if x is not None:
                    known += 1
                    R.add('(%s %s %s)' % (name, show(u), show(v)), F.where(), r is x, 'is %s' % (r if r in (THROWS, UNKNOWN) else '#t' if r else '#f'))
    # the comparisons agree with each other, whatever they are of
    for name, F in sorted(fs.items()):
        op = COMPARE[name]
        G = next(fs[m] for m in sorted(fs) if COMPARE[m] == MIRROR[op])
        H = next(fs[m] for m in sorted(fs) if COMPARE[m] == {'<': '<=', '>': '>=', '<=': '<', '>=': '>', '==': '!=', '!=': '=='}[op])
        bad = [(i, j) for i in range(n) for j in range(n) if T[F.id, i, j] != T[G.id, j, i]]
        R.add('%s is %s turned round' % (name, MIRROR[op]), F.where(), not bad, '; '.join('%s, %s' % (show(VALUES[i]), show(VALUES[j])) for i, j in bad[:3]))
        bad = [(i, j) for i in range(n) for j in range(n) if (T[F.id, i, j] == THROWS) != (T[H.id, i, j] == THROWS)]
        R.add('%s accepts what %s accepts' % (name, COMPARE[next(m for m in fs if fs[m] is H)]), F.where(), not bad, '; '.join('%s, %s' % (show(VALUES[i]), show(VALUES[j])) for i, j in bad[:3]))
        if op in ('==', '!='):
            bad = [(i, j) for i in range(n) for j in range(n) if True in (T[F.id, i, j], T[H.id, i, j]) and T[F.id, i, j] == T[H.id, i, j]]
            R.add('%s is the opposite of %s' % (name, {'==': '!=', '!=': '=='}[op]), F.where(), not bad, '; '.join('%s, %s' % (show(VALUES[i]), show(VALUES[j])) for i, j in bad[:3]))
        if op in ('<', '>'):
            bad = [(i, j) for i in range(n) for j in range(n) if T[F.id, i, j] is True and T[H.id, i, j] is False]
            R.add('%s implies %s=' % (name, op), F.where(), not bad, '; '.join('%s, %s' % (show(VALUES[i]), show(VALUES[j])) for i, j in bad[:3]))
    # the operations: what they make, of what
    jobs = []
    for op in '+-*/%':
        F = next((F for F in P.fns.values() if F.short == 'LispVariant::operator' + op and len(F.params) == 1), None)
        R.need(F is not None, 'operator %s of values was not found' % op)
        jobs += [(P, fa, F, ks, op, u) for u in NUMBERS + [('String', 'b'), ('List', 1), ('Function', 1), ('NativeObject', 1)]]
    for j, out in zip(jobs, common.pmap(_arith, jobs)):
        for what, ok, text in out:
            R.add(what, j[2].where(), ok, text)
    R.stats['comparisons'] = len(T)
    R.stats['laid_down'] = known
