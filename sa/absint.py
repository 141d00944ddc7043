"""Forward abstract interpreter over the exported CFGs.

Domain: symbolic terms (hash-consed), an environment location->term, difference bounds between integer terms
(sizes, indices, constants), nullness of pointers, finite value sets (tags / enum discriminators) and disequalities.
Joins are path-insensitive beyond a bounded number of states; loops are widened.  Calls to functions of the
repository are analysed in the context of the caller (bounded depth, no recursion); everything else is summarised
(std models) or havocs what it may write.  Nothing is executed and no solver is called."""
import sys
from collections import deque

sys.setrecursionlimit(20000)


# ---------------------------------------------------------------- terms
class Term:
    __slots__ = ('op', 'a', 'n', 'meta')

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        t.n = len(_tab)
        t.meta = None
        _tab[k] = t
    return t


def show(t, d=0):
    if not isinstance(t, Term):
        return str(t)
    if d > 6:
        return '..'
    if t.op == 'c':
        return str(t.a[0])
    if t.op == 'b':
        return str(t.a[0])
    if t.op == 's':
        return repr(t.a[0])
    if t.op == 'var':
        return t.a[1].split(':')[1] if ':' in t.a[1] else t.a[1]
    if t.op == 'fld':
        return '%s.%s' % (show(t.a[0], d + 1), t.a[1])
    if t.op == 'deref':
        return '*%s' % show(t.a[0], d + 1)
    if t.op == 'elem':
        return '%s[%s]' % (show(t.a[0], d + 1), show(t.a[1], d + 1))
    if t.op == 'init':
        return show(t.a[0], d + 1)
    if t.op == 'sz':
        return 'size(%s)' % show(t.a[0], d + 1)
    if t.op == 'lin':
        return '%s%+d' % (show(t.a[0], d + 1), t.a[1])
    if t.op in ('sym', 'new', 'tmp'):
        return '%s#%s' % (t.op, t.a[-1])
    return '%s(%s)' % (t.op, ', '.join(show(x, d + 1) for x in t.a if not isinstance(x, tuple)))


ZERO = mk('zero')
NULL = mk('null')
TRUE = mk('b', True)
FALSE = mk('b', False)
UNK = mk('unk')
TOP = object()
NPOS = (1 << 64) - 1


def const(n):
    return mk('c', n)


def base(t):
    """(atom, offset) of an integer term"""
    if t.op == 'c':
        return ZERO, t.a[0]
    if t.op == 'lin':
        return t.a[0], t.a[1]
    return t, 0


def lin(t, k):
    b, o = base(t)
    if b is ZERO:
        return const(o + k)
    if o + k == 0:
        return b
    return mk('lin', b, o + k)


def bnot(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == 'not':
        return x.a[0]
    return mk('not', x)


def cat(*xs):
    """concatenation of string contents"""
    out = []
    for x in xs:
        for y in (x.a if x.op == 'cat' else (x,)):
            if y.op == 's' and not y.a[0]:
                continue
            if out and y.op == 's' and out[-1].op == 's':
                out[-1] = mk('s', out[-1].a[0] + y.a[0])
            else:
                out.append(y)
    if not out:
        return mk('s', '')
    return out[0] if len(out) == 1 else mk('cat', *out) if len(out) <= 24 else None


def deref(p):
    return p.a[0] if p.op == 'addr' else mk('deref', p)


def addr(l):
    return l.a[0] if l.op == 'deref' else mk('addr', l)


def subterms(t, seen):
    if not isinstance(t, Term) or t in seen:
        return
    seen.add(t)
    for x in t.a:
        if isinstance(x, Term):
            subterms(x, seen)


_news = {}


def news_in(t):
    """the created objects a term mentions"""
    r = _news.get(t)
    if r is None:
        r = frozenset()
        st = [x for x in t.a if isinstance(x, Term)]
        if t.op == 'new':
            r = frozenset((t,))
        for x in st:
            r |= news_in(x)
        for x in t.a:
            if isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Term):
                        r |= news_in(y)
        _news[t] = r
    return r


def root_of(l):
    while l.op in ('fld', 'elem', 'sz', 'content', 'key'):
        l = l.a[0]
    return l


class Dead(Exception):
    pass


# ---------------------------------------------------------------- state
class State:
    __slots__ = ('env', 'z', 'nul', 'poss', 'dis', 'kills', 'temps', 'dc', 'sums')

    def __init__(self):
        self.env = {}
        self.z = {}      # a -> {b: c}   a - b <= c
        self.nul = {}    # ptr term -> True (null) / False (non-null)
        self.poss = {}   # int/enum term -> frozenset of values
        self.dis = set()  # (a,b,c): a - b != c
        self.kills = {}
        self.temps = {}
        self.dc = None
        self.sums = {}

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.z = {a: dict(m) for a, m in self.z.items()}
        s.nul = dict(self.nul)
        s.poss = dict(self.poss)
        s.dis = set(self.dis)
        s.kills = dict(self.kills)
        s.temps = dict(self.temps)
        s.sums = dict(self.sums)
        return s

    # -- difference bounds
    def dist(self, a, b):
        """least c with a - b <= c, or None"""
        if a is b:
            return 0
        z = self.z
        if a not in z:
            return None
        best = {a: 0}
        q = deque([a])
        n = 0
        while q:
            x = q.popleft()
            dx = best[x]
            m = z.get(x)
            if not m:
                continue
            for y, c in m.items():
                d = dx + c
                o = best.get(y)
                if o is None or d < o:
                    best[y] = d
                    q.append(y)
            n += 1
            if n > 400:
                break
        return best.get(b)

    def le(self, a, b, k=0):
        """entails a - b <= k (full terms)"""
        x, ox = base(a)
        y, oy = base(b)
        if x is y:
            return ox - oy <= k
        d = self.dist(x, y)
        return d is not None and d <= k - ox + oy

    def lt(self, a, b):
        return self.le(a, b, -1)

    def add_le(self, a, b, k=0):
        x, ox = base(a)
        y, oy = base(b)
        c = k - ox + oy
        if x is y:
            if c < 0:
                raise Dead()
            return
        d = self.dist(y, x)
        if d is not None and d + c < 0:
            raise Dead()
        m = self.z.setdefault(x, {})
        if m.get(y, c + 1) <= c:
            return
        m[y] = c
        # tighten with disequalities
        if self.dis:
            ch = True
            while ch:
                ch = False
                for (p, q, e) in list(self.dis):
                    d1 = self.dist(p, q)
                    if d1 is not None and d1 == e:
                        d2 = self.dist(q, p)
                        if d2 is not None and d2 == -e:
                            raise Dead()
                        self.z.setdefault(p, {})[q] = e - 1
                        ch = True
                    else:
                        d2 = self.dist(q, p)
                        if d2 is not None and d2 == -e:
                            self.z.setdefault(q, {})[p] = -e - 1
                            ch = True

    def add_eq(self, a, b):
        self.add_le(a, b)
        self.add_le(b, a)
        pa, pb = self.values(a), self.values(b)
        if pa is not None and a.op != 'c':
            x = pa if pb is None else pa & pb
            if not x:
                raise Dead()
            self.set_poss(a, x)
        if pb is not None and b.op != 'c':
            x = pb if pa is None else pa & pb
            if not x:
                raise Dead()
            self.set_poss(b, x)

    def add_ne(self, a, b):
        x, ox = base(a)
        y, oy = base(b)
        e = oy - ox
        if x is y:
            if e == 0:
                raise Dead()
            return
        pa, pb = self.values(a), self.values(b)
        if pa is not None and pb is not None:
            if len(pa) == 1 and len(pb) == 1 and pa == pb:
                raise Dead()
            if len(pb) == 1 and a.op != 'c':
                self.set_poss(a, pa - pb)
            if len(pa) == 1 and b.op != 'c':
                self.set_poss(b, pb - pa)
        d1, d2 = self.dist(x, y), self.dist(y, x)
        if d1 == e and d2 is not None and d2 == -e:
            raise Dead()
        if d1 is not None and d1 == e:
            self.add_le(a, b, -1)
        elif d2 is not None and d2 == -e:
            self.add_le(b, a, -1)
        else:
            self.dis.add((x, y, e))

    def eq(self, a, b):
        return a is b or (self.le(a, b) and self.le(b, a))

    def ne(self, a, b):
        if self.lt(a, b) or self.lt(b, a):
            return True
        pa, pb = self.values(a), self.values(b)
        if pa is not None and pb is not None and not (pa & pb):
            return True
        x, ox = base(a)
        y, oy = base(b)
        return (x, y, oy - ox) in self.dis or (y, x, ox - oy) in self.dis

    def bounds(self, t):
        """numbers the value lies between, None for unknown"""
        x, o = base(t)
        if x is ZERO:
            return o, o
        hi, lo = self.dist(x, ZERO), self.dist(ZERO, x)
        return (None if lo is None else o - lo), (None if hi is None else o + hi)

    def values(self, t):
        if t.op == 'c':
            return frozenset((t.a[0],))
        if t.op == 'b':
            return frozenset((1 if t.a[0] else 0,))
        p = self.poss.get(t)
        if p is not None:
            return p
        return None

    def set_poss(self, t, s):
        if not s:
            raise Dead()
        self.poss[t] = frozenset(s)


def closure_pairs(s, terms):
    """bounds between the given terms"""
    out = {}
    ts = list(terms)
    for a in ts:
        if a not in s.z:
            continue
        best = {a: 0}
        q = deque([a])
        n = 0
        while q and n < 400:
            x = q.popleft()
            n += 1
            dx = best[x]
            for y, c in s.z.get(x, {}).items():
                d = dx + c
                o = best.get(y)
                if o is None or d < o:
                    best[y] = d
                    q.append(y)
        for b in ts:
            if b is not a and b in best:
                out[(a, b)] = best[b]
    return out


# ---------------------------------------------------------------- types helpers
SMART = ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::weak_ptr', 'std::__shared_ptr_access')
ITERS = ('__gnu_cxx::__normal_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::_List_iterator',
         'std::_List_const_iterator', 'std::reverse_iterator', 'std::_Deque_iterator')
CONTS = ('std::vector', 'std::basic_string', 'std::__cxx11::basic_string', 'std::map', 'std::list', 'std::__cxx11::list',
         'std::deque', 'std::stack', 'std::queue', 'std::set', 'std::unordered_map', 'std::_Vector_base')
ASSOC = ('std::map', 'std::set', 'std::unordered_map')
STRINGS = ('std::basic_string', 'std::__cxx11::basic_string')


def nonref(t):
    return t.u if t is not None and t.u is not None else t


def bases_of(t):
    t = nonref(t)
    seen = []
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.append(x)
        st.extend(nonref(b) for b in (x.bases or []))
    return seen


_tk = {}


def tkind(t):
    """int bool enum ptr smart func iter cont rec float void other"""
    if t is None:
        return 'void'
    r = _tk.get(t)
    if r is not None:
        return r
    u = nonref(t)
    if u.k == 'rec':
        r = 'rec'
        for b in bases_of(u):
            if b.rec in SMART:
                r = 'smart'
            elif b.rec == 'std::function':
                r = 'func'
            elif b.rec in ITERS:
                r = 'iter'
            elif b.rec in CONTS:
                r = 'cont'
            if r != 'rec':
                break
    else:
        r = u.k or 'other'
    _tk[t] = r
    return r


def contbase(t):
    for b in bases_of(t):
        if b.rec in CONTS:
            return b
    return None


def is_string(t):
    b = contbase(t)
    return b is not None and b.rec in STRINGS


def is_assoc(t):
    b = contbase(t)
    return b is not None and b.rec in ASSOC


def elemtype(t):
    b = contbase(t)
    if b is None or not b.targs:
        return None
    return b.targs[0]


def scalar(t):
    return tkind(t) in ('int', 'bool', 'enum', 'ptr', 'smart', 'func', 'iter', 'float', 'fn', 'null')


def nullable_kind(t):
    return tkind(t) in ('ptr', 'smart', 'func', 'fn')


# ---------------------------------------------------------------- engine
class Frame:
    __slots__ = ('F', 'fid', 'this', 'outer', 'parent', 'dest', 'depth', 'stack', 'spec', 'cur')

    def __init__(self, F, fid, this, parent=None, outer=None, dest=None):
        self.F = F
        self.fid = fid
        self.this = this
        self.parent = parent
        self.outer = outer
        self.dest = dest
        self.cur = None
        self.depth = 0 if parent is None else parent.depth + 1
        self.stack = ((parent.stack if parent else ()) + (F.id,))


def add(x, y):
    return None if x is None or y is None else x + y


def neg(x):
    return None if x is None else -x


COUNTED = ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of', 'append', 'assign', 'insert', 'replace', 'compare')


class Engine:
    KMAX = 12
    MAXDEPTH = 7
    MAXBLOCKS = 60

    def __init__(self, P, facts, budget=60000):
        self.P = P
        self.facts = facts          # program-wide facts: Facts (slots, invariants, modsets)
        self.obls = []              # current obligation sink
        self.steps = 0
        self.budget = budget
        self.havoced = set()        # repository functions summarised (must be analysed as roots)
        self.indirect = False
        self.events = []
        self.ensured = set()
        self.cut = []
        self.root_frame = None

    # ------------------------------------------------------------ helpers
    def oblige(self, s, fr, eid, kind, ok, detail):
        self.obls.append((kind, fr.F.id, eid, bool(ok), detail, fr))

    def loc_prefixes(self, l):
        while True:
            yield l
            if l.op in ('fld', 'elem', 'sz', 'content', 'key'):
                l = l.a[0]
            else:
                return

    def heap(self, l):
        r = root_of(l)
        if r in self.stable:
            return False
        if r.op == 'deref':
            return r.a[0].op not in ('new',)
        return r.op in ('glob', 'this', 'pref', 'xref', 'static')

    def keyof(self, l):
        if l.op == 'fld':
            return l.a[1]
        return l.op

    def epoch(self, s, l):
        k = s.kills
        if not k:
            return ()
        out = []
        if self.heap(l) and not (root_of(l).op == 'pref' and root_of(l).a[2]):
            e = k.get(self.keyof(l))
            if e is not None:
                out.append(e)
            if l.op == 'elem' or l.op == 'sz':
                pass
        for p in self.loc_prefixes(l):
            e = k.get(p)
            if e is not None:
                out.append(e)
        return tuple(out)

    def load(self, s, l, ty):
        v = s.env.get(l)
        if v is not None:
            return v.a[0] if v.op == 'R' and not nonref(ty).k == 'rec' and False else v
        t = mk('init', l, self.epoch(s, l))
        if t.meta is None:
            t.meta = ty
        k = tkind(ty) if ty is not None else None
        if l.op == 'sz' or (k == 'int' and nonref(ty).sg == 0):
            s.z.setdefault(ZERO, {}).setdefault(t, 0)
        elif k == 'enum' or (k == 'int' and False):
            pass
        if l.op == 'fld' and t not in s.poss:
            dom = self.facts.field_domain(l.a[2], l.a[1])
            if dom is not None:
                s.poss[t] = dom
        if l.op == 'glob' and l.a[0] in self.facts.const_globals:
            return const(self.facts.const_globals[l.a[0]])
        return t

    def size(self, s, L):
        return self.load(s, mk('sz', L), None)

    def content(self, s, L):
        c = mk('content', L)
        v = s.env.get(c)
        if v is None:
            if L.op == 'glob' and L.a[0] in self.facts.const_strings:
                return mk('s', self.facts.const_strings[L.a[0]])
            v = mk('init', c, self.epoch(s, c))
        return v

    def store(self, s, l, v, point):
        if self.heap(l):
            k = self.keyof(l)
            for x in [x for x in s.env if x is not l and x.op == l.op and self.keyof(x) == k and self.heap(x) and not (x.op == 'sz' and self.distinct(x, l))]:
                del s.env[x]
            s.kills[k] = point
        else:
            for p in [x for x in s.env if x is not l and l in self.loc_prefixes(x)]:
                del s.env[p]
        s.env[l] = v
        if self.on_store is not None:
            self.on_store(self, s, l, v)

    on_store = None         # observer of stores (E, s, location, value)
    restart = False         # inner loops are analysed anew in every round of the outer one (slower, more precise)
    sums = None             # what the sums of two unknown numbers are made of
    on_back = None          # observer of loops (E, fr, head, state at the head, states at the back edges, body)
    on_call = None          # observer of calls (E, s, fr, e, d, this) before they happen (d is None or this is None: through a function value); may return a value to replace the call

    def distinct(self, a, b):
        return False

    def kill(self, s, l, point):
        """the object at l (and all below it) may have changed"""
        for x in [x for x in s.env if l in self.loc_prefixes(x) or (x.op == 'al' and l in self.loc_prefixes(x.a[0]))]:
            if x is l and s.env[x].op == 'R':
                continue
            del s.env[x]
        s.kills[l] = point
        if self.heap(l):
            for k in ('sz', 'elem', 'content'):
                if l.op != 'fld' or True:
                    pass

    def fresh(self, s, fr, eid, ty, tag='v'):
        t = mk('sym', fr.fid, eid, tag)
        t.meta = ty
        self.forget(s, t)
        if ty is not None:
            k = tkind(ty)
            if k == 'int' and nonref(ty).sg == 0:
                s.z.setdefault(ZERO, {}).setdefault(t, 0)
        return t

    def forget(self, s, t):
        """t is generated again: nothing is known about the new one (old uses were renamed at the loop head)"""
        s.nul.pop(t, None)
        s.poss.pop(t, None)
        if t in s.z:
            del s.z[t]
        for m in s.z.values():
            m.pop(t, None)
        if s.dis:
            s.dis = {d for d in s.dis if d[0] is not t and d[1] is not t}

    # nullness -------------------------------------------------
    def nullness(self, s, p):
        """True: null, False: not null, None: may be null"""
        if p is NULL:
            return True
        if p.op in ('new', 'addr', 'lam', 'fnp', 's', 'this'):
            return False
        v = s.nul.get(p)
        if v is not None:
            return v
        if p.op == 'init':
            l = p.a[0]
            r = self.facts.init_nonnull(self, s, l)
            return False if r else None
        if p.op == 'sym':
            slot = p.a[2] if len(p.a) > 2 else None
            if isinstance(slot, tuple) and slot not in self.facts.nullable:
                return False
            if isinstance(slot, tuple):
                return None
            if slot == 'nn':
                return False
            return None
        if p.op in ('unk',):
            return None
        if p.op == 'old' and p.a[0].op in ('new', 'addr', 'lam', 'fnp', 's', 'this', 'sym'):
            # what holds by the kind of the value holds in every round of the loop
            q = p.a[0]
            if q.op != 'sym':
                return False
            slot = q.a[2] if len(q.a) > 2 else None
            return False if slot == 'nn' or isinstance(slot, tuple) and slot not in self.facts.nullable else None
        return None

    def nonnull(self, s, p):
        return self.nullness(s, p) is False

    def set_null(self, s, p, isnull):
        cur = self.nullness(s, p)
        if cur is not None:
            if cur != isnull:
                raise Dead()
            return
        s.nul[p] = isnull

    # booleans --------------------------------------------------
    def truth(self, s, t):
        o = t.op
        if o == 'b':
            return t.a[0]
        if o == 'not':
            r = self.truth(s, t.a[0])
            return None if r is None else not r
        if o == 'and':
            x, y = self.truth(s, t.a[0]), self.truth(s, t.a[1])
            if x is False or y is False:
                return False
            return True if x and y else None
        if o == 'or':
            x, y = self.truth(s, t.a[0]), self.truth(s, t.a[1])
            if x or y:
                return True
            return False if x is False and y is False else None
        if o == 'isnull':
            return self.nullness(s, t.a[0])
        if o == 'cmp':
            op, a, b = t.a
            if op == '==':
                if s.eq(a, b):
                    return True
                if s.ne(a, b):
                    return False
                pa, pb = s.values(a), s.values(b)
                if pa is not None and pb is not None and len(pa) == 1 and pa == pb:
                    return True
                return None
            if op == '<':
                if s.lt(a, b):
                    return True
                if s.le(b, a):
                    return False
                return None
            if op == '<=':
                if s.le(a, b):
                    return True
                if s.lt(b, a):
                    return False
                return None
        if o == 'c':
            return t.a[0] != 0
        v = s.poss.get(t)
        if v is not None:
            if v == frozenset((1,)):
                return True
            if v == frozenset((0,)):
                return False
        return None

    def assume(self, s, t, want):
        """states (copies) in which t == want; [] when infeasible"""
        k = self.truth(s, t)
        if k is not None:
            return [s] if k == want else []
        o = t.op
        if o == 'not':
            return self.assume(s, t.a[0], not want)
        if o in ('and', 'or'):
            x, y = t.a
            both = (o == 'and') == want
            if both:
                out = []
                for q in self.assume(s, x, want):
                    out += self.assume(q, y, want)
                return out
            out = self.assume(s.copy(), x, want)
            for q in self.assume(s.copy(), x, not want):
                out += self.assume(q, y, want)
            return out
        s = s.copy()
        try:
            if o == 'isnull':
                self.set_null(s, t.a[0], want)
            elif o == 'cmp':
                op, a, b = t.a
                self.assume_cmp(s, op, a, b, want)
            elif o == 'streq':
                if want:
                    s.add_eq(t.a[0], t.a[1])
                s.poss[t] = frozenset((1 if want else 0,))
            else:
                s.poss[t] = frozenset((1 if want else 0,))
        except Dead:
            return []
        return [s]

    def assume_cmp(self, s, op, a, b, want):
        if op == '==':
            if want:
                s.add_eq(a, b)
                for x, y in ((a, b), (b, a)):
                    if x.op == 'ucast' and s.le(ZERO, y):
                        s.add_eq(x.a[0], y)
            else:
                s.add_ne(a, b)
                self.find_rule(s, a, b, '!=')
        else:
            if not want:
                a, b = b, a
                op = '<' if op == '<=' else '<='
            s.add_le(a, b, -1 if op == '<' else 0)
            x, ox = base(a)
            if x.op == 'ucast' and not (b.op == 'c' and b.a[0] >= (1 << 62)):
                s.add_le(ZERO, x.a[0])
                s.add_le(lin(x.a[0], ox), b, -1 if op == '<' else 0)
                s.add_eq(x, x.a[0])
            self.find_rule(s, a, b, op)

    def find_rule(self, s, a, b, op):
        for x, y, side in ((a, b, 0), (b, a, 1)):
            if x.op == 'find':
                if op == '!=' and y.op == 'c' and (y.a[0] & NPOS) == NPOS:
                    self.found(s, x)
                elif op in ('<', '<=') and side == 0 and not (y.op == 'c' and y.a[0] >= NPOS):
                    self.found(s, x)
            elif x.op == 'findi':
                hit = False
                if op == '!=' and y.op == 'c' and y.a[0] == -1:
                    hit = True
                elif op in ('<', '<=') and side == 1 and s.le(ZERO, x):
                    hit = True
                if hit:
                    s.add_eq(x, x.a[0])
                    self.found(s, x.a[0])
                    s.add_le(ZERO, x)

    def found(self, s, f):
        """the search succeeded: position + length of the pattern <= size"""
        sz, pl = f.a[2], f.a[3]
        if pl.op == 'c':
            s.add_le(f, sz, -pl.a[0])
        elif s.lt(ZERO, pl):
            s.add_le(f, sz, -1)
        else:
            s.add_le(f, sz)

    # ------------------------------------------------------------ joins
    def born_in(self, frame, body):
        """tells the terms that belong to one round of the loop"""
        F = frame.F
        n = len(frame.fid)
        blk = F.extra.get('eblk')
        if blk is None:
            blk = F.extra['eblk'] = eblocks(F)

        def born(t):
            if t.op in ('sym', 'new', 'find', 'tmp', 'xref'):
                f, e = t.a[0], t.a[1]
                if isinstance(e, tuple) and e and e[0] in ('j', 'jc'):
                    if f == frame.fid:
                        return e[1] in body
                    e = None
            elif t.op == 'phi':
                f, e = t.a[0], None
            else:
                return False
            if f == frame.fid:
                if t.op == 'phi':
                    return t.a[1] in body
                return blk.get(e) in body
            if len(f) > n and f[:n] == frame.fid:
                return blk.get(f[n][1]) in body
            return False
        return born

    def rename_old(self, s, frame, body):
        """terms born in the loop body belong to the previous iteration"""
        born = self.born_in(frame, body)
        memo = {}

        def ren(t):
            r = memo.get(t)
            if r is not None:
                return r
            if born(t):
                r = mk('old', t)
            else:
                ch = False
                na = []
                for x in t.a:
                    if isinstance(x, Term):
                        y = ren(x)
                        ch = ch or y is not x
                        na.append(y)
                    else:
                        na.append(x)
                if ch:
                    r = lin(na[0], na[1]) if t.op == 'lin' else mk(t.op, *na)
                    if r.meta is None:
                        r.meta = t.meta
                else:
                    r = t
            memo[t] = r
            return r
        env = {}
        for l, v in s.env.items():
            l2 = ren(l)
            if l2 is not l and has_old(l2):
                continue
            env[l2] = ren(v)
        s.env = env
        z = {}
        for a, m in s.z.items():
            a2 = ren(a)
            mm = z.setdefault(a2, {})
            for b, c in m.items():
                b2 = ren(b)
                if a2 is b2:
                    continue
                if b2 not in mm or mm[b2] > c:
                    mm[b2] = c
        s.z = z
        s.nul = {ren(p): v for p, v in s.nul.items()}
        s.poss = {ren(p): v for p, v in s.poss.items()}
        s.dis = {(ren(a), ren(b), e) for a, b, e in s.dis}
        s.temps = {k: (ren(v) if isinstance(v, Term) else v) for k, v in s.temps.items()}

    def join(self, s1, s2, frame, blk, sticky=None):
        r = State()
        defs1, defs2 = {}, {}
        jl = {}

        def jloc(a, b, l):
            """one name for what is container a on one side and b on the other"""
            if a is b:
                return a
            x = jl.get((a, b))
            if x is None:
                op = 'xref' if self.heap(a) or self.heap(b) else 'tmp'
                key = a.a[1][2] if a.op in ('xref', 'tmp') and a.a[0] == frame.fid and isinstance(a.a[1], tuple) and a.a[1][:2] == ('jc', blk) else a
                x = mk(op, frame.fid, ('jc', blk, key))
                if x in jl.values():
                    x = mk(op, frame.fid, ('jc', blk, l))
                jl[(a, b)] = x
                z = mk('init', mk('sz', x), ())
                if z is not self.size(s1, a):
                    defs1[z] = self.size(s1, a)
                if z is not self.size(s2, b):
                    defs2[z] = self.size(s2, b)
                r.env[mk('sz', x)] = z
            return x
        locs = set(s1.env) | set(s2.env)
        known = {}
        only = set()     # values the other side does not have at all

        def unborn(s, l):
            """a part of an object that does not exist on this side: nothing there mentions it"""
            x = root_of(l)
            if x.op != 'deref' or x.a[0].op != 'new':
                return False
            k = known.get(s)
            if k is None:
                k = set()
                for a, b in s.env.items():
                    k |= news_in(a)
                    k |= news_in(b)
                for b in s.temps.values():
                    if isinstance(b, Term):
                        k |= news_in(b)
                known[s] = k
            return x.a[0] not in k
        for l in sorted(locs, key=lambda t: t.n):
            ty = None
            v1 = s1.env.get(l)
            v2 = s2.env.get(l)
            if v1 is None:
                if unborn(s1, l):
                    v1 = v2
                    only.add(mk('phi', frame.fid, blk, l))
                else:
                    v1 = self.default(s1, l, v2)
            if v2 is None:
                if unborn(s2, l):
                    v2 = v1
                    only.add(mk('phi', frame.fid, blk, l))
                else:
                    v2 = self.default(s2, l, v1)
            if v1 is None or v2 is None:
                continue
            if v1 is v2 and not (sticky and l in sticky and v1.op != 'R'):
                ph = mk('phi', frame.fid, blk, l)
                if ph not in only or v1.op in ('R', 'it') or self.nullness(s1, v1) == self.nullness(s2, v1):
                    r.env[l] = v1
                    continue
            if v1.op == 'R' or v2.op == 'R' or l.op == 'al':
                if v1.op == 'R' and v2.op == 'R' and l.op != 'al':
                    r.env[l] = mk('R', jloc(v1.a[0], v2.a[0], l))
                continue
            if sticky is not None:
                sticky.add(l)
            ph = mk('phi', frame.fid, blk, l)
            if ph.meta is None:
                ph.meta = v1.meta
            # iterators: join the indices
            if v1.op == 'it' and v2.op == 'it' and v1.a[2] == v2.a[2]:
                if v1.a[1] is v2.a[1] and not (sticky and l in sticky):
                    r.env[l] = mk('it', jloc(v1.a[0], v2.a[0], l), v1.a[1], v1.a[2])
                    continue
                r.env[l] = mk('it', jloc(v1.a[0], v2.a[0], l), ph, v1.a[2])
                defs1[ph] = v1.a[1]
                defs2[ph] = v2.a[1]
            else:
                r.env[l] = ph
                defs1[ph] = v1
                defs2[ph] = v2
        # kills
        for k in set(s1.kills) | set(s2.kills):
            a, b = s1.kills.get(k), s2.kills.get(k)
            r.kills[k] = a if a == b else ('j', frame.fid, blk)
        # temps
        for k in s1.temps:
            if k in s2.temps and s1.temps[k] is s2.temps[k]:
                r.temps[k] = s1.temps[k]
            elif k in s2.temps and (isinstance(k, int) and k in frame.F.ex and nullable_kind(frame.F.ex[k]['t']) and not self.is_loc(frame.F.ex[k]) or
                                    isinstance(k, tuple) and k[0] == 'cond'):
                ph = mk('phi', frame.fid, blk, mk('tmp', frame.fid, k))
                r.temps[k] = ph
                defs1[ph] = s1.temps[k]
                defs2[ph] = s2.temps[k]
        # facts
        w1, w2 = s1.copy() if defs1 else s1, s2.copy() if defs2 else s2
        for w, defs in ((w1, defs1), (w2, defs2)):
            for ph, v in defs.items():
                if v is ph:
                    continue
                self.forget(w, ph)
            for ph, v in defs.items():
                if v is ph:
                    continue
                try:
                    if v.op in ('c', 'lin') or v in w.z or any(v in m for m in w.z.values()) or v.op in ('init', 'sym', 'phi', 'old', 'find', 'findi', 'ucast'):
                        if v.op in ('null', 'b'):
                            continue
                        x, ox = base(v)
                        w.z.setdefault(ph, {})[x] = ox
                        w.z.setdefault(x, {})[ph] = -ox
                except Dead:
                    pass
        rel = set(defs1) | {ZERO}
        t1 = set()
        t2 = set()
        for st, w in ((t1, w1), (t2, w2)):
            for a, m in w.z.items():
                if m:
                    st.add(a)
                    st.update(m)
        common = {t for t in (t1 & t2) if not has_old(t)} | rel
        p1 = closure_pairs(w1, common)
        p2 = closure_pairs(w2, common)
        cand = {}
        for k, c in p1.items():
            c2 = p2.get(k)
            if c2 is not None:
                cand[k] = max(c, c2)
        expl = set()
        for w in (w1, w2):
            for a, m in w.z.items():
                for b in m:
                    expl.add((a, b))
        for (a, b), c in cand.items():
            if a in rel or b in rel or (a, b) in expl:
                r.z.setdefault(a, {})[b] = c
        for ph in defs1:
            if ph.op == 'phi' and hasattr(ph.meta, 'u') and tkind(ph.meta) == 'int' and nonref(ph.meta).sg == 0:
                m = r.z.setdefault(ZERO, {})
                m[ph] = min(m.get(ph, 0), 0)
        for p in set(s1.nul) | set(s2.nul):
            if has_old(p):
                continue
            x, y = self.nullness(s1, p), self.nullness(s2, p)
            if x is not None and x == y:
                r.nul[p] = x
        for ph in defs1:
            v1, v2 = defs1[ph], defs2[ph]
            x, y = self.nullness(s1, v1), self.nullness(s2, v2)
            if ph in only and (x is None or y is None):
                x = y = x if y is None else y
            if x is not None and x == y:
                r.nul[ph] = x
            x, y = s1.values(v1), s2.values(v2)
            if x is not None and y is not None and len(x | y) <= 24:
                r.poss[ph] = x | y
        for p in set(s1.poss) & set(s2.poss):
            if not has_old(p) and p not in r.poss:
                r.poss[p] = s1.poss[p] | s2.poss[p]
        for d in s1.dis | s2.dis:
            a, b, e = d
            if has_old(a) or has_old(b):
                continue
            if s1.ne(lin(a, 0) if a is not ZERO else const(0), const(e) if b is ZERO else lin(b, e)) and \
               s2.ne(lin(a, 0) if a is not ZERO else const(0), const(e) if b is ZERO else lin(b, e)):
                r.dis.add(d)
        return r

    def default(self, s, l, other):
        if l.op == 'var' or root_of(l).op in ('var', 'tmp') or l.op == 'al':
            if l.op in ('var', 'al', 'tmp'):
                return None
        if other is not None and other.op == 'R':
            return None
        meta = other.meta if other is not None else None
        t = mk('init', l, self.epoch(s, l))
        if t.meta is None:
            t.meta = meta
        return t

    def widen(self, old, new):
        """keep only what is stable; a term that was made by this very join had no earlier relations to compare with"""
        had = set()
        for v in old.env.values():
            had.add(v.a[1] if v.op == 'it' else v)
        fresh = set()
        for v in new.env.values():
            v = v.a[1] if v.op == 'it' else v
            if v.op == 'phi' and v not in had and v not in old.z:
                fresh.add(v)
        for a in list(new.z):
            m = new.z[a]
            om = old.z.get(a)
            for b in list(m):
                if a in fresh or b in fresh:
                    continue
                if om is None or b not in om or m[b] > om[b]:
                    # thresholds: keep a coarser bound when it held before
                    if om is not None and b in om and m[b] > om[b]:
                        for th in (-1, 0):
                            if om[b] <= th and m[b] <= th:
                                m[b] = th
                                break
                        else:
                            del m[b]
                    else:
                        d = old.dist(a, b)
                        if d is None:
                            del m[b]
                        elif m[b] < d:
                            m[b] = d
                        elif m[b] > d:
                            del m[b]
        vals = None
        for p in list(new.nul):
            if p in old.nul and old.nul[p] == new.nul[p]:
                continue
            if p not in old.nul and p.op == 'phi':
                # nothing is learnt about a value the earlier state already had
                if vals is None:
                    vals = set(old.env.values())
                if p in vals:
                    del new.nul[p]
        for p in list(new.poss):
            if p in old.poss and not (new.poss[p] <= old.poss[p]) and p.op == 'phi':
                del new.poss[p]
            elif p not in old.poss and p.op == 'phi':
                del new.poss[p]

    def same(self, a, b):
        return (a.env == b.env and a.nul == b.nul and a.poss == b.poss and a.kills == b.kills and a.dis == b.dis and
                {k: m for k, m in a.z.items() if m} == {k: m for k, m in b.z.items() if m})

    def arms(self, fr, b, states):
        """remembers the value of the arm of a conditional operator each state comes from"""
        F = fr.F
        cs = F.extra.setdefault('conds', {})
        ids = cs.get(b)
        if ids is None:
            ids = cs[b] = [el[1] for el in F.blocks[b]['els'] if el[0] == 'e' and F.ex[el[1]]['k'] == 'cond' and nullable_kind(F.ex[el[1]]['t']) and not self.is_loc(F.ex[el[1]])]
        for i in ids:
            e = F.ex[i]
            for s in states:
                s.temps.pop(('cond', i), None)
                for x, y in ((e['e'], e['r']), (e['r'], e['e'])):
                    if x in s.temps and y not in s.temps and not self.is_loc(F.ex[x]) and isinstance(s.temps[x], Term):
                        s.temps[('cond', i)] = s.temps[x]

    def reduce(self, states, frame, blk):
        out = []
        for s in states:
            for t in out:
                if self.same(s, t) and s.temps == t.temps:
                    break
            else:
                out.append(s)
        if len(out) > self.KMAX and self.partition is not None:
            groups = {}
            for s in out:
                groups.setdefault(self.partition(s, frame, None), []).append(s)
            out = []
            for n, k in enumerate(sorted(groups, key=str)):
                j = groups[k][0]
                for x in groups[k][1:]:
                    j = self.join(j, x, frame, (blk, n))
                out.append(j)
        elif len(out) > self.KMAX:
            j = out[0]
            for x in out[1:]:
                j = self.join(j, x, frame, blk)
            out = [j]
        return out

    partition = None     # state, frame, block -> key: states with different keys are kept apart at the heads of loops

    at_head = None       # state, frame, block: called on the joined state of a part

    def partitioned(self, fr, b, info, allst):
        parts = info.setdefault('parts', {})
        sticky = info['sticky']
        groups = {}
        for x in allst:
            groups.setdefault(self.partition(x, fr, b), []).append(x)
        changed = False
        for k in sorted(groups, key=str):
            j = groups[k][0]
            i = parts.setdefault(k, {'n': 0, 'state': None})
            prev = i['state']
            if len(groups[k]) == 1:
                # terms of the loop head even if there is one way only into it in this part
                j = self.join(j, j.copy(), fr, b, sticky)
            for x in groups[k][1:]:
                j = self.join(j, x, fr, b, sticky)
            i['n'] += 1
            if self.at_head is not None:
                self.at_head(j, fr, b)
            if prev is not None:
                if i['n'] > 2:
                    self.widen(prev, j)
                if i['n'] > 10:
                    j.z = {a: {c: d for c, d in m.items() if (a is ZERO or c is ZERO) and prev.z.get(a, {}).get(c) == d} for a, m in j.z.items()}
                    j.dis = {d for d in j.dis if d in prev.dis}
                    j.nul = {x: v for x, v in j.nul.items() if x.op != 'phi' or prev.nul.get(x) == v}
                    j.poss = {x: v for x, v in j.poss.items() if x.op != 'phi'}
                if self.same(prev, j) or i['n'] > 14:
                    if i['n'] > 14:
                        self.cut.append((fr.F.name, b))
                    continue
            i['state'] = j
            changed = True
        return [i['state'].copy() for k, i in sorted(parts.items(), key=lambda x: str(x[0])) if i['state'] is not None] if changed else []

    # ------------------------------------------------------------ running a function
    def run(self, fr, states):
        """-> list of (state, returned term or None) at normal exits"""
        F = fr.F
        order = {b: i for i, b in enumerate(F.rpo)}
        inc = {F.entry: {'entry': states}}      # block -> edge -> states
        heads = {}
        work = {F.entry}
        exits = {}
        blk_obls = {}
        outer = self.obls
        it = {}
        exc = {}
        while work:
            b = min(work, key=lambda x: order.get(x, 1 << 30))
            work.discard(b)
            if b == F.exit:
                continue
            blk = F.blocks[b]
            fr.cur = b
            edges = inc.get(b, {})
            sts = []
            if b in F.loops:
                body = F.loops[b]
                ent = []
                bk = []
                if self.restart:
                    now = [id(s) for ed, ss in sorted(edges.items(), key=str) if not (isinstance(ed, tuple) and ed[0] in body) for s in ss]
                    if heads.get(b, {}).get('ent') != now:
                        # a new round of the enclosing loop: the rounds of this one start again
                        for ed in [ed for ed in edges if isinstance(ed, tuple) and ed[0] in body]:
                            del edges[ed]
                        heads[b] = {'n': 0, 'state': None, 'sticky': set(), 'ent': now, 'keep': [s for ss in edges.values() for s in ss]}
                if self.on_back is not None:
                    self.on_back(self, fr, b, heads.get(b, {}).get('state'), [s for ed, ss in edges.items() if isinstance(ed, tuple) and ed[0] in body for s in ss], body)
                for ed, ss in edges.items():
                    p = ed[0] if isinstance(ed, tuple) else None
                    if p in body:
                        for s in ss:
                            s = s.copy()
                            self.rename_old(s, fr, body)
                            bk.append(s)
                    else:
                        ent += [s.copy() for s in ss]
                info = heads.setdefault(b, {'n': 0, 'state': None, 'sticky': set()})
                allst = ent + bk
                if not allst:
                    continue
                if self.partition is not None:
                    sts = self.partitioned(fr, b, info, allst)
                    if not sts:
                        continue
                    allst = []
                if allst:
                    j = allst[0]
                    if len(allst) > 1:
                        for x in allst[1:]:
                            j = self.join(j, x, fr, b, info['sticky'])
                        if info['sticky']:
                            pass
                    info['n'] += 1
                    prev = info['state']
                    if prev is not None:
                        if info['n'] > 2:
                            self.widen(prev, j)
                        if info['n'] > 10:
                            def phiof(t):
                                return t.op == 'phi' and t.a[0] == fr.fid and t.a[1] == b
                            j.z = {a: {c: k for c, k in m.items() if (a is ZERO or c is ZERO) and not phiof(a) and not phiof(c) and prev.z.get(a, {}).get(c) == k} for a, m in j.z.items()}
                            j.dis = {d for d in j.dis if d in prev.dis and not phiof(d[0]) and not phiof(d[1])}
                            j.nul = {k: v for k, v in j.nul.items() if k.op != 'phi' or prev.nul.get(k) == v}
                            j.poss = {k: v for k, v in j.poss.items() if k.op != 'phi'}
                        if self.same(prev, j) or info['n'] > 14:
                            if info['n'] > 14:
                                self.cut.append((F.name, b))
                            continue
                    info['state'] = j
                    sts = [j.copy()]
            else:
                for ed in sorted(edges, key=str):
                    sts += edges[ed]
                self.arms(fr, b, sts)
                sts = self.reduce(sts, fr, b)
                sts = [s.copy() for s in sts]
            self.obls = blk_obls[b] = []
            self.steps += len(sts)
            excs = {}
            rets = []
            cur = sts
            for el in blk['els']:
                if not cur:
                    break
                nxt = []
                for s in cur:
                    try:
                        nxt += self.element(s, fr, el, excs, rets)
                    except Dead:
                        pass
                cur = nxt
                if len(cur) > self.KMAX * 2:
                    cur = self.reduce(cur, fr, ('m', b, el[1] if isinstance(el[1], int) else 0))
            if blk.get('noret'):
                cur = []
            exits[b] = rets
            # successors
            outs = self.successors(fr, blk, cur)
            for (idx, succ), ss in outs.items():
                if succ == F.exit:
                    for s in ss:
                        rets.append((s, None))
                    continue
                e = (b, idx)
                old = inc.get(succ, {}).get(e)
                if not ss and not old:
                    continue
                inc.setdefault(succ, {})[e] = ss
                work.add(succ)
            for h, ss in excs.items():
                ss = self.reduce(ss, fr, ('x', b))
                inc.setdefault(h, {})[(b, 'x')] = ss
                work.add(h)
        self.obls = outer
        for b in blk_obls:
            outer.extend(blk_obls[b])
        res = []
        for b in exits:
            res += exits[b]
        # explicit 'ret' elements already registered; plain fallthrough registered with None
        return res

    def successors(self, fr, blk, cur):
        out = {}
        succ = blk['succ']
        term = blk.get('term')
        live = [(i, x) for i, x in enumerate(succ) if x >= 0]
        if term == 'CXXTryStmt':
            return out
        if len(live) == 0:
            return out
        if len(succ) == 1 or 'cond' not in blk:
            for i, x in live:
                out[(i, x)] = [s.copy() for s in cur] if len(live) > 1 else cur
            return out
        if term == 'SwitchStmt':
            F = fr.F
            allcases = set()
            for i, x in live:
                allcases |= set(F.blocks[x].get('case', ()))
            for i, x in live:
                lst = []
                B = F.blocks[x]
                for s in cur:
                    v = self.rval(s, fr, blk['cond'])
                    if 'case' in B:
                        for cv in B['case']:
                            lst += self.assume(s.copy(), self.cmp('==', v, const(cv)), True)
                    else:
                        st = [s.copy()]
                        for cv in sorted(allcases):
                            n = []
                            for q in st:
                                n += self.assume(q, self.cmp('==', v, const(cv)), False)
                            st = n
                        lst += st
                out[(i, x)] = lst
            return out
        for i, x in live:
            lst = []
            for s in cur:
                v = self.rval(s, fr, blk['cond'])
                v = self.tobool(s, v, fr.F.ex[blk['cond']]['t'])
                lst += self.assume(s.copy(), v, i == 0)
            out.setdefault((i, x), []).extend(lst)
        return out

    def tobool(self, s, v, ty):
        k = tkind(ty)
        if k == 'bool':
            return v
        if k in ('ptr', 'smart', 'func', 'fn'):
            return bnot(mk('isnull', v))
        if v.op == 'b':
            return v
        if v.op == 'c':
            return TRUE if v.a[0] else FALSE
        return bnot(self.cmp('==', v, const(0)))

    def cmp(self, op, a, b):
        if op in ('>', '>='):
            a, b = b, a
            op = '<' if op == '>' else '<='
        if op == '!=':
            return bnot(self.cmp('==', a, b))
        if a.op == 'b' or b.op == 'b':
            a, b = (b, a) if a.op == 'b' else (a, b)
            if op == '==':
                if b.op == 'b':
                    return TRUE if (a is b) else (FALSE if a.op == 'b' else (a if b.a[0] else bnot(a)))
            return mk('bcmp', op, a, b)
        if op == '==' and a.n > b.n:
            a, b = b, a
        return mk('cmp', op, a, b)

    # ------------------------------------------------------------ elements
    def handlers(self, fr, e):
        t = e.get('try')
        out = []
        while t is not None and t in fr.F.tries:
            hs = fr.F.tries[t]['handlers']
            out += hs
            if any('all' in fr.F.blocks[h]['catch'] for h in hs):
                break
            t = fr.F.tries[t].get('parent')
        return out

    def element(self, s, fr, el, excs, rets):
        F = fr.F
        k = el[0]
        if k == 'e':
            e = F.ex[el[1]]
            if e['k'] in ('call', 'ctor', 'throw', 'new') and 'try' in e:
                hs = self.handlers(fr, e)
                if hs and not self.nothrow(e):
                    x = s.copy()
                    self.call_kill(x, fr, e)
                    for h in hs:
                        excs.setdefault(h, []).append(x)
            if e['k'] == 'throw':
                return []
            res = self.expr(s, fr, el[1])
            out = []
            for st, v in res:
                st.temps[el[1]] = v
                out.append(st)
            return out
        if k == 'decl':
            d = el[1]
            l = mk('var', fr.fid, d['v'])
            ty = d['t']
            # a fresh instance of the variable
            for x in [x for x in s.env if l in self.loc_prefixes(x) or (x.op == 'al' and x.a[0] is l)]:
                del s.env[x]
            if d.get('static'):
                s.env[l] = mk('R', mk('static', F.id, d['v']))
                return [s]
            if ty.ref or ty.rref:
                if 'e' in d:
                    s.env[l] = mk('R', self.loc(s, fr, d['e']))
                return [s]
            if 'e' not in d or d['e'] < 0:
                if scalar(ty):
                    s.env[l] = self.fresh(s, fr, ('d', d['v']), ty)
                return [s]
            if scalar(ty):
                s.env[l] = self.conv(s, fr, self.rval(s, fr, d['e']), F.ex[d['e']]['t'], ty, d['e'])
            else:
                src = self.loc(s, fr, d['e'])
                self.copy_object(s, src, l, ty)
            return [s]
        if k == 'ret':
            eid = el[1]
            if eid < 0:
                rets.append((s, None))
                return []
            e = F.ex[eid]
            rt = F.ret
            if rt is None or rt.k == 'void':
                rets.append((s, None))
            elif rt.ref or rt.rref:
                rets.append((s, self.loc(s, fr, eid)))
            elif scalar(rt):
                rets.append((s, self.conv(s, fr, self.rval(s, fr, eid), e['t'], rt, eid)))
            else:
                src = self.loc(s, fr, eid)
                dst = fr.dest or mk('tmp', fr.fid, 'ret')
                self.copy_object(s, src, dst, rt)
                rets.append((s, dst))
            return []
        if k == 'init':
            d = el[1]
            if d.get('e', -1) < 0 or fr.this is None:
                return [s]
            if 'f' in d:
                cls = self.owner(fr.F.cls, d['f'])
                l = mk('fld', fr.this, d['f'], cls)
                if scalar(d['t']):
                    v = self.rval(s, fr, d['e'])
                    s.env[l] = self.conv(s, fr, v, F.ex[d['e']]['t'], d['t'], d['e'])
                    self.note_store(s, fr, l, v, d['t'], d['e'], init=True)
                elif not (d['t'].ref or d['t'].rref):
                    self.copy_object(s, self.loc(s, fr, d['e']), l, d['t'])
                else:
                    s.env[l] = mk('R', self.loc(s, fr, d['e']))
            else:
                ty = d.get('base') or F.ex[d['e']]['t']
                self.copy_object(s, self.loc(s, fr, d['e']), fr.this, ty)
            return [s]
        return [s]

    def owner(self, cls, f):
        return self.facts.field_owner(cls, f)

    def nothrow(self, e):
        c = e.get('c')
        if c and e['k'] in ('call', 'ctor'):
            d = self.P.decls.get(c)
            return bool(d and d.get('noexcept') and not d['mine'])
        return False

    # ------------------------------------------------------------ expression values
    def is_loc(self, e):
        if e['k'] in ('fn',):
            return False
        return bool(e.get('lv')) or (tkind(e['t']) in ('rec', 'cont'))

    def get(self, s, fr, eid):
        v = s.temps.get(eid)
        if v is None:
            r = self.expr(s, fr, eid, demand=True)
            if len(r) == 1 and r[0][0] is s:
                v = r[0][1]
            else:
                e = fr.F.ex[eid]
                v = mk('xref', fr.fid, eid) if self.is_loc(e) else self.fresh(s, fr, eid, e['t'])
            s.temps[eid] = v
        return v

    def rval(self, s, fr, eid):
        e = fr.F.ex[eid]
        v = self.get(s, fr, eid)
        if self.is_loc(e) and scalar(e['t']):
            return self.load(s, v, e['t'])
        return v

    def loc(self, s, fr, eid):
        e = fr.F.ex[eid]
        v = self.get(s, fr, eid)
        if self.is_loc(e):
            return v
        l = mk('tmp', fr.fid, eid)
        s.env[l] = v
        return l

    def conv(self, s, fr, v, t1, t2, eid):
        return v

    def varloc(self, s, fr, v, ty):
        f = fr
        while f is not None:
            l = mk('var', f.fid, v)
            b = s.env.get(l)
            if b is not None:
                return b.a[0] if b.op == 'R' else l
            if f.outer is None:
                break
            # a lambda: own locals/params first, then the creator's variables
            if v in self.own_vars(f.F):
                return l
            f = f.outer
        return mk('var', f.fid, v)

    def own_vars(self, F):
        o = F.extra.get('own')
        if o is None:
            o = set(p['v'] for p in F.params)
            for b in F.blocks.values():
                for el in b['els']:
                    if el[0] == 'decl':
                        o.add(el[1]['v'])
            F.extra['own'] = o
        return o

    def elem_loc(self, s, L, idx):
        n = 0
        while n < 4:
            a = s.env.get(mk('al', L))
            if a is None:
                break
            L = a.a[0]
            n += 1
        return mk('elem', L, idx)

    def copy_object(self, s, src, dst, ty, depth=0):
        if src is dst:
            return
        k = tkind(ty)
        if scalar(ty):
            s.env[dst] = self.load(s, src, nonref(ty))
            return
        # drop what was known of dst
        if depth == 0:
            for x in [x for x in s.env if x is not dst and (dst in self.loc_prefixes(x)) or (x.op == 'al' and x.a[0] is dst)]:
                del s.env[x]
        if k == 'cont':
            s.env[mk('sz', dst)] = self.size(s, src)
            s.env[mk('content', dst)] = self.content(s, src)
            if elemtype(ty) is not None and not is_string(ty):
                s.env[mk('al', dst)] = mk('R', src)
        r = self.facts.fields_of(ty)
        U = self.P.records.get(nonref(ty).rec) if k == 'rec' else None
        if U is not None and U.get('union'):
            r = [(nonref(ty).rec, x['name'], x['t']) for x in U['fields']]
        if r and depth < 3:
            for (cls, f, ft) in r:
                if ft.ref or ft.rref:
                    continue
                self.copy_object(s, mk('fld', src, f, cls), mk('fld', dst, f, cls), ft, depth + 1)

    def default_init(self, s, l, ty, depth=0):
        k = tkind(ty)
        if k in ('smart', 'func'):
            s.env[l] = NULL
        elif k == 'cont':
            s.env[mk('sz', l)] = const(0)
            s.env[mk('content', l)] = mk('s', '')
        r = self.facts.fields_of(ty)
        if r and depth < 3:
            for cls, f, ft in r:
                if tkind(ft) in ('smart', 'func', 'cont', 'rec'):
                    self.default_init(s, mk('fld', l, f, cls), ft, depth + 1)

    # ------------------------------------------------------------ expressions
    now = (None, None)

    def expr(self, s, fr, eid, demand=False):
        self.now = (fr, eid)
        e = fr.F.ex[eid]
        k = e['k']
        m = getattr(self, 'x_' + k, None)
        if m is None:
            return [(s, self.opaque(s, fr, eid))]
        r = m(s, fr, e)
        if isinstance(r, Term):
            return [(s, r)]
        return r

    def opaque(self, s, fr, eid, tag='v'):
        e = fr.F.ex[eid]
        if self.is_loc(e):
            if e.get('lv'):
                return mk('xref', fr.fid, eid)
            l = mk('tmp', fr.fid, eid)
            self.clear(s, l)
            return l
        return self.fresh(s, fr, eid, e['t'], tag)

    def clear(self, s, l):
        for x in [x for x in s.env if l in self.loc_prefixes(x) or (x.op == 'al' and x.a[0] is l)]:
            del s.env[x]
        s.kills.pop(l, None)

    def x_var(self, s, fr, e):
        if e.get('glob'):
            return mk('glob', e['v'])
        return self.varloc(s, fr, e['v'], e['t'])

    def x_fn(self, s, fr, e):
        return mk('fnp', e['c'])

    def x_enum(self, s, fr, e):
        return const(e['val'])

    def x_int(self, s, fr, e):
        return const(e['val'])

    def x_bool(self, s, fr, e):
        return TRUE if e['val'] else FALSE

    def x_str(self, s, fr, e):
        return mk('s', e['val'])

    def x_null(self, s, fr, e):
        return NULL

    def x_zero(self, s, fr, e):
        k = tkind(e['t'])
        if k in ('smart', 'func', 'ptr'):
            return NULL
        if k == 'bool':
            return FALSE
        if k in ('int', 'enum'):
            return const(0)
        if k in ('rec', 'cont'):
            l = mk('tmp', fr.fid, e['id'])
            self.clear(s, l)
            self.default_init(s, l, e['t'])
            return l
        return self.opaque(s, fr, e['id'])

    def x_this(self, s, fr, e):
        return addr(fr.this) if fr.this is not None else self.fresh(s, fr, e['id'], None, 'nn')

    def x_load(self, s, fr, e):
        sub = fr.F.ex[e['e']]
        l = self.get(s, fr, e['e'])
        if not self.is_loc(sub):
            return l
        b = s.env.get(l)
        if b is not None and b.op == 'R':
            l = b.a[0]
        return self.load(s, l, e['t'])

    def x_mem(self, s, fr, e):
        if e['arrow']:
            p = self.rval(s, fr, e['b'])
            self.need_nonnull(s, fr, e['id'], p, e['b'])
            b = deref(p)
        else:
            b = self.get(s, fr, e['b'])
        cls = e['cls']
        l = mk('fld', b, e['f'], cls)
        tg = self.facts.union_tags(cls, e['f'])
        if tg is not None and not e.get('asgtarget') and not self.is_store_target(fr.F, e['id']):
            own = b.a[0] if b.op == 'fld' else b
            tl = mk('fld', own, self.facts.tag_field, self.facts.tag_cls)
            tv = self.load(s, tl, None)
            ps = s.values(tv)
            if ps is None:
                ps = self.facts.all_tags
            ps = self.facts.refine_tag(self, s, own, ps)
            bad = ps - tg
            self.oblige(s, fr, e['id'], 'tag', not bad, (own, e['f'], tuple(sorted(bad))))
            keep = ps & tg
            if not keep:
                raise Dead()
            s.poss[tv] = keep
        bnd = s.env.get(l)
        if bnd is not None and bnd.op == 'R':
            return bnd.a[0]
        return l

    def is_store_target(self, F, eid):
        t = F.extra.get('stargets')
        if t is None:
            t = set()
            for e in F.ex.values():
                if e['k'] == 'asg' and e['op'] == '=':
                    t.add(e['e'])
            F.extra['stargets'] = t
        return eid in t

    def need_nonnull(self, s, fr, eid, p, srceid):
        n = self.nullness(s, p)
        self.oblige(s, fr, eid, 'null', n is False, (p, srceid))
        if n is True:
            raise Dead()
        if n is None:
            s.nul[p] = False

    def x_cast(self, s, fr, e):
        ck = e['ck']
        if ck == 'NullToPointer':
            return NULL
        v = self.rval(s, fr, e['e'])
        if ck in ('IntegralCast',):
            src, dst = nonref(fr.F.ex[e['e']]['t']), nonref(e['t'])
            return self.icast(s, fr, v, src, dst, e)
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            return self.tobool(s, v, fr.F.ex[e['e']]['t'])
        if ck in ('BitCast', 'LValueBitCast', 'BaseToDerived', 'Dynamic'):
            if ck == 'Dynamic':
                return self.fresh(s, fr, e['id'], e['t'], 'maynull')
            return v
        if ck == 'IntegralToPointer':
            return self.fresh(s, fr, e['id'], e['t'], 'maynull')
        if ck in ('ToVoid',):
            return UNK
        return self.opaque(s, fr, e['id'])

    def icast(self, s, fr, v, src, dst, e):
        if v.op == 'b':
            return const(1 if v.a[0] else 0)
        if v.op == 'c':
            n = v.a[0]
            if dst.k == 'int' and dst.w:
                n &= (1 << dst.w) - 1
                if dst.sg and n >> (dst.w - 1):
                    n -= 1 << dst.w
            return const(n)
        if src.k in ('bool', 'enum'):
            return v
        if src.k == 'int' and dst.k == 'int':
            if src.sg and not dst.sg:
                if s.le(ZERO, v):
                    return v
                t = mk('ucast', v)
                s.z.setdefault(ZERO, {}).setdefault(t, 0)
                return t
            if not src.sg and dst.sg:
                if v.op == 'find':
                    if s.le(v, v.a[2]):
                        return v
                    t = mk('findi', v)
                    s.z.setdefault(const(-1) and ZERO, {}).setdefault(t, 1)
                    return t
                if v.op == 'ucast':
                    return v.a[0]
                return v
            return v
        return v

    def x_un(self, s, fr, e):
        op = e['op']
        sub = fr.F.ex[e['e']]
        if op == '!':
            return bnot(self.tobool(s, self.rval(s, fr, e['e']), sub['t']))
        if op == '*':
            p = self.rval(s, fr, e['e'])
            self.need_nonnull(s, fr, e['id'], p, e['e'])
            return deref(p)
        if op == '&':
            if not self.is_loc(sub):
                return self.get(s, fr, e['e'])
            return addr(self.get(s, fr, e['e']))
        if op in ('++', '--'):
            l = self.get(s, fr, e['e'])
            v = self.load(s, l, sub['t'])
            nv = self.arith(s, fr, '+', v, const(1 if op == '++' else -1), sub['t'], e)
            self.store(s, l, nv, ('st', fr.fid, e['id']))
            return l if e.get('lv') else v
        if op == '-':
            v = self.rval(s, fr, e['e'])
            if tkind(sub['t']) == 'int' and nonref(sub['t']).sg != 0:
                mn = const(-(1 << ((nonref(sub['t']).w or 32) - 1)))
                self.oblige(s, fr, e['id'], 'neg', s.ne(v, mn) or s.lt(mn, v), (v,))
            if v.op == 'c':
                return const(-v.a[0])
        if op == '+':
            return self.rval(s, fr, e['e'])
        return self.opaque(s, fr, e['id'])

    def arith(self, s, fr, op, a, b, ty, e):
        uns = tkind(ty) == 'int' and nonref(ty).sg == 0
        if op in ('+', '-') and (a.op == 'b' or b.op == 'b'):
            a = const(int(a.a[0])) if a.op == 'b' else a
            b = const(int(b.a[0])) if b.op == 'b' else b
        if op == '+' and a.op == 'c' and b.op != 'c':
            a, b = b, a
        if op in ('+', '-') and b.op == 'c':
            k = b.a[0]
            if uns and k >= (1 << 63):
                k -= 1 << 64
            k = k if op == '+' else -k
            if a.op == 'c':
                n = a.a[0] + k
                if uns and n < 0:
                    n += 1 << (nonref(ty).w or 64)
                return const(n)
            if k < 0 and uns and not s.le(const(-k), a):
                t = mk('usub', a, const(-k))
                s.z.setdefault(ZERO, {}).setdefault(t, 0)
                return t
            if a.op in ('find', 'findi') or base(a)[0].op == 'find':
                x, ox = base(a)
                if uns and x.op == 'find' and not s.le(x, x.a[2]):
                    t = self.fresh(s, fr, e['id'], ty)    # may wrap
                    return t
            return lin(a, k)
        if op == '-' and a.op != 'c' and b.op != 'c' and s.le(ZERO, b) and s.le(b, a):
            t = mk('sub', a, b)
            if t.meta is None:
                t.meta = ty
        else:
            t = self.fresh(s, fr, e['id'], ty)
        if self.sums is not None and op == '+':
            self.sums.setdefault(t, set()).add((a, b))
        try:
            if op == '+':
                for x, y in ((a, b), (b, a)):
                    for d in [d for d in list(s.z) if d.op == 'sub' and d.a[1] is y]:
                        if s.le(ZERO, x) and s.le(x, d):
                            s.add_le(t, d.a[0], -1 if s.lt(x, d) else 0)
                if s.le(ZERO, b):
                    s.add_le(a, t)
                if s.le(ZERO, a):
                    s.add_le(b, t)
            elif op == '-':
                if not uns or s.le(b, a):
                    if s.le(ZERO, b):
                        s.add_le(t, a)
                    if s.le(b, a):
                        s.add_le(ZERO, t)
                        d = s.dist(*([base(b)[0], base(a)[0]]))
                        if d is not None:
                            k = d + base(b)[1] - base(a)[1]
                            s.add_le(const(-k), t)
            elif op == '%' and s.lt(ZERO, b) and (uns or s.le(ZERO, a)):
                s.add_le(ZERO, t)
                s.add_le(t, b, -1)
            elif op == '/' and s.lt(ZERO, b) and (uns or s.le(ZERO, a)):
                s.add_le(ZERO, t)
                s.add_le(t, a)
            elif op == '*' and s.le(ZERO, a) and s.le(ZERO, b):
                s.add_le(ZERO, t)
            elif op == '&' and b.op == 'c' and b.a[0] >= 0:
                s.add_le(ZERO, t)
                s.add_le(t, b)
        except Dead:
            raise
        return t

    def from_bool(self, F, x):
        x = F.ex[x]
        while x['k'] in ('cast', 'load', 'paren') and 'e' in x:
            if tkind(x['t']) == 'bool':
                return True
            x = F.ex[x['e']]
        return tkind(x['t']) == 'bool'

    def x_bin(self, s, fr, e):
        op = e['op']
        F = fr.F
        if op in ('&&', '||'):
            l = self.tobool(s, self.rval(s, fr, e['e']), F.ex[e['e']]['t'])
            tl = self.truth(s, l)
            if op == '&&' and tl is False:
                return FALSE
            if op == '||' and tl is True:
                return TRUE
            if e['r'] not in s.temps and tl is None and not self.pure(F, e['r']):
                return self.opaque(s, fr, e['id'])
            r = self.tobool(s, self.rval(s, fr, e['r']), F.ex[e['r']]['t'])
            if tl is not None:
                return r
            return mk('and' if op == '&&' else 'or', l, r)
        if op == ',':
            return self.get(s, fr, e['r'])
        a = self.rval(s, fr, e['e'])
        b = self.rval(s, fr, e['r'])
        t1 = F.ex[e['e']]['t']
        k1 = tkind(t1)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            if k1 in ('ptr', 'fn', 'null') or tkind(F.ex[e['r']]['t']) in ('ptr', 'null'):
                if op in ('==', '!='):
                    return self.ptr_eq(s, a, b, op)
                return self.opaque(s, fr, e['id'])
            if op in ('==', '!=') and self.from_bool(F, e['e']) and self.from_bool(F, e['r']):
                # two truth values, widened for the comparison
                a, b = (TRUE if x.op == 'c' and x.a[0] else FALSE if x.op == 'c' else x for x in (a, b))
                a, b = (x if k is None else TRUE if k else FALSE for x, k in ((a, self.truth(s, a)), (b, self.truth(s, b))))
                return self.cmp(op, a, b)
            if k1 in ('int', 'enum', 'bool'):
                return self.cmp(op, a, b)
            return self.opaque(s, fr, e['id'])
        if op in ('/', '%') and k1 == 'int':
            nz = s.ne(b, const(0))
            self.oblige(s, fr, e['id'], 'div', nz, (b,))
            if not (nonref(t1).sg == 0):
                mn = -(1 << (nonref(t1).w - 1))
                ok = s.ne(b, const(-1)) or s.ne(a, const(mn)) or s.lt(const(mn), a)
                self.oblige(s, fr, e['id'], 'divov', ok, (a, b))
        if k1 == 'int':
            self.ranges(s, fr, e, op, a, b, t1)
        if k1 == 'int' and op in ('+', '-', '*', '/', '%', '&'):
            return self.arith(s, fr, op, a, b, e['t'], e)
        if k1 == 'ptr' and op in ('+', '-'):
            t = self.fresh(s, fr, e['id'], e['t'], 'nn')
            return t
        return self.opaque(s, fr, e['id'])

    def ranges(self, s, fr, e, op, a, b, ty):
        """shift counts are below the width, signed results fit"""
        w = nonref(ty).w or 32
        if op in ('<<', '>>'):
            self.oblige(s, fr, e['id'], 'shift', s.le(ZERO, b) and s.le(b, const(w - 1)), (b,))
        if op in ('+', '-', '*', '<<') and nonref(ty).sg != 0:
            mn, mx = -(1 << (w - 1)), (1 << (w - 1)) - 1
            (la, ha), (lb, hb) = s.bounds(a), s.bounds(b)
            if op == '+':
                lo, hi = add(la, lb), add(ha, hb)
            elif op == '-':
                lo, hi = add(la, neg(hb)), add(ha, neg(lb))
                if s.le(b, a):
                    lo = 0
                    if lb is not None and lb >= 0:
                        hi = mx
            elif op == '*':
                c = [x * y if x is not None and y is not None else None for x in (la, ha) for y in (lb, hb)]
                lo, hi = (None, None) if None in c else (min(c), max(c))
            else:
                lo, hi = la, (None if ha is None or hb is None or hb > 64 or hb < 0 else ha << hb)
                if lo is None or lo < 0:
                    lo = None
            self.oblige(s, fr, e['id'], 'ovf', lo is not None and hi is not None and mn <= lo and hi <= mx, (a, b))

    def pure(self, F, eid, d=0):
        e = F.ex[eid]
        if e['k'] in ('call', 'ctor', 'asg', 'new', 'delete', 'lambda', 'throw'):
            return False
        from prog import children
        return all(self.pure(F, c, d + 1) for c in children(e))

    def ptr_eq(self, s, a, b, op):
        if a is NULL or (a.op == 'c' and a.a[0] == 0):
            a, b = b, a
        if b is NULL or (b.op == 'c' and b.a[0] == 0):
            t = mk('isnull', a)
        elif a is b:
            t = TRUE
        else:
            t = mk('peq', a, b)
        return t if op == '==' else bnot(t)

    def x_asg(self, s, fr, e):
        F = fr.F
        op = e['op']
        l = self.get(s, fr, e['e'])
        te = F.ex[e['e']]['t']
        if op == '=':
            if scalar(te):
                v = self.rval(s, fr, e['r'])
                self.note_store(s, fr, l, v, te, e['id'])
                self.store(s, l, v, ('st', fr.fid, e['id']))
            else:
                self.copy_object(s, self.loc(s, fr, e['r']), l, te)
            return l
        a = self.load(s, l, te)
        b = self.rval(s, fr, e['r'])
        if tkind(te) == 'int':
            if op in ('/=', '%='):
                self.oblige(s, fr, e['id'], 'div', s.ne(b, const(0)), (b,))
            self.ranges(s, fr, e, op[:-1], a, b, te)
            v = self.arith(s, fr, op[:-1], a, b, te, e)
        else:
            v = self.fresh(s, fr, e['id'], te)
        self.store(s, l, v, ('st', fr.fid, e['id']))
        return l

    def note_store(self, s, fr, l, v, ty, eid, init=False):
        """nullness contract of the slot written"""
        if not nullable_kind(ty):
            return
        if self.nullness(s, v) is not False:
            if l.op == 'fld' and fr.this is not None and l.a[0] is fr.this and self.facts.is_ctor(fr.F):
                return      # what counts is the finished object
            if l.op == 'fld' and self.young(l):
                return      # looked at when it escapes
            if l.op == 'fld':
                self.flag(('F', l.a[2], l.a[1]), fr, eid)
            elif l.op == 'glob':
                self.flag(('G', l.a[0]), fr, eid)
            elif l.op == 'elem':
                self.oblige(s, fr, eid, 'nullelem', False, (v, eid))
            elif l.op == 'static':
                self.flag(('S', l.a[0], l.a[1]), fr, eid)
            elif l.op in ('deref', 'xref', 'pref'):
                self.flag(('X', str(nonref(ty).s)), fr, eid)

    def young(self, l):
        """a location in an object created on this path"""
        r = root_of(l)
        return r.op == 'deref' and r.a[0].op == 'new'

    def built(self, s, fr, eid, fn, l):
        """a constructor has finished: its null members count now, or, for an object on the heap, at the end of the function"""
        if not self.facts.is_ctor(fn) or self.young(l):
            return
        if fr.this is not None and root_of(l) is root_of(fr.this) and self.facts.is_ctor(fr.F):
            return
        for cls, f, ft in self.facts.fields_by_cls(fn.cls):
            if cls == fn.cls and tkind(ft) in ('smart', 'func', 'ptr'):
                v = s.env.get(mk('fld', l, f, cls))
                if v is not None and v.op != 'R' and self.nullness(s, v) is not False:
                    self.flag(('F', cls, f), fr, eid)

    def grown(self, s, fr, locs=None):
        """objects created on this path are seen by others from here on"""
        for l in (list(s.env) if locs is None else locs):
            if l.op == 'fld' and self.young(l):
                v = s.env.get(l)
                if v is None or v.op == 'R':
                    continue
                ft = self.facts.field_type(l.a[2], l.a[1])
                if ft is not None and tkind(ft) in ('smart', 'func', 'ptr') and self.nullness(s, v) is not False:
                    self.flag(('F', l.a[2], l.a[1]), fr, -1)

    def flag(self, slot, fr, eid):
        if slot not in self.facts.nullable:
            self.events.append(('nullable', slot, fr.F.id, eid))

    def x_cond(self, s, fr, e):
        F = fr.F
        c = self.tobool(s, self.rval(s, fr, e['c0']), F.ex[e['c0']]['t'])
        t = self.truth(s, c)
        if t is True:
            return self.asval(s, fr, e, e['e'])
        if t is False:
            return self.asval(s, fr, e, e['r'])
        if e['e'] in s.temps and e['r'] not in s.temps:
            return self.asval(s, fr, e, e['e'])
        if e['r'] in s.temps and e['e'] not in s.temps:
            return self.asval(s, fr, e, e['r'])
        v = s.temps.get(('cond', e['id']))
        if v is not None:
            return v
        return self.opaque(s, fr, e['id'], 'maynull')

    def asval(self, s, fr, e, sub):
        if self.is_loc(e):
            return self.loc(s, fr, sub)
        return self.rval(s, fr, sub)

    def x_new(self, s, fr, e):
        p = mk('new', fr.fid, e['id'])
        l = deref(p)
        self.clear(s, l)
        self.forget(s, p)
        if 'e' in e:
            t = e['nt']
            if scalar(t):
                s.env[l] = self.rval(s, fr, e['e'])
            else:
                self.copy_object(s, self.loc(s, fr, e['e']), l, t)
        return p

    def x_delete(self, s, fr, e):
        p = self.rval(s, fr, e['e'])
        g = mk('ghost', 'deleted')
        s.env[g] = mk('seq', s.env.get(g, NULL), p)
        return UNK

    def x_throw(self, s, fr, e):
        raise Dead()

    def x_idx(self, s, fr, e):
        b = self.get(s, fr, e['e'])
        i = self.rval(s, fr, e['r'])
        L = b if self.is_loc(fr.F.ex[e['e']]) else deref(b)
        if tkind(fr.F.ex[e['e']]['t']) == 'ptr' and self.is_loc(fr.F.ex[e['e']]):
            L = deref(self.load(s, b, fr.F.ex[e['e']]['t']))
        if 'n' in e:
            self.oblige(s, fr, e['id'], 'idx', s.le(ZERO, i) and s.lt(i, const(e['n'])), (L, i))
        else:
            self.oblige(s, fr, e['id'], 'rawidx', False, (L, i))
        return mk('elem', L, i)

    def x_ilist(self, s, fr, e):
        l = mk('tmp', fr.fid, e['id'])
        self.clear(s, l)
        s.env[mk('sz', l)] = const(len(e['a']))
        for i, x in enumerate(e['a']):
            if scalar(fr.F.ex[x]['t']):
                s.env[mk('elem', l, const(i))] = self.rval(s, fr, x)
        return l

    def x_opaque(self, s, fr, e):
        if 'e' in e:
            return self.get(s, fr, e['e'])
        return self.opaque(s, fr, e['id'])

    def x_lambda(self, s, fr, e):
        F = self.P.fn(e['c'])
        t = mk('lam', e['c'], fr.fid)
        t.meta = fr
        if F is not None and self.defer_lambda and not (self.calls_only and self.calls_only(fr, e)) and len(fr.stack) < self.MAXDEPTH + 2 and e['c'] not in fr.stack:
            # the body runs later, with the captured values as they are now and the heap unknown
            key = None
            c = s.copy()
            self.havoc_heap(c, ('lam', fr.fid, e['id']))
            for cp in e['caps']:
                if cp.get('byref') and 'v' in cp:
                    l = self.varloc(c, fr, cp['v'], cp.get('t'))
                    self.kill(c, l, ('lam', fr.fid, e['id']))
            nf = Frame(F, fr.fid + (('lam', e['id']),), fr.this, fr, fr)
            self.bind_root_params(c, nf)
            c.temps = {}
            self.run(nf, [c])
        return t

    defer_lambda = True
    calls_only = None    # frame, lambda expression -> is it run only where it is called directly?

    def bind_root_params(self, s, fr):
        for i, p in enumerate(fr.F.params):
            l = mk('var', fr.fid, p['v'])
            ty = p['t']
            if ty.ref or ty.rref:
                r = mk('pref', fr.fid, p['v'], bool(ty.cst))
                s.env[l] = mk('R', r)
                if scalar(ty):
                    pv = mk('init', r, ())
                    pv.meta = ty
                    if nullable_kind(ty) and ('P', fr.F.id, i) not in self.facts.nullable:
                        s.nul[pv] = False
            elif scalar(ty):
                v = mk('sym', fr.fid, ('p', p['v']), 'p')
                v.meta = ty
                s.env[l] = v
                if tkind(ty) == 'int' and nonref(ty).sg == 0:
                    s.z.setdefault(ZERO, {}).setdefault(v, 0)
                if nullable_kind(ty) and ('P', fr.F.id, i) not in self.facts.nullable:
                    s.nul[v] = False

    def havoc_heap(self, s, point, keys=None):
        for l in [l for l in s.env if l.op == 'ghost' and l.a[0] == 'tested']:
            del s.env[l]
        gone = [l for l in s.env if self.heap(l) and (keys is None or self.keyof(l) in keys) and not (root_of(l).op == 'pref' and root_of(l).a[2]) and s.env[l].op != 'R']
        if self.root_frame is not None:
            self.grown(s, self.root_frame, gone)
        for l in gone:
            del s.env[l]
        for k in (keys if keys is not None else self.facts.all_keys):
            s.kills[k] = point
        # local objects captured by reference

    # ------------------------------------------------------------ calls
    def call_kill(self, s, fr, e):
        """effects a call may have had when it threw"""
        c = e.get('c')
        keys = self.facts.mods(c, e['k'] == 'ctor') if c else self.facts.all_keys
        self.havoc_heap(s, ('xc', fr.fid, e['id']), keys)
        self.kill_args(s, fr, e)

    def kill_args(self, s, fr, e):
        d = self.P.decls.get(e.get('c'))
        pt = ('ka', fr.fid, e['id'])
        args = e.get('a', ())
        ps = d['params'] if d else []
        for i, a in enumerate(args):
            if a < 0:
                continue
            ty = ps[i]['t'] if i < len(ps) else None
            x = fr.F.ex[a]
            if a not in s.temps:
                continue
            if ty is not None and (ty.ref or ty.rref) and not ty.cst and self.is_loc(x):
                self.kill(s, s.temps[a], pt)
            elif tkind(x['t']) == 'ptr' and not nonref(x['t']).pc:
                v = self.rval(s, fr, a)
                if v.op == 'addr':
                    self.kill(s, v.a[0], pt)

    def x_call(self, s, fr, e):
        F = fr.F
        c = e.get('c')
        d = self.P.decls.get(c) if c else None
        if d is None:
            if self.on_call is not None:
                r = self.on_call(self, s, fr, e, None, None)
                if r is not None:
                    return r
            return self.indirect_call(s, fr, e)
        this = None
        if 'o' in e and e['o'] >= 0 and not d.get('static'):
            oe = F.ex[e['o']]
            if e.get('arrow') and tkind(oe['t']) == 'ptr':
                p = self.rval(s, fr, e['o'])
                self.need_nonnull(s, fr, e['id'], p, e['o'])
                this = deref(p)
            elif tkind(oe['t']) in ('smart', 'iter', 'func'):
                if self.on_call is not None and tkind(oe['t']) == 'func':
                    r = self.on_call(self, s, fr, e, d, None)
                    if r is not None:
                        return r
                return self.valobj(s, fr, e, d)
            elif e['o'] not in s.temps and oe['k'] == 'this':
                this = fr.this if fr.this is not None else mk('xref', fr.fid, e['o'])
            else:
                this = self.loc(s, fr, e['o'])
                if tkind(oe['t']) == 'ptr':
                    p = self.rval(s, fr, e['o'])
                    self.need_nonnull(s, fr, e['id'], p, e['o'])
                    this = deref(p)
        if self.on_call is not None:
            r = self.on_call(self, s, fr, e, d, this)
            if r is not None:
                return r
        if this is not None and not d['mine']:
            cb = d.get('clsq')
            if cb in CONTS:
                return self.cont(s, fr, e, d, this, F.ex[e['o']]['t'])
        if d['mine']:
            fn = self.P.fn(c)
            if fn is not None and d.get('virtual') and e.get('virt'):
                fn = None
            if fn is not None and not d.get('ctor') and not d.get('dtor'):
                if d.get('asg') and d.get('implicit') and this is not None:
                    self.copy_object(s, self.loc(s, fr, e['a'][0]), this, F.ex[e['o']]['t'])
                    return this
                if d.get('lambda') and 'o' in e and self.inlinable(fr, fn):
                    # the closure is called directly: its body runs with the variables of the function that made it
                    g = fr
                    while g is not None and not any(x['k'] == 'lambda' and x.get('c') == fn.id for x in g.F.ex.values()):
                        g = g.parent
                    if g is not None:
                        f = mk('lam', fn.id, g.fid)
                        f.meta = g
                        return self.inline(s, fr, e, fn, None, e['a'], lamv=f)
                if self.inlinable(fr, fn):
                    return self.inline(s, fr, e, fn, this, e['a'])
                self.havoced.add(c)
            if fn is None and d.get('asg') and this is not None:
                self.copy_object(s, self.loc(s, fr, e['a'][0]), this, F.ex[e['o']]['t'])
                return this
            return self.havoc_call(s, fr, e, d)
        return self.external(s, fr, e, d, this)

    def doomed(self, F):
        """blocks that only lead to a throw out of the function"""
        d = F.extra.get('doomed')
        if d is None:
            ok = {F.exit}
            st = [F.exit]
            while st:
                x = st.pop()
                for p in F.preds.get(x, ()):
                    if p not in ok and not F.blocks[p].get('noret'):
                        ok.add(p)
                        st.append(p)
            d = F.extra['doomed'] = set(F.blocks) - ok if not F.tries else set()
        return d

    def inlinable(self, fr, fn):
        if fn.id in fr.stack:
            return False
        if fr.cur in self.doomed(fr.F) and len(fn.blocks) > 5:
            return False
        if len(fr.stack) > self.MAXDEPTH:
            return False
        if len(fn.blocks) > self.MAXBLOCKS:
            return False
        if fn.id in self.facts.no_inline:
            return False
        if self.steps > self.budget:
            return False
        if self.inline_filter is not None and not self.inline_filter(fr, fn):
            return False
        return True

    inline_filter = None
    stable = frozenset()    # roots that nothing else can reach

    def inline(self, s, fr, e, fn, this, args, lamv=None, dest=None):
        nf = Frame(fn, fr.fid + ((fn.id, e['id']),), this, fr, None)
        if lamv is not None:
            nf.outer = lamv.meta
            nf.this = lamv.meta.this
        nf.fid = fr.fid + (('i', e['id']) if lamv is None else ('l', e['id']),)
        isloc = self.is_loc(e) and not e.get('lv')
        if isloc and dest is None:
            nf.dest = mk('tmp', fr.fid, e['id'])
            self.clear(s, nf.dest)
        else:
            nf.dest = dest
        # bind
        vals = []
        for i, p in enumerate(fn.params):
            ty = p['t']
            a = args[i] if i < len(args) else -1
            l = mk('var', nf.fid, p['v'])
            if a is None or (isinstance(a, int) and a < 0):
                vals.append((l, None, ty))
                continue
            if isinstance(a, Term):
                vals.append((l, a, ty))
            elif ty.ref or ty.rref:
                vals.append((l, mk('R', self.loc(s, fr, a)), ty))
            elif scalar(ty):
                vals.append((l, self.rval(s, fr, a), ty))
            else:
                vals.append((l, ('copy', self.loc(s, fr, a)), ty))
        for l, v, ty in vals:
            for x in [x for x in s.env if l in self.loc_prefixes(x) or (x.op == 'al' and x.a[0] is l)]:
                del s.env[x]
        for l, v, ty in vals:
            if v is None:
                continue
            if isinstance(v, tuple):
                self.copy_object(s, v[1], l, ty)
            else:
                s.env[l] = v
        temps = s.temps
        s.temps = {}
        exits = self.run(nf, [s])
        out = []
        n = len(nf.fid)
        for st, rv in exits:
            if isinstance(rv, Term) and rv is not None and not (fn.ret.ref or fn.ret.rref) and scalar(fn.ret):
                pass
            st.temps = dict(temps)
            for l in [l for l in st.env if self.inframe(l, nf.fid, nf.dest)]:
                del st.env[l]
            st.kills = {k: v for k, v in st.kills.items() if not (isinstance(k, Term) and self.inframe(k, nf.fid, nf.dest))}
            out.append((st, rv if rv is not None else UNK))
        # ret loc of dest
        if len(out) > 3:
            out = self.merge_exits(out, fr, e)
        return out

    def merge_exits(self, out, fr, e):
        groups = {}
        for st, rv in out:
            groups.setdefault(rv, []).append(st)
        res = []
        for rv in sorted(groups, key=lambda t: t.n):
            sts = groups[rv]
            if len(sts) > 2:
                j = sts[0]
                for x in sts[1:]:
                    j = self.join(j, x, fr, ('r', e['id'], rv.n))
                sts = [j]
            res += [(x, rv) for x in sts]
        return res

    def inframe(self, l, fid, dest):
        r = root_of(l if l.op != 'al' else l.a[0])
        if r is dest:
            return False
        if r.op in ('var', 'tmp'):
            return r.a[0][:len(fid)] == fid
        return False

    def counted(self, s, fr, eid, name, args, ats):
        """a number of characters to read from a pointer: not more than there are (with the end mark)"""
        for i, ty in enumerate(ats):
            if tkind(ty) not in ('ptr', 'arr'):
                continue
            if name.startswith('find') or name == 'rfind':
                j = 2 if i == 0 and len(args) == 3 else None
            else:
                j = i + 1 if i + 1 < len(args) else None
            if j is None or tkind(ats[j]) != 'int':
                continue
            v = self.get(s, fr, args[i])
            n = self.rval(s, fr, args[j])
            room = const(len(v.a[0].encode()) + 1) if v.op == 's' else lin(mk('room', v), 1)
            self.oblige(s, fr, eid, 'idx', s.le(ZERO, n) and s.le(n, room), (v, n))

    def havoc_call(self, s, fr, e, d):
        for a in list(e.get('a', ())):
            if a >= 0:
                self.get(s, fr, a)
        self.check_args(s, fr, e, d)
        fn_ = self.P.fn(d['id'])
        for cid in self.facts.virtual_targets(d['id']):
            self.havoced.add(cid)
        self.kill_args(s, fr, e)
        keys = self.facts.mods(d['id'])
        self.havoc_heap(s, ('hv', fr.fid, e['id']), keys)
        found = []
        if fn_ is not None and not d.get('virtual'):
            for i, a in enumerate(e.get('a', ())):
                if a >= 0 and a in s.temps and i < len(d['params']):
                    ty = outparam(d['params'][i]['t'])
                    if ty is None:
                        continue
                    if ty is nonref(d['params'][i]['t']):
                        if not self.is_loc(fr.F.ex[a]):
                            continue
                        l = s.temps[a]
                    else:
                        v = self.rval(s, fr, a)
                        if self.nullness(s, v) is True:
                            continue
                        l = deref(v)
                        if v.op != 'addr' and (v.op != 'sym' or not isinstance(v.a[1], tuple) or v.a[1][0] != 'p'):
                            continue
                    # what every return of the function leaves in the parameter
                    v = s.env[l] = self.fresh(s, fr, a, ty, ('O', d['id'], i))
                    if tkind(d['ret']) == 'bool' and ('OT', d['id'], i) not in self.facts.nullable:
                        found.append(bnot(mk('isnull', v)))
        r = d['ret']
        if self.is_loc(e):
            if e.get('lv'):
                return mk('xref', fr.fid, e['id'])
            l = mk('tmp', fr.fid, e['id'])
            self.clear(s, l)
            return l
        if nullable_kind(e['t']):
            return self.fresh(s, fr, e['id'], e['t'], ('R', d['id']))
        r = self.fresh(s, fr, e['id'], e['t'])
        for x in found:
            # the function tells by its result that it has set the parameter
            r = mk('and', r, x)
        return r

    def check_args(self, s, fr, e, d):
        """nullness of what is handed to a summarised function"""
        for i, a in enumerate(e.get('a', ())):
            if a < 0 or i >= len(d['params']):
                continue
            if nullable_kind(d['params'][i]['t']):
                v = self.rval(s, fr, a)
                if self.nullness(s, v) is not False:
                    self.flag(('P', d['id'], i), fr, e['id'])

    def indirect_call(self, s, fr, e):
        v = self.rval(s, fr, e['fx']) if e.get('fx', -1) >= 0 else UNK
        for a in e.get('a', ()):
            if a >= 0:
                self.get(s, fr, a)
        if v.op == 'fnp':
            fn = self.P.fn(v.a[0])
            if fn is not None and self.inlinable(fr, fn):
                return self.inline(s, fr, e, fn, None, e['a'])
        self.indirect_args(s, fr, e)
        self.kill_args(s, fr, e)
        self.havoc_heap(s, ('ic', fr.fid, e['id']))
        return self.opaque(s, fr, e['id'], ('IR', nonref(e['t']).s))

    def indirect_args(self, s, fr, e):
        for a in e.get('a', ()):
            if a >= 0 and nullable_kind(fr.F.ex[a]['t']):
                v = self.rval(s, fr, a)
                if self.nullness(s, v) is not False:
                    self.oblige(s, fr, e['id'], 'nullarg', False, (v, a))

    # smart pointers, std::function, iterators ------------------
    def valobj(self, s, fr, e, d):
        F = fr.F
        oe = F.ex[e['o']]
        k = tkind(oe['t'])
        name = d['name'].rsplit('::', 1)[-1]
        args = e.get('a', ())
        if k == 'smart':
            if name in ('operator->', 'operator*'):
                p = self.rval(s, fr, e['o'])
                self.need_nonnull(s, fr, e['id'], p, e['o'])
                return p if name == 'operator->' else deref(p)
            if name == 'get':
                return self.rval(s, fr, e['o'])
            if name == 'operator bool':
                return bnot(mk('isnull', self.rval(s, fr, e['o'])))
            if name in ('operator=',):
                l = self.loc(s, fr, e['o'])
                v = self.rval(s, fr, args[0])
                self.note_store(s, fr, l, v, oe['t'], e['id'])
                self.store(s, l, v, ('st', fr.fid, e['id']))
                return l
            if name == 'reset':
                l = self.loc(s, fr, e['o'])
                v = self.rval(s, fr, args[0]) if args else NULL
                self.note_store(s, fr, l, v, oe['t'], e['id'])
                self.store(s, l, v, ('st', fr.fid, e['id']))
                return UNK
            if name == 'swap':
                self.kill(s, self.loc(s, fr, e['o']), ('sw', fr.fid, e['id']))
                self.kill(s, self.loc(s, fr, args[0]), ('sw', fr.fid, e['id']))
                return UNK
            return self.opaque(s, fr, e['id'])
        if k == 'func':
            if name == 'operator()':
                f = self.rval(s, fr, e['o'])
                n = self.nullness(s, f)
                self.oblige(s, fr, e['id'], 'emptyfn', n is False, (f, e['o']))
                if n is True:
                    raise Dead()
                if n is None:
                    s.nul[f] = False
                if f.op == 'lam':
                    fn = self.P.fn(f.a[0])
                    cf = f.meta
                    if fn is not None and cf is not None and cf.fid == fr.fid[:len(cf.fid)] and self.inlinable(fr, fn):
                        return self.inline(s, fr, e, fn, None, args, lamv=f)
                elif f.op == 'fnp':
                    fn = self.P.fn(f.a[0])
                    if fn is not None and self.inlinable(fr, fn):
                        return self.inline(s, fr, e, fn, None, args)
                for a in args:
                    self.get(s, fr, a)
                self.indirect_args(s, fr, e)
                self.kill_args(s, fr, e)
                self.havoc_heap(s, ('ic', fr.fid, e['id']))
                return self.opaque(s, fr, e['id'], ('IR', nonref(e['t']).s))
            if name == 'operator bool':
                return bnot(mk('isnull', self.rval(s, fr, e['o'])))
            if name == 'operator=':
                l = self.loc(s, fr, e['o'])
                v = self.rval(s, fr, args[0])
                if tkind(F.ex[args[0]]['t']) not in ('func', 'ptr', 'fn', 'null') and v.op not in ('lam', 'fnp'):
                    v = self.fresh(s, fr, e['id'], oe['t'], 'nn')
                self.note_store(s, fr, l, v, oe['t'], e['id'])
                self.store(s, l, v, ('st', fr.fid, e['id']))
                return l
            return self.opaque(s, fr, e['id'])
        # iterators
        return self.iterop(s, fr, e, name, e['o'], args)

    def iterop(self, s, fr, e, name, o, args):
        F = fr.F
        v = self.rval(s, fr, o)
        ok = v.op == 'it'
        if name in ('operator*', 'operator->'):
            if not ok:
                self.oblige(s, fr, e['id'], 'iter', False, (v, o))
                return mk('xref', fr.fid, e['id']) if name == 'operator*' else self.fresh(s, fr, e['id'], None, 'nn')
            L, i, dirn = v.a
            sz = self.size(s, L)
            good = s.le(ZERO, i) and s.lt(i, sz)
            self.oblige(s, fr, e['id'], 'iter', good, (L, i))
            if not good:
                try:
                    s.add_le(ZERO, i)
                    s.add_le(i, sz, -1)
                except Dead:
                    raise
            l = self.elem_loc(s, L, i)
            return l if name == 'operator*' else addr(l)
        if name in ('operator++', 'operator--'):
            l = self.loc(s, fr, o)
            if not ok:
                s.env[l] = self.fresh(s, fr, e['id'], F.ex[o]['t'])
                return l if e.get('lv') else v
            L, i, dirn = v.a
            nv = mk('it', L, lin(i, 1 if name == 'operator++' else -1), dirn)
            s.env[l] = nv
            return l if e.get('lv') else v
        if name in ('operator+', 'operator-', 'operator+=', 'operator-='):
            if args and tkind(F.ex[args[0]]['t']) == 'iter':
                w = self.rval(s, fr, args[0])
                if ok and w.op == 'it' and w.a[0] is v.a[0]:
                    if base(v.a[1])[0] is base(w.a[1])[0]:
                        return const(base(v.a[1])[1] - base(w.a[1])[1])
                    if w.a[1].op == 'c' and w.a[1].a[0] == 0:
                        return v.a[1]
                    return self.arith(s, fr, '-', v.a[1], w.a[1], e['t'], e)
                return self.opaque(s, fr, e['id'])
            n = self.rval(s, fr, args[0])
            if ok:
                L, i, dirn = v.a
                if n.op == 'ucast':
                    n = n.a[0]
                if i.op == 'c' and i.a[0] == 0 and name in ('operator+', 'operator+='):
                    j = n
                else:
                    j = self.arith(s, fr, '+' if '+' in name else '-', i, n, F.ex[args[0]]['t'], e)
                r = mk('it', L, j, dirn)
            else:
                r = self.fresh(s, fr, e['id'], F.ex[o]['t'])
            if '=' in name:
                l = self.loc(s, fr, o)
                s.env[l] = r
                return l
            return r
        if name in ('operator==', 'operator!=', 'operator<', 'operator<=', 'operator>', 'operator>='):
            w = self.rval(s, fr, args[0])
            if ok and w.op == 'it' and w.a[0] is v.a[0]:
                return self.cmp(name[8:], v.a[1], w.a[1])
            return self.opaque(s, fr, e['id'])
        if name == 'operator=':
            l = self.loc(s, fr, o)
            s.env[l] = self.rval(s, fr, args[0])
            return l
        if name == 'operator[]' and ok:
            L, i, dirn = v.a
            n = self.rval(s, fr, args[0])
            return self.elem_loc(s, L, self.fresh(s, fr, e['id'], None))
        if name == 'base':
            return v
        return self.opaque(s, fr, e['id'])

    # containers ------------------------------------------------
    def note_elem(self, s, fr, e, a, ety):
        if ety is not None and nullable_kind(ety) and tkind(ety) == 'smart':
            v = self.rval(s, fr, a)
            n = self.nullness(s, v)
            self.oblige(s, fr, e['id'], 'nullelem', n is False, (v, a))

    def setsize(self, s, fr, L, v, eid):
        self.store(s, mk('sz', L), v, ('st', fr.fid, eid))
        c = mk('content', L)
        s.env[c] = mk('sym', fr.fid, eid, 'content')

    def drop_elems(self, s, fr, L, eid):
        for x in [x for x in s.env if x.op == 'elem' and x.a[0] is L]:
            del s.env[x]
        s.env.pop(mk('al', L), None)
        s.kills[mk('elemof', L)] = ('st', fr.fid, eid)

    def cont(self, s, fr, e, d, L, oty):
        F = fr.F
        name = d['name'].rsplit('::', 1)[-1]
        args = e.get('a', ())
        if nonref(oty).k == 'ptr' and nonref(oty).to is not None:
            oty = nonref(oty).to
        assoc = is_assoc(oty)
        string = is_string(oty)
        sz = self.size(s, L)
        ety = elemtype(oty)
        eid = e['id']
        ats = [F.ex[a]['t'] for a in args]
        if string and len(args) > 1 and name in COUNTED:
            self.counted(s, fr, eid, name, args, ats)
        if name in ('size', 'length'):
            return sz
        if name == 'empty':
            return self.cmp('==', sz, const(0))
        if name in ('begin', 'cbegin', 'rbegin', 'crbegin'):
            return mk('it', L, const(0), 'r' if 'r' in name[:2] and name != 'begin' else 'f')
        if name in ('end', 'cend', 'rend', 'crend'):
            return mk('it', L, sz, 'r' if 'r' in name[:2] else 'f')
        if name in ('operator[]', 'at') and assoc:
            idx = self.keyidx(s, fr, L, args[0])
            present = s.lt(idx, sz)
            if name == 'at':
                self.oblige(s, fr, eid, 'throwoob', present, (L, idx))
            l = mk('fld', self.elem_loc(s, L, idx), 'second', 'std::pair')
            if name == 'operator[]' and not present:
                vt = contbase(oty).targs[1]
                if self.is_assigned(F, eid):
                    pass
                elif tkind(vt) == 'smart':
                    self.oblige(s, fr, eid, 'mapnull', False, (L, idx))
                else:
                    self.oblige(s, fr, eid, 'mapnull', True, (L, idx))
                n = mk('sym', fr.fid, eid, 'sz')
                self.forget(s, n)
                s.z.setdefault(sz if base(sz)[0] is not ZERO else ZERO, {})
                self.store(s, mk('sz', L), n, ('st', fr.fid, eid))
                s.add_le(ZERO, n)
                s.add_le(idx, n, -1)
                s.add_le(ZERO, idx)
            elif name == 'operator[]' and tkind(contbase(oty).targs[1]) == 'smart':
                self.oblige(s, fr, eid, 'mapnull', True, (L, idx))
            return l
        if name in ('operator[]', 'at'):
            i = self.rval(s, fr, args[0])
            good = s.le(ZERO, i) and (s.le(i, sz) if string and name != 'at' else s.lt(i, sz))
            self.oblige(s, fr, eid, 'throwoob' if name == 'at' else 'idx', good, (L, i))
            if not good:
                s.add_le(ZERO, i)
                s.add_le(i, sz, 0 if string and name != 'at' else -1)
            if L.op == 'elem' and False:
                pass
            return self.elem_loc(s, L, i)
        if name in ('front', 'back', 'top'):
            good = s.le(const(1), sz)
            self.oblige(s, fr, eid, 'idx', good, (L, const(0)))
            if not good:
                s.add_le(const(1), sz)
            return self.elem_loc(s, L, const(0) if name == 'front' else lin(sz, -1))
        if name in ('pop_back', 'pop_front', 'pop'):
            good = s.le(const(1), sz)
            self.oblige(s, fr, eid, 'idx', good, (L, const(0)))
            if not good:
                s.add_le(const(1), sz)
            self.drop_elems(s, fr, L, eid)
            self.setsize(s, fr, L, lin(sz, -1), eid)
            return UNK
        if name in ('push_back', 'push_front', 'push', 'emplace_back'):
            if args:
                self.note_elem(s, fr, e, args[0], ety)
            keep = s.env.get(mk('al', L))
            if name in ('push_front',):
                self.drop_elems(s, fr, L, eid)
            self.setsize(s, fr, L, lin(sz, 1), eid)
            if args and scalar(F.ex[args[0]]['t']):
                s.env[mk('elem', L, sz)] = self.rval(s, fr, args[0])
            elif args and ety is not None and tkind(ety) in ('cont', 'rec') and tkind(F.ex[args[0]]['t']) in ('cont', 'rec'):
                self.copy_object(s, self.loc(s, fr, args[0]), mk('elem', L, sz), F.ex[args[0]]['t'])
            return UNK if not self.is_loc(e) else mk('xref', fr.fid, eid)
        if name == 'clear':
            self.drop_elems(s, fr, L, eid)
            self.setsize(s, fr, L, const(0), eid)
            s.env[mk('content', L)] = mk('s', '')
            return UNK
        if name == 'erase':
            if assoc and tkind(ats[0]) != 'iter':
                n = self.fresh(s, fr, eid, None, 'sz')
                s.add_le(ZERO, n)
                s.add_le(n, sz)
                self.drop_elems(s, fr, L, eid)
                s.kills[mk('elemof', L)] = ('st', fr.fid, eid)
                self.setsize(s, fr, L, n, eid)
                r = mk('sym', fr.fid, eid, 'cnt')
                s.z.setdefault(ZERO, {}).setdefault(r, 0)
                return r
            if string and (not args or tkind(ats[0]) != 'iter'):
                if args:
                    p = self.rval(s, fr, args[0])
                    good = s.le(ZERO, p) and s.le(p, sz)
                    self.oblige(s, fr, eid, 'throwoob', good, (L, p))
                n = self.fresh(s, fr, (eid, 'n'), None, 'sz')
                s.add_le(ZERO, n)
                s.add_le(n, sz)
                self.setsize(s, fr, L, n, eid)
                return L
            v = self.rval(s, fr, args[0])
            if len(args) == 1:
                good = v.op == 'it' and s.le(ZERO, v.a[1]) and s.lt(v.a[1], sz)
                self.oblige(s, fr, eid, 'idx', good, (L, v.a[1] if v.op == 'it' else v))
                if v.op == 'it' and not good:
                    s.add_le(ZERO, v.a[1])
                    s.add_le(v.a[1], sz, -1)
                elif not good:
                    s.add_le(const(1), sz)
                self.drop_elems(s, fr, L, eid)
                self.setsize(s, fr, L, lin(sz, -1), eid)
                return mk('it', L, v.a[1] if v.op == 'it' else const(0), 'f')
            n = self.fresh(s, fr, (eid, 'n'), None, 'sz')
            s.add_le(ZERO, n)
            s.add_le(n, sz)
            w = self.rval(s, fr, args[1])
            good = v.op == 'it' and w.op == 'it' and s.le(ZERO, v.a[1]) and s.le(v.a[1], w.a[1]) and s.le(w.a[1], sz)
            self.oblige(s, fr, eid, 'idx', good, (L, v.a[1] if v.op == 'it' else v))
            if good:
                if v.a[1].op == 'c' and w.a[1].op == 'c':
                    n = lin(sz, v.a[1].a[0] - w.a[1].a[0])
                elif w.a[1] is sz:
                    n = v.a[1]
            self.drop_elems(s, fr, L, eid)
            self.setsize(s, fr, L, n, eid)
            return mk('it', L, v.a[1] if v.op == 'it' else const(0), 'f')
        if name == 'insert' and not assoc:
            if string and tkind(ats[0]) != 'iter':
                p = self.rval(s, fr, args[0])
                self.oblige(s, fr, eid, 'throwoob', s.le(ZERO, p) and s.le(p, sz), (L, p))
                n = self.fresh(s, fr, (eid, 'n'), None, 'sz')
                s.add_le(sz, n)
                self.setsize(s, fr, L, n, eid)
                return L
            v = self.rval(s, fr, args[0])
            good = v.op == 'it' and v.a[0] is L and s.le(ZERO, v.a[1]) and s.le(v.a[1], sz)
            self.oblige(s, fr, eid, 'idx', good, (L, v.a[1] if v.op == 'it' else v))
            if v.op == 'it' and not good:
                s.add_le(ZERO, v.a[1])
                s.add_le(v.a[1], sz)
            self.drop_elems(s, fr, L, eid)
            if len(args) == 2:
                self.note_elem(s, fr, e, args[1], ety)
                self.setsize(s, fr, L, lin(sz, 1), eid)
            else:
                n = None
                if len(args) == 3 and tkind(ats[1]) == 'iter':
                    a, b = self.rval(s, fr, args[1]), self.rval(s, fr, args[2])
                    if a.op == 'it' and b.op == 'it' and a.a[1].op == 'c' and a.a[1].a[0] == 0:
                        m = b.a[1]
                        if sz.op == 'c':
                            n = lin(m, sz.a[0])
                        elif m.op == 'c':
                            n = lin(sz, m.a[0])
                        else:
                            n = self.fresh(s, fr, (eid, 'n'), None, 'sz')
                            s.add_le(sz, n)
                            s.add_le(m, n)
                if n is None:
                    n = self.fresh(s, fr, (eid, 'n'), None, 'sz')
                    s.add_le(sz, n)
                self.setsize(s, fr, L, n, eid)
            return mk('it', L, v.a[1] if v.op == 'it' else const(0), 'f')
        if name in ('insert', 'emplace') and assoc:
            n = self.fresh(s, fr, (eid, 'n'), None, 'sz')
            s.add_le(sz, n)
            self.setsize(s, fr, L, n, eid)
            return self.opaque(s, fr, eid)
        if name in ('find', 'count', 'lower_bound', 'upper_bound') and assoc:
            idx = self.keyidx(s, fr, L, args[0])
            if name == 'count':
                return mk('cond1', self.cmp('<', idx, sz)) if False else self.count(s, fr, e, idx, sz)
            s.add_le(ZERO, idx)
            s.add_le(idx, sz)
            return mk('it', L, idx, 'f')
        if string and name in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
            pl = const(1)
            if name in ('find', 'rfind') and args and tkind(ats[0]) != 'int':
                x = F.ex[args[0]]
                v = self.get(s, fr, args[0])
                if is_string(x['t']) and self.is_loc(x):
                    c_ = self.content(s, v)
                    pl = const(len(c_.a[0].encode())) if c_.op == 's' else self.size(s, v)
                elif v.op == 's':
                    pl = const(len(v.a[0].encode()))
                else:
                    pl = mk('cstrlen', v)
                    s.z.setdefault(ZERO, {}).setdefault(pl, 0)
            f = mk('find', fr.fid, eid, sz, pl)
            self.forget(s, f)
            s.z.setdefault(ZERO, {}).setdefault(f, 0)
            if name == 'find' and len(args) > 1:
                st = self.rval(s, fr, args[1])
                if s.le(ZERO, st):
                    s.add_le(st, f)      # npos is larger as well
            return f
        if string and name == 'substr':
            p = self.rval(s, fr, args[0]) if args else const(0)
            good = s.le(ZERO, p) and s.le(p, sz)
            self.oblige(s, fr, eid, 'throwoob', good, (L, p))
            l = mk('tmp', fr.fid, eid)
            self.clear(s, l)
            n = self.fresh(s, fr, (eid, 'n'), None, 'sz')
            s.add_le(ZERO, n)
            try:
                s.add_le(n, sz)
                if len(args) > 1:
                    c = self.rval(s, fr, args[1])
                    if s.le(ZERO, c):
                        s.add_le(n, c)
                if p.op == 'c' and (len(args) < 2 or (self.rval(s, fr, args[1]).op == 'c' and self.rval(s, fr, args[1]).a[0] >= NPOS)):
                    n = lin(sz, -p.a[0])
            except Dead:
                raise
            s.env[mk('sz', l)] = n
            return l
        if name in ('operator=', 'assign'):
            if len(args) == 1:
                x = F.ex[args[0]]
                if tkind(x['t']) == 'cont':
                    self.copy_object(s, self.loc(s, fr, args[0]), L, F.ex[e['o']]['t'])
                    return L
                v = self.rval(s, fr, args[0])
                self.drop_elems(s, fr, L, eid)
                if v.op == 's':
                    self.setsize(s, fr, L, const(len(v.a[0].encode())), eid)
                    s.env[mk('content', L)] = v
                    return L
            n = self.fresh(s, fr, (eid, 'n'), None, 'sz')
            s.add_le(ZERO, n)
            self.setsize(s, fr, L, n, eid)
            return L if self.is_loc(e) else UNK
        if string and name in ('operator+=', 'append'):
            n = c = None
            if len(args) == 1:
                x = F.ex[args[0]]
                old = self.content(s, L)
                if tkind(x['t']) == 'int':
                    n = lin(sz, 1)
                    v = self.rval(s, fr, args[0])
                    c = cat(old, mk('s', chr(v.a[0])) if v.op == 'c' and 0 < v.a[0] < 128 else mk('chr', v))
                else:
                    v = self.get(s, fr, args[0])
                    if v.op == 's':
                        n = lin(sz, len(v.a[0].encode()))
                        c = cat(old, v)
                    elif is_string(x['t']) and self.is_loc(x):
                        c = cat(old, self.content(s, v))
            if n is None:
                n = self.fresh(s, fr, (eid, 'n'), None, 'sz')
                s.add_le(sz, n)
            self.setsize(s, fr, L, n, eid)
            if c is not None:
                s.env[mk('content', L)] = c
            return L
        if name == 'resize':
            self.setsize(s, fr, L, self.rval(s, fr, args[0]), eid)
            if ety is not None and tkind(ety) == 'smart':
                self.oblige(s, fr, eid, 'nullelem', False, (L, eid))
            return UNK
        if name == 'reserve' or name == 'shrink_to_fit':
            return UNK
        if name in ('c_str', 'data'):
            v = self.fresh(s, fr, eid, e['t'], 'nn')
            if string:
                self.forget(s, mk('room', v))
                s.add_eq(mk('room', v), sz)
            return v
        if name == 'compare':
            if len(args) >= 3:
                p = self.rval(s, fr, args[0])
                self.oblige(s, fr, eid, 'throwoob', s.le(ZERO, p) and s.le(p, sz), (L, p))
            return self.fresh(s, fr, eid, e['t'])
        if name in ('capacity', 'max_size', 'get_allocator', 'copy'):
            return self.opaque(s, fr, eid)
        if name == 'replace' and string:
            if args and tkind(ats[0]) != 'iter':
                p = self.rval(s, fr, args[0])
                self.oblige(s, fr, eid, 'throwoob', s.le(ZERO, p) and s.le(p, sz), (L, p))
            n = self.fresh(s, fr, (eid, 'n'), None, 'sz')
            s.add_le(ZERO, n)
            self.setsize(s, fr, L, n, eid)
            return L
        if not d.get('const'):
            self.kill(s, L, ('ct', fr.fid, eid))
        if self.is_loc(e) and e.get('lv') and nonref(e['t']) is nonref(oty):
            return L
        return self.opaque(s, fr, eid)

    def count(self, s, fr, e, idx, sz):
        out = []
        for want in (True, False):
            for q in self.assume(s.copy(), self.cmp('<', idx, sz), want):
                out.append((q, const(1 if want else 0)))
        return out

    def keyidx(self, s, fr, L, a):
        F = fr.F
        x = F.ex[a]
        v = self.get(s, fr, a)
        if is_string(x['t']) and self.is_loc(x):
            k = self.content(s, v)
        elif self.is_loc(x) and scalar(x['t']):
            k = self.load(s, v, x['t'])
        else:
            k = v
        t = mk('find2', L, k, self.epoch(s, mk('elemof', L)) if False else s.kills.get(mk('elemof', L)))
        s.z.setdefault(ZERO, {}).setdefault(t, 0)
        return t

    def is_assigned(self, F, eid):
        t = F.extra.get('opassigned')
        if t is None:
            t = set()
            for e in F.ex.values():
                if e['k'] == 'call' and e.get('op') == '=' and 'o' in e:
                    t.add(e['o'])
                elif e['k'] == 'asg' and e['op'] == '=':
                    t.add(e['e'])
                elif e['k'] == 'call' and 'c' in e and 'o' in e and self.P.decls.get(e['c'], {}).get('name', '').endswith('::operator='):
                    t.add(e['o'])
            F.extra['opassigned'] = t
        return eid in t

    # constructors ----------------------------------------------
    def x_ctor(self, s, fr, e):
        F = fr.F
        d = self.P.decls[e['c']]
        ty = e['t']
        args = e['a']
        k = tkind(ty)
        eid = e['id']
        if k in ('smart', 'func'):
            if not args:
                return NULL
            a = args[0]
            x = F.ex[a]
            v = self.rval(s, fr, a)
            if v is NULL or (v.op == 'c' and v.a[0] == 0) or v.op in ('lam', 'fnp'):
                return NULL if v.op in ('null', 'c') else v
            if tkind(x['t']) in ('smart', 'func', 'ptr', 'fn'):
                return v
            if k == 'func':
                return self.fresh(s, fr, eid, ty, 'nn')
            return v if tkind(x['t']) == 'null' else self.fresh(s, fr, eid, ty, 'maynull')
        if k == 'iter':
            if args:
                return self.rval(s, fr, args[0])
            return self.fresh(s, fr, eid, ty)
        l = mk('tmp', fr.fid, eid)
        if d['ctor'] in ('copy', 'move') and len(args) >= 1:
            src = self.loc(s, fr, args[0])
            fn = self.P.fn(e['c'])
            if src is l:
                return l
            self.clear(s, l)
            self.copy_object(s, src, l, ty)
            if is_string(ty) or k == 'cont':
                pass
            return l
        if d['mine']:
            fn = self.P.fn(e['c'])
            self.clear(s, l)
            if fn is not None:
                if self.inlinable(fr, fn):
                    r = self.inline(s, fr, e, fn, l, args)
                    out = []
                    for st, _ in r:
                        self.facts.check_object(self, st, fr, e, l, ty)
                        self.built(st, fr, eid, fn, l)
                        out.append((st, l))
                    return out
                self.havoced.add(e['c'])
                self.havoc_heap(s, ('hv', fr.fid, eid), self.facts.mods(e['c'], True))
                self.check_args(s, fr, e, d)
                return l
            if not args:
                self.default_init(s, l, ty)
            return l
        self.clear(s, l)
        if k == 'cont':
            string = is_string(ty)
            if not args:
                self.default_init(s, l, ty)
                return l
            a0 = F.ex[args[0]]
            if string:
                if tkind(a0['t']) == 'cont' and len(args) <= 2:
                    src = self.loc(s, fr, args[0])
                    if len(args) == 1 or not (tkind(F.ex[args[1]]['t']) == 'int'):
                        s.env[mk('sz', l)] = self.size(s, src)
                        s.env[mk('content', l)] = self.content(s, src)
                        return l
                v = self.get(s, fr, args[0])
                if v.op == 's' and tkind(a0['t']) in ('ptr', 'arr', 'other'):
                    s.env[mk('sz', l)] = const(len(v.a[0].encode()))
                    s.env[mk('content', l)] = v
                    return l
                if tkind(a0['t']) == 'ptr':
                    # construction from a null C string is undefined
                    p = self.rval(s, fr, args[0])
                    n = self.nullness(s, p)
                    self.oblige(s, fr, eid, 'null', n is False, (p, args[0]))
                    if n is True:
                        raise Dead()
                    if n is None:
                        s.nul[p] = False
                if tkind(a0['t']) == 'int' and len(args) >= 2:
                    s.env[mk('sz', l)] = self.rval(s, fr, args[0])
                    return l
                n = self.fresh(s, fr, (eid, 'n'), None, 'sz')
                s.add_le(ZERO, n)
                s.env[mk('sz', l)] = n
                return l
            ety = elemtype(ty)
            if tkind(a0['t']) == 'cont':
                self.copy_object(s, self.loc(s, fr, args[0]), l, ty)
                return l
            if tkind(a0['t']) == 'iter' and len(args) >= 2:
                a, b = self.rval(s, fr, args[0]), self.rval(s, fr, args[1])
                if a.op == 'it' and b.op == 'it' and a.a[0] is b.a[0]:
                    ok = s.le(ZERO, a.a[1]) and s.le(a.a[1], b.a[1]) and s.le(b.a[1], self.size(s, a.a[0]))
                    self.oblige(s, fr, eid, 'idx', ok, (a.a[0], a.a[1]))
                    if a.a[1].op == 'c' and a.a[1].a[0] == 0:
                        s.env[mk('sz', l)] = b.a[1]
                        return l
                    n = self.arith(s, fr, '-', b.a[1], a.a[1], None, e) if not a.a[1].op == 'c' else lin(b.a[1], -a.a[1].a[0])
                    s.env[mk('sz', l)] = n
                    return l
            if tkind(a0['t']) == 'int':
                n = self.rval(s, fr, args[0])
                s.env[mk('sz', l)] = n
                if ety is not None and tkind(ety) == 'smart' and len(args) < 2 and not s.eq(n, const(0)):
                    self.oblige(s, fr, eid, 'nullelem', False, (n, args[0]))
                return l
            if a0['k'] == 'ilist' or (nonref(a0['t']).rec or '').endswith('initializer_list'):
                src = self.loc(s, fr, args[0])
                s.env[mk('sz', l)] = self.size(s, src)
                return l
            n = self.fresh(s, fr, (eid, 'n'), None, 'sz')
            s.add_le(ZERO, n)
            s.env[mk('sz', l)] = n
            return l
        if not args:
            self.default_init(s, l, ty)
        elif nonref(ty).rec == 'std::pair' and len(args) == 2:
            for f, a in (('first', args[0]), ('second', args[1])):
                x = F.ex[a]
                if scalar(x['t']):
                    s.env[mk('fld', l, f, 'std::pair')] = self.rval(s, fr, a)
        return l

    # other external functions ----------------------------------
    def external(self, s, fr, e, d, this):
        F = fr.F
        name = d['name']
        args = e.get('a', ())
        eid = e['id']
        short = name.rsplit('::', 1)[-1]
        for a in args:
            if a >= 0:
                self.get(s, fr, a)
        if short in ('make_shared', 'make_unique'):
            p = mk('new', fr.fid, eid)
            self.forget(s, p)
            l = deref(p)
            self.clear(s, l)
            t = nonref(e['t']).targs[0] if nonref(e['t']).targs else None
            if t is None:
                return p
            r = self.construct(s, fr, e, l, t, args)
            return [(st, p) for st in r]
        if short in ('move', 'forward') and name.startswith('std::'):
            return self.get(s, fr, args[0]) if self.is_loc(F.ex[args[0]]) else self.loc(s, fr, args[0])
        ats = [F.ex[a]['t'] for a in args]
        if e.get('op') and ats and len(args) == 2 and e['op'] in ('==', '!=', '<', '<=', '>', '>=', '-', '+'):
            if tkind(ats[0]) == 'iter':
                return self.iterop(s, fr, e, 'operator' + e['op'], args[0], args[1:])
            if 'smart' in (tkind(ats[0]), tkind(ats[1])) or 'func' in (tkind(ats[0]), tkind(ats[1])):
                if e['op'] in ('==', '!='):
                    return self.ptr_eq(s, self.rval(s, fr, args[0]), self.rval(s, fr, args[1]), e['op'])
            if is_string(ats[0]) or is_string(ats[1]):
                if e['op'] in ('==', '!='):
                    sc = []
                    for a in args:
                        x = F.ex[a]
                        v = self.get(s, fr, a)
                        if is_string(x['t']) and self.is_loc(x):
                            sc.append((self.size(s, v), self.content(s, v)))
                        elif v.op == 's':
                            sc.append((const(len(v.a[0].encode())), v))
                        else:
                            sc = None
                            break
                    if sc:
                        if sc[0][1] is sc[1][1]:
                            t = TRUE
                        elif sc[0][1].op == 's' and sc[1][1].op == 's':
                            t = FALSE
                        else:
                            t = mk('streq', sc[0][0], sc[1][0], sc[0][1], sc[1][1])
                        return t if e['op'] == '==' else bnot(t)
                elif e['op'] == '+':
                    l = mk('tmp', fr.fid, eid)
                    self.clear(s, l)
                    n = self.fresh(s, fr, (eid, 'n'), None, 'sz')
                    s.add_le(ZERO, n)
                    cs = []
                    for a in args:
                        x = F.ex[a]
                        v = self.get(s, fr, a)
                        if is_string(x['t']) and self.is_loc(x):
                            s.add_le(self.size(s, v), n)
                            cs.append(self.content(s, v))
                        elif v.op == 's':
                            s.add_le(const(len(v.a[0].encode())), n)
                            cs.append(v)
                        elif tkind(x['t']) == 'int':
                            s.add_le(const(1), n)
                            v = self.rval(s, fr, a)
                            cs.append(mk('s', chr(v.a[0])) if v.op == 'c' and 0 < v.a[0] < 128 else mk('chr', v))
                        elif tkind(x['t']) == 'ptr':
                            p = self.rval(s, fr, a)
                            nn = self.nullness(s, p)
                            self.oblige(s, fr, eid, 'null', nn is False, (p, a))
                    s.env[mk('sz', l)] = n
                    if len(cs) == 2:
                        c = cat(*cs)
                        if c is not None:
                            s.env[mk('content', l)] = c
                    return l
        if short in ('find_if', 'find', 'find_if_not', 'remove_if', 'remove') and ats and tkind(ats[0]) == 'iter':
            a, b = self.rval(s, fr, args[0]), self.rval(s, fr, args[1])
            if a.op == 'it' and b.op == 'it':
                t = self.fresh(s, fr, eid, None)
                s.add_le(a.a[1], t)
                s.add_le(t, b.a[1])
                return mk('it', a.a[0], t, a.a[2])
        if short in ('distance',) and tkind(ats[0]) == 'iter':
            return self.iterop(s, fr, e, 'operator-', args[1], args[:1])
        if short in ('advance',) and tkind(ats[0]) == 'iter':
            v = self.rval(s, fr, args[0])
            l = self.loc(s, fr, args[0])
            n = self.rval(s, fr, args[1])
            if v.op == 'it':
                s.env[l] = mk('it', v.a[0], n if v.a[1] is const(0) else self.arith(s, fr, '+', v.a[1], n, ats[1], e), v.a[2])
            return UNK
        if short in ('next', 'prev') and ats and tkind(ats[0]) == 'iter':
            v = self.rval(s, fr, args[0])
            n = self.rval(s, fr, args[1]) if len(args) > 1 else const(1)
            if v.op == 'it' and n.op == 'c':
                return mk('it', v.a[0], lin(v.a[1], n.a[0] if short == 'next' else -n.a[0]), v.a[2])
            if v.op == 'it' and v.a[1] is const(0) and short == 'next':
                return mk('it', v.a[0], n, v.a[2])
        if short in ('min', 'max') and len(args) == 2 and tkind(e['t']) == 'int':
            a, b = self.rval(s, fr, args[0]), self.rval(s, fr, args[1])
            t = self.fresh(s, fr, eid, e['t'])
            for x in (a, b):
                if short == 'min':
                    s.add_le(t, x)
                else:
                    s.add_le(x, t)
            lo = [s.dist(ZERO, base(x)[0]) for x in (a, b)]
            if short == 'min' and s.le(ZERO, a) and s.le(ZERO, b):
                s.add_le(ZERO, t)
            l = mk('tmp', fr.fid, eid)
            s.env[l] = t
            return l if self.is_loc(e) else t
        if short == 'get' and name.startswith('std::') and ats and nonref(ats[0]).rec in ('std::tuple', 'std::pair'):
            ty = nonref(e['t'])
            L = self.loc(s, fr, args[0])
            i = None
            targs = nonref(ats[0]).targs or []
            # the index is not exported: distinguish by call site type when unique
            return mk('fld', L, 'get@%d' % (e['id']), 'std::tuple') if self.is_loc(e) else self.opaque(s, fr, eid)
        if short in ('dynamic_pointer_cast',):
            return self.fresh(s, fr, eid, e['t'], 'maynull')
        if short in ('static_pointer_cast', 'const_pointer_cast'):
            return self.rval(s, fr, args[0])
        if short == 'swap' and len(args) == 2:
            for a in args:
                if self.is_loc(F.ex[a]):
                    self.kill(s, s.temps[a], ('sw', fr.fid, eid))
            return UNK
        if name == 'std::to_string' and len(args) == 1:
            l = mk('tmp', fr.fid, eid)
            self.clear(s, l)
            s.env[mk('content', l)] = mk('tostr', self.rval(s, fr, args[0]))
            n = self.fresh(s, fr, (eid, 'n'), None, 'sz')
            s.add_le(const(1), n)
            s.env[mk('sz', l)] = n
            return l
        # C strings: no null pointers into string constructors / libc
        self.kill_args(s, fr, e)
        if short in ('strtol', 'strtod', 'strtoul', 'strtoll', 'strtoull', 'strtof') and len(args) > 1 and args[1] in s.temps:
            v = self.rval(s, fr, args[1])
            if v.op == 'addr':
                # the end of the number is a place in the text
                s.env[v.a[0]] = self.fresh(s, fr, (eid, 'end'), None, 'nn')
        if this is not None and not d.get('const'):
            self.kill(s, this, ('ex', fr.fid, eid))
        # a callback handed to an external function may run
        if any(tkind(t) == 'func' or nonref(t).lam for t in ats):
            self.havoc_heap(s, ('ex', fr.fid, eid))
        if short in MAYNULL_EXT:
            return self.fresh(s, fr, eid, e['t'], 'maynull')
        if self.is_loc(e):
            if e.get('lv') and this is not None and nonref(d['ret']).s == nonref(F.ex[e['o']]['t']).s:
                return this
            return self.opaque(s, fr, eid)
        if nullable_kind(e['t']):
            return self.fresh(s, fr, eid, e['t'], 'nn')
        t = self.fresh(s, fr, eid, e['t'])
        return t

    def construct(self, s, fr, e, l, t, args):
        """make_shared<T>(args...): the constructor is chosen by the argument types"""
        F = fr.F
        k = tkind(t)
        if k in ('smart', 'func'):
            s.env[l] = self.rval(s, fr, args[0]) if args else NULL
            return [s]
        ats = [F.ex[a]['t'] for a in args]
        if len(args) == 1 and nonref(ats[0]).s == nonref(t).s:
            self.copy_object(s, self.loc(s, fr, args[0]), l, t)
            return [s]
        if not args:
            cand = self.facts.ctors(t)
            c0 = [c for c in cand if all(p['def'] for p in c['params'])]
            fn = self.P.fn(c0[0]['id']) if c0 else None
            if fn is not None and self.inlinable(fr, fn):
                out = [st for st, _ in self.inline(s, fr, e, fn, l, [-1] * len(fn.params), dest=l)]
                for st in out:
                    self.built(st, fr, e['id'], fn, l)
                return out
            if fn is not None and not self.P.decls.get(fn.id, {}).get('implicit'):
                self.havoced.add(fn.id)
                return [s]
            self.default_init(s, l, t)
            return [s]
        best = None
        for c in self.facts.ctors(t):
            if len(c['params']) < len(args) or not all(p['def'] for p in c['params'][len(args):]):
                continue
            sc = 0
            for p, at in zip(c['params'], ats):
                pt = nonref(p['t'])
                a = nonref(at)
                if pt.s == a.s:
                    sc += 3
                elif pt.k == 'ptr' and a.k in ('ptr', 'arr'):
                    sc += 2
                elif tkind(pt) == 'func' and (a.lam or tkind(a) in ('func', 'fn')):
                    sc += 2
                elif is_string(pt) and is_string(a):
                    sc += 1
                elif pt.rec and pt.rec in [b.rec for b in bases_of(a)] and (contbase(pt) is None) == (contbase(a) is None):
                    sc += 2
                elif tkind(pt) == tkind(a) and tkind(pt) == 'smart' and pt.s != a.s:
                    sc -= 100
                else:
                    sc -= 10
            if best is None or sc > best[0]:
                best = (sc, c)
        if best is not None and best[0] > 0:
            fn = self.P.fn(best[1]['id'])
            if fn is not None:
                if self.inlinable(fr, fn):
                    nargs = list(args) + [None] * (len(fn.params) - len(args))
                    out = []
                    for st, _ in self.inline(s, fr, e, fn, l, nargs, dest=l):
                        self.facts.check_object(self, st, fr, e, l, t)
                        self.built(st, fr, e['id'], fn, l)
                        out.append(st)
                    return out
                self.havoced.add(fn.id)
                self.check_args(s, fr, e, best[1])
                return [s]
        if k == 'cont' and len(args) == 1 and tkind(ats[0]) == 'cont':
            self.copy_object(s, self.loc(s, fr, args[0]), l, t)
            return [s]
        return [s]

    def run_root(self, F, setup=None):
        s = State()
        s.env[mk('ghost', 'deleted')] = NULL
        this = None
        if F.cls and not F.static and not F.lam:
            this = mk('this', F.id)
        fr = Frame(F, (('root', F.id),), this)
        self.root_frame = fr
        self.bind_root_params(s, fr)
        self.facts.entry_facts(self, s, fr)
        if setup is not None:
            setup(self, s, fr)
        if self.facts.is_ctor(F):
            for cls, f, ft in self.facts.fields_by_cls(F.cls):
                if cls == F.cls and tkind(ft) in ('smart', 'func', 'cont'):
                    self.default_init(s, mk('fld', this, f, cls), ft)
        exits = self.run(fr, [s])
        for st, rv in exits:
            self.grown(st, fr)
            for i, p in enumerate(F.params):
                ty = outparam(p['t'])
                if ty is None:
                    continue
                if ty is nonref(p['t']):
                    l, sts = mk('pref', fr.fid, p['v'], False), [st]
                else:
                    v = mk('sym', fr.fid, ('p', p['v']), 'p')
                    l, sts = deref(v), self.assume(st.copy(), mk('isnull', v), False)
                for st2 in sts:
                    if self.nullness(st2, self.load(st2, l, ty)) is not False:
                        self.flag(('O', F.id, i), fr, -1)
                        if rv is not None and tkind(F.ret) == 'bool':
                            for st3 in self.assume(st2.copy(), rv, True):
                                if self.nullness(st3, self.load(st3, l, ty)) is not False:
                                    self.flag(('OT', F.id, i), fr, -1)
            if rv is not None and nullable_kind(F.ret) and not (F.ret.ref or F.ret.rref):
                if self.nullness(st, rv) is not False:
                    self.flag(('R', F.id), fr, -1)
                    if self.facts.address_taken(F.id):
                        self.flag(('IR', nonref(F.ret).s), fr, -1)
            if self.facts.is_ctor(F):
                for cls, f, ft in self.facts.fields_by_cls(F.cls):
                    if cls == F.cls and tkind(ft) in ('smart', 'func', 'ptr'):
                        l = mk('fld', this, f, cls)
                        v = st.env.get(l)
                        if v is not None and self.nullness(st, v) is not False:
                            self.flag(('F', cls, f), fr, -1)
        return exits


MAYNULL_EXT = ('getenv', 'dlopen', 'dlsym', 'fopen', 'strchr', 'strstr', 'strrchr', 'malloc', 'LoadLibrary', 'dlerror', 'setlocale')


def outparam(ty):
    """the type of what a function can leave in a parameter: T& or T* where T is a pointer"""
    n = nonref(ty)
    if ty.ref and not ty.cst and nullable_kind(ty):
        return n
    if not ty.ref and tkind(ty) == 'ptr' and not n.pc and n.to is not None and tkind(n.to) == 'smart':
        return n.to
    return None


def eblocks(F):
    out = {}
    from prog import children

    def add(eid, b):
        if eid in out or eid < 0:
            return
        out[eid] = b
        for c in children(F.ex[eid]):
            add(c, b)
    for b in F.blocks.values():
        for el in b['els']:
            if el[0] in ('e',):
                out[el[1]] = b['id']
            elif el[0] == 'decl':
                out[('d', el[1]['v'])] = b['id']
    for b in F.blocks.values():
        for el in b['els']:
            x = el[1] if el[0] in ('e', 'ret') else (el[1].get('e', -1) if isinstance(el[1], dict) else -1)
            if isinstance(x, int) and x >= 0:
                for c in children(F.ex[x]):
                    add(c, b['id'])
    for e in list(out):
        if isinstance(e, int):
            out[(e, 'n')] = out[e]
            out[('lam', e)] = out[e]
    return out


_old = {}


def has_old(t):
    r = _old.get(t)
    if r is None:
        r = t.op == 'old' or any(isinstance(x, Term) and has_old(x) for x in t.a)
        _old[t] = r
    return r
