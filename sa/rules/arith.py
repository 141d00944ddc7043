"""P07: arithmetic on numbers of a script is always defined.

  div, divov  no integer division or remainder by zero, nor of the smallest number by -1
  shift       every shift count is below the width
  ovf         signed operations on numbers that come from a script or from text fit their type on every path
  neg         the same for negation
  real        a real number is converted to an integer only where comparisons have shown that it fits (which excludes NaN)"""
import re
from absint import *
from rules import common, whole
from prog import children
import pp

KINDS = {'div', 'divov', 'shift', 'ovf', 'neg'}
TEXT = set('atoi atol atoll std::atoi std::stoi std::stol std::stoll std::stoul std::stoull strtol strtoll std::strtol strtoul'.split())
INTK = ('int', 'enum')


def name(P, e):
    return (P.decls.get(e.get('c')) or {}).get('name') or ''


def signed_inside(t):
    return re.search(r'[<, ](int|long)\b', nonref(t).s) is not None


def signed(t):
    return tkind(nonref(t)) == 'int' and nonref(t).sg != 0


def check(P, R, tier):
    fa = common.facts(P)
    obls, roots = whole.analyse(P, fa, KINDS)
    T = Taint(P, fa)
    R.stats['functions_analysed'] = len(roots)
    R.stats['places_holding_script_numbers'] = len(T.t)
    for (kind, f, eid), (a, b, d) in sorted(obls.items(), key=lambda x: (x[0][0], P.fns[x[0][1]].file, P.fns[x[0][1]].line, str(x[0][2]))):
        F = P.fns[f]
        e = F.ex[eid]
        if kind == 'ovf' and not (T.expr(F, e['e']) or T.expr(F, e['r'])):
            continue
        if kind == 'neg' and not T.expr(F, e['e']):
            continue
        R.add('%s %s in %s' % (kind, pp.ex(P, F, eid)[:60], F.short), F.where(e.get('l')), not b,
              {'div': 'the divisor can be zero', 'divov': 'the quotient may not fit', 'shift': 'the shift count can be negative or too large',
               'ovf': 'the signed result may not fit', 'neg': 'the smallest number has no negative'}[kind] + (', reached by %s' % ' > '.join(d[1]) if d else ''))
    for F in sorted(P.fns.values(), key=lambda F: (F.file, F.line)):
        for e in list(F.ex.values()):
            if e['k'] == 'cast' and e.get('ck') == 'FloatingToIntegral':
                why = real(P, F, e)
                R.add('real %s in %s' % (pp.ex(P, F, e['id'])[:60], F.short), F.where(e['l']), why is None, why)


class Taint:
    """variables, members and results that can hold a number taken from a script value or from text"""

    def __init__(self, P, fa):
        self.P, self.fa, self.t = P, fa, set()
        while True:
            n = len(self.t)
            for F in P.fns.values():
                self.step(F)
            if len(self.t) == n:
                break

    def key(self, F, e):
        k = e['k']
        if k == 'var':
            return ('v', e['v']) if e.get('glob') else ('v', F.file, e['v'])
        if k == 'mem':
            return ('f', e.get('cls'), e['f'])
        if k in ('load', 'cast'):
            return self.key(F, F.ex[e['e']])
        return None

    def source(self, e):
        """reading the number of a runtime value, or the number written in a text"""
        if e['k'] == 'mem' and tkind(nonref(e['t'])) == 'int' and signed(e['t']):
            r = self.P.records.get(e.get('cls') or '')
            return bool(r and r.get('union'))
        if e['k'] == 'call':
            return name(self.P, e) in TEXT
        return False

    def expr(self, F, x, d=0):
        if not isinstance(x, int) or x not in F.ex or d > 40:
            return False
        e = F.ex[x]
        k = e['k']
        if k in ('int', 'bool', 'str', 'enum', 'float', 'fn') or tkind(nonref(e['t'])) not in ('int', 'bool', 'enum') and k != 'cast':
            return False
        if self.source(e):
            return True
        if k in ('var', 'mem'):
            if k == 'mem' and isinstance(e.get('b'), int) and e['b'] in F.ex:
                b = nonref(F.ex[e['b']]['t'])
                b = nonref(b.to) if b.k == 'ptr' and b.to is not None else b
                if ('T', b.s) in self.t or ('T', e.get('cls')) in self.t:
                    return True
            return self.key(F, e) in self.t
        if k == 'call':
            if any(('r', g) in self.t for g in self.callees(F, e)):
                return True
            # taken out of a library object such a number was put in
            return e.get('c') not in self.P.fns and any(('T', nonref(F.ex[x]['t']).s) in self.t for x in [e.get('o')] + list(e.get('a') or []) if isinstance(x, int) and x in F.ex)
        if k == 'bin' and e['op'] in ('==', '!=', '<', '<=', '>', '>=', '&&', '||'):
            return False
        if k == 'cond':
            return self.expr(F, e['e'], d + 1) or self.expr(F, e['r'], d + 1)
        if k == 'cast':
            if e.get('ck') == 'FloatingToIntegral':
                return True
            return self.expr(F, e['e'], d + 1)
        return any(self.expr(F, c, d + 1) for c in children(e))

    def callees(self, F, e):
        c = e.get('c')
        d = self.P.decls.get(c) or {}
        if d.get('clsq') == 'std::function' and e.get('op') == '()' or d.get('name', '').endswith('function::operator()'):
            return self.fa.fn_targets().get(nonref(F.ex[e['o']]['t']).s, ()) if isinstance(e.get('o'), int) and e['o'] in F.ex else ()
        if e.get('virt'):
            return [c] + [k for k, o in self.P.decls.items() if c in (o.get('overrides') or ())]
        return [c]

    def put(self, k):
        if k is not None:
            self.t.add(k)

    def step(self, F):
        for b in F.blocks.values():
            for el in b['els']:
                if el[0] == 'decl' and el[1].get('e', -1) >= 0 and self.expr(F, el[1]['e']):
                    self.put(('v', F.file, el[1]['v']))
                elif el[0] == 'init' and el[1].get('e', -1) >= 0 and self.expr(F, el[1]['e']):
                    self.put(('f', F.cls, el[1].get('f')))
                elif el[0] == 'ret':
                    x = el[1] if isinstance(el[1], int) else el[1].get('e', -1)
                    if self.expr(F, x):
                        self.put(('r', F.id))
        for e in F.ex.values():
            if e['k'] == 'asg' and self.expr(F, e['r']):
                self.put(self.key(F, F.ex[e['e']]))
            elif e['k'] in ('call', 'ctor'):
                a = e.get('a') or []
                if any(self.expr(F, x) for x in a):
                    if e['k'] == 'ctor' and e.get('c') not in self.P.fns and tkind(e['t']) not in ('cont', 'smart', 'iter') and signed_inside(e['t']):
                        self.put(('T', nonref(e['t']).s))
                    for g in self.callees(F, e):
                        G = self.P.fns.get(g)
                        if G is None:
                            continue
                        for x, p in zip(a, G.params):
                            if self.expr(F, x):
                                self.put(('v', G.file, p['v']))


# ---- real numbers

ROUND = {'trunc', 'std::trunc'}
INF = float('inf')


def number(P, F, x, d=0):
    e = F.ex.get(x) if isinstance(x, int) else None
    if e is None or d > 12:
        return None
    if e.get('val') is not None and e['k'] in ('int', 'float', 'cast', 'load'):
        return float(e['val'])
    if e['k'] == 'un' and e['op'] in '+-':
        v = number(P, F, e['e'], d + 1)
        return None if v is None else -v if e['op'] == '-' else v
    if e['k'] in ('cast', 'load'):
        return number(P, F, e['e'], d + 1)
    if e['k'] == 'bin' and e['op'] in '+-*':
        a, b = number(P, F, e['e'], d + 1), number(P, F, e['r'], d + 1)
        return None if a is None or b is None else a + b if e['op'] == '+' else a - b if e['op'] == '-' else a * b
    if e['k'] == 'call':
        q = name(P, e)
        t = nonref(e['t'])
        if 'numeric_limits' in q and tkind(t) == 'int' and t.sg != 0:
            w = t.w or 32
            return float((1 << (w - 1)) - 1) if q.endswith('max') else float(-(1 << (w - 1)))
    if e['k'] == 'var':
        i = single(P, F, e)
        if i is not None:
            return number(P, i[0], i[1], d + 1)
    return None


def single(P, F, e):
    """(function, expression) a variable is initialised with, if it is never changed"""
    if e.get('glob'):
        return None
    init = None
    for b in F.blocks.values():
        for el in b['els']:
            if el[0] == 'decl' and el[1].get('v') == e['v']:
                if init is not None or el[1].get('e', -1) < 0:
                    return None
                init = el[1]['e']
    if init is None or changed(F, e['v']):
        return None
    return F, init


def changed(F, v):
    for e in F.ex.values():
        if e['k'] == 'asg' or e['k'] == 'un' and e['op'] in ('++', '--', '&'):
            x = F.ex[e['e']]
            while x['k'] == 'cast':
                x = F.ex[x['e']]
            if x['k'] == 'var' and x['v'] == v:
                return True
        if e['k'] == 'call':
            for a in e.get('a') or []:
                x = F.ex.get(a)
                if x is not None and x['k'] == 'var' and x['v'] == v and not nonref(x['t']).cst:
                    return True       # handed on as a reference
    return False


def strip(F, x):
    e = F.ex[x]
    while e['k'] in ('load', 'cast') and e.get('ck') in ('LValueToRValue', 'NoOp', 'FloatingCast', None):
        e = F.ex[e['e']]
    return e


TOP = (-INF, False, INF, False, False)      # lower bound, strict, upper bound, strict, not NaN


def meet(a, b):
    lo = max((a[0], a[1]), (b[0], b[1]))
    hi = min((a[2], not a[3]), (b[2], not b[3]))
    return (lo[0], lo[1], hi[0], not hi[1], a[4] or b[4])


def join(a, b):
    lo = min((a[0], a[1]), (b[0], b[1]))
    hi = max((a[2], not a[3]), (b[2], not b[3]))
    return (lo[0], lo[1], hi[0], not hi[1], a[4] and b[4])


FLIP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
NEG = {'<': '>=', '>': '<=', '<=': '>', '>=': '<'}


def shows(P, F, x, want, v, d=0):
    """what the condition x being `want` shows about the variable v"""
    if d > 12:
        return TOP
    e = F.ex[x]
    k = e['k']
    if k in ('cast', 'load'):
        return shows(P, F, e['e'], want, v, d + 1)
    if k == 'un' and e['op'] == '!':
        return shows(P, F, e['e'], not want, v, d + 1)
    if k == 'bin' and e['op'] in ('&&', '||'):
        a, b = shows(P, F, e['e'], want, v, d + 1), shows(P, F, e['r'], want, v, d + 1)
        return meet(a, b) if (e['op'] == '&&') == want else join(a, b)
    if k == 'bin' and e['op'] in FLIP:
        l, r, op = e['e'], e['r'], e['op']
        if is_var(F, r, v) and not is_var(F, l, v):
            l, r, op = r, l, FLIP[op]
        if is_var(F, l, v):
            if is_var(F, r, v):
                return TOP[:4] + ((op == '==') == want,) if op in ('==', '!=') else TOP
            n = number(P, F, r)
            if n is None:
                return TOP
            if op in ('==', '!='):
                return (n, False, n, False, True) if (op == '==') == want else TOP
            o = op if want else NEG[op]
            return (n, o == '>', INF, False, want) if o[0] == '>' else (-INF, False, n, o == '<', want)
        return TOP
    if k == 'var':
        i = single(P, F, e)
        return shows(P, i[0], i[1], want, v, d + 1) if i else TOP
    if k == 'call':
        q = name(P, e)
        a = e.get('a') or []
        pos = [i for i, y in enumerate(a) if is_var(F, y, v)]
        if not pos:
            return TOP
        if q.split('::')[-1] in ('isnan', '__isnan', '__builtin_isnan'):
            return TOP[:4] + (not want,)
        if q.split('::')[-1] in ('isfinite', '__builtin_isfinite'):
            return TOP[:4] + (want,)
        G = P.fns.get(e.get('c'))
        if G is not None and len(pos) == 1 and pos[0] < len(G.params) and not changed(G, G.params[pos[0]]['v']):
            return result(P, G, want, G.params[pos[0]]['v'], d + 1)
    return TOP


def result(P, G, want, v, d):
    """what the function returning `want` shows about its parameter v"""
    out = None
    for b in G.blocks.values():
        for el in b['els']:
            if el[0] == 'ret':
                x = el[1] if isinstance(el[1], int) else el[1].get('e', -1)
                e = G.ex.get(x)
                if e is None:
                    return TOP
                c = e
                while c['k'] in ('cast', 'load'):
                    c = G.ex[c['e']]
                if c['k'] == 'bool' and bool(c.get('val')) != want:
                    continue
                a = meet(path(P, G, b['id'], v, d), TOP if c['k'] == 'bool' else shows(P, G, x, want, v, d))
                out = a if out is None else join(out, a)
    return out or TOP


def is_var(F, x, v):
    e = strip(F, x)
    return e['k'] == 'var' and e['v'] == v


def path(P, F, blk, v, d=0):
    """what is known about v where the block is entered: the branches it depends on"""
    out = TOP
    for b in F.blocks.values():
        c = b.get('cond')
        if c is None or c < 0 or len(b['succ']) < 2:
            continue
        for want, s in ((True, b['succ'][0]), (False, b['succ'][1])):
            if s is not None and s >= 0 and b['succ'][0] != b['succ'][1] and needs(F, blk, b['id'], s):
                out = meet(out, shows(P, F, c, want, v, d))
    return out


def needs(F, blk, b, s):
    """the block is only reached over the edge b -> s"""
    seen, st = {F.entry}, [F.entry]
    while st:
        x = st.pop()
        for y in F.extra['edges'][x]:
            if x == b and y == s:
                continue
            if y not in seen:
                seen.add(y)
                st.append(y)
    return blk not in seen


def real(P, F, e):
    """None if the converted number is shown to fit"""
    x = e['e']
    if number(P, F, x) is not None:
        return None
    op = strip(F, x)
    exact = True
    if op['k'] == 'call':
        q = name(P, op)
        if q.split('::')[-1] in ('trunc', 'floor', 'ceil', 'round', 'nearbyint', 'rint') and op.get('a'):
            exact = q.split('::')[-1] == 'trunc'
            op = strip(F, op['a'][0])
    t = nonref(e['t'])
    w = t.w or 32
    mn, mx = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if t.sg != 0 else (0, (1 << w) - 1)
    # the conditional operator and the branches around the conversion
    if op['k'] != 'var' or op.get('glob') or changed(F, op['v']):
        return 'the number converted is not one that comparisons have bounded'
    k = path(P, F, eblocks(F).get(e['id']), op['v'])
    ok = k[4]
    if exact:
        ok = ok and (k[0] >= mn or k[0] == mn - 1 and k[1]) and (k[2] <= mx or k[2] == mx + 1 and k[3])
    else:
        ok = ok and k[0] >= mn and k[2] <= mx
    return None if ok else 'the number may not fit: only known to be %s %s and %s %s%s' % ('>' if k[1] else '>=', k[0], '<' if k[3] else '<=', k[2], '' if k[4] else ', or NaN')
