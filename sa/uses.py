"""Where an object may be changed through an expression: follows references, iterators, members, parameters and results."""
from absint import *
from prog import children

# members of library classes that only look, whatever their constness (their result may still allow a change)
LOOK = set('''begin end rbegin rend cbegin cend find front back top data operator[] at operator* operator-> get lower_bound upper_bound equal_range
size empty count length capacity c_str operator bool operator== operator!= operator< operator- operator+ base compare substr find_first_of find_last_of rfind
find_first_not_of find_last_not_of shared_from_this what str rdbuf good is_open tellg fail bad eof'''.split())
# library functions that only read through an iterator or reference to non-const
READFN = set('''std::find std::find_if std::count std::count_if std::distance std::operator== std::operator!= std::operator<< std::make_shared std::make_pair
std::for_each std::any_of std::all_of std::none_of std::equal std::min std::max std::make_unique std::forward std::move std::advance std::next std::prev std::ref std::cref'''.split())


def parents(F):
    ps = F.extra.get('parents')
    if ps is None:
        ps = {}
        for e in F.ex.values():
            for c in children(e):
                ps.setdefault(c, []).append(e['id'])
        decl = {}
        for b in F.blocks.values():
            for el in b['els']:
                if el[0] in ('decl', 'init') and el[1].get('e', -1) >= 0:
                    decl.setdefault(el[1]['e'], []).append(el)
                elif el[0] == 'ret':
                    x = el[1] if isinstance(el[1], int) else el[1].get('e', -1)
                    decl.setdefault(x, []).append(el)
        ps = F.extra['parents'] = (ps, decl)
    return ps


def const_lv(t):
    t = t if t is not None else None
    if t is None:
        return False
    n = nonref(t)
    return bool(t.cst or n.cst) or (tkind(n) == 'iter' and 'const ' in n.s.split('*')[0]) or (n.k == 'ptr' and n.pc)


class Uses:
    """changes() lists (F, line, what) for every way the object denoted by an expression may be changed.  deep: also follow
    smart pointers to what they point to."""

    def __init__(self, P, fa, within=None, deep=False, stop=()):
        self.P, self.fa, self.within, self.deep, self.stop = P, fa, within, deep, set(stop)
        self.out = []
        self.seen = set()
        self.calls_of = {}
        for F in P.fns.values():
            for e in F.ex.values():
                if e['k'] == 'call' and e.get('c'):
                    self.calls_of.setdefault(e['c'], []).append((F, e['id']))

    def hit(self, F, e, what):
        self.out.append((F, e.get('l'), what))

    def var(self, F, v):
        if (F.id, v) in self.seen:
            return
        self.seen.add((F.id, v))
        for e in list(F.ex.values()):
            if e['k'] == 'var' and e['v'] == v:
                self.expr(F, e['id'])
            elif e['k'] == 'lambda':
                for c in e['caps']:
                    if c.get('v') == v and (c.get('byref') or tkind(nonref(c['t'])) in ('ptr', 'iter')):
                        G = self.P.fns.get(e['c'])
                        if G is not None:
                            self.var(G, v)

    def expr(self, F, eid):
        """changes through the lvalue (or iterator/pointer value) eid"""
        if (F.id, eid) in self.seen:
            return
        self.seen.add((F.id, eid))
        e0 = F.ex[eid]
        isc = const_lv(e0['t']) and e0['k'] != 'cast'
        ps, decl = parents(F)
        vt = tkind(nonref(e0['t']))
        handle = vt in ('iter', 'ptr') or e0['k'] == 'un' and e0['op'] == '&'
        for el in decl.get(eid, ()):
            if el[0] == 'decl':
                t = el[1]['t']
                if (t.ref or t.rref) and not t.cst or handle and not const_lv(t):
                    self.var(F, el[1]['v'])
            elif el[0] == 'ret':
                rt = F.ret
                if rt is not None and (rt.ref and not rt.cst or handle and not const_lv(rt)):
                    self.result(F)
            else:
                t = el[1].get('t')
                if handle or t is not None and t.ref and not t.cst:
                    self.hit(F, e0, 'kept in a member')
        for p in ps.get(eid, ()):
            e = F.ex[p]
            k = e['k']
            if k in ('fn',):
                continue
            if k == 'load':
                if handle or self.deep and vt == 'smart':
                    self.expr(F, p)
                continue
            if k == 'cast':
                if e.get('lv') or handle or tkind(nonref(e['t'])) in ('iter', 'ptr'):
                    if isc and not const_lv(e['t']) and e.get('ck') not in ('DerivedToBase', 'UncheckedDerivedToBase', 'ArrayToPointerDecay'):
                        self.hit(F, e, 'const cast')
                    self.expr(F, p)
                continue
            if k == 'mem':
                if not isc or self.deep:
                    self.expr(F, p)
                continue
            if k in ('cond', 'idx', 'opaque', 'bin'):
                if k == 'bin' and e['op'] not in ('+', '-', ','):
                    continue
                if not isc:
                    self.expr(F, p)
                continue
            if k == 'un':
                if e['op'] in ('++', '--'):
                    if handle:
                        self.expr(F, p)
                    elif not isc:
                        self.hit(F, e, 'counted')
                elif e['op'] in ('*', '&') and not isc:
                    self.expr(F, p)
                continue
            if k == 'asg':
                if e['e'] == eid:
                    if vt == 'iter' or e0['k'] == 'var' and vt == 'ptr':
                        continue
                    self.hit(F, e, 'assigned')
                elif handle:
                    l = F.ex[e['e']]
                    if l['k'] == 'var' and not l.get('glob'):
                        if not const_lv(l['t']):
                            self.var(F, l['v'])
                    elif not const_lv(e0['t']):
                        self.hit(F, e, 'handed on')
                continue
            if k == 'lambda' or k in ('str', 'throw'):
                continue
            if k == 'delete':
                self.hit(F, e, 'deleted')
                continue
            if k == 'ctor':
                d = self.P.decls.get(e.get('c'))
                if handle and tkind(nonref(e['t'])) in ('iter',):
                    self.expr(F, p)
                elif d is not None and d['mine'] and eid in e['a']:
                    self.param(F, e, d, e['a'].index(eid), isc, handle)
                continue
            if k == 'call':
                self.call(F, e, eid, isc, handle)

    def call(self, F, e, eid, isc, handle):
        P = self.P
        d = P.decls.get(e.get('c'))
        if d is None:
            if eid in e['a'] and not isc and (F.ex[eid].get('lv') or handle):
                self.hit(F, e, 'handed to a function value')
            return
        nm = d['name'].rsplit('::', 1)[-1]
        if e.get('o') == eid:
            self.receiver(F, e, d, nm, isc)
            return
        if e['c'] in self.stop:
            return
        if eid in e['a']:
            i = e['a'].index(eid)
            self.param(F, e, d, i, isc, handle)

    def receiver(self, F, e, d, nm, isc):
        P = self.P
        rt = d['ret']
        smart = tkind(nonref(F.ex[e['o']]['t'])) in ('smart', 'ptr') and nm in ('operator->', 'operator*', 'get')
        if smart and tkind(nonref(F.ex[e['o']]['t'])) == 'smart' and not self.deep:
            return
        gives = rt is not None and (rt.ref and not rt.cst or tkind(nonref(rt)) in ('iter', 'ptr') and not const_lv(rt)) or self.deep and rt is not None and tkind(nonref(rt)) == 'smart' and nm == 'shared_from_this'
        if not d['mine']:
            if not d.get('const') and not d.get('static') and not smart and nm not in LOOK:
                t = nonref(F.ex[e['o']]['t'])
                if tkind(t) == 'iter' and nm in ('operator++', 'operator--', 'operator+=', 'operator-=', 'operator='):
                    pass
                else:
                    self.hit(F, e, 'changed by %s' % nm)
            if nm == 'operator[]' and nonref(F.ex[e['o']]['t']).rec and 'map' in contbase(nonref(F.ex[e['o']]['t'])).rec and not d.get('const'):
                self.hit(F, e, 'changed by %s' % nm)
            if gives and (not d.get('const') or smart or tkind(nonref(F.ex[e['o']]['t'])) == 'iter'):
                self.expr(F, e['id'])
            return
        if e['c'] in self.stop:
            return
        tg = {e['c']} | (self.fa.over.get(e['c'], set()) if e.get('virt') else set())
        for c in tg:
            G = P.fns.get(c)
            if G is None:
                if d.get('asg'):
                    self.hit(F, e, 'assigned')
                continue
            if not G.const or self.deep:
                self.this(G)
        if gives:
            self.expr(F, e['id'])

    def this(self, G):
        if (G.id, 'this') in self.seen:
            return
        self.seen.add((G.id, 'this'))
        for x in list(G.ex.values()):
            if x['k'] == 'this':
                self.thisexpr(G, x['id'])

    def thisexpr(self, G, eid):
        ps, _ = parents(G)
        for p in ps.get(eid, ()):
            e = G.ex[p]
            if e['k'] in ('cast', 'load'):
                self.thisexpr(G, p)
            elif e['k'] == 'mem':
                if not const_lv(e['t']) or self.deep:
                    self.expr(G, p)
            elif e['k'] == 'un' and e['op'] == '*':
                self.expr(G, p)
            elif e['k'] == 'call' and e.get('o') == eid:
                d = self.P.decls.get(e.get('c'))
                if d is not None:
                    self.receiver(G, e, d, d['name'].rsplit('::', 1)[-1], False)

    def param(self, F, e, d, i, isc, handle):
        pars = d['params']
        if i >= len(pars):
            return
        t = pars[i]['t']
        e0 = F.ex[e['a'][i]]
        if t is None or t.cst and t.ref:
            return
        if not (t.ref or t.rref) and not handle and not (self.deep and tkind(t) == 'smart'):
            return
        if handle and const_lv(t) or isc and not self.deep:
            return
        if not d['mine']:
            if d['name'] in READFN or d.get('ctor'):
                return
            nm = d['name'].rsplit('::', 1)[-1]
            if nm in ('operator==', 'operator!=', 'operator<', 'operator-') or d.get('clsq') and nm in ('insert', 'push_back', 'assign', 'append', 'erase', 'emplace_back', 'push'):
                return
            if d.get('clsq') == 'std::function' and nm == 'operator()':
                self.hit(F, e, 'handed to a function value')
                return
            self.hit(F, e, 'handed to %s' % d['name'])
            return
        if e['c'] in self.stop:
            return
        G = self.P.fns.get(e['c'])
        if G is None:
            return
        self.var(G, G.params[i]['v'])

    def result(self, F):
        if (F.id, 'ret') in self.seen:
            return
        self.seen.add((F.id, 'ret'))
        for G, eid in self.calls_of.get(F.id, ()):
            if self.within is None or G.id in self.within:
                self.expr(G, eid)
