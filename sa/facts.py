"""Program-wide facts used by the abstract interpreter, all derived from the exported program."""
from prog import children
from absint import tkind, nonref, scalar, mk, const, bases_of, nullable_kind, is_string, contbase, ZERO

OPKEYS = ('deref', 'elem', 'glob', 'xref', 'static', 'pref', 'sz', 'content', 'key', 'this', 'first', 'second', 'sym', 'init', 'phi', 'old')


class Slots(set):
    """the nullable slots; remembers which ones an analysis asked for"""
    asked = None

    def __contains__(self, x):
        if self.asked is not None:
            self.asked.add(x)
        return set.__contains__(self, x)


class AllSlots(set):
    """any pointer may be null"""
    asked = None

    def __contains__(self, x):
        return True


class Facts:
    def __init__(self, P):
        self.P = P
        self.nullable = Slots()
        self.no_inline = set()
        self._dom = {}
        self._fields = {}
        self.const_globals = {}
        self.const_strings = {}
        for q, g in P.globals.items():
            if g.get('const') and 'ival' in g:
                self.const_globals['g:' + q] = self.const_globals[q] = g['ival']
            if q.startswith('std::') and q.endswith('::npos'):
                self.const_globals['g:' + q] = self.const_globals[q] = (1 << 64) - 1
            if g.get('const') and 'sval' in g:
                self.const_strings['g:' + q] = self.const_strings[q] = g['sval']
        self.all_keys = set(OPKEYS)
        for r in P.records.values():
            for f in r['fields']:
                self.all_keys.add(f['name'])
        self.callgraph()
        self.unions()
        self.stores()
        self._mods = {}
        self._ctors = {}
        thrown = set()
        for F in P.fns.values():
            for e in F.ex.values():
                if e['k'] == 'throw' and e.get('tt') is not None:
                    thrown.add(e['tt'].rec)
        self.thrown = thrown
        for F in P.fns.values():
            # what only builds an exception object matters to no obligation of its caller
            if F.cls in thrown or (F.ret is not None and nonref(F.ret).rec in thrown):
                self.no_inline.add(F.id)
            elif F.id in self.recursive and len(F.blocks) > 25:
                self.no_inline.add(F.id)

    def text_type(self, t):
        return t is None or tkind(t) in ('int', 'bool', 'float', 'void') or is_string(t) or (tkind(t) == 'ptr' and nonref(t).to is not None and tkind(nonref(t).to) == 'int') \
            or (tkind(t) == 'cont' and contbase(t).targs and is_string(contbase(t).targs[0]))

    def text_functions(self):
        """functions over text and numbers only: when safe for all arguments they need no context"""
        out = []
        for F in self.P.fns.values():
            if F.lam or len(F.blocks) <= 4 or not (F.ret is None or F.ret.k == 'void' or is_string(F.ret) or tkind(F.ret) == 'cont'):
                continue
            if F.cls and not F.static and not any(b.rec in ('std::basic_string', 'std::__cxx11::basic_string') for b in self.clsbases(F.cls)):
                continue
            if all(self.text_type(p['t']) for p in F.params):
                out.append(F.id)
        return out

    def clsbases(self, cls):
        R = self.P.records.get(cls)
        out = []
        if R:
            for b in R['bases']:
                if b.get('t') is not None:
                    out += bases_of(b['t'])
        return out

    # ---------------------------------------------------------------- calls
    def callgraph(self):
        P = self.P
        self.over = {}
        for k, d in P.decls.items():
            for b in d.get('overrides', ()):
                self.over.setdefault(b, set()).add(k)
        ch = True
        while ch:
            ch = False
            for b, s in list(self.over.items()):
                for x in list(s):
                    n = self.over.get(x, set()) - s
                    if n:
                        s |= n
                        ch = True
        self.calls = {}
        self.callers = {}
        self.taken = set()
        self.indirect = set()
        for F in P.fns.values():
            out = set()
            used = set()
            for e in F.ex.values():
                used.update(children(e))
                if e['k'] == 'call' and e.get('fx', -1) >= 0 and e.get('c'):
                    used.discard(e['fx'])
            for b in F.blocks.values():
                for el in b['els']:
                    if el[0] in ('decl', 'init'):
                        used.add(el[1].get('e', -1))
                    elif el[0] == 'ret':
                        used.add(el[1])
            for i, e in F.ex.items():
                if e['k'] == 'fn':
                    if i in used:
                        self.taken.add(e['c'])
                elif e['k'] in ('call', 'ctor'):
                    c = e.get('c')
                    if c is None:
                        self.indirect.add(F.id)
                        continue
                    if e.get('virt'):
                        out |= self.over.get(c, set()) | {c}
                    else:
                        out.add(c)
                    d = P.decls.get(c)
                    if d and d['name'] == 'std::function::operator()' or d and d.get('clsq') == 'std::function' and d['name'].endswith('operator()'):
                        self.indirect.add(F.id)
                    if d and d['name'] in ('std::make_shared', 'std::make_unique'):
                        t = nonref(e['t']).targs
                        if t and t[0].rec:
                            out.update(self.made_by(t[0].rec, [nonref(F.ex[a]['t']).s for a in e['a']]))
                elif e['k'] == 'lambda':
                    out.add(e['c'])
            self.calls[F.id] = {c for c in out if c in P.fns}
            for c in self.calls[F.id]:
                self.callers.setdefault(c, set()).add(F.id)
        # strongly connected components
        idx, low, onst, st, comp = {}, {}, set(), [], []
        self.recursive = set()
        import sys
        sys.setrecursionlimit(50000)

        def sc(v):
            idx[v] = low[v] = len(idx)
            st.append(v)
            onst.add(v)
            for w in self.calls.get(v, ()):
                if w not in idx:
                    sc(w)
                    low[v] = min(low[v], low[w])
                elif w in onst:
                    low[v] = min(low[v], idx[w])
            if low[v] == idx[v]:
                c = []
                while True:
                    w = st.pop()
                    onst.discard(w)
                    c.append(w)
                    if w == v:
                        break
                if len(c) > 1 or v in self.calls.get(v, ()):
                    self.recursive.update(c)
        for v in list(self.calls):
            if v not in idx:
                sc(v)

    def virtual_targets(self, fid):
        return [c for c in self.over.get(fid, ()) if c in self.P.fns] + ([fid] if fid in self.P.fns else [])

    def address_taken(self, fid):
        return fid in self.taken

    # ---------------------------------------------------------------- records
    def field_owner(self, cls, f):
        k = (cls, f)
        r = self._fields.get(k)
        if r is None:
            r = cls
            st = [cls]
            while st:
                c = st.pop()
                R = self.P.records.get(c)
                if R is None:
                    continue
                if any(x['name'] == f for x in R['fields']):
                    r = c
                    break
                st += [b['t'].rec or b['t'].s for b in R['bases'] if b.get('t') is not None]
            self._fields[k] = r
        return r

    def recname(self, ty):
        t = nonref(ty)
        s = t.s
        for p in ('const ', 'volatile '):
            if s.startswith(p):
                s = s[len(p):]
        if s in self.P.records:
            return s
        return t.rec

    def fields_by_cls(self, cls):
        out = []
        st = [cls]
        seen = set()
        while st:
            c = st.pop()
            if c in seen:
                continue
            seen.add(c)
            R = self.P.records.get(c)
            if R is None or R.get('union'):
                continue
            for x in R['fields']:
                out.append((c, x['name'], x['t']))
            for b in R['bases']:
                t = b.get('t')
                if t is not None:
                    st.append(self.recname(t))
        return out

    def fields_of(self, ty):
        t = nonref(ty)
        if t.k != 'rec':
            return []
        if t.rec == 'std::pair' and t.targs:
            return [('std::pair', 'first', t.targs[0]), ('std::pair', 'second', t.targs[1])]
        n = self.recname(ty)
        if n in self.P.records and self.P.records[n]['file'].startswith('/') is False:
            return []
        k = ('of', n)
        r = self._fields.get(k)
        if r is None:
            r = self._fields[k] = self.fields_by_cls(n) if n else []
        return r

    def made_by(self, rec, ats):
        """constructors make_shared<rec>(arguments of the types ats) may call"""
        cs = [(k, d) for k, d in self.P.decls.items() if d.get('ctor') and d.get('clsq') == rec]
        fit = [(k, d) for k, d in cs if all('params' in d for _, d in cs) and len(d['params']) >= len(ats) and all(p.get('def') for p in d['params'][len(ats):])]
        fit = fit or cs
        exact = [(k, d) for k, d in fit if 'params' in d and all(nonref(p['t']).s == a for p, a in zip(d['params'], ats))]
        return [k for k, _ in exact or fit]

    def field_type(self, cls, f):
        if self._ftypes is None:
            self._ftypes = {(r, x['name']): x['t'] for r, R in self.P.records.items() for x in R['fields']}
        return self._ftypes.get((cls, f))

    _ftypes = None

    def is_ctor(self, F):
        d = self.P.decls.get(F.id)
        return bool(d and d.get('ctor'))

    def ctors(self, ty):
        n = self.recname(ty)
        r = self._ctors.get(n)
        if r is None:
            r = self._ctors[n] = [d for d in self.P.decls.values() if d.get('ctor') and (d.get('cls') == n)]
        return r

    # ---------------------------------------------------------------- tagged unions
    def unions(self):
        """union members and the tags under which the constructors of the owner set them"""
        P = self.P
        self.utags = {}
        self.tag_field = None
        self.tag_cls = None
        self.ucls = None
        self.ufield = None
        for rn, R in P.records.items():
            ufs = [f for f in R['fields'] if f['t'].k == 'rec' and P.records.get(f['t'].rec, {}).get('union')]
            tfs = [f for f in R['fields'] if f['t'].k == 'enum']
            if len(ufs) == 1 and len(tfs) == 1:
                self.tag_cls, self.tag_field = rn, tfs[0]['name']
                self.ufield = ufs[0]['name']
                self.ucls = ufs[0]['t'].rec
        tags = set()
        self.ctor_tags = {}
        if self.tag_cls is None:
            self.all_tags = frozenset()
            return
        for F in P.fns.values():
            if F.cls != self.tag_cls or not self.is_ctor(F):
                continue
            tv = None
            for b in F.blocks.values():
                for el in b['els']:
                    if el[0] == 'init' and el[1].get('f') == self.tag_field:
                        tv = self.enumconst(F, el[1]['e'])
            for e in F.ex.values():
                if e['k'] == 'asg' and F.ex[e['e']]['k'] == 'mem' and F.ex[e['e']]['f'] == self.tag_field:
                    v = self.enumconst(F, e['r'])
                    if v is not None:
                        tv = v
            if tv is None:
                continue
            tags.add(tv)
            ms = []
            for e in F.ex.values():
                if e['k'] == 'asg' and F.ex[e['e']]['k'] == 'mem' and F.ex[e['e']]['cls'] == self.ucls:
                    ms.append(F.ex[e['e']]['f'])
                    self.utags.setdefault((self.ucls, F.ex[e['e']]['f']), set()).add(tv)
            self.ctor_tags[F.id] = (tv, ms)
        self.all_tags = frozenset(tags)
        # members never set by a constructor belong to no constructible tag
        for f in P.records[self.ucls]['fields']:
            self.utags.setdefault((self.ucls, f['name']), set())
        self.utags = {k: frozenset(v) for k, v in self.utags.items()}

    def union_tags(self, cls, f):
        return self.utags.get((cls, f))

    def enumconst(self, F, eid):
        e = F.ex.get(eid)
        n = 0
        while e is not None and n < 5:
            if e['k'] in ('enum', 'int'):
                return e['val']
            if e['k'] in ('load', 'cast', 'opaque') and 'e' in e:
                e = F.ex.get(e['e'])
                n += 1
                continue
            return None
        return None

    # ---------------------------------------------------------------- field domains
    def stores(self):
        P = self.P
        dom = {}
        top = set()
        for F in P.fns.values():
            for b in F.blocks.values():
                for el in b['els']:
                    if el[0] == 'init' and 'f' in el[1] and el[1].get('t') is not None and el[1]['t'].k == 'enum':
                        self.dom1(F, dom, top, (self.field_owner(F.cls, el[1]['f']), el[1]['f']), el[1]['e'])
            for e in F.ex.values():
                if e['k'] == 'asg' and F.ex[e['e']]['k'] == 'mem' and tkind(F.ex[e['e']]['t']) == 'enum':
                    m = F.ex[e['e']]
                    self.dom1(F, dom, top, (m['cls'], m['f']), e['r'])
        self.doms = {}
        for k in set(dom) | top:
            if k not in top:
                self.doms[k] = frozenset(dom[k])
        for rn, R in P.records.items():
            for f in R['fields']:
                if tkind(f['t']) == 'enum' and (rn, f['name']) not in self.doms:
                    en = P.enums.get(f['t'].s.replace('const ', '')) or P.enums.get(f['t'].rec)
                    if en:
                        vals = en.values() if isinstance(en, dict) else [x[1] if isinstance(x, (list, tuple)) else x.get('v', x.get('val')) for x in en]
                        self.doms[(rn, f['name'])] = frozenset(vals)

    def dom1(self, F, dom, top, k, eid):
        v = self.enumconst(F, eid)
        if v is not None:
            dom.setdefault(k, set()).add(v)
            return
        e = F.ex.get(eid)
        while e is not None and e['k'] in ('load', 'cast') and 'e' in e:
            e = F.ex.get(e['e'])
        if e is not None and e['k'] == 'mem' and (e['cls'], e['f']) == k:
            return
        top.add(k)

    def field_domain(self, cls, f):
        return self.doms.get((cls, f))

    # ---------------------------------------------------------------- effects
    NOARG = ('get', 'move', 'forward', 'make_shared', 'make_unique', 'make_pair', 'emplace_back', 'emplace', 'push_back', 'make_tuple')
    CONTREAD = ('begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'find', 'at', 'front', 'back', 'data', 'size', 'empty', 'top',
                'lower_bound', 'upper_bound')

    def fn_info(self, F):
        """(locals held by value, reference locals -> initialiser, reference parameter -> index)"""
        r = F.extra.get('vinfo')
        if r is None:
            owned, refs, par = set(), {}, {}
            for i, p in enumerate(F.params):
                if p['t'] is not None and not p['t'].ref and not p['t'].rref:
                    owned.add(p['v'])
                else:
                    par[p['v']] = i
            for b in F.blocks.values():
                for el in b['els']:
                    if el[0] == 'decl' and 't' in el[1] and not el[1].get('static'):
                        if el[1]['t'].ref or el[1]['t'].rref:
                            refs[el[1]['v']] = el[1].get('e', -1)
                        else:
                            owned.add(el[1]['v'])
            r = F.extra['vinfo'] = (owned, refs, par)
        return r

    def lroot(self, F, eid, d=0):
        """what the object an expression denotes is a part of: None (local or temporary), 'this', ('p', i) or 'other'"""
        owned, refs, par = self.fn_info(F)
        e = F.ex.get(eid)
        while True:
            if e is None or d > 12:
                return 'other'
            d += 1
            k = e['k']
            if k == 'mem':
                b = F.ex.get(e['b'])
                if e.get('t') is not None and False:
                    return 'other'
                if e['arrow']:
                    if b is None:
                        return 'other'
                    if b['k'] == 'call' and b.get('op') == '->' and self.lroot(F, b['id']) is None:
                        return None
                    while b['k'] == 'cast' and F.ex.get(b.get('e', -1)) is not None:
                        b = F.ex[b['e']]
                    return 'this' if b['k'] == 'this' else 'other'
                e = b
            elif k == 'cast' and (e.get('lv') or tkind(e['t']) in ('rec', 'cont')):
                e = F.ex.get(e['e'])
            elif k == 'this':
                return 'this'
            elif k == 'un' and e['op'] == '*':
                b = F.ex.get(e['e'])
                return 'this' if b is not None and b['k'] == 'this' else 'other'
            elif k == 'un' and e['op'] in ('++', '--'):
                e = F.ex.get(e['e'])
            elif k == 'var':
                v = e['v']
                if e.get('glob'):
                    return 'other'
                if v in owned:
                    return None
                if v in par:
                    return ('p', par[v])
                if v in refs:
                    e = F.ex.get(refs[v])
                    continue
                return 'other'
            elif k == 'ctor':
                return None
            elif k == 'asg':
                e = F.ex.get(e['e'])
            elif k == 'call':
                dd = self.P.decls.get(e.get('c'))
                if dd is None:
                    return 'other'
                if not e.get('lv') and tkind(e['t']) in ('rec', 'cont', 'smart', 'iter', 'func', 'int', 'bool', 'enum', 'float'):
                    return None
                nm = dd['name'].rsplit('::', 1)[-1]
                if not dd['mine'] and 'o' in e and e['o'] >= 0:
                    ot = F.ex[e['o']]['t']
                    if tkind(ot) == 'smart' and nm in ('operator*', 'operator->') and F.ex[e['o']]['k'] == 'var' and self.fresh_var(F, F.ex[e['o']]['v']):
                        return None
                    if tkind(ot) == 'ptr':
                        b = F.ex[e['o']]
                        while b['k'] == 'cast' and F.ex.get(b.get('e', -1)) is not None:
                            b = F.ex[b['e']]
                        if b['k'] == 'this':
                            return 'this'
                    if tkind(ot) == 'cont' and nm in ('operator[]', 'at', 'front', 'back', 'operator=', 'operator+=', 'append', 'assign'):
                        e = F.ex[e['o']]
                        continue
                return 'other'
            else:
                return 'other'

    def lkeys(self, F, eid):
        """keys under which the engine stores the object an expression denotes"""
        e = F.ex.get(eid)
        while e is not None and e['k'] == 'cast':
            e = F.ex.get(e['e'])
        if e is None:
            return set(OPKEYS)
        if e['k'] == 'mem':
            return {e['f']}
        if e['k'] == 'var':
            return set(OPKEYS) if e.get('glob') else {'deref', 'elem', 'xref', 'pref', 'second', 'first'}
        if e['k'] == 'call':
            dd = self.P.decls.get(e.get('c'))
            nm = dd['name'].rsplit('::', 1)[-1] if dd else ''
            if nm in ('operator[]', 'at', 'front', 'back'):
                return {'elem', 'second', 'sz', 'content', 'deref'}
        return set(OPKEYS)

    def invalidates(self, t, nm):
        """the key of 'iterators into a container of this type may end', for a member function that can do this"""
        t = nonref(t)
        if tkind(t) == 'rec':
            return {k for _, _, ft in self.fields_of(t) if tkind(ft) in ('cont', 'rec') for k in self.invalidates(ft, nm)}
        if tkind(t) != 'cont':
            return set()
        b = contbase(t)
        if b.rec in ('std::map', 'std::set', 'std::list') and nm in ('insert', 'emplace', 'operator[]', 'try_emplace', 'push_back', 'insert_or_assign'):
            return set()
        return {('inv', b.s)}

    def fn_targets(self):
        """std::function type -> the functions and lambdas its values are made from (no entry: unknown)"""
        r = getattr(self, '_fnt', None)
        if r is None:
            r, bad = {}, set()
            for F in self.P.fns.values():
                for e in F.ex.values():
                    d = self.P.decls.get(e.get('c')) if e['k'] in ('ctor', 'call') else None
                    if d is None or d.get('clsq') != 'std::function' or e['k'] == 'call' and not d['name'].endswith('operator='):
                        continue
                    t = nonref(e['t'] if e['k'] == 'ctor' else F.ex[e['o']]['t']).s
                    r.setdefault(t, set())
                    for a in e['a'][:1]:
                        x = F.ex[a]
                        while x['k'] in ('cast', 'load', 'un') and x.get('e', -1) >= 0 and tkind(x['t']) in ('fn', 'ptr') or x['k'] == 'ctor' and len(x['a']) == 1 and nonref(x['t']).lam:
                            x = F.ex[x['e'] if x['k'] != 'ctor' else x['a'][0]]
                        if x['k'] in ('fn', 'lambda') and x.get('c') in self.P.fns:
                            r[t].add(x['c'])
                        elif tkind(x['t']) == 'null' or tkind(x['t']) == 'func' and nonref(x['t']).s == t:
                            pass
                        else:
                            bad.add(t)
            for t in bad:
                r.pop(t, None)
            self._fnt = r
        return r

    def fresh_var(self, F, v):
        """a local smart pointer that is set once, to an object made for it"""
        fv = F.extra.get('freshv')
        if fv is None:
            fv = set()
            owned, refs, par = self.fn_info(F)
            for b in F.blocks.values():
                for el in b['els']:
                    if el[0] == 'decl' and 't' in el[1] and tkind(el[1]['t']) == 'smart' and el[1]['v'] in owned and self.makes_new(F, el[1].get('e', -1)):
                        fv.add(el[1]['v'])
            for e in F.ex.values():
                if e['k'] == 'call' and e.get('o', -1) is not None and e.get('o', -1) >= 0 and F.ex[e['o']]['k'] == 'var' and F.ex[e['o']]['v'] in fv:
                    d = self.P.decls.get(e.get('c'))
                    nm = d['name'].rsplit('::', 1)[-1] if d else '?'
                    if nm not in ('operator->', 'operator*', 'get', 'operator bool', 'use_count'):
                        fv.discard(F.ex[e['o']]['v'])
                if e['k'] in ('call', 'ctor'):
                    d = self.P.decls.get(e.get('c'))
                    for i, a in enumerate(e.get('a', ())):
                        if a >= 0 and F.ex[a]['k'] == 'var' and F.ex[a].get('v') in fv:
                            t = d['params'][i]['t'] if d and i < len(d['params']) else None
                            if t is None or t.ref and not t.cst:
                                fv.discard(F.ex[a]['v'])
                elif e['k'] == 'lambda':
                    for c in e['caps']:
                        if c.get('byref') and c.get('v') in fv:
                            fv.discard(c['v'])
            F.extra['freshv'] = fv
        return v in fv

    def makes_new(self, F, x):
        for _ in range(6):
            e = F.ex.get(x)
            if e is None:
                return False
            if e['k'] == 'call':
                d = self.P.decls.get(e.get('c'))
                return d is not None and d['name'] in ('std::make_shared', 'std::make_unique')
            if e['k'] == 'ctor' and len(e['a']) == 1:
                x = e['a'][0]
            elif e['k'] in ('cast', 'load', 'opaque'):
                x = e.get('e', -1)
            else:
                return False
        return False

    def direct_effects(self, F):
        """(root -> keys, [(callee, receiver root, {param index: root})]) or None when anything may be modified"""
        eff, calls = {}, []
        P = self.P

        def hit(eid, keys):
            r = self.lroot(F, eid)
            if r is not None:
                eff.setdefault(r, set()).update(keys)
        for e in F.ex.values():
            k = e['k']
            if k == 'asg':
                hit(e['e'], self.lkeys(F, e['e']))
                if tkind(F.ex[e['e']]['t']) in ('rec', 'cont'):
                    hit(e['e'], {n for _, n, _ in self.fields_of(F.ex[e['e']]['t'])} | {'sz', 'elem', 'content'} |
                        self.invalidates(F.ex[e['e']]['t'], 'operator='))
            elif k == 'un' and e['op'] in ('++', '--'):
                hit(e['e'], self.lkeys(F, e['e']))
            elif k == 'lambda':
                if e['c'] in P.fns:
                    calls.append((e['c'], 'other', {}))
            elif k in ('call', 'ctor'):
                d = P.decls.get(e.get('c'))
                if d is None:
                    if k == 'ctor':
                        continue
                    return None
                nm = d['name'].rsplit('::', 1)[-1]
                args = e.get('a', ())
                recv = None
                if k == 'call' and e.get('o', -1) is not None and e.get('o', -1) >= 0:
                    o = F.ex[e['o']]
                    if tkind(o['t']) == 'ptr':
                        b = o
                        while b['k'] == 'cast' and F.ex.get(b.get('e', -1)) is not None:
                            b = F.ex[b['e']]
                        recv = 'this' if b['k'] == 'this' else 'other'
                        if b['k'] == 'call' and b.get('op') == '->':
                            recv = self.lroot(F, b['id'])
                    else:
                        recv = self.lroot(F, e['o'])
                if not d['mine']:
                    if d.get('clsq') == 'std::function' and nm == 'operator()':
                        tg = self.fn_targets().get(nonref(F.ex[e['o']]['t']).s)
                        if tg is None:
                            return None
                        for c in tg:
                            calls.append((c, 'other', {}))
                        continue
                    if recv is not None and not d.get('const') and not d.get('static'):
                        ot = F.ex[e['o']]['t']
                        if nonref(ot).k == 'ptr':
                            ot = nonref(ot).to
                        if tkind(ot) == 'cont' and nm != 'shared_from_this':
                            if nm not in self.CONTREAD and not (nm == 'operator[]' and not contbase(ot).rec in ('std::map', 'std::unordered_map')):
                                ks = {'sz', 'elem', 'content', 'second'} | self.invalidates(ot, nm)
                                if F.ex[e['o']]['k'] == 'mem':
                                    ks.add(F.ex[e['o']]['f'])
                                eff.setdefault(recv, set()).update(ks)
                        elif nm not in ('operator->', 'operator*', 'get', 'operator bool', 'shared_from_this'):
                            eff.setdefault(recv, set()).update(self.lkeys(F, e['o']))
                    for i, a in enumerate(args):
                        if a >= 0 and i < len(d['params']):
                            t = d['params'][i]['t']
                            if t is not None and t.ref and not t.cst and not t.rref and tkind(t) not in ('iter',) and nm not in self.NOARG:
                                ks = self.lkeys(F, a)
                                if tkind(t) == 'cont':
                                    ks |= {'sz', 'elem', 'content'} | self.invalidates(t, nm)
                                hit(a, ks)
                    if d['name'] in ('std::make_shared', 'std::make_unique'):
                        t = nonref(e['t']).targs
                        for kk, dd in P.decls.items():
                            if t and t[0].rec and dd.get('ctor') and dd.get('clsq') == t[0].rec and kk in P.fns:
                                calls.append((kk, None, {}))
                    continue
                if d.get('asg') and d.get('implicit') and k == 'call':
                    if recv is not None:
                        eff.setdefault(recv, set()).update(self.lkeys(F, e['o']) | {n for _, n, _ in self.fields_of(F.ex[e['o']]['t'])} |
                                                           {'sz', 'elem', 'content'} | self.invalidates(F.ex[e['o']]['t'], 'operator='))
                    continue
                proots = {}
                for i, a in enumerate(args):
                    if a >= 0:
                        proots[i] = self.lroot(F, a)
                tg = {e['c']}
                if e.get('virt'):
                    tg |= self.over.get(e['c'], set())
                for c in tg:
                    dd = P.decls.get(c)
                    if c in P.fns:
                        calls.append((c, recv, proots))
                    elif dd is None or not dd.get('implicit') and not dd.get('dtor') and not e.get('virt'):
                        return None
        return eff, calls

    def effects(self):
        """root -> keys for every function, a fixpoint over the call graph; None: anything"""
        if getattr(self, '_eff', None) is not None:
            return self._eff
        P = self.P
        dirs = {f: self.direct_effects(F) for f, F in P.fns.items()}
        eff = {f: (None if d is None else {r: set(k) for r, k in d[0].items()}) for f, d in dirs.items()}
        rev = {}
        for f, d in dirs.items():
            if d is not None:
                for c, _, _ in d[1]:
                    rev.setdefault(c, set()).add(f)
        work = set(P.fns)
        while work:
            f = work.pop()
            if dirs[f] is None or eff[f] is None:
                continue
            cur = eff[f]
            n0 = sum(len(k) for k in cur.values())
            for c, recv, proots in dirs[f][1]:
                g = eff[c]
                if g is None:
                    eff[f] = None
                    break
                for r, ks in list(g.items()):
                    if r == 'this':
                        to = recv
                    elif r == 'other':
                        to = 'other'
                    else:
                        to = proots.get(r[1], 'other')
                    if to is not None:
                        cur.setdefault(to, set()).update(ks)
            if eff[f] is None or sum(len(k) for k in cur.values()) != n0:
                work |= rev.get(f, set())
        self._eff = eff
        return eff

    def mods(self, fid, new=False):
        """keys a call may modify in memory that existed before it (new: a constructor, its object does not count)"""
        r = self._mods.get((fid, new))
        if r is not None:
            return r
        P = self.P
        out = set()
        eff = self.effects()
        for f in {fid} | set(self.over.get(fid, ())):
            if f not in P.fns:
                d = P.decls.get(f)
                if d is None or (d['mine'] and not self.over.get(f) and not d.get('implicit') and not d.get('dtor')):
                    out = None
                    break
                continue
            e = eff[f]
            if e is None:
                out = None
                break
            for r_, ks in e.items():
                if not (new and r_ == 'this'):
                    out |= ks
        r = self.all_keys if out is None else frozenset(out)
        self._mods[(fid, new)] = r
        return r

    # ---------------------------------------------------------------- nullness of initial contents
    VT = None

    def lv_types(self):
        """LispVariant discriminator values by name"""
        if self.VT is None:
            self.VT = dict(self.P.enums['CppLisp::LispType'])
            self.OT = dict(self.P.enums['CppLisp::ObjectType'])
        return self.VT

    LV = 'CppLisp::LispVariant'
    NN = ('_Bool', '_Int', '_Double', '_String', '_List', '_Function', '_Symbol', '_LValue', '_Error')

    def init_nonnull(self, E, s, l):
        if l.op == 'fld':
            cls, f = l.a[2], l.a[1]
            if cls == self.ucls:
                return True
            if (cls, f) == (self.LV, 'Value'):
                if ('F', cls, f) not in self.nullable:
                    return True
                vt = self.lv_types()
                tv = E.load(s, mk('fld', l.a[0], 'Type', self.LV), None)
                ps = s.values(tv)
                return ps is not None and ps <= frozenset(vt[n] for n in self.NN)
            if cls == 'std::pair':
                return True
            return ('F', cls, f) not in self.nullable
        if l.op == 'elem':
            return True
        if l.op == 'glob':
            return ('G', l.a[0]) not in self.nullable
        if l.op == 'static':
            return ('S', l.a[0], l.a[1]) not in self.nullable
        return False

    INV = {'_Bool': ('__Bool',), '_Int': ('__Int',), '_Double': ('__Double',), '_String': ('__String',), '_Symbol': ('__String',),
           '_List': ('__List',), '_Function': ('__LispFunctionWrapper',), '_LValue': ('__LValue',), '_Error': ('__String',)}

    def refine_tag(self, E, s, own, ps):
        """the tag of the object a variant refers to follows from the variant's type"""
        if own.op != 'deref':
            return ps
        p = own.a[0]
        if p.op != 'init' or p.a[0].op != 'fld' or p.a[0].a[1] != 'Value' or p.a[0].a[2] != self.LV:
            return ps
        vt = self.lv_types()
        tv = E.load(s, mk('fld', p.a[0].a[0], 'Type', self.LV), None)
        ts = s.values(tv)
        if ts is None:
            return ps
        inv = {v: n for n, v in vt.items()}
        ok = set()
        for t in ts:
            m = self.INV.get(inv.get(t))
            if m is None:
                return ps
            ok |= {self.OT[x] for x in m}
        return ps & frozenset(ok)

    def check_object(self, E, s, fr, e, l, ty):
        """a variant is built: its value must agree with its type"""
        if nonref(ty).rec != self.LV:
            return
        vt = self.lv_types()
        tv = E.load(s, mk('fld', l, 'Type', self.LV), None)
        ts = s.values(tv)
        v = s.env.get(mk('fld', l, 'Value', self.LV))
        if v is None:
            return
        inv = {x: n for n, x in vt.items()}
        names = [inv.get(t) for t in ts] if ts is not None else list(vt)
        n = E.nullness(s, v)
        bad = [x for x in names if x in self.NN]
        ok = n is False or not bad
        E.oblige(s, fr, e['id'], 'lvnull', ok, (v, tuple(sorted(bad))))
        if n is not True and bad:
            own = v.a[0] if v.op == 'addr' else mk('deref', v)
            tl = mk('fld', own, self.tag_field, self.tag_cls)
            tg = E.load(s, tl, None)
            ps = s.values(tg)
            if ps is None:
                ps = self.all_tags
            ps = self.refine_tag(E, s, own, ps)
            ok = set()
            for x in bad:
                ok |= {self.OT[y] for y in self.INV[x]}
            good = len(names) > 1 and ps <= frozenset(ok) or len(names) == 1 and ps <= frozenset(ok)
            E.oblige(s, fr, e['id'], 'lvtag', good, (v, tuple(sorted(bad)), tuple(sorted(ps - frozenset(ok)))))

    def entry_facts(self, E, s, fr):
        pass
