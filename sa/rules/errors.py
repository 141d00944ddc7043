"""P03: an error of a script never escapes as something else, is never lost and never stripped.

The exceptions that every function may let out are computed over the call graph to a fixpoint: `throw` expressions, operations
of the C++ library that throw (conversions), rethrows (the exceptions that can reach the handler), minus what the handlers of
the enclosing try blocks catch (public base classes only, in their order).
  contain   nothing but the interpreter's own exceptions leaves a function an embedder or the evaluator calls; nothing at all
            leaves main, a destructor or a function that promises not to throw
  report    a handler that takes an error of script code and does not pass it on writes its message to an output on every path;
            Lisp::SaveEval also returns it as an error value
  strip     a handler passes an exception on with its dynamic type; no handler is hidden by an earlier one"""
from absint import *
from rules import common, registry

CONV = ('std::stoi', 'std::stol', 'std::stoll', 'std::stoul', 'std::stoull', 'std::stof', 'std::stod', 'std::stold')
LIB = {n: ('std::invalid_argument', 'std::out_of_range') for n in CONV}
LIB.update({'at': ('std::out_of_range',), 'std::regex': ('std::regex_error',), 'std::thread': ('std::system_error',),
            'value': ('std::bad_optional_access',), 'std::get': ('std::bad_variant_access',), 'std::any_cast': ('std::bad_any_cast',)})
STDBASE = {'std::invalid_argument': 'std::logic_error', 'std::out_of_range': 'std::logic_error', 'std::logic_error': 'std::exception', 'std::length_error': 'std::logic_error',
           'std::domain_error': 'std::logic_error', 'std::runtime_error': 'std::exception', 'std::regex_error': 'std::runtime_error', 'std::system_error': 'std::runtime_error',
           'std::bad_optional_access': 'std::exception', 'std::bad_variant_access': 'std::exception', 'std::bad_any_cast': 'std::bad_cast', 'std::bad_cast': 'std::exception',
           'std::bad_function_call': 'std::exception', 'std::filesystem::filesystem_error': 'std::system_error'}


def lib_throws(P, d, e, F):
    n = d['name']
    if d['mine']:
        return ()
    if n in ('std::get', 'std::any_cast') and not any(w in nonref(F.ex[a]['t']).s for a in e.get('a', ()) for w in ('variant', 'std::any')):
        return ()
    if n in LIB:
        return LIB[n]
    if n.endswith('::at') and n.startswith('std::'):
        return ('std::out_of_range',)
    if n.endswith('::value') and 'optional' in n:
        return LIB['value']
    if n.startswith('std::basic_regex') or n.startswith('std::regex_'):
        return LIB['std::regex']
    if n.startswith('std::filesystem::') and len(e.get('a', ())) < 2:
        return ('std::filesystem::filesystem_error',)
    return ()


class Exc:
    def __init__(self, P, fa):
        self.P, self.fa = P, fa
        self.anc = {}
        self.out = {}           # function -> {type: (origin function, line)}
        self.entering = {}      # (function, handler block) -> {type: origin}
        lam = [F.id for F in P.fns.values() if F.lam]
        self.indirect_targets = sorted(set(lam) | {f for f in fa.taken if f in P.fns})
        self.sites = {f: self.collect(F) for f, F in P.fns.items()}
        self.solve()

    def bases(self, t):
        """t and its public bases, by which a handler can name it"""
        if t not in self.anc:
            s, w = set(), [t]
            while w:
                x = w.pop()
                if x in s:
                    continue
                s.add(x)
                if x in STDBASE:
                    w.append(STDBASE[x])
                r = self.P.records.get(x)
                if r:
                    for b in r['bases']:
                        if b['access'] == 0:
                            w.append(nonref(b['t']).rec)
            self.anc[t] = s
        return self.anc[t]

    def collect(self, F):
        """[(kind, data, line, try)]"""
        P, fa = self.P, self.fa
        out = []
        eb = eblocks(F)
        for i, e in F.ex.items():
            k = e['k']
            if k == 'throw':
                if e.get('tt') is not None:
                    out.append(('throw', nonref(e['tt']).rec or nonref(e['tt']).s, e.get('l'), e.get('try'), i))
                else:
                    out.append(('rethrow', eb.get(i), e.get('l'), e.get('try'), i))
            elif k in ('call', 'ctor') and e.get('c'):
                c = e['c']
                d = P.decls.get(c) or {}
                tg = set()
                if c in P.fns:
                    tg.add(c)
                if e.get('virt'):
                    tg |= {x for x in fa.over.get(c, ()) if x in P.fns}
                if d and not d.get('mine'):
                    for t in lib_throws(P, d, e, F):
                        out.append(('throw', t, e.get('l'), e.get('try'), i))
                    if d['name'] in ('std::make_shared', 'std::make_unique'):
                        tt = nonref(e['t']).targs
                        if tt and tt[0].rec:
                            tg |= {kk for kk, dd in P.decls.items() if dd.get('ctor') and dd.get('clsq') == tt[0].rec and kk in P.fns}
                    if d['name'].endswith('operator()') and 'std::function' in (d['name'] + (d.get('clsq') or '')):
                        out.append(('indirect', len(e.get('a', ())), e.get('l'), e.get('try'), i))
                    for a in e.get('a', ()):
                        l = self.lam(F, a)
                        if l:
                            if not d['name'].startswith('std::function'):
                                tg.add(l)
                if tg:
                    out.append(('call', tg, e.get('l'), e.get('try'), i))
            elif k == 'call':
                out.append(('indirect', len(e.get('a', ())), e.get('l'), e.get('try'), i))
        return out

    def lam(self, F, a):
        for _ in range(6):
            e = F.ex.get(a)
            if e is None:
                return None
            if e['k'] == 'lambda':
                return e['c']
            if e['k'] in ('cast', 'load') or e['k'] == 'ctor' and len(e.get('a', ())) == 1:
                a = e.get('e', (e.get('a') or [-1])[0])
                continue
            return None

    def through(self, F, tr, types):
        """what remains of {type: origin} after the handlers around; records what enters the handlers"""
        left = dict(types)
        while tr is not None and tr in F.tries and left:
            for h in F.tries[tr]['handlers']:
                c = F.blocks[h]['catch']
                for t in list(left):
                    if 'all' in c or nonref(c['t']).rec in self.bases(t):
                        en = self.entering.setdefault((F.id, h), {})
                        if t not in en:
                            en[t] = left[t]
                            self.changed = True
                        del left[t]
            tr = F.tries[tr].get('parent')
        return left

    def handler_of(self, F, blk):
        """the handler block that dominates blk (the nearest one)"""
        hs = [b for b in F.blocks if 'catch' in F.blocks[b]]
        best = None
        for h in hs:
            if blk in self.region(F, h):
                if best is None or h in self.region(F, best):
                    best = h
        return best

    def region(self, F, h):
        """blocks reached only through the handler h"""
        key = ('region', h)
        if key not in F.extra:
            seen, st = set(), [F.entry] + [b for b in F.blocks if 'catch' in F.blocks[b] and b != h]
            while st:
                b = st.pop()
                if b in seen or b == h or b < 0:
                    continue
                seen.add(b)
                st += [s for s in F.blocks[b]['succ'] if s >= 0 and s != h]
            # handlers nested inside h are entered from blocks inside h
            inside = set(F.blocks) - seen
            F.extra[key] = inside
        return F.extra[key]

    def solve(self):
        P = self.P
        self.changed = True
        n = 0
        while self.changed and n < 60:
            self.changed = False
            n += 1
            ind = {}
            for f in self.indirect_targets:
                for t, o in self.out.get(f, {}).items():
                    ind.setdefault(t, o)
            for f, F in P.fns.items():
                cur = self.out.setdefault(f, {})
                for kind, x, l, tr, i in self.sites[f]:
                    if kind == 'throw':
                        ts = {x: (f, l)}
                    elif kind == 'rethrow':
                        h = self.handler_of(F, x)
                        ts = dict(self.entering.get((f, h), {})) if h is not None else {}
                    elif kind == 'indirect':
                        ts = ind
                    else:
                        ts = {}
                        for c in x:
                            for t, o in self.out.get(c, {}).items():
                                ts.setdefault(t, o)
                    for t, o in self.through(F, tr, ts).items():
                        if t not in cur:
                            cur[t] = o
                            self.changed = True
        self.rounds = n


def writes(P, fa):
    """functions that put text on an output: members of the text writer, stream insertions"""
    out = set()
    for k, d in P.decls.items():
        n = d['name']
        if n.endswith('::TextWriter::Write') or n.endswith('::TextWriter::WriteLine') or n.startswith('std::operator<<') or (n.startswith('std::basic_ostream') and n.endswith('operator<<')):
            out.add(k)
    return out


def check(P, R, tier):
    fa = common.facts(P)
    X = Exc(P, fa)
    own = 'CppLisp::LispExceptionBase'
    R.need(own in P.records, 'class %s not found' % own)
    evals = {F.id for F in P.fns.values() if F.short in ('LispInterpreter::EvalAst', 'Lisp::Eval')}
    R.need(len(evals) >= 2, 'the evaluator was not found')
    # --- contain
    def origin(o):
        F = P.fns[o[0]]
        return '%s (%s)' % (F.short, F.where(o[1]))

    def foreign(t):
        return own not in lineage(P, t)
    n = 0
    for f, F in sorted(P.fns.items()):
        outs = X.out[f]
        kinds = {'throw', 'rethrow'}
        if F.name in ('main',) or F.name.endswith('::main'):
            outs_ = {t: o for t, o in outs.items() if foreign(t)}
            R.add('contain: main', F.where(), not outs_, 'an exception ends the process: ' + '; '.join('%s from %s' % (t, origin(o)) for t, o in sorted(outs_.items())))
            n += 1
        d = P.decls.get(f, {})
        if F.name.rsplit('::', 1)[-1].startswith('~') or d.get('noexcept'):
            R.add('contain: %s' % F.short, F.where(), not outs, 'throws in a destructor or a function that promises not to: ' + '; '.join('%s from %s' % (t, origin(o)) for t, o in sorted(outs.items())))
        bad = {}
        # a foreign exception is reported where it leaves the function it was raised in
        for t, o in outs.items():
            if foreign(t) and (o[0] == f):
                bad[t] = o
        callers_catch = bad and not reaches_root(P, fa, X, f, set(bad))
        R.add('own errors only: %s' % F.short, F.where(), not bad or callers_catch,
              '; '.join('%s raised in %s reaches the embedder' % (t, origin(o)) for t, o in sorted(bad.items())))
    for t in sorted({e['tt'].rec or e['tt'].s for F in P.fns.values() for e in F.ex.values() if e['k'] == 'throw' and e.get('tt') is not None}):
        R.add('exception type %s' % t.replace('CppLisp::', ''), t, not foreign(t), 'it is not derived from %s' % own)
    # --- handlers
    W = writes(P, fa)
    wr = writers(P, fa, W)
    nh = 0
    for f, F in sorted(P.fns.items()):
        for tr, info in sorted(F.tries.items()):
            hs = info['handlers']
            for j, h in enumerate(hs):
                c = F.blocks[h]['catch']
                nh += 1
                name = 'handler of %s in %s' % ('everything' if 'all' in c else nonref(c['t']).s.replace('CppLisp::', '') , F.short)
                where = F.where(c['l'])
                shadow = [g for g in hs[:j] if 'all' in F.blocks[g]['catch'] or ('all' not in c and nonref(F.blocks[g]['catch']['t']).rec in X.bases(nonref(c['t']).rec))]
                R.add(name + ': can be entered', where, not shadow, 'an earlier handler of the same block takes everything it handles')
                region = X.region(F, h)
                # strip
                if 'all' not in c and c.get('v'):
                    bad = []
                    for i, e in F.ex.items():
                        if e['k'] == 'throw' and e.get('e', -1) >= 0 and eblocks(F).get(i) in region and names_var(F, e['e'], c['v']):
                            if [t for t in X.entering.get((f, h), {}) if t != nonref(c['t']).rec]:
                                bad.append(e.get('l'))
                    R.add(name + ': passes errors on unchanged', where, not bad,
                          'rethrown in line %s as a copy of the static type: a derived exception loses its type and data' % bad)
                # report
                tb = {e['id'] for e in F.ex.values() if e.get('try') == tr}
                ev = any(e['k'] in ('call', 'ctor') and e.get('try') == tr and reaches(P, fa, e, evals) for e in F.ex.values())
                if not ev:
                    continue
                if 'all' not in c and not any(own in lineage(P, t) and nonref(c['t']).rec in X.bases(t) for t in X.entering.get((f, h), {})):
                    continue
                if 'all' not in c and nonref(c['t']).rec.endswith('LispStopDebuggerException'):
                    continue
                good = goodblocks(P, fa, F, region, wr, None if 'all' in c else c.get('v'))
                R.add(name + ': reports the error', where, leaves_only_through(F, h, region, good),
                      'a path through the handler neither passes the error on nor writes %s to an output' % ('its message' if 'all' not in c and c.get('v') else 'anything'))
                if F.short.endswith('::SaveEval'):
                    errv = returns_error(P, fa, F, region, c.get('v'))
                    R.add(name + ': error value', where, leaves_only_through(F, h, region, errv), 'a path returns something else than an error value with the message')
    R.need(nh >= 8, 'only %d handlers found' % nh)
    # SaveEval contains everything
    sv = [F for F in P.fns.values() if F.short == 'Lisp::SaveEval']
    R.need(len(sv) == 1, 'Lisp::SaveEval not found')
    S = sv[0]
    left = {}
    body = 0
    for kind, x, l, tr, i in X.sites[S.id]:
        if kind == 'call' and any(c in evals for c in x):
            body += 1
            ts = {}
            for c in x:
                for t, o in X.out.get(c, {}).items():
                    ts.setdefault(t, o)
            left.update(X.through(S, tr, ts))
    left = {t: x for t, x in left.items() if not t.endswith('LispStopDebuggerException')}
    R.need(body, 'Lisp::SaveEval does not evaluate')
    R.add('contain: Lisp::SaveEval', S.where(), not left, 'it lets through ' + '; '.join('%s from %s' % (t, origin(x)) for t, x in sorted(left.items())))
    R.stats.update(handlers=nh, rounds=X.rounds, throw_sites=sum(1 for s in X.sites.values() for y in s if y[0] == 'throw'))


def lineage(P, t):
    s, w = set(), [t]
    while w:
        x = w.pop()
        if x in s:
            continue
        s.add(x)
        r = P.records.get(x)
        if r:
            w += [nonref(b['t']).rec for b in r['bases']]
    return s


def names_var(F, i, v):
    e = F.ex.get(i)
    while e is not None:
        if e['k'] == 'var':
            return e['v'] == v
        if e['k'] in ('cast', 'load'):
            e = F.ex.get(e.get('e'))
        elif e['k'] == 'ctor' and len(e.get('a', ())) == 1:
            e = F.ex.get(e['a'][0])
        else:
            return False
    return False


def reaches_root(P, fa, X, f, types):
    """does one of the types leave a function that nobody of the program calls or whose address is taken?"""
    seen, st = set(), [f]
    while st:
        g = st.pop()
        if g in seen or not (set(X.out[g]) & types):
            continue
        seen.add(g)
        cs = fa.callers.get(g, set())
        F = P.fns[g]
        if not cs or g in fa.taken or F.lam or P.decls.get(g, {}).get('virtual'):
            return True
        st += list(cs)
    return False


def reaches(P, fa, e, evals):
    tg = {e['c']} if e.get('c') else set()
    if e.get('virt'):
        tg |= fa.over.get(e['c'], set())
    return bool(common.reach(fa, P, [t for t in tg if t in P.fns]) & evals)


def writers(P, fa, W):
    """W and the functions that always call one of them (a helper that reports)"""
    out = set(W)
    ch = True
    while ch:
        ch = False
        for f, F in P.fns.items():
            if f in out:
                continue
            good = {b for i, b in eblocks(F).items() if i in F.ex and F.ex[i]['k'] == 'call' and F.ex[i].get('c') in out}
            if good and leaves_only_through(F, F.entry, set(F.blocks), good):
                out.add(f)
                ch = True
    return out


def derived(F, v):
    """variables that hold text made from v"""
    vs = {v}
    ch = True
    while ch:
        ch = False
        for b in F.blocks.values():
            for el in b['els']:
                if el[0] == 'decl' and el[1].get('e', -1) >= 0 and el[1]['v'] not in vs and mentions(F, el[1]['e'], vs):
                    vs.add(el[1]['v'])
                    ch = True
        for e in F.ex.values():
            t = None
            if e['k'] == 'asg':
                t, r = e['e'], e['r']
            elif e['k'] == 'call' and e.get('op') in ('=', '+=') and e.get('o', -1) >= 0 and e.get('a'):
                t, r = e['o'], e['a'][0]
            if t is not None:
                x = F.ex.get(t)
                while x is not None and x['k'] in ('cast', 'load'):
                    x = F.ex.get(x.get('e'))
                if x is not None and x['k'] == 'var' and x['v'] not in vs and mentions(F, r, vs):
                    vs.add(x['v'])
                    ch = True
    return vs


def mentions(F, i, vs):
    from prog import children
    st, seen = [i], set()
    while st:
        x = st.pop()
        if x in seen or x not in F.ex:
            continue
        seen.add(x)
        e = F.ex[x]
        if e['k'] == 'var' and e['v'] in vs:
            return True
        st += list(children(e))
    return False


def goodblocks(P, fa, F, region, wr, v):
    """blocks of the handler in which an output gets (text made from) the exception, or the error is passed on"""
    vs = derived(F, v) if v else None
    out = set()
    eb = eblocks(F)
    for i, e in F.ex.items():
        b = eb.get(i)
        if b not in region:
            continue
        if e['k'] == 'throw':
            out.add(b)
        elif e['k'] == 'call' and e.get('c') in wr and (vs is None or mentions(F, i, vs)):
            out.add(b)
    return out


def returns_error(P, fa, F, region, v):
    vs = derived(F, v) if v else None
    eb = eblocks(F)
    out = set()
    for i, e in F.ex.items():
        if e['k'] == 'call' and eb.get(i) in region and P.decls.get(e.get('c'), {}).get('name', '').endswith('::CreateErrorValue') and (vs is None or mentions(F, i, vs)):
            out.add(eb[i])
    return out


def leaves_only_through(F, start, region, good):
    """every way from start out of the region (or to the exit) passes a good block"""
    seen, st = set(), [start]
    while st:
        b = st.pop()
        if b in seen or b in good:
            continue
        seen.add(b)
        if b == F.exit or b not in region:
            return False
        if not F.blocks[b].get('noret'):
            st += [s for s in F.blocks[b]['succ'] if s >= 0]
    return True
