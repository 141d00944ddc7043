"""P12: a script reads and writes only through the streams of its session.

  sinks      from everything an evaluation can call, the process's standard streams are reached only through the members of
             the stream classes
  tee        every text writing member of the writer class prints its text on every path, and when the capture flag is set
             appends exactly the same text to the captured content
  routing    when the evaluation starts, the session's streams are the ones handed in by the caller; otherwise those of the
             given scope
  receivers  inside the evaluation, stream members are called only on the streams of a scope (or of the debugger), and no
             stream is created but a capturing one
  echo       the printing builtins return the text they wrote"""
from absint import *
from facts import Facts
from rules import common, registry
from rules.common import unref
import pp

STD = ('std::cout', 'std::cerr', 'std::clog', 'std::cin', 'std::wcout', 'std::wcerr', 'std::wcin', 'stdout', 'stderr', 'stdin')
CIO = ('printf', 'puts', 'putchar', 'fputs', 'fputc', 'putc', 'fprintf', 'vprintf', 'vfprintf', 'fwrite', 'write', 'perror', 'scanf', 'getchar',
       'fgets', 'gets', 'getline', 'fread', 'read', 'system', 'popen')


def stdrefs(P, F):
    out = []
    for e in F.ex.values():
        if e['k'] == 'var' and e['v'].startswith('g:') and e['v'][2:] in STD:
            out.append((e, e['v'][2:]))
        elif e['k'] == 'call' and e.get('c'):
            d = P.decls.get(e['c'])
            if d is not None and not d['mine']:
                n = d['name']
                if n.replace('std::', '') in CIO and not (n == 'std::getline'):
                    out.append((e, n))
    return out


def streams(P, fa):
    """the classes with members that use the standard streams, and a flag field"""
    out = set()
    for F in P.fns.values():
        if F.cls and stdrefs(P, F) and F.name.rsplit('::', 1)[-1] in ('Write', 'WriteLine', 'ReadLine', 'Flush'):
            out.add(F.cls)
    return out


def only_from(fa, P, f, ok):
    """every call path to f leads through a function of ok"""
    seen, st = set(), [f]
    while st:
        x = st.pop()
        if x in ok or x in seen:
            continue
        seen.add(x)
        if x in fa.taken or not fa.callers.get(x):
            return False
        st += list(fa.callers[x])
    return True


def check(P, R, tier):
    fa = common.facts(P)
    S = streams(P, fa)
    R.need(len(S) == 2, 'stream classes not found: %s' % sorted(S))
    members = {F.id for F in P.fns.values() if F.cls in S}
    ev = [F for F in P.fns.values() if F.short == 'Lisp::Eval']
    R.need(len(ev) == 1, 'Lisp::Eval not found')
    ev = ev[0]
    bs, root = registry.extract(P, fa, R)
    roots = [ev.id] + [b.fn.id for b in bs if b.fn is not None]
    rs = common.reach(fa, P, roots, members)
    R.stats['reachable_from_evaluation'] = len(rs)
    # sinks
    for f in sorted(rs):
        F = P.fns.get(f)
        if F is None:
            continue
        x = stdrefs(P, F)
        R.add('sink %s' % F.short, F.where(x[0][0].get('l')) if x else F.where(), not x,
              'uses %s directly, reachable from the evaluation of a script' % ', '.join(sorted({n for _, n in x})))
    # tee
    for F in sorted((P.fns[m] for m in members), key=lambda F: (F.name, F.line)):
        texts = [p for p in F.params if is_string(nonref(p['t']))]
        if F.name.rsplit('::', 1)[-1] not in ('Write', 'WriteLine') and not (stdrefs(P, F) and texts):
            continue
        flags = [(c, f) for c, f, t in fa.fields_by_cls(F.cls) if tkind(t) == 'bool' or t.s == 'bool']
        bufs = [(c, f) for c, f, t in fa.fields_by_cls(F.cls) if is_string(t)]
        if len(flags) != 1 or len(bufs) != 1:
            continue
        for want in (True, False):
            tee(P, R, fa, F, flags[0], bufs[0], want)
    # receivers
    for f in sorted(rs):
        F = P.fns.get(f)
        if F is None or f in members:
            continue
        for e in F.ex.values():
            if e['k'] == 'call' and e.get('c') in members and e.get('o', -1) >= 0:
                k, what = receiver(P, fa, F, e['o'])
                R.add('receiver in %s: %s' % (F.short, pp.ex(P, F, e['id'])[:60]), F.where(e.get('l')), k, 'the stream is ' + what)
    # routing
    routing(P, R, fa, ev, S)
    for b in bs:
        if b.name in ('print', 'println'):
            echo(P, R, fa, b, members)


GH = mk('ghost', 'printed')


def run(P, fa, F, setup, members, stop):
    E = Engine(P, fa)

    def on_call(E, s, fr, e, d, this):
        if d is None:
            return None
        n = d['name'].rsplit('::', 1)[-1]
        if not d['mine'] and (n == 'operator<<' or n in ('flush', 'put', 'write') and this is not None):
            args = list(e.get('a', ()))
            base_ = None
            if this is None and args:
                base_ = E.get(s, fr, args[0])
                args = args[1:]
            else:
                base_ = this
            if base_ is not None and base_.op == 'glob' and base_.a[0].replace('g:', '') in STD:
                for a in args:
                    x = fr.F.ex[a]
                    v = E.get(s, fr, a)
                    if is_string(x['t']) and E.is_loc(x):
                        c = E.content(s, v)
                    elif v.op == 's':
                        c = v
                    elif 'endl' in pp.ex(P, fr.F, a):
                        c = mk('s', '\n')
                    else:
                        c = mk('other', v)
                    old = s.env.get(GH)
                    s.env[GH] = cat(old, c) if old is not None else None
                return base_
        if F.cls is not None and d['mine'] and n == 'Format' and d.get('static'):
            # the formatting of the text is opaque here
            vs = []
            for a in e['a']:
                if a >= 0:
                    v = E.get(s, fr, a)
                    vs.append(E.content(s, v) if is_string(fr.F.ex[a]['t']) and E.is_loc(fr.F.ex[a]) else v)
            l = mk('tmp', fr.fid, e['id'])
            E.clear(s, l)
            s.env[mk('content', l)] = mk('format', *vs)
            return l
        return None
    E.on_call = on_call

    def setup2(E, s, fr):
        s.env[GH] = mk('s', '')
        setup(E, s, fr)
    return E, E.run_root(F, setup2)


def tee(P, R, fa, F, flag, buf, want):
    this = mk('this', F.id)
    bl = mk('fld', this, buf[1], buf[0])
    box = {}

    def setup(E, s, fr):
        box['old'] = E.content(s, bl)
        fl = mk('fld', this, flag[1], flag[0])
        s.env[fl] = TRUE if want else FALSE
        box['texts'] = [E.content(s, unref(s.env[mk('var', fr.fid, p['v'])])) for p in F.params if is_string(nonref(p['t']))]
    E, exits = run(P, fa, F, setup, None, None)
    key = '%s(%d texts)%s' % (F.short, len(F.params), ' capturing' if want else '')
    R.add(key + ': finishes', F.where(), bool(exits), 'no normal exit')
    for st, _ in exits:
        pr = st.env.get(GH)
        new = E.content(st, bl)
        ok = pr is not None
        if not want:
            R.add(key + ': prints its text', F.where(), ok and all(t in subterms_of(pr) for t in box['texts']) and new is box['old'],
                  'printed: %s' % (pr and show(pr)))
        else:
            R.add(key + ': captures what it prints', F.where(), ok and new is cat(box['old'], pr) and all(t in subterms_of(pr) for t in box['texts']),
                  'printed: %s, captured: %s' % (pr and show(pr), show(new)))


def subterms_of(t):
    s = set()
    subterms(t, s)
    return s


def receiver(P, fa, F, o):
    """(ok, description): the stream a member is called on"""
    seen = 0
    while o >= 0 and seen < 12:
        seen += 1
        e = F.ex[o]
        k = e['k']
        if k == 'mem':
            c = e.get('cls') or ''
            cls = c.rsplit('::', 1)[-1]
            if tkind(e['t']) == 'smart' or tkind(nonref(e['t'])) == 'smart':
                return True, 'the member %s of %s' % (e['f'], cls)
            return False, 'the member %s' % e['f']
        if k == 'var':
            v = e['v']
            if v.startswith('g:'):
                return False, 'the global ' + v[2:]
            if any(p['v'] == v for p in F.params):
                return True, 'a parameter'
            if e.get('cap') or True:
                i = init_of(F, v)
                if i is None:
                    return True, 'a captured variable'
                o = i
                continue
        if k == 'call':
            d = P.decls.get(e.get('c'))
            n = d['name'].rsplit('::', 1)[-1] if d else ''
            if n in ('operator->', 'operator*', 'get') and e.get('o', -1) >= 0:
                o = e['o']
                continue
            if n in ('make_shared',):
                return False, 'a new stream'
            return True, 'the result of ' + n
        nx = [e[q] for q in ('e', 'b') if isinstance(e.get(q), int) and e[q] >= 0]
        if k == 'ctor' and e.get('a'):
            nx = [x for x in e['a'] if x >= 0][:1]
        if not nx:
            return True, k
        o = nx[0]
    return True, '?'


def init_of(F, v):
    for b in F.blocks.values():
        for el in b['els']:
            if el[0] == 'decl' and el[1].get('v') == v:
                return el[1].get('e', -1)
    return None


def routing(P, R, fa, ev, S):
    """the streams of the session when the code is evaluated"""
    ps = [p for p in ev.params if tkind(nonref(p['t'])) == 'smart' and nonref(p['t']).targs and (nonref(p['t']).targs[0].rec or nonref(p['t']).targs[0].s) in S]
    sp = [p for p in ev.params if tkind(nonref(p['t'])) == 'smart' and p not in ps]
    R.need(len(ps) == 2 and len(sp) == 1, 'the stream parameters of the evaluation entry were not found')
    for p in ps:
        for given in (True, False):
            E = Engine(P, fa)
            E.inline_filter = lambda fr, fn: fn.file == ev.file
            box, n = {}, [0]
            ty = nonref(p['t'])
            fld = [(c, f) for c, f, t in fa.fields_of(nonref(sp[0]['t']).targs[0]) if t.s == ty.s]
            R.need(len(fld) == 1, 'the scope has no single field for the stream')

            def setup(E, s, fr):
                v = E.load(s, mk('var', fr.fid, p['v']), ty)
                E.set_null(s, v, not given)
                box['p'] = v
                sc = E.load(s, mk('var', fr.fid, sp[0]['v']), sp[0]['t'])
                box['scope'] = sc
                if not given:
                    E.set_null(s, sc, False)
                    box['was'] = E.load(s, mk('fld', deref(sc), fld[0][1], fld[0][0]), ty)

            def on_call(E, s, fr, e, d, this):
                if d is None or not d['mine']:
                    return None
                if d['name'].rsplit('::', 1)[-1] != 'EvalAst':
                    fn = P.fn(d['id'])
                    if fn is None or fn.file == ev.file or d.get('ctor') or len(fn.blocks) <= 3 or this is not None:
                        return None
                    for a in e['a']:
                        if a >= 0:
                            E.get(s, fr, a)
                    return E.fresh(s, fr, e['id'], e['t'], 'nn')
                n[0] += 1
                a = [x for x in e['a'] if x >= 0 and nonref(fr.F.ex[x]['t']).s == nonref(sp[0]['t']).s]
                sc = E.rval(s, fr, a[0])
                now = E.load(s, mk('fld', deref(sc), fld[0][1], fld[0][0]), ty)
                want = box['p'] if given else box['was']
                R.add('routing of %s%s' % (fld[0][1], '' if given else ' (default)'), fr.F.where(e.get('l')), now is want,
                      'the session evaluates with the stream %s instead of %s' % (show(now), show(want)))
                return None
            E.on_call = on_call
            E.run_root(ev, setup)
            R.need(n[0] > 0, 'the evaluation entry never evaluates')


def echo(P, R, fa, b, members):
    F = b.fn
    E = Engine(P, fa)
    done = []

    def on_call(E, s, fr, e, d, this):
        if d is not None and d['id'] in members and this is not None:
            n = d['name'].rsplit('::', 1)[-1]
            c = [E.content(s, E.get(s, fr, a)) for a in e['a'] if a >= 0]
            old = s.env.get(GH)
            s.env[GH] = mk('out', old, n, *c) if old is not None else None
            return UNK
        return None
    E.on_call = on_call

    def setup(E, s, fr):
        s.env[GH] = NULL
    exits = E.run_root(F, setup)
    R.add('echo %s: finishes' % b.name, F.where(), bool(exits), 'no normal exit')
    for st, rv in exits:
        o = st.env.get(GH)
        R.add('echo %s: writes once' % b.name, F.where(), o is not None and o.op == 'out' and o.a[0] is NULL and len(o.a) == 3, 'written: %s' % (o and show(o)))
        if o is None or o.op != 'out' or len(o.a) != 3:
            continue
        R.add('echo %s: line end' % b.name, F.where(), (o.a[1] == 'WriteLine') == (b.name == 'println'), 'written with %s' % o.a[1])
        t = o.a[2]
        c = returned_text(P, fa, E, st, rv)
        R.add('echo %s: returns what it writes' % b.name, F.where(), c is t, 'returned: %s' % (c and show(c)))


def returned_text(P, fa, E, st, rv):
    """the content of the string stored in the returned value"""
    seen, todo = set(), [rv]
    while todo:
        p = todo.pop()
        if p in seen or p is None or p.op != 'new':
            continue
        seen.add(p)
        for l, v in list(st.env.items()):
            if not isinstance(v, Term) or v.op != 'new':
                continue
            if root_of(l) is deref(p):
                if l.op == 'fld' and l.a[1] == 'pString':
                    return E.content(st, deref(v))
                todo.append(v)
    return None
