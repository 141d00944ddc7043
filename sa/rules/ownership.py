"""P05: the tagged value `object` owns what its union points to.

For every tag a constructor can establish, the destructor, the copy constructor and the constructors are analysed by
the abstract interpreter with the discriminator fixed to that tag (helpers inlined, branches on the discriminator
decided):
  destroy    on every path exactly the pointer stored for that tag is deleted, once; nothing for plain values
  copy       on every path the copy has the same tag, and its pointer is a fresh allocation that was initialised
             from the one of the source (never the source's own pointer); plain values are copied bitwise
  construct  the member stored belongs to the tag and is a fresh allocation
and no other function replaces the tag or a member of the union of an existing object."""
from absint import *
from facts import Facts
import pp

HEAPK = ('ptr',)


def seq(t):
    out = []
    while t is not NULL:
        if t.op != 'seq':
            return None
        out.append(t.a[1])
        t = t.a[0]
    return out[::-1]


def check(P, R, tier):
    fa = Facts(P)
    C = fa.tag_cls
    R.need(C is not None, 'no record with a tag and a union member found')
    U = fa.ucls
    ufields = P.records[U]['fields']
    uf = {f['name']: f['t'] for f in ufields}
    enum = tagenum(P, C, fa.tag_field)
    names = {v: k for k, v in enum.items()}
    allt = sorted(set(enum.values()))
    ctors = [F for F in P.fns.values() if F.cls == C and fa.is_ctor(F)]
    copy = [F for F in ctors if P.decls[F.id].get('ctor') == 'copy']
    R.need(len(copy) == 1, 'copy constructor of %s not found' % C)
    dtor = [F for F in P.fns.values() if F.cls == C and F.name.rsplit('::', 1)[-1].startswith('~')]
    R.need(len(dtor) == 1, 'destructor of %s not found' % C)
    copy, dtor = copy[0], dtor[0]
    tagl = lambda o: mk('fld', o, fa.tag_field, C)
    mem = lambda o, f: mk('fld', mk('fld', o, fa.ufield, C), f, U)

    # --- constructors: tag -> owned member
    own = {}
    plain = {}
    for F in ctors:
        if F is copy:
            continue
        E = Engine(P, fa)
        exits = E.run_root(F)
        this = mk('this', F.id)
        name = 'construct %s' % ', '.join(p['t'].s.replace('CppLisp::', '') for p in F.params)[:90]
        R.add(name + ': finishes', F.where(), bool(exits), 'no normal exit found')
        for st, _ in exits:
            t = st.env.get(tagl(this))
            vs = st.values(t) if t is not None else None
            ok = vs is not None and len(vs) == 1
            R.add(name + ': sets the tag', F.where(), ok, 'the tag is not a constant on this path')
            if not ok:
                continue
            tag = list(vs)[0]
            set_ = [(f, st.env[mem(this, f)]) for f in uf if mem(this, f) in st.env and not unset(st.env[mem(this, f)])]
            ptrs = [(f, v) for f, v in set_ if tkind(uf[f]) == 'ptr']
            for f, v in ptrs:
                fresh_ = v.op == 'new'
                R.add('%s: member %s is a fresh allocation' % (name, f), F.where(), fresh_,
                      'the object would share ownership of %s' % show(v))
                own.setdefault(tag, set()).add(f)
            for f, v in set_:
                if tkind(uf[f]) != 'ptr':
                    plain.setdefault(tag, set()).add(f)
    for tag, fs in sorted(own.items()):
        R.add('tag %s owns one member' % names.get(tag, tag), C, len(fs) == 1 and tag not in plain,
              'constructors store %s under the same tag' % ', '.join(sorted(fs | plain.get(tag, set()))))
    R.need(len(own) >= 8, 'only %d owning tags found' % len(own))
    R.stats['owning_tags'] = {names.get(t, t): sorted(f)[0] for t, f in own.items()}

    # --- destructor
    for tag in sorted(fa.all_tags | set(own)):
        E = Engine(P, fa)
        this = mk('this', dtor.id)

        def setup(E, s, fr, tag=tag, this=this):
            s.add_eq(E.load(s, tagl(this), P_tag(P, C, fa)), const(tag))
        exits = E.run_root(dtor, setup)
        key = 'destroy %s' % names.get(tag, tag)
        if tag in fa.all_tags:
            R.add(key + ': finishes', dtor.where(), bool(exits), 'no normal exit')
        f = sorted(own[tag])[0] if tag in own else None
        for st, _ in exits:
            d = seq(st.env.get(mk('ghost', 'deleted'), NULL))
            if f is None:
                ok = d == [] or tag not in plain and tag not in own and tag not in fa.all_tags and d is not None and len(d) <= 1
                what = 'a value without storage of its own is deleted: %s' % d
            else:
                want = mk('init', mem(this, f), ())
                ok = d is not None and len(d) == 1 and same_ptr(d[0], mem(this, f))
                what = 'deleted: %s, expected exactly %s' % ('different things on different paths' if d is None else [show(x) for x in d], f)
            R.add(key, dtor.where(), ok, what)

    # --- copy
    src = copy.params[0]['v']
    for tag in sorted(fa.all_tags | set(own)):
        E = Engine(P, fa)
        this = mk('this', copy.id)
        box = {}

        def setup(E, s, fr, tag=tag):
            o = s.env[mk('var', fr.fid, src)].a[0]
            box['o'] = o
            s.add_eq(E.load(s, tagl(o), P_tag(P, C, fa)), const(tag))
        exits = E.run_root(copy, setup)
        o = box['o']
        key = 'copy %s' % names.get(tag, tag)
        R.add(key + ': finishes', copy.where(), bool(exits), 'no normal exit')
        for st, _ in exits:
            t = st.env.get(tagl(this))
            R.add(key + ': same tag', copy.where(), t is not None and st.values(t) == frozenset((tag,)), 'the copy has the tag %s' % (t and show(t)))
            f = sorted(own[tag])[0] if tag in own else None
            if f is not None:
                v = st.env.get(mem(this, f))
                ok = v is not None and v.op == 'new'
                what = 'no storage of its own: %s' % (show(v) if v is not None else 'member %s is not set' % f)
                R.add(key + ': own storage', copy.where(), ok, what)
                if ok:
                    same_content(P, R, fa, st, key, copy, deref(v), deref(mk('init', mem(o, f), ())), uf[f].to)
            else:
                for f in sorted(plain.get(tag, ())):
                    v = E.load(st, mem(this, f), uf[f])
                    w = E.load(st, mem(o, f), uf[f])
                    R.add(key + ': value', copy.where(), v is w, 'member %s of the copy is %s' % (f, show(v)))

    # --- nobody else writes
    for F in P.fns.values():
        for e in F.ex.values():
            if e['k'] not in ('asg',):
                continue
            l = F.ex[e['e']]
            if l['k'] != 'mem':
                continue
            isu = l.get('cls') == U or (l.get('cls') == C and l['f'] in (fa.tag_field, fa.ufield))
            if not isu:
                continue
            root = fa.lroot(F, e['e'])
            reach = F in ctors or only_called_by(fa, P, F, ctors)
            R.add('replace %s in %s' % (l['f'], F.short), F.where(), reach and root == 'this',
                  'the tag or pointer of an existing value is overwritten outside construction')
    # assignment would have to release the old storage: it must not be usable
    for k, d in P.decls.items():
        if d.get('clsq') == C and d.get('asg'):
            body = P.fns.get(k)
            used = fa.callers.get(k)
            R.add('assignment of %s' % C.split('::')[-1], C, not used and body is None, 'a value is assigned over an existing one')


def unset(v):
    return v.op == 'init' and root_of(v.a[0]).op == 'tmp'


def same_ptr(t, l):
    return t.op == 'init' and t.a[0] is l


def P_tag(P, C, fa):
    return [x['t'] for x in P.records[C]['fields'] if x['name'] == fa.tag_field][0]


def tagenum(P, C, f):
    for x in P.records[C]['fields']:
        if x['name'] == f:
            return P.enums[x['t'].s if x['t'].s in P.enums else x['t'].u.s]
    return {}


def only_called_by(fa, P, F, ok):
    seen, st = set(), [F.id]
    ids = {x.id for x in ok}
    while st:
        f = st.pop()
        if f in seen or f in ids:
            continue
        seen.add(f)
        c = fa.callers.get(f, set())
        if not c or f in fa.taken:
            return False
        st += list(c)
    return True


def same_content(P, R, fa, st, key, F, dst, src, ty):
    """every member of the fresh storage equals the member of the source's storage"""
    E = Engine(P, fa)
    for cls, f, ft in fa.fields_of(ty):
        if ft.ref or ft.rref:
            continue
        l, m = mk('fld', dst, f, cls), mk('fld', src, f, cls)
        if tkind(ft) == 'cont':
            v, w = E.size(st, l), E.size(st, m)
            if l is not dst and is_string(ft):
                v, w = E.content(st, l), E.content(st, m)
        elif scalar(ft):
            v, w = E.load(st, l, ft), E.load(st, m, ft)
        else:
            continue
        R.add('%s: member %s of the stored value' % (key, f), F.where(), v is w, 'the copy holds %s instead of %s' % (show(v), show(w)))


def prefixes(l):
    out = []
    while True:
        out.append(l)
        if l.op in ('fld', 'elem', 'sz', 'content', 'key', 'al'):
            l = l.a[0]
        else:
            return out
