"""P13: the table of builtins is consistent.

  one meaning   a name is bound once (or again to the same native function with the same attributes)
  documented    every builtin has a signature that starts with its own name, a documentation text, and the builtin flag
  special form  a builtin is a special form exactly when the language defines it so (its operands arrive unevaluated)
  error name    the name a builtin uses in its own argument errors is a name it is registered under"""
from absint import *
from rules import common, registry
from rules.common import unref

# the language definition: operands of these forms arrive unevaluated
SPECIAL = set('''rval and && or || def gdef setf define-macro define-macro-eval quote quasiquote _unquote _unquotesplicing if while do begin
lambda fn defn gdefn'''.split())
EXPAND = {'define-macro-expand'}
# forms that report under the form they are built on
BUILT_ON = {'defn': 'def', 'gdefn': 'gdef'}


def guards(P):
    """functions that report a wrong argument under a name they are given: {function: index of the name parameter}"""
    out = {}
    for F in P.fns.values():
        lits = [e['val'] for e in F.ex.values() if e['k'] == 'str']
        if any(x.startswith(('Bad argument count', 'No function in', 'No list in', 'No dictionary in')) for x in lits):
            ix = [i for i, p in enumerate(F.params) if is_string(nonref(p['t']))]
            if len(ix) == 1:
                out[F.id] = ix[0]
    return out


def is_text(fn):
    return fn.cls.endswith('::string')


def _names(args):
    P, fa, F, G = args
    E = Engine(P, fa)
    got = set()
    # only what leads to a guard has to be looked into
    lead, st = set(G), list(G)
    while st:
        for c in fa.callers.get(st.pop(), ()):
            if c not in lead:
                lead.add(c)
                st.append(c)
    E.inline_filter = lambda fr, fn: fn.id in lead or len(fn.blocks) <= 3 and fn.cls is not None and is_text(fn)

    def on_call(E, s, fr, e, d, this):
        if d is None or d['id'] not in G:
            return None
        g = mk('ghost', 'guarded', d['id'])
        if g in s.env:
            return None         # cannot fail again
        s.env[g] = TRUE
        a = e['a'][G[d['id']]]
        v = E.get(s, fr, a)
        if v is not None and v.op == 's':
            got.add((v.a[0], fr.F.where(e.get('l'))))
        else:
            try:
                c = E.content(s, v)
            except Exception:
                return None
            got.add((c.a[0] if c.op == 's' else None, fr.F.where(e.get('l'))))
        return None
    E.on_call = on_call
    E.run_root(F)
    return sorted(got, key=str)


def check(P, R, tier):
    fa = common.facts(P)
    bs, root = registry.extract(P, fa, R)
    R.need(len(bs) >= 100, 'only %d builtins found' % len(bs))
    G = guards(P)
    R.need(len(G) >= 2, 'the argument guards were not found')
    where = root.where()
    last, names = {}, {}
    for b in bs:
        R.add('name of builtin #%d' % b.order, where, b.name is not None and b.fn is not None, 'the name or the native function is not constant')
        if b.name is None or b.fn is None:
            continue
        p = last.get(b.name)
        R.add('%s has one meaning' % b.name, where, p is None or (p.fn is b.fn and (p.special, p.expand, p.sig) == (b.special, b.expand, b.sig)),
              'registered twice with different meanings')
        last[b.name] = b
        names.setdefault(b.fn.id, set()).add(b.name)
        sig, doc = registry.text(b.sig), registry.text(b.doc)
        R.add('%s: signature' % b.name, where, sig is not None and sig.endswith(')') and sig[1:-1].split(' ')[0] == b.name, 'the signature is %r' % sig)
        R.add('%s: documentation' % b.name, where, bool(doc), 'no documentation')
        R.add('%s: builtin' % b.name, where, registry.flag(b.builtin) is True, 'not marked as builtin')
        R.add('%s: module' % b.name, where, registry.text(b.module) == '<builtin>', 'module %s' % registry.text(b.module))
        R.add('%s: operands %s' % (b.name, 'unevaluated' if b.name in SPECIAL else 'evaluated'), where,
              registry.flag(b.special) is (b.name in SPECIAL), 'special form: %s' % registry.flag(b.special))
        R.add('%s: expansion time' % b.name, where, registry.flag(b.expand) is (b.name in EXPAND), 'evaluated in macro expansion: %s' % registry.flag(b.expand))
    fs = sorted({b.fn.id for b in bs if b.fn is not None})
    n = 0
    for f, got in zip(fs, common.pmap(_names, [(P, fa, P.fns[f], G) for f in fs])):
        F = P.fns[f]
        for nm, w in got:
            n += 1
            if nm is None:
                R.add('error name in %s' % F.short, w, False, 'the name is not constant')
            else:
                R.add('error name %s in %s' % (nm, F.short), w, nm in names[f] or nm in {BUILT_ON.get(x) for x in names[f]}, 'registered as %s' % ', '.join(sorted(names[f])))
    R.need(n >= 60, 'only %d guarded names found' % n)
