"""P04: a runtime value is never read as a kind it does not have.

  access     every function of the tagged value, analysed with an unknown tag (the private helpers inlined), reads a member
             of the union only on paths where the tag is one whose construction stores that member; other kinds get an error
             or a result that does not touch the storage
  predicate  every argument free question about the kind is true for exactly one tag, and no two questions share a tag
  name       every tag has a kind name of its own"""
from absint import *
from prog import AnalysisBroken
from rules import common, ownership


def check(P, R, tier):
    fa = common.facts(P)
    C, U = fa.tag_cls, fa.ucls
    R.need(C is not None, 'no record with a tag and a union member found')
    enum = ownership.tagenum(P, C, fa.tag_field)
    names = {v: k for k, v in enum.items()}
    access = []
    for F in P.fns.values():
        if any(e['k'] == 'mem' and e.get('cls') == U for e in F.ex.values()):
            access.append(F)
    members = {F.id for F in P.fns.values() if F.cls == C}
    R.need(len(access) >= 15, 'only %d functions read the storage of a value' % len(access))
    n = 0
    for F in sorted(access, key=lambda f: f.line):
        cs = set(fa.callers.get(F.id, ()))
        if cs and cs <= members and F.id not in fa.taken:
            continue            # a helper of the value: analysed in its callers
        E = Engine(P, fa)
        E.inline_filter = lambda fr, fn: fn.id in members
        E.run_root(F)
        done = {}
        for kind, f, eid, ok, det, fr in E.obls:
            if kind != 'tag':
                continue
            G = P.fns[f]
            k = (f, eid)
            if k not in done or not ok:
                done[k] = (ok, det, G)
        for (f, eid), (ok, det, G) in sorted(done.items(), key=lambda x: (x[0][0], x[0][1])):
            n += 1
            R.add('%s reads %s%s' % (F.short, det[1], '' if G is F else ' in ' + G.short), G.where(G.ex[eid].get('l')), ok,
                  'the storage is read as %s although the value may be %s' % (det[1], ', '.join(names.get(t, str(t)) for t in det[2])[:150]))
    R.need(n >= 25, 'only %d reads of the storage found' % n)
    # questions about the kind
    tag_t = ownership.P_tag(P, C, fa)
    yes = {}
    alltags = sorted(fa.all_tags)
    nq = 0
    for F in sorted([F for F in P.fns.values() if F.cls == C], key=lambda f: f.line):
        if F.params or F.ret is None or nonref(F.ret).s not in ('bool', '_Bool') or F.static or '::operator' in F.name:
            continue
        got = {}
        for tag in alltags:
            E = Engine(P, fa)
            this = mk('this', F.id)

            def setup(E, s, fr, tag=tag, this=this):
                s.add_eq(E.load(s, mk('fld', this, fa.tag_field, C), tag_t), const(tag))
            vs = set()
            for st, rv in E.run_root(F, setup):
                b = E.truth(st, rv)
                vs.add('?' if b is None else 't' if b else 'f')
            got[tag] = vs
        if any('?' in v or not v for v in got.values()):
            continue
        nq += 1
        ts = [t for t in alltags if 't' in got[t]]
        ok = len(ts) == 1 and not any(len(v) > 1 for v in got.values()) or (not ts and all(v == {'f'} for v in got.values()))
        dup = [q for t in ts for q in [yes.get(t)] if q and q != F.short]
        for t in ts:
            yes[t] = F.short
        R.add('question %s' % F.short, F.where(), ok and not dup,
              'it is true for %s%s' % (', '.join(names.get(t, str(t)) for t in ts) or 'no kind', ' like ' + dup[0] if dup else ''))
    R.need(nq >= 8, 'only %d questions about the kind found' % nq)
    # names
    nn = 0
    for cls, fld, tags in ((C, fa.tag_field, alltags), variant(P)):
        ty = [x['t'] for x in P.records[cls]['fields'] if x['name'] == fld][0]
        en = {v: k for k, v in ownership.tagenum(P, cls, fld).items()}
        for F in [F for F in P.fns.values() if F.cls == cls and not F.params and not F.static and F.ret is not None and is_string(nonref(F.ret))]:
            byname = {}
            for tag in tags:
                E = Engine(P, fa)
                this = mk('this', F.id)

                def setup(E, s, fr, tag=tag, this=this):
                    s.add_eq(E.load(s, mk('fld', this, fld, cls), ty), const(tag))
                vs = set()
                for st, rv in E.run_root(F, setup):
                    c = E.content(st, common.unref(rv))
                    vs.add(c.a[0] if c.op == 's' else '?')
                byname[tag] = vs
            plain = [t for t, v in byname.items() if len(v) == 1 and '?' not in v]
            if len(plain) * 4 < len(tags) * 3 or len({list(byname[t])[0] for t in plain}) < 5:
                continue            # not a table of names
            nn += 1
            inv = {}
            for t in plain:
                inv.setdefault(list(byname[t])[0], []).append(t)
            for t in plain:
                v = list(byname[t])[0]
                R.add('%s names %s' % (F.short, en.get(t, t)), F.where(), len(inv[v]) == 1 and v != '',
                      'the name %r is also given to %s' % (v, ', '.join(en.get(x, str(x)) for x in inv[v] if x != t)))
    R.need(nn >= 2, 'only %d tables of kind names found' % nn)
    R.stats.update(questions=nq, naming_functions=nn, kinds=len(alltags))


def variant(P):
    for cls, r in P.records.items():
        if cls.endswith('::LispVariant'):
            return cls, 'Type', sorted(set(ownership.tagenum(P, cls, 'Type').values()))
    raise AnalysisBroken('class LispVariant not found')
