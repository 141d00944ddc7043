"""P16: sessions in one process do not influence each other.

  globals   no function an evaluation can reach can change a variable of the program that outlives the session (a global, a
            static member or a static local): every use is followed through references, iterators, parameters and results
  process   no such function calls an operation that changes a setting of the whole process"""
from absint import *
from rules import common, registry
from uses import Uses

PROCESS = set('''setlocale setenv putenv unsetenv chdir fchdir umask signal sigaction exit _exit quick_exit abort atexit srand srandom srand48 tzset
fork execv execve execvp execl execlp kill raise alarm setitimer setrlimit dup dup2 close freopen setbuf setvbuf fesetround feenableexcept
std::locale::global std::set_terminate std::set_new_handler std::set_unexpected std::ios_base::sync_with_stdio std::terminate'''.split())


def roots(P, fa, R):
    ev = [F for F in P.fns.values() if F.short in ('Lisp::Eval', 'Lisp::SaveEval', 'LispInterpreter::EvalAst')]
    R.need(any(F.short == 'Lisp::Eval' for F in ev), 'Lisp::Eval not found')
    bs, root = registry.extract(P, fa, R)
    return [F.id for F in ev] + [root.id if hasattr(root, 'id') else root] + [b.fn.id for b in bs if b.fn is not None], bs


def check(P, R, tier):
    fa = common.facts(P)
    rt, bs = roots(P, fa, R)
    rt = [r for r in rt if r in P.fns]
    rs = common.reach(fa, P, rt)
    R.stats['reachable_from_evaluation'] = len(rs)
    n = 0
    for q, g in sorted(P.globals.items()):
        if not g.get('mine'):
            continue
        n += 1
        U = Uses(P, fa, within=rs, deep=False)
        v = g['v']
        for F in [P.fns[f] for f in rs if f in P.fns]:
            for e in list(F.ex.values()):
                if e['k'] == 'var' and e['v'] == v:
                    U.expr(F, e['id'])
        R.add('global %s' % q.replace('CppLisp::', ''), '%s:%s' % (g.get('deffile') or g['file'], g.get('defline') or g['line']), not U.out,
              '; '.join('%s in %s' % (w, F.where(l)) for F, l, w in U.out[:4]) + ' during the evaluation of a script')
    R.need(n >= 10, 'only %d globals found' % n)
    # static locals that are not constant
    for F in P.fns.values():
        for b in F.blocks.values():
            for el in b['els']:
                if el[0] == 'decl' and el[1].get('static') and F.id in rs:
                    t = el[1]['t']
                    U = Uses(P, fa, within=rs)
                    if not t.cst:
                        U.var(F, el[1]['v'])
                    R.add('static %s in %s' % (el[1].get('n'), F.short), F.where(el[1].get('l')), not U.out,
                          '; '.join('%s in %s' % (w, G.where(l)) for G, l, w in U.out[:4]))
    for f in sorted(rs):
        F = P.fns.get(f)
        if F is None:
            continue
        bad = []
        for e in F.ex.values():
            if e['k'] == 'call' and e.get('c'):
                d = P.decls.get(e['c'])
                if d is not None and not d['mine'] and (d['name'] in PROCESS or d['name'].replace('std::', '') in PROCESS):
                    bad.append((e, d['name']))
        R.add('process settings in %s' % F.short, F.where(bad[0][0].get('l')) if bad else F.where(), not bad,
              'calls %s, which changes the whole process' % ', '.join(n for _, n in bad))
