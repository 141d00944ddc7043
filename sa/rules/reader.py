"""P18: the reader loses no part of a program text and knows its lines.

The function that cuts the text into tokens and the one that builds the program from the tokens are run abstractly, the heads of
their loops divided by the flags and by what is known of the collected text. Ghosts tell of each character of the round whether it was
handed on, of each text variable whether it holds characters that are not part of a token yet, and the line count at the start of the round."""
from absint import *
from rules import common

EMPTY, OPEN, GIVEN = const(0), const(1), const(2)      # nothing in it / text that is in no token yet / text that was handed on
ADD = {'operator+=', 'append', 'Append', 'push_back', 'insert', 'replace'}
SET = {'operator=', 'assign', 'clear', 'erase', 'resize', 'swap', 'pop_back'}
ASK = {'size', 'length', 'Length', 'empty', 'IsNullOrEmpty', 'StartsWith', 'EndsWith', 'find', 'IndexOf', 'compare', 'Equals', 'operator[]', 'at', 'back', 'front', 'begin', 'end', 'c_str', 'data', 'Contains'}
SKIP = {9: 'tab', 10: 'line feed', 11: 'vt', 12: 'ff', 13: 'cr', 32: 'blank', 34: 'string delimiter', 92: 'backslash'}
NL = const(10)


def G(what, *a):
    return mk('ghost', what, *a)


def is_text(t):
    s = str(nonref(t))
    return 'basic_string' in s or s.rstrip(')').rstrip().endswith('::string') or 'CppLisp::string)' in s


def tokenizers(P):
    """functions with a text as parameter that make tokens from its characters"""
    out = []
    for F in P.fns.values():
        if F.lam or not F.cls or not any(is_text(p['t']) for p in F.params):
            continue
        parts = [F] + [P.fns[e['c']] for e in F.ex.values() if e['k'] == 'lambda' and e.get('c') in P.fns]
        if any(e['k'] in ('call', 'ctor') and 'LispToken' in str(e['t']) and ('make_shared' in P.decls.get(e.get('c'), {}).get('name', '') or e['k'] == 'ctor' and len(e['a']) >= 4) for Q in parts for e in Q.ex.values()) and F.loops:
            out.append(F)
    return out


class Text:
    """the run of the function that makes tokens"""

    def __init__(self, P, fa, F):
        self.P, self.fa, self.F = P, fa, F
        self.E = E = Engine(P, fa)
        E.KMAX = 40
        E.inline_filter = lambda fr, fn: not (fn.cls and fn.cls.endswith('LispToken'))
        E.on_call, E.on_back, E.partition, E.at_head = self.on_call, self.on_back, self.partition, self.at_head
        self.fid = (('root', F.id),)
        self.code = {p['v'] for p in F.params if is_text(p['t'])}
        self.lost, self.kept, self.index, self.line = {}, {}, {}, {}
        self.backs = []
        # the variables of one round of a loop
        self.inner = {h: {el[1]['v'] for x in body for el in F.blocks[x]['els'] if el[0] == 'decl' and 'v' in el[1]} for h, body in F.loops.items()}
        self.tokens = {}
        self.exits = E.run_root(F)
        self.atexit()

    # the variables of the function
    def mine(self, l):
        return l is not None and l.op == 'var' and l.a[0] == self.fid

    def where(self, fr, eid=None):
        e = fr.F.ex[eid if eid is not None else self.E.now[1]]
        return fr.F.where(e.get('l'))

    def text_of(self, s, l):
        return s.env.get(G('text', l), EMPTY)

    def lose(self, s, l, fr, what):
        k = (l.a[1], self.where(fr))
        v = self.text_of(s, l)
        ok = v is EMPTY or v is GIVEN
        if not ok:
            self.lost[k] = what
        else:
            self.kept.setdefault(k, what)

    def is_code(self, l):
        while l is not None and l.op in ('R',):
            l = l.a[0]
        return l is not None and l.op in ('pref', 'var') and any(a in self.code for a in l.a if isinstance(a, str))

    def char(self, t):
        """is this a character of the text?"""
        x = t
        while x.op in ('init', 'R') and x.a:
            x = x.a[0]
        return x.op == 'elem' and self.is_code(x.a[0])

    def empty(self, E, s, fr, a):
        x = fr.F.ex[a]
        if x['k'] == 'str':
            return not x.get('val')
        try:
            l = E.loc(s, fr, a)
        except Exception:
            return False
        return l.op == 'glob' and str(l.a[0]).endswith('::Empty')

    def on_call(self, E, s, fr, e, d, this):
        name = d['name'].rsplit('::', 1)[-1] if d is not None else 'operator()'
        ret = str(nonref(d['ret'])) if d is not None and d.get('ret') is not None else ''
        args = []
        for a in e['a']:
            t = fr.F.ex[a]['t']
            try:
                args.append((a, 'char', E.rval(s, fr, a)) if tkind(t) == 'int' and 'char' in str(t) else (a, 'text', E.loc(s, fr, a)) if is_text(t) else (a, None, None))
            except Dead:
                raise
            except Exception:
                args.append((a, None, None))
        if name in ('isspace',) and e['a']:
            c = E.rval(s, fr, e['a'][0])
            return mk('sym', ('ws',), c)
        if name in ('operator[]', 'at') and this is not None and self.is_code(this) and e['a']:
            i, k = base(E.rval(s, fr, e['a'][0]))
            if i.op == 'phi' and i.a[0] == self.fid:
                self.index[i.a[1]] = i.a[2]
            return None
        text = this is not None and self.mine(this) and ('string' in str(d.get('clsq')) and 'stream' not in str(d.get('clsq')))
        if len(args) >= 1 and d is not None and 'make_shared' in d['name'] and 'LispToken' in str(e['t']):
            i, k = base(E.rval(s, fr, e['a'][-1])) if len(args) >= 4 else (None, 0)
            if i is not None:
                self.tokens[self.where(fr, e['id'])] = 1
                if i.op == 'phi' and i.a[0] == self.fid:
                    self.line.setdefault(i.a[1], set()).add(i.a[2])
        if name in ('operator==', 'operator!=', 'IsNullOrEmpty', 'empty'):
            ls = [x[2] for x in args if x[1] == 'text' and x[2] is not None and self.mine(x[2])] + ([this] if text else [])
            if len(ls) == 1 and (name in ('IsNullOrEmpty', 'empty') or any(self.empty(E, s, fr, x[0]) for x in args)):
                v = s.env.get(G('text', ls[0]))
                if v is not None and v in (EMPTY, OPEN, GIVEN):
                    return TRUE if (v is EMPTY) == (name != 'operator!=') else FALSE
            return None
        if text and name in SET:
            src = [x for x in args if x[1]]
            if not (src and src[0][2] is this):
                self.lose(s, this, fr, name)
                if name in ('clear',) or name in ('operator=', 'assign') and (not src or self.empty(E, s, fr, src[0][0])):
                    s.env[G('text', this)] = EMPTY
                elif name in ('operator=', 'assign'):
                    s.env[G('text', this)] = OPEN if src[0][1] == 'char' or not self.mine(src[0][2]) else self.text_of(s, src[0][2])
        elif text and name in ADD and not (args and self.empty(E, s, fr, args[0][0])):
            s.env[G('text', this)] = OPEN
        own = d is not None and d.get('mine') and d['id'] in self.P.fns
        for a, k, v in args:
            if k == 'char' and self.char(v) and (name in ADD or name in SET or own and ret.find('char') >= 0 or name in ('basic_string', 'operator+')):
                s.env[G('char', v)] = TRUE
            if k == 'text' and self.mine(v) and name not in ASK and v is not this and 'bool' not in ret and self.text_of(s, v) is not EMPTY:
                s.env[G('text', v)] = GIVEN
        return None

    def partition(self, s, fr, b):
        if b is not None and fr.fid != self.fid:
            return 0
        k = tuple(sorted((l.n, v.n) for l, v in s.env.items() if (l.op == 'ghost' and l.a[0] == 'text' and v in (EMPTY, OPEN, GIVEN) or self.mine(l) and v in (TRUE, FALSE)) and (b is None or (l.a[1] if l.op == 'ghost' else l).a[1] not in self.inner[b])))
        if b is not None:
            return k
        # where paths meet inside of a round: what the round has done so far is kept apart
        k += tuple(sorted((l.n, v.n) for l, v in s.env.items() if l.op == 'ghost' and l.a[0] in ('char', 'at', 'was') or self.mine(l) and l in self.index.values() or self.mine(l) and any(l in x for x in self.line.values())))
        for h, il in self.index.items():
            i0, i1 = s.env.get(G('at', h, il)), s.env.get(il)
            if i0 is not None and i1 is not None and base(i0)[0] is base(i1)[0] and base(i1)[1] - base(i0)[1] in (0, 1, 2):
                for j in range(base(i1)[1] - base(i0)[1] + 1):
                    c = self.at(s, i0, j)
                    k += (self.blank(s, c), self.E.truth(s, self.E.cmp('==', c, NL)), self.other(s, c))
        return k

    def at(self, s, i, j):
        L = next((mk('pref', self.fid, p['v'], bool(p['t'].cst)) if p['t'].ref else mk('var', self.fid, p['v'])) for p in self.F.params if p['v'] in self.code)
        return self.E.load(s, mk('elem', L, lin(i, j)), self.chart)

    def at_head(self, s, fr, b):
        if fr.fid != self.fid:
            return
        for l in [l for l in s.env if l.op == 'ghost' and l.a[0] in ('char', 'at', 'was')]:
            del s.env[l]
        for l, v in list(s.env.items()):
            if l.op == 'ghost' and l.a[0] == 'text':
                s.env[G('was', b, l.a[1])] = v
            if self.mine(l) and isinstance(v, Term):
                s.env[G('at', b, l)] = v

    def on_back(self, E, fr, h, head, backs, body):
        if fr.fid == self.fid:
            self.backs += [(h, b) for b in backs]
            for b in backs:
                self.settle(b, [l for l in b.env if l.op == 'ghost' and l.a[0] == 'text' and l.a[1].a[1] in self.inner[h]], 'end of the round')

    def settle(self, s, ghosts, what):
        for g in ghosts:
            v, k = s.env[g], (g.a[1].a[1], self.F.where(self.F.line))
            if v is EMPTY or v is GIVEN:
                self.kept.setdefault(k, what)
            else:
                self.lost[k] = what
            if what != 'end':
                del s.env[g]

    def atexit(self):
        for s, rv in self.exits:
            self.settle(s, [l for l in s.env if l.op == 'ghost' and l.a[0] == 'text'], 'end')

    def inside(self, s, h):
        """a text is open all the time of this round"""
        return any(l.op == 'ghost' and l.a[0] == 'was' and l.a[1] == h and v is OPEN and self.text_of(s, l.a[2]) is OPEN for l, v in s.env.items())

    def blank(self, s, c):
        if any(self.E.truth(s, self.E.cmp('==', c, const(k))) for k in SKIP):
            return True
        return self.E.truth(s, self.E.cmp('!=', mk('sym', ('ws',), c), const(0))) is True

    def rounds(self):
        """what each round of the loop over the text did: (what, ok)"""
        E = self.E
        for h, s in self.backs:
            il = self.index.get(h)
            if il is None:
                continue
            i0, i1 = s.env.get(G('at', h, il)), s.env.get(il)
            if i0 is None or i1 is None:
                continue
            (b0, k0), (b1, k1) = base(i0), base(i1)
            known = b0 is b1 and 0 < k1 - k0 <= 4
            nl = 0
            if known:
                for j in range(k1 - k0):
                    c = self.at(s, i0, j)
                    yield 'a character', s.env.get(G('char', c)) is TRUE or self.blank(s, c) and not (self.inside(s, h) and not self.E.truth(s, self.E.cmp('==', c, const(92)))), 'each character is put into a token, a blank or a delimiter'
                    t = E.truth(s, E.cmp('==', c, NL))
                    nl = None if t is None and nl is not None and not self.other(s, c) else nl if nl is None or not t else nl + 1
            for ll in sorted(self.line.get(h, ()), key=str):
                if s.env.get(G('at', h, ll)) is None:
                    continue
                (c0, m0), (c1, m1) = base(s.env[G('at', h, ll)]), base(s.env.get(ll))
                yield 'a line', c0 is c1 and ((nl is not None and m1 - m0 == nl) if known else m1 - m0 == 1), 'the line number of a token goes up by one with each line feed, and only with it'

    def other(self, s, c):
        """known to be no line feed"""
        return self.E.truth(s, self.E.cmp('==', c, NL)) is False or self.E.truth(s, self.E.cmp('!=', mk('sym', ('ws',), c), const(0))) is False


def check(P, R, tier):
    fa = common.facts(P)
    fs = tokenizers(P)
    R.need(fs, 'the function that makes tokens of a text was not found')
    found = 0
    for F in fs:
        T = Text.__new__(Text)
        T.chart = next((p['t'] for G_ in P.fns.values() for p in G_.params if str(p['t']) == 'Ty(char)'), None)
        R.need(T.chart is not None, 'the type of characters was not found')
        T.__init__(P, fa, F)
        if not T.index or not T.line or not T.tokens:
            continue        # makes tokens of something else than the characters of the text
        found += 1
        R.need(not T.E.cut, '%s: the run did not come to an end' % F.short)
        for (v, where), what in sorted(T.kept.items()):
            if (v, where) not in T.lost:
                R.add('%s: text in %s' % (F.short, v.split(':')[1]), where, True, 'what was collected is in a token before it is dropped (%s)' % what)
        for (v, where), what in sorted(T.lost.items()):
            R.add('%s: text in %s' % (F.short, v.split(':')[1]), where, False, 'characters of the program that are in no token are dropped (%s)' % what)
        out = {}
        for what, ok, text in T.rounds():
            out.setdefault(what, [0, 0, text])[0 if ok else 1] += 1
        R.need(out.get('a character') and out.get('a line'), '%s: no round of the loop was understood' % F.short)
        R.stats['rounds'] = R.stats.get('rounds', 0) + sum(a + b for a, b, c in out.values())
        for what, (good, bad, text) in sorted(out.items()):
            R.add('%s: %s' % (F.short, what), F.where(F.line), not bad, '%d kinds of rounds: %s' % (good + bad, text) if not bad else 'not in %d of %d kinds of rounds: %s' % (bad, good + bad, text))
    R.need(found, 'no loop over the characters of a text that counts lines was found')
