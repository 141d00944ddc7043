"""Loads the program exported by tool/fuelx: builds the exporter when needed, exports every unit of the
CMake build from /repo's working tree, merges the units and resolves types, callees and CFGs."""
import json, os, subprocess, sys, tempfile, shutil, hashlib, concurrent.futures

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FUEL_REPO', '/repo')
SRC = os.path.join(REPO, 'CppLisp')
LLVM = '/usr/lib/llvm-18'


class AnalysisBroken(Exception):
    """the analysis itself cannot give a verdict (an error of the check, neither pass nor violation)"""


def exporter():
    src = os.path.join(VERIF, 'tool', 'fuelx.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(VERIF, 'build', 'fuelx-' + h)
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    cmd = ['g++', '-std=c++17', '-O1', '-fno-rtti', '-fno-exceptions', '-I' + LLVM + '/include', '-D_GNU_SOURCE',
           '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
           LLVM + '/lib/libclang-cpp.so.18.1', '-L' + LLVM + '/lib', '-lLLVM-18']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise AnalysisBroken('cannot build the exporter: ' + r.stdout[-3000:])
    os.replace(tmp, out)
    return out


def compile_db(tmp):
    """the units and flags of the real build, from CMake itself"""
    b = os.path.join(tmp, 'cmake')
    env = dict(os.environ, CC='gcc', CXX='g++')
    r = subprocess.run(['cmake', '-S', SRC, '-B', b, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithDebInfo',
                        '-DCMAKE_POLICY_VERSION_MINIMUM=3.5', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    p = os.path.join(b, 'compile_commands.json')
    if r.returncode or not os.path.exists(p):
        raise AnalysisBroken('cmake: ' + r.stdout[-2000:])
    units = []
    seen = set()
    for c in json.load(open(p)):
        f = os.path.realpath(c['file'])
        if f in seen or not f.endswith('.cpp'):
            continue
        seen.add(f)
        a = c['command'].split()
        flags = [x for x in a if x.startswith(('-D', '-I', '-std='))]
        if not any(x.startswith('-std=') for x in flags):
            flags.append('-std=gnu++11')
        units.append((f, flags))
    return units


class Ty:
    __slots__ = ('s', 'k', 'rec', 'targs', 'ref', 'rref', 'cst', 'pc', 'to', 'bases', 'w', 'sg', 'u', 'lam')

    def __init__(self, s):
        self.s = s
        self.k = None

    def __repr__(self):
        return 'Ty(%s)' % self.s


class Fn:
    __slots__ = ('id', 'name', 'file', 'line', 'end', 'ret', 'params', 'cls', 'clsq', 'static', 'const', 'lam', 'parent',
                 'blocks', 'entry', 'exit', 'tries', 'ex', 'internal', 'rpo', 'preds', 'loops', 'inloops', 'extra')

    def __repr__(self):
        return 'Fn(%s)' % self.name

    @property
    def short(self):
        return self.name.replace('CppLisp::', '')

    def where(self, line=None):
        return '%s:%d' % (os.path.relpath(self.file, REPO), line or self.line)


class Program:
    def __init__(self):
        self.types = {}
        self.fns = {}
        self.decls = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.units = []

    def fn(self, fid):
        return self.fns.get(fid)

    def by_name(self, name):
        return [f for f in self.fns.values() if f.name == name or f.name == 'CppLisp::' + name]


def export(tmp):
    tool = exporter()
    units = compile_db(tmp)
    if len(units) < 10:
        raise AnalysisBroken('only %d units found' % len(units))

    def one(u):
        f, flags = u
        out = os.path.join(tmp, hashlib.md5(f.encode()).hexdigest() + '.json')
        r = subprocess.run([tool, '--root=' + os.path.realpath(SRC), '-o', out, f, '--'] + flags +
                           ['-resource-dir', LLVM + '/lib/clang/18'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode or 'fuelx: the unit has errors' in r.stdout or not os.path.exists(out):
            raise AnalysisBroken('%s: %s' % (f, r.stdout[-2000:]))
        return f, out

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, units))


def load(verbose=False):
    tmp = tempfile.mkdtemp(prefix='fuelsa.')
    try:
        outs = export(tmp)
        P = Program()
        for f, o in outs:
            P.units.append(f)
            merge(P, json.load(open(o)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    finish(P)
    return P


def merge(P, d):
    tys = []
    for t in d['types']:
        s = t['s']
        if s not in P.types:
            P.types[s] = Ty(s)
        tys.append(P.types[s])
    for t in d['types']:
        x = P.types[t['s']]
        if x.k is not None and not (t.get('bases') and not x.bases):
            continue
        x.k = t['k']
        x.rec = t.get('rec')
        x.targs = [tys[i] for i in t.get('targs', [])]
        x.bases = [tys[i] for i in t.get('bases', [])]
        x.ref = bool(t.get('ref'))
        x.rref = bool(t.get('rref'))
        x.cst = bool(t.get('cst'))
        x.pc = bool(t.get('pc'))
        x.to = tys[t['to']] if 'to' in t else None
        x.w = t.get('w')
        x.sg = t.get('sg')
        x.lam = bool(t.get('lam'))
        x.u = tys[t['u']] if 'u' in t else x
    def T(i):
        return tys[i] if i is not None and i >= 0 else None
    for k, v in d['decls'].items():
        if k in P.decls and (P.decls[k]['body'] or not v['body']):
            continue
        v['ret'] = T(v['ret'])
        for p in v['params']:
            p['t'] = T(p['t'])
        v['id'] = k
        P.decls[k] = v
    for k, v in d['records'].items():
        if k in P.records:
            continue
        for f in v['fields']:
            f['t'] = T(f['t'])
        for b in v['bases']:
            b['t'] = T(b['t'])
        P.records[k] = v
    P.enums.update(d['enums'])
    for g in d['globals']:
        g['t'] = T(g['t'])
        old = P.globals.get(g['q'])
        if old is None or ('deps' in g and 'deps' not in old) or ('ival' in g and 'ival' not in old):
            P.globals[g['q']] = g
    for f in d['functions']:
        if f['id'] in P.fns:
            continue
        F = Fn()
        F.id = f['id']
        F.name = f['name']
        F.file = f['file']
        F.line = f['line']
        F.end = f['end']
        F.ret = T(f['ret'])
        F.params = f['params']
        for p in F.params:
            p['t'] = T(p['t'])
        F.cls = f.get('cls')
        F.clsq = f.get('clsq')
        F.static = f.get('static', False)
        F.const = f.get('const', False)
        F.lam = bool(f.get('lambda'))
        F.parent = f.get('parent')
        F.internal = f.get('internal', False)
        F.extra = {}
        if f.get('nocfg'):
            raise AnalysisBroken('no CFG for ' + F.name)
        F.ex = {}
        for k, e in f['ex'].items():
            e['id'] = int(k)
            e['t'] = T(e['t'])
            for q in ('tt', 'nt', 'ct'):
                if q in e:
                    e[q] = T(e[q])
            if e['k'] == 'lambda':
                for c in e['caps']:
                    if 't' in c:
                        c['t'] = T(c['t'])
            F.ex[int(k)] = e
        F.blocks = {}
        for b in f['blocks']:
            for el in b['els']:
                if el[0] in ('decl', 'init', 'dtor') and 't' in el[1]:
                    el[1]['t'] = T(el[1]['t'])
                if el[0] == 'init' and 'base' in el[1]:
                    el[1]['base'] = T(el[1]['base'])
            if 'catch' in b and 't' in b['catch']:
                b['catch']['t'] = T(b['catch']['t'])
            F.blocks[b['id']] = b
        F.entry = f['entry']
        F.exit = f['exit']
        F.tries = {int(k): v for k, v in f['tries'].items()}
        P.fns[F.id] = F


def finish(P):
    for F in P.fns.values():
        cfg_info(F)


def children(e):
    for q in ('b', 'o', 'e', 'r', 'c0', 'fx'):
        x = e.get(q)
        if isinstance(x, int) and x >= 0:
            yield x
    for x in e.get('a', ()):
        if x >= 0:
            yield x
    for c in e.get('caps', ()):
        if c.get('e', -1) >= 0:
            yield c['e']


def cfg_info(F):
    preds = {b: [] for b in F.blocks}
    for b in F.blocks.values():
        b['succ'] = list(b['succ'])
        for s in b['succ']:
            if s >= 0:
                preds[s].append(b['id'])
    F.preds = preds
    # exception edges into the handlers are implicit: roots are entry and the handlers reached through the try blocks
    handlers = {}
    for t, info in F.tries.items():
        handlers[t] = [s for s in F.blocks[info['block']]['succ'] if s >= 0 and 'catch' in F.blocks[s]]
        info['handlers'] = handlers[t]
    order, seen = [], set()

    def edges(bid):
        b = F.blocks[bid]
        out = [s for s in b['succ'] if s >= 0]
        # exceptional edges
        for el in b['els']:
            x = el[1] if el[0] in ('e',) else (el[1].get('e', -1) if isinstance(el[1], dict) else -1)
            if isinstance(x, int) and x >= 0 and x in F.ex and 'try' in F.ex[x]:
                t = F.ex[x]['try']
                while t is not None and t in F.tries:
                    out += F.tries[t]['handlers']
                    t = F.tries[t].get('parent')
        return out
    F.extra['edges'] = {b: edges(b) for b in F.blocks}

    stack = [(F.entry, iter(F.extra['edges'][F.entry]))]
    seen.add(F.entry)
    onstack = {F.entry}
    back = set()
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                onstack.add(s)
                stack.append((s, iter(F.extra['edges'][s])))
                break
            elif s in onstack:
                back.add((b, s))
        else:
            stack.pop()
            onstack.discard(b)
            order.append(b)
    F.rpo = list(reversed(order))
    # natural loops (by back edge target)
    loops = {}
    epreds = {b: [] for b in F.blocks}
    for b, ss in F.extra['edges'].items():
        for s in ss:
            epreds[s].append(b)
    for (t, h) in back:
        body = loops.setdefault(h, {h})
        st = [t]
        while st:
            x = st.pop()
            if x in body:
                continue
            body.add(x)
            st.extend(p for p in epreds[x] if p in seen)
    F.loops = loops
    F.extra['back'] = back
    F.inloops = {}
    for h, body in loops.items():
        for b in body:
            F.inloops.setdefault(b, set()).add(h)
    # the order in which blocks are analysed: a loop comes before what follows it (successors that leave loops are finished first)
    no = {b: i for i, b in enumerate(F.rpo)}

    def succs(b):
        mine = F.inloops.get(b, set())
        return iter(sorted(set(F.extra['edges'][b]), key=lambda s: (len(mine & F.inloops.get(s, set())), -no.get(s, 0))))
    order, seen = [], {F.entry}
    stack = [(F.entry, succs(F.entry))]
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, succs(s)))
                break
        else:
            stack.pop()
            order.append(b)
    F.rpo = list(reversed(order))


if __name__ == '__main__':
    P = load()
    print(len(P.units), 'units', len(P.fns), 'functions', len(P.decls), 'decls', len(P.records), 'records', len(P.types), 'types')
