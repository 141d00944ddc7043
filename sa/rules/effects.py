"""P15: what a script can do to the world outside is what the builtins for it are for.

  effects   the operations of the system a builtin can reach over the call graph (the evaluator and the debugger, which run other code, are apart) are the ones the language gives it
  files     the file builtins open exactly the file they are given, write exactly the text they are given, and tell what has come of it"""
from absint import *
from rules import common, registry, values

HEADERS = {'unistd.h': 'system', 'fcntl.h': 'system', 'sys/stat.h': 'system', 'dirent.h': 'system', 'sys/socket.h': 'system', 'socket.h': 'system', 'netdb.h': 'system', 'spawn.h': 'system', 'sys/mman.h': 'system',
           'sys/wait.h': 'system', 'dlfcn.h': 'library', 'signal.h': 'system', 'ftw.h': 'system'}
NAMES = {}
for _k, _v in {
        'process': 'system popen pclose fork vfork execv execve execvp execl execle execlp posix_spawn posix_spawnp kill raise exit _exit quick_exit abort std::exit std::system std::abort std::_Exit std::quick_exit wait waitpid',
        'files': 'remove unlink unlinkat rename renameat mkdir rmdir link symlink truncate ftruncate chmod chown mkstemp tmpfile tmpnam std::remove std::rename std::tmpfile std::tmpnam creat chdir open openat nftw '
                 'std::filesystem::remove std::filesystem::remove_all std::filesystem::rename std::filesystem::create_directory std::filesystem::create_directories std::filesystem::copy std::filesystem::copy_file '
                 'std::filesystem::resize_file std::filesystem::permissions std::filesystem::current_path',
        'read': 'std::basic_ifstream std::filesystem::exists std::filesystem::is_regular_file std::filesystem::file_size std::filesystem::status stat lstat access opendir readdir ifstream',
        'write': 'std::basic_ofstream',
        'read or write': 'fopen fopen64 freopen std::fopen std::freopen std::basic_fstream std::basic_filebuf',
        'library': 'dlopen dlsym dlclose LoadLibraryA GetProcAddress FreeLibrary',
        'environment': 'getenv secure_getenv std::getenv setenv putenv unsetenv',
        'clock': 'time std::time gettimeofday clock std::clock clock_gettime localtime localtime_r gmtime gmtime_r std::localtime std::gmtime ftime times std::chrono::_V2::system_clock::now std::chrono::_V2::steady_clock::now',
        'chance': 'rand srand std::rand std::srand random srandom drand48 lrand48 std::random_device std::random_device::operator() getrandom',
        'wait': 'sleep usleep nanosleep std::this_thread::sleep_for std::this_thread::sleep_until',
        'network': 'socket connect bind listen accept send recv sendto recvfrom getaddrinfo gethostbyname gethostname',
        'thread': 'pthread_create std::thread std::async std::jthread'}.items():
    for _n in _v.split():
        NAMES[_n] = _k
OWN = {'TextWriter': 'output', 'TextReader': 'input'}
STREAMS = ('cout', 'cerr', 'clog')

MAY = {'help': {'output'}, 'doc': {'output'}, 'searchdoc': {'output'}, 'htmldoc': {'output'}, 'vars': {'output'}, 'print': {'output'}, 'println': {'output'}, 'flush': {'output'}, 'trace': set(),
       'break': {'output', 'input'}, 'readline': {'input', 'output'}, 'import': {'read', 'environment', 'output'}, 'tickcount': {'clock'}, 'date-time': {'clock'}, 'sleep': {'wait', 'system'}, 'lambda': {'output'}, 'fn': {'output'},
       'File-Exists': {'read'}, 'File-ReadAllText': {'read'}, 'File-WriteAllText': {'write'}}
GIVES = {'print': 'output', 'println': 'output', 'File-Exists': 'read', 'File-ReadAllText': 'read', 'File-WriteAllText': 'write', 'tickcount': 'clock', 'date-time': 'clock', 'import': 'read', 'readline': 'input'}


def kind(P, d):
    n = d['name'].split('<')[0]
    if d['mine']:
        c = (d.get('clsq') or '').rsplit('::', 1)[-1]
        if c in OWN and not d.get('ctor') and n.rsplit('::', 1)[-1] not in ('IsToString', 'GetContent', 'SetContent', 'EnableToString', 'SetToString'):
            return OWN[c]
        return None
    if n in NAMES:
        return NAMES[n]
    if n.startswith('std::'):
        m = n.rsplit('::', 1)[0]
        return NAMES.get(m) if m != 'std' else None
    f = d.get('file') or ''
    for h, k in HEADERS.items():
        if f.endswith('/' + h):
            return k
    return None


def effects(P):
    out = {}
    for F in P.fns.values():
        if (F.cls or '').rsplit('::', 1)[-1] in OWN:
            continue
        for e in F.ex.values():
            k = None
            if e['k'] in ('call', 'ctor') and e.get('c') in P.decls:
                k = kind(P, P.decls[e['c']])
            elif e['k'] == 'var' and str(e['v']) in ('g:std::' + n for n in STREAMS):
                k = 'output'
            elif e['k'] == 'fn' and e.get('c') in P.decls:
                k = kind(P, P.decls[e['c']])
            if k:
                out.setdefault(F.id, {}).setdefault(k, e)
    return out


def apart(P, fa):
    """the evaluator, and what is reached over the interface of the debugger"""
    out = {F.id for F in P.fns.values() if F.short == 'LispInterpreter::EvalAst'}
    for F in P.fns.values():
        d = P.decls.get(F.id)
        if d is not None and d.get('overrides') and 'Debugger' in (F.cls or ''):
            out.add(F.id)
    return out


def path(fa, start, to, stop):
    par, st = {start: None}, [start]
    while st:
        f = st.pop(0)
        if f == to:
            break
        if f in stop:
            continue
        for g in fa.calls.get(f, ()):
            if g not in par:
                par[g] = f
                st.append(g)
    out = []
    while to is not None:
        out.append(to)
        to = par.get(to)
    return out[::-1]


def text_of(E, s, fr, a):
    """where the text of an argument comes from"""
    for x in (lambda: E.get(s, fr, a), lambda: E.rval(s, fr, a), lambda: E.loc(s, fr, a)):
        try:
            v = x()
        except Exception:
            continue
        if v is None:
            continue
        for _ in range(12):
            if v.op == 'txt':
                return v.a[0]
            w = E.content(s, v) if v.op not in ('content', 's') else None
            if w is not None and w.op == 'txt':
                return w.a[0]
            if w is not None and w.op == 's':
                return ('literal', w.a[0])
            if v.op == 's':
                return ('literal', v.a[0])
            if w is not None and w.op in ('content', 'init') and w.a and isinstance(w.a[0], Term) and w.a[0] is not v:
                v = w.a[0]
                continue
            if v.op in ('init', 'R', 'content') and v.a and isinstance(v.a[0], Term):
                v = v.a[0]
            else:
                break
    return None


DIRTY = mk('ghost', 'dirty')


def files(P, fa, F, name):
    """what a file builtin opens, writes and returns"""
    E = Engine(P, fa)
    out = {}

    def add(what, where, ok, text):
        if (what, where) not in out or not ok:
            out[(what, where)] = (ok, text)
    arg0 = next((p['v'] for p in F.params if 'vector' in str(p['t'])), F.params[0]['v'])

    def arg(o, i):
        # (an argument that is no value at all counts as nil)
        return o is not None and (len(o) > 1 and o[0] == arg0 and o[1] == '[%d]' % i or len(o) == 1 and str(o[0]).endswith('::g_Nil'))
    E.inline_filter = lambda fr, fn: len(fn.blocks) <= 12 and 'ToString' not in fn.short and 'StringValue' not in fn.short

    def opened(s, fr, e, k, a):
        o = text_of(E, s, fr, a)
        add('%s: opens the file it is given' % name, fr.F.where(e.get('l')), arg(o, 0), 'opens %s' % (o,))

    def on_call(E, s, fr, e, d, this):
        if d is None:
            return None
        n = d['name'].rsplit('::', 1)[-1]
        if n in ('ToString', 'StringValue') and d['mine'] and this is not None:
            return mk('txt', values.origin(this))
        if n in ('c_str', 'data', 'str') and this is not None:
            for v in (this, E.content(s, this)):
                while v is not None and v.op in ('content', 'init', 'R') and v.a and isinstance(v.a[0], Term) and v.a[0].op != 'txt':
                    v = v.a[0]
                if v is not None and v.op in ('content', 'init', 'R'):
                    v = v.a[0]
                if v is not None and isinstance(v, Term) and v.op == 'txt':
                    return v
        k = kind(P, d)
        if k in ('read', 'write', 'read or write') and not d['mine']:
            texts = [a for a in e['a'] if a is not None and a >= 0 and (is_string(nonref(fr.F.ex[a]['t'])) or tkind(fr.F.ex[a]['t']) == 'ptr' or 'path' in str(fr.F.ex[a]['t']))]
            if (n == 'open' or not d.get('clsq') or 'stream' not in d['clsq']) and texts:
                opened(s, fr, e, k, texts[0])
        at = [a for a in e['a'] if a is not None and a >= 0]
        on_out = any('ofstream' in str(nonref(fr.F.ex[a]['t']).s) or 'basic_ostream' in str(nonref(fr.F.ex[a]['t']).s) for a in at[:1]) or 'basic_ostream' in (d.get('clsq') or '') or 'ofstream' in (d.get('clsq') or '') or 'basic_ios' in (d.get('clsq') or '')
        if not d['mine'] and on_out and name == 'File-WriteAllText':
            if n == 'operator<<' and len(at) == 2 or n == 'write':
                o = text_of(E, s, fr, at[1] if n == 'operator<<' else at[0])
                if not (n == 'operator<<' and o is None and tkind(fr.F.ex[at[1]]['t']) in ('ptr', 'fn', 'func') and not is_string(nonref(fr.F.ex[at[1]]['t']))) and (n == 'operator<<' or o is not None):
                    add('%s: writes the text it is given' % name, fr.F.where(e.get('l')), arg(o, 1), 'writes %s' % (o,))
                s.env[DIRTY] = const(1)
            elif n in ('close', 'flush'):
                s.env[DIRTY] = const(0)
            elif n in ('good', 'fail', 'bad', 'operator bool', 'operator!'):
                add('%s: tells whether the text has been written' % name, fr.F.where(e.get('l')), s.env.get(DIRTY) is const(0), 'asks the stream while text is still in its buffer: that it cannot be written shows only when it is written out')
        if not d['mine'] and name == 'File-ReadAllText' and (n == 'operator>>' or n == 'getline'):
            add('%s: reads the whole text' % name, fr.F.where(e.get('l')), False, '%s leaves characters out' % n)
        return None
    E.on_call = on_call
    x_ctor = E.x_ctor

    def ctor(s, fr, e):
        d = P.decls[e['c']]
        k = kind(P, d)
        if k in ('read', 'write', 'read or write') and not d['mine'] and d['ctor'] not in ('copy', 'move'):
            if e['a']:
                opened(s, fr, e, k, e['a'][0])
                if k == 'write':
                    s.env[DIRTY] = const(0)
                    bad = [fr.F.ex[i] for i in sub(fr.F, e['a'][1:]) if fr.F.ex[i]['k'] in ('var', 'mem') and str(fr.F.ex[i].get('v', fr.F.ex[i].get('f'))).rsplit('::', 1)[-1] in ('app', 'ate', 'in')]
                    add('%s: replaces what was in the file' % name, fr.F.where(e.get('l')), not bad, 'opened to add to the text in the file')
        return x_ctor(s, fr, e)
    E.x_ctor = ctor

    def setup(E, s, fr):
        s.env[DIRTY] = const(0)
    ex = E.run_root(F, setup=setup)
    return [(a, b, ok, t) for (a, b), (ok, t) in out.items()], len(ex)


def sub(F, ids):
    from prog import children
    st, out = [i for i in ids if i is not None and i >= 0], []
    while st:
        i = st.pop()
        out.append(i)
        st += list(children(F.ex[i]))
    return out


def check(P, R, tier):
    fa = common.facts(P)
    bs, root = registry.extract(P, fa, R)
    R.need(len(bs) >= 100, 'only %d builtins found' % len(bs))
    eff, stop = effects(P), apart(P, fa)
    R.need({'read', 'write', 'clock', 'output', 'environment'} <= {k for x in eff.values() for k in x}, 'the operations of the system were not found')
    names = {}
    for b in bs:
        if b.name is not None and b.fn is not None:
            names.setdefault(b.fn.id, []).append(b.name)
    natives = set(names)
    seen = {}
    for f, ns in sorted(names.items()):
        F = P.fns[f]
        rs = common.reach(fa, P, [f], stop)
        seen[f] = got = {}
        for g in rs:
            if g in stop and g != f:
                continue
            for k, e in eff.get(g, {}).items():
                got.setdefault(k, (g, e))
        for n in ns:
            bad = {k: v for k, v in got.items() if k not in MAY.get(n, ())}
            if bad:
                k, (g, e) = sorted(bad.items())[0]
                p = ' > '.join(P.fns[x].short for x in path(fa, f, g, stop))
                R.add('%s: effects' % n, P.fns[g].where(e.get('l')), False, 'a script reaches "%s" through %s (%s)' % (k, n, p))
            else:
                R.add('%s: effects' % n, F.where(), True, '')
            if n in GIVES:
                R.add('%s: does what it is for' % n, F.where(), GIVES[n] in got, '%s does not reach "%s"' % (n, GIVES[n]))
    # the evaluator itself
    ev = [F for F in P.fns.values() if F.short in ('LispInterpreter::EvalAst', 'Lisp::Eval', 'LispParser::Parse', 'LispTokenizer::Tokenize', 'LispEnvironment::CreateDefaultScope', 'LispInterpreter::ExpandMacros')]
    R.need(len(ev) >= 3, 'the evaluator was not found')
    for F in ev:
        rs = common.reach(fa, P, [F.id], (stop | natives) - {F.id})
        bad = sorted({(k, g) for g in rs if g not in natives and (g not in stop or g == F.id) for k in eff.get(g, {}) if k != 'output'})
        R.add('%s: effects' % F.short, F.where(), not bad, '; '.join('reaches "%s" in %s' % (k, P.fns[g].short) for k, g in bad[:3]))
    # the environment: only the search path for modules
    for f, x in sorted(eff.items()):
        F = P.fns[f]
        for e in F.ex.values():
            if e['k'] == 'call' and e.get('c') in P.decls and kind(P, P.decls[e['c']]) == 'environment':
                lit = [F.ex[i]['val'] for i in sub(F, e['a']) if F.ex[i]['k'] == 'str']
                R.add('environment in %s' % F.short, F.where(e.get('l')), lit == ['FUELPATH'] and P.decls[e['c']]['name'].endswith('getenv'), 'asks for %s' % lit)
    n = 0
    for b in bs:
        if b.name in ('File-Exists', 'File-ReadAllText', 'File-WriteAllText'):
            items, ex = files(P, fa, b.fn, b.name)
            R.need(ex, '%s never returns' % b.name)
            for a, w, ok, t in items:
                n += 1
                R.add(a, w, ok, t)
    R.need(n >= 3, 'only %d file operations found' % n)
    R.stats['builtins'] = len(bs)
    R.stats['functions_with_effects'] = len(eff)
