"""pretty-prints an exported expression (used to identify a construct independently of its line)"""


def ex(P, F, i, d=0):
    e = F.ex.get(i)
    if e is None:
        return '?'
    if d > 8:
        return '..'
    k = e['k']

    def r(j):
        return ex(P, F, j, d + 1)
    if k == 'var':
        v = e['v']
        return v.split(':')[1] if v.startswith('v:') else v.split(':', 1)[1] if ':' in v else v
    if k == 'fn':
        return P.decls[e['c']]['name'].replace('CppLisp::', '') if e['c'] in P.decls else 'fn'
    if k in ('enum', 'int', 'bool', 'float'):
        return str(e.get('name', e.get('val')))
    if k == 'str':
        return '"%s"' % e['val']
    if k == 'null':
        return 'null'
    if k == 'this':
        return 'this'
    if k == 'mem':
        return '%s%s%s' % (r(e['b']), '->' if e['arrow'] else '.', e['f'])
    if k == 'call':
        dd = P.decls.get(e.get('c'))
        a = [r(x) for x in e.get('a', ()) if x >= 0]
        if dd is None:
            return '%s(%s)' % (r(e['fx']) if e.get('fx', -1) >= 0 else '?', ', '.join(a))
        n = dd['name'].rsplit('::', 1)[-1]
        if 'o' in e and e['o'] >= 0:
            o = r(e['o'])
            if n == 'operator->':
                return o
            if n == 'operator*' and not a:
                return '*' + o
            if n == 'operator[]':
                return '%s[%s]' % (o, ', '.join(a))
            if n == 'operator()':
                return '%s(%s)' % (o, ', '.join(a))
            if n.startswith('operator') and len(a) == 1:
                return '(%s %s %s)' % (o, n[8:], a[0])
            return '%s.%s(%s)' % (o, n, ', '.join(a))
        if n.startswith('operator') and len(a) == 2:
            return '(%s %s %s)' % (a[0], n[8:], a[1])
        return '%s(%s)' % (n, ', '.join(a))
    if k == 'ctor':
        a = [r(x) for x in e['a'] if x >= 0]
        if e.get('elide') or len(a) == 1 and P.decls[e['c']].get('ctor') in ('copy', 'move'):
            return a[0] if a else ''
        return '%s(%s)' % (P.decls[e['c']]['name'].rsplit('::', 1)[-1], ', '.join(a))
    if k == 'un':
        return e['op'] + r(e['e'])
    if k in ('bin', 'asg'):
        return '(%s %s %s)' % (r(e['e']), e['op'], r(e['r']))
    if k == 'cond':
        return '(%s ? %s : %s)' % (r(e['c0']), r(e['e']), r(e['r']))
    if k == 'idx':
        return '%s[%s]' % (r(e['e']), r(e['r']))
    if k in ('load', 'cast', 'opaque', 'delete', 'throw', 'new'):
        s = r(e['e']) if e.get('e', -1) >= 0 else ''
        return s if k in ('load', 'cast', 'opaque') else k + ' ' + s
    if k == 'lambda':
        return 'lambda'
    return k
