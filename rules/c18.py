"""Two-program comparison.  The library is analysed twice, with and without NDEBUG.  (1) The condition of every assertion
must be free of side effects: no assignment, increment, allocation, exception, modifying library call, stream extraction or
call of a library function whose transitive effects write anything but its own locals.  (2) Every function must consist of
the same operations in both programs once the assertions are taken away; operations that exist in one program only must be
free of side effects by the same criterion.  (3) No public function validates a user-supplied number, name or handle by
an assertion alone.  (4) Both programs define the same functions and classes.
(5) No assertion demands that a member container has elements unless the function itself handles the empty case: such
containers are sized by data and settings (a range of zero width, an empty structure)."""
import difflib, re
import effects, sym

ASSUMPTIONS = ['ticker() may bring its own mutable record up to date: the operation is idempotent and the record is always '
               'read through ticker()',
               'only the NDEBUG macro distinguishes release from debug builds (the build scripts define nothing else)']

PURE_NONCONST = {'operator[]', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'find', 'lower_bound', 'upper_bound', 'get',
                 'operator*', 'operator->', 'at', 'front', 'back', 'operator()', 'data', 'equal_range', 'operator bool'}
MUTATING_OPS = {'=', '+=', '-=', '*=', '/=', '++', '--', '<<=', '>>=', '|=', '&=', '^=', '%='}


def is_assert(fn, n):
    if n['k'] != 'Cond':
        return False
    return any(m['k'] == 'Call' and m.get('fq', '').split('::')[-1] in ('__assert_fail', '__assert', '__assert_rtn')
               for x in n['c'][1:] for m in fn.subtree(x))


def assert_roots(fn):
    return [n for n in fn.all('Cond') if is_assert(fn, n)]


class Purity:
    def __init__(self, P):
        self.P, self.E, self.memo = P, effects.of(P), {}

    def callee_effect(self, f):
        """description of a side effect of the library function or None"""
        if f.usr in self.memo:
            return self.memo[f.usr]
        self.memo[f.usr] = None
        res = None
        if f.name == 'ticker':
            return None
        stop = lambda a, n, b: b.name == 'ticker' or b.ctor
        for (u, c), (g, par, n) in self.E.closure(f, None, stop).items():
            if g.ctor:
                continue
            R, W = self.E.direct(g)
            for r, wn in W.items():
                if r[0] == 'F':
                    # members of a local object are not visible outside
                    o = self.P.fieldowner.get(r[1])
                    if o and o[1]['name'] == 'mticker':
                        continue
                    if not r[2] and self.local_object(g, wn):
                        continue
                    res = 'writes member %s in %s' % (o[1]['name'] if o else r[1], g.short)
                elif r[0] == 'G':
                    res = 'writes %s in %s' % (r[1], g.short)
                elif r[0] == 'V':
                    v = g.vars.get(r[1])
                    if v and g is f and any(p['v'] == r[1] for p in g.params) and v['type'].endswith('&'):
                        res = 'writes its argument %s in %s' % (v['name'], g.short)
                if res:
                    break
            if res:
                break
            for n in g.all('Throw'):
                pass
        self.memo[f.usr] = res
        return res

    def local_object(self, g, n):
        roots = set()
        c = n.get('c', [])
        if c:
            roots = self.E.roots(g, c[0])
        return bool(roots) and all(r[0] == 'V' and not g.vars[r[1]]['type'].endswith(('&', '*')) for r in roots if r[0] != 'F') \
            and any(r[0] == 'V' for r in roots)

    def node(self, fn, n):
        """side effect of one node, children not included"""
        k = n['k']
        if k == 'Assign':
            return 'assignment'
        if k == 'Un' and n['op'] in ('++', '--'):
            return 'increment or decrement'
        if k in ('New', 'Delete', 'Throw'):
            return k.lower()
        if k == 'Return':
            return 'return'
        if k != 'Call':
            return None
        nm = effects.cname(n)
        if nm in ('__assert_fail', '__assert', '__assert_rtn'):
            return None
        if n.get('my'):
            fs = self.E.callees(fn, n, None)
            for f in fs:
                e = self.callee_effect(f)
                if e:
                    return 'call of %s, which %s' % (f.short, e)
            if not fs and not n.get('fc') and n.get('obj') and not n.get('fs'):
                return 'call of modifying %s' % n.get('fq')
            return None
        if n.get('op') in MUTATING_OPS:
            return 'operator%s' % n['op']
        pm = n.get('pm', '')
        if n.get('op') in ('>>', '<<') and 'stream' in n.get('t', ''):
            return 'stream operation'
        if n.get('indirect') or n.get('ptm'):
            return 'indirect call'
        if n.get('obj') and not n.get('fc') and not n.get('fs'):
            if nm in PURE_NONCONST and not (nm == 'operator[]' and 'map<' in n.get('cn', '')):
                return None
            return 'modifying call %s' % n.get('fq')
        if nm in sym.ALGO_OUT and n.get('fq', '').startswith('std::') and nm not in ('inner_product',):
            return 'algorithm %s' % nm
        if nm in ('swap', 'getline', 'rand', 'srand', 'feclearexcept', 'setenv', 'advance', 'next_permutation'):
            return 'call of %s' % nm
        if 'w' in pm and not nm.startswith('operator'):
            if nm in ('begin', 'end', 'get', 'min', 'max', 'addressof', 'move', 'forward', 'ref', 'cref', 'row', 'column',
                      'trans', 'prod', 'make_pair', 'tie', 'subrange', 'project'):
                return None
            return 'call of %s with a modifiable argument' % nm
        return None


def sig(fn, n):
    k = n['k']
    return (k, n.get('op'), n.get('fq') if k in ('Call', 'Ctor') else None, n.get('f') if k == 'Field' else None,
            fn.vars[n['v']]['name'] if k == 'Var' and n.get('v') in fn.vars else None,
            tuple(fn.vars[x['v']]['name'] for x in n['vars']) if k == 'Decl' else None,
            (n.get('val'), n.get('str')) if k == 'Lit' else None, n.get('g') if k == 'Global' else None)


def ordered(fn, skip):
    """nodes in source order without the skipped subtrees"""
    out = []
    seen = set()

    def walk(i):
        if i < 0 or i in seen or i in skip or i not in fn.nodes:
            return
        seen.add(i)
        n = fn.nodes[i]
        if n.get('mac') == 'assert':
            return
        out.append(n)
        for x in n.get('c', ()):
            walk(x)
    for i in fn.inits:
        walk(i)
    walk(fn.body)
    return out


def run(ctx):
    P, D = ctx.P, ctx.Pd
    pur = Purity(D)
    nas = 0
    for f in sorted(D.fns.values(), key=lambda f: (f.file, f.line, f.usr)):
        roots = assert_roots(f)
        if roots:
            ctx.touched(f)
        for k, a in enumerate(roots):
            nas += 1
            what = '%s#%s' % (f.short, text(f, a['c'][0]))
            bad = None
            for n in f.subtree(a['c'][0]):
                e = pur.node(f, n)
                if e:
                    bad = (n, e)
                    break
                # a result buffer shared with the computation
                e = shared_buffer(D, pur.E, f, n, a)
                if e:
                    bad = (n, e)
                    break
            ctx.check(bad is None, 'assertion-pure', what, f.loc(bad[0]) if bad else '',
                      'assertion has a side effect that is lost in release builds: %s' % (bad[1] if bad else ''))
            # the debug build must not stop where the release build goes on with an empty container
            for m in nonempty(f, a['c'][0]):
                ctx.check(tested_elsewhere(f, m, a), 'empty-data', '%s#%s' % (f.short, m['f']), f.loc(a),
                          'the debug build aborts when member %s is empty, which the data or the settings may bring about; the '
                          'release build continues' % m['f'])
            # a value supplied by the user must be validated in both builds
            e = user_value(f, a)
            if e and not validated(D, f, e):
                ctx.bad('user-value-validated', '%s#%s' % (f.short, e['name']), f.loc(a),
                        'argument %s is validated by an assertion only: release builds accept any value' % e['name'])
            elif e:
                ctx.ok('user-value-validated', f.short)
    # the rest of the programs
    for u in sorted(set(P.fns) | set(D.fns)):
        a, b = P.fns.get(u), D.fns.get(u)
        if a is None or b is None:
            f = a or b
            # implicit instantiations reachable from assertions only are harmless
            if b is not None and not f.file.startswith('diffpy'):
                continue
            only = 'debug' if a is None else 'release'
            if a is None and (not b.cls or b.targs or b.d.get('inst')) and is_instance(b):
                continue
            ctx.bad('same-functions', f.short, f.loc(), 'function exists only in the %s build' % only)
            continue
        skip = {n['i'] for n in assert_roots(b)}
        na, nb = ordered(a, set()), ordered(b, skip)
        sa, sb = [sig(a, n) for n in na], [sig(b, n) for n in nb]
        # the void casts that assertions leave behind
        trivial = lambda s: s[0] in ('Cast', 'NullStmt', 'CompoundStmt', 'IfStmt') or (s[0] == 'Lit' and s[6] in (('0', None), (0, None)))
        if [s for s in sa if not trivial(s)] == [s for s in sb if not trivial(s)]:
            ctx.ok('same-operations', f.short if False else a.short)
            continue
        bad = None
        sm = difflib.SequenceMatcher(None, sa, sb, autojunk=False)
        for tag, i1, i2, j1, j2 in sm.get_opcodes():
            if tag == 'equal':
                continue
            for fn, lst, pr, which in ((a, na[i1:i2], Purity(P) if i2 > i1 else None, 'release'), (b, nb[j1:j2], pur, 'debug')):
                for n in lst:
                    e = pr.node(fn, n)
                    if not e and n['k'] in ('Init',):
                        e = 'initialization'
                    if e:
                        bad = bad or (fn, n, '%s happens only in the %s build' % (e, which))
        if bad is None:
            # differing pure operations matter only if their values are used by common code: a local of one build only is
            # invisible to the other, so the remaining risk is a differing expression inside of a common statement
            for tag, i1, i2, j1, j2 in sm.get_opcodes():
                if tag == 'replace' or (tag != 'equal' and common_parent(a, b, na, nb, i1, i2, j1, j2)):
                    lst = na[i1:i2] or nb[j1:j2]
                    bad = (a if i2 > i1 else b, lst[0], 'the two builds compute different expressions')
                    break
        ctx.check(bad is None, 'same-operations', a.short, bad[0].loc(bad[1]) if bad else '', bad[2] if bad else '')
    for u in set(P.recs) ^ set(D.recs):
        r = P.recs.get(u) or D.recs.get(u)
        if r.d.get('lambda') or r.targs:
            continue
        ctx.bad('same-classes', r.short, 'src/%s:%s' % (r.file, r.line), 'class exists in one build only')
    ctx.need(nas >= 40, 'only %d assertions found in the debug program' % nas)


def user_value(f, a):
    if f.access != 0:
        return None
    for n in f.subtree(a['c'][0]):
        if n['k'] != 'Var':
            continue
        for p in f.params:
            if p['v'] != n['v']:
                continue
            t = p['type'].replace('const ', '').rstrip(' &')
            if t in ('double', 'std::string', 'std::basic_string<char>') or 'shared_ptr<' in t or \
                    (re.match('set[A-Z_]|setup', f.name) and f.cls and not f.const):
                return p
    return None


def validated(P, f, p):
    def uses(n):
        return any(m['k'] == 'Var' and m['v'] == p['v'] for m in f.subtree(n['i']))
    for n in f.all('Call'):
        if n.get('my') and uses(n):
            for g in effects.of(P).callees(f, n, None):
                if any(True for x in g.all('Throw')):
                    return True
    par = f.parents()
    for n in f.all('Throw'):
        x = par.get(n['i'])
        while x is not None:
            m = f.nodes[x]
            if m['k'] == 'IfStmt' and m['c'] and uses(m):
                return True
            x = par.get(x)
    return False


CONTAINER = re.compile(r'std::(vector|list|deque|map|set|unordered_\w+|valarray)\b')


def size_query(fn, i, names):
    """the member container queried by the call at i or None"""
    while i in fn.nodes and fn.nodes[i]['k'] in ('Cast', 'Paren'):
        i = fn.nodes[i]['c'][0]
    n = fn.nodes.get(i)
    if not n or n['k'] != 'Call' or effects.cname(n).split('::')[-1] not in names or not n.get('c') or not n.get('obj'):
        return None
    o = fn.nodes.get(n['c'][0])
    return o if o and o['k'] == 'Field' and CONTAINER.search(n.get('cn') or '') else None


def nonempty(fn, i):
    """member containers that must have elements for the condition at i to hold"""
    n = fn.nodes.get(i)
    if n is None:
        return []
    if n['k'] in ('Cast', 'Paren'):
        m = size_query(fn, i, ('size',))
        return [m] if m else nonempty(fn, n['c'][0])
    if n['k'] == 'Bin' and n['op'] == '&&':
        return nonempty(fn, n['c'][0]) + nonempty(fn, n['c'][1])
    if n['k'] == 'Un' and n['op'] == '!':
        m = size_query(fn, n['c'][0], ('empty',))
        if m:
            return [m]
        x = fn.nodes.get(n['c'][0])
        while x and x['k'] in ('Cast', 'Paren'):
            x = fn.nodes.get(x['c'][0])
        if x and x['k'] == 'Un' and x['op'] == '!':
            return nonempty(fn, x['c'][0])
        return []
    if n['k'] == 'Bin' and n['op'] in ('>', '<', '!=', '>=', '<='):
        a, b = n['c'] if n['op'] in ('>', '!=', '>=') else n['c'][::-1]
        m = size_query(fn, a, ('size',))
        z = fn.nodes.get(b)
        while z and z['k'] == 'Cast':
            z = fn.nodes.get(z['c'][0])
        if m and z and z['k'] == 'Lit' and str(z.get('val')) == ('1' if '=' in n['op'][1:] and n['op'] != '!=' else '0'):
            return [m]
    return []


def tested_elsewhere(fn, m, a):
    inside = {x['i'] for x in fn.subtree(a['i'])}
    for n in fn.all('Call'):
        if n['i'] not in inside and n.get('mac') != 'assert' and effects.cname(n).split('::')[-1] in ('empty',):
            o = size_query(fn, n['i'], ('empty',))
            if o and o['f'] == m['f']:
                return True
    return False


def is_instance(f):
    return '<' in f.usr or bool(f.targs)


STATEMENTS = {'CompoundStmt', 'IfStmt', 'ForStmt', 'WhileStmt', 'DoStmt', 'SwitchStmt', 'Case', 'DefaultStmt', 'CXXTryStmt',
              'CXXCatchStmt', 'CXXForRangeStmt'}


def common_parent(a, b, na, nb, i1, i2, j1, j2):
    """the differing nodes are operands of an expression that both builds have"""
    fn, lst = (a, na[i1:i2]) if i2 > i1 else (b, nb[j1:j2])
    if not lst:
        return False
    ids = {n['i'] for n in lst}
    par = fn.parents()
    for n in lst:
        p = par.get(n['i'])
        if p is None or p in ids:
            continue
        if fn.nodes[p]['k'] not in STATEMENTS:
            return True
    return False


def shared_buffer(P, E, fn, n, aroot):
    if n['k'] != 'Call' or not n.get('my'):
        return None
    inside = {m['i'] for m in fn.subtree(aroot['i'])}
    for f in E.callees(fn, n, None):
        if not f.ret.endswith('&'):
            continue
        if any(r[0] == 'V' and f.vars.get(r[1], {}).get('static') for r in E.retroots(f)):
            for m in fn.all('Call'):
                if m['i'] not in inside and m.get('fn') == n.get('fn'):
                    return 'overwrites the static result of %s that the function also uses' % f.short
    return None


def text(fn, i):
    out = []
    for n in sorted(fn.subtree(i), key=lambda n: n['i']):
        if n['k'] == 'Var':
            out.append(fn.vars[n['v']]['name'])
        elif n['k'] == 'Field':
            out.append(n['f'])
        elif n['k'] == 'Call':
            out.append(effects.cname(n))
        elif n['k'] in ('Bin',):
            out.append(n['op'])
        elif n['k'] == 'Lit':
            out.append(str(n.get('val', n.get('str'))))
    return ' '.join(sorted(out))[:100]
