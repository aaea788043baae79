"""Iteration order of hash containers.  All loops that advance an iterator of a hash container, all algorithms and range
operations that take such iterators, and all loops over sequences that were filled in hash order are enumerated by type.
Every effect of a loop body (also inside called functions and lambdas) on storage that outlives one iteration is classified.
Order-insensitive effects are: change of the visited item itself, insertion into a set, insertion or assignment under the
unique key of the visited item, sums, counters, minimum, maximum and logical accumulation, assignment of one constant.
Everything else is reported: keyed assignments where different items can collide, values that depend on earlier iterations,
sequences that are returned or stored without being sorted, an early exit whose result depends on the item."""
import effects, sym

ASSUMPTIONS = ['sums of numbers are taken as independent of the order of terms (they can differ by rounding)',
               'a sequence counts as ordered after std::sort or a sort method was applied to it']
HASHIT = ('_Node_iterator', '_Node_const_iterator', '_Local_iterator')
SEQ = ('std::vector', 'std::list', 'std::deque', 'std::basic_string', 'std::basic_ostream', 'std::basic_ostringstream',
       'std::basic_stringstream', 'diffpy::srreal::QuantityType')
LOOPS = ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt')
RANK = {'inv': 0, 'key': 1, 'item': 1, 'dep': 2, 'carried': 3}


def hashtype(t):
    return any(h in t for h in HASHIT)


def join(a, b):
    if a == b:
        return a
    if 'carried' in (a, b):
        return 'carried'
    return 'dep' if a != 'inv' or b != 'inv' else 'inv'


class Scan:
    """effects of one loop body"""

    def __init__(self, P, fn):
        self.P, self.E, self.fn = P, effects.of(P), fn
        self.events = []        # (kind, target, key dependence, value dependence, node, fn)
        self.stack = []
        self.selfcopies = {}

    # dependence of an expression on the visited item and on earlier iterations
    def dep(self, fn, i, env, d=0):
        n = fn.nodes.get(i)
        if n is None:
            return 'inv'
        if d > 40:
            return 'dep'
        k, c = n['k'], [x for x in n.get('c', ()) if x >= 0]
        if k == 'Var':
            return env.get(n['v'], 'inv')
        if k == 'Field' and not c:
            return 'inv'
        if k == 'Field':
            on = fn.nodes[c[0]]
            if on['k'] == 'This':
                return 'carried' if n['fu'] in self.modfields else 'inv'
            b = self.dep(fn, c[0], env, d + 1)
            if b == 'item' and n['f'] == 'first':
                return 'key'
            return 'dep' if b in ('item', 'key') else b
        if k == 'Global':
            return 'inv'
        if k in ('Cast', 'DefArg', 'Index') and len(c) == 1:
            return self.dep(fn, c[0], env, d + 1)
        if k == 'Un' and n['op'] in ('*', '&') or k == 'Call' and n.get('op') in ('*', '->') and len(c) == 1:
            return self.dep(fn, c[0], env, d + 1)
        if k == 'Ctor' and (n.get('copy') or len(c) == 1):
            return self.dep(fn, c[0], env, d + 1) if c else 'inv'
        ds = [self.dep(fn, x, env, d + 1) for x in c if fn.nodes[x]['k'] not in ('Method', 'Func')]
        if k == 'Call' and effects.cname(n) in ('make_pair', 'forward', 'move', 'cref', 'ref', 'get') or k == 'Ctor' and 'pair<' in n.get('cn', '') \
                or k == 'InitList':
            if 'key' in ds and 'carried' not in ds and effects.cname(n) != 'get':
                return 'key'
        if k == 'Call' and effects.cname(n) in ('size', 'count') and 'carried' in ds:
            return 'carried'
        r = 'inv'
        for x in ds:
            r = 'carried' if 'carried' in (x, r) else ('dep' if x != 'inv' or r != 'inv' else 'inv')
        if k == 'Call' and n.get('my') and n.get('fn'):
            # a function that reads what the loop changes
            for g in self.E.callees(fn, n, None):
                R, W = self.E.trans(g)
                if any(x[0] == 'F' and x[1] in self.modfields for x in R):
                    return 'carried'
        return r

    def base(self, fn, i, env, d=0):
        """(root, key dependences, through the item?) of an lvalue expression"""
        keys = []
        item = False
        while i is not None and i >= 0 and d < 40:
            d += 1
            n = fn.nodes[i]
            k, c = n['k'], [x for x in n.get('c', ()) if x >= 0]
            if k == 'Var':
                v = n['v']
                al = self.alias.get((fn.usr, v))
                if al is not None:
                    return al[0], keys + al[1], item or al[2]
                if env.get(v) in ('item', 'key') and v in self.itvars and fn is self.fn:
                    return ('item',), keys, True
                if v in self.itvars and fn is self.fn:
                    return ('item',), keys, True
                return ('V', fn.usr, v), keys, item
            if k == 'Field':
                if c and fn.nodes[c[0]]['k'] == 'This' or not c:
                    return ('F', n['fu']), keys, item
                keys = keys
                i = c[0]
                continue
            if k == 'This':
                return ('T',), keys, item
            if k == 'Global':
                return ('G', n['g']), keys, item
            if k == 'Index' and len(c) == 2:
                keys.append(self.dep(fn, c[1], env))
                i = c[0]
                continue
            if k == 'Call':
                nm = effects.cname(n)
                if nm in ('operator[]', 'at', 'operator()', 'find', 'lower_bound') and len(c) > 1:
                    ks = [self.dep(fn, x, env) for x in c[1:]]
                    keys.append('key' if ks == ['key'] else 'carried' if 'carried' in ks else 'dep' if any(x != 'inv' for x in ks) else 'inv')
                if c:
                    i = c[0]
                    continue
                return None, keys, item
            if k in ('Cast', 'Un', 'Ctor', 'Assign', 'DefArg') and c:
                i = c[0]
                continue
            return None, keys, item
        return None, keys, item

    def event(self, kind, fn, n, target, env, val='inv', inside=()):
        root, keys, item = self.base(fn, target, env)
        if root is None:
            return
        if item:
            if val == 'carried':
                self.events.append(('carried', root, 'key', val, n, fn))
            return
        if root[0] == 'V' and root[2] in self.inner.get(root[1], ()):
            return                  # lives for one iteration only
        key = 'inv'
        for x in keys:
            key = x if key == 'inv' else 'carried' if 'carried' in (x, key) else 'dep' if x != 'key' and x != 'inv' else key
        self.events.append((kind, root, key, val, n, fn))

    def argsdep(self, fn, ids, env):
        ds = [self.dep(fn, x, env) for x in ids]
        return 'carried' if 'carried' in ds else 'key' if ds and ds[0] == 'key' else 'dep' if any(x != 'inv' for x in ds) else 'inv'

    def rhs(self, fn, lhs, i, env):
        """dependence of an assigned value; x[k] = x[fixed] copies an item that the loop can only assign to itself"""
        d = self.dep(fn, i, env)
        if d == 'carried':
            tr, tk, ti = self.base(fn, lhs, env)
            vr, vk, vi = self.base(fn, i, env)
            if tr == vr and vk and all(x == 'inv' for x in vk) and tk:
                self.selfcopies.setdefault(tr, set()).add(self.text(fn, i))
                if len(self.selfcopies[tr]) == 1:
                    return 'dep' if tk[0] != 'key' else 'key'
        return d

    def text(self, fn, i):
        n = fn.nodes.get(i)
        if n is None:
            return '?'
        while n['k'] in ('Cast',) or n['k'] == 'Ctor' and n.get('copy'):
            n = fn.nodes[n['c'][0]]
        return (n['k'], n.get('v'), n.get('fu'), n.get('g'), n.get('op'), n.get('fn'), n.get('val')) + \
            tuple(self.text(fn, x) for x in n.get('c', ()) if x >= 0)

    def samevar(self, fn, a, b):
        return self.text(fn, a) == self.text(fn, b)

    def accumulation(self, fn, lhs, rhs):
        """x = max(x, e), x = x + e, x = x || e, x = c ? true : x"""
        n = fn.nodes[rhs]
        while n['k'] in ('Cast', 'Ctor') and len(n.get('c', ())) == 1:
            n = fn.nodes[n['c'][0]]
        c = [x for x in n.get('c', ()) if x >= 0]
        if n['k'] == 'Call' and effects.cname(n) in ('max', 'min', 'fmax', 'fmin'):
            return any(self.samevar(fn, lhs, x) for x in c)
        if n['k'] == 'Bin' and n['op'] in ('+', '||', '&&', '|', '&', '*', '^'):
            return any(self.samevar(fn, lhs, x) for x in c) or any(self.accumulation(fn, lhs, x) for x in c if n['op'] == '+')
        if n['k'] == 'Bin' and n['op'] == '-':
            return self.samevar(fn, lhs, c[0]) or self.accumulation(fn, lhs, c[0])
        if n['k'] == 'Cond' and len(c) == 3:
            br = c[1:]
            if any(self.samevar(fn, lhs, x) for x in br):
                o = [x for x in br if not self.samevar(fn, lhs, x)]
                if not o or all(fn.nodes[x]['k'] == 'Lit' for x in o):
                    return True
                # maximum written out
                cn = fn.nodes[c[0]]
                return cn['k'] == 'Bin' and cn['op'] in ('<', '>', '<=', '>=') and \
                    any(self.samevar(fn, lhs, x) for x in cn['c']) and any(self.samevar(fn, o[0], x) for x in cn['c'])
        return False

    def guarded_minmax(self, fn, n):
        """if (x < e) x = e"""
        par = fn.parents()
        c = n['c']
        i, p = n['i'], par.get(n['i'])
        while p is not None and fn.nodes[p]['k'] in ('CompoundStmt',):
            if len([x for x in fn.nodes[p]['c'] if x >= 0]) > 1 and False:
                return False
            i, p = p, par.get(p)
        if p is None or fn.nodes[p]['k'] != 'IfStmt':
            return False
        for m in fn.subtree(fn.nodes[p]['c'][0]):
            if m['k'] == 'Bin' and m['op'] in ('<', '>', '<=', '>='):
                x, y = m['c']
                if self.samevar(fn, x, c[0]) and self.samevar(fn, y, c[1]) or self.samevar(fn, y, c[0]) and self.samevar(fn, x, c[1]):
                    return True
        return False

    def scan(self, fn, nodes, env, depth=0):
        if depth > 4 or fn.usr in self.stack:
            return
        self.stack.append(fn.usr)
        for n in nodes:
            k, c = n['k'], [x for x in n.get('c', ()) if x >= 0]
            if k == 'Assign':
                if n['op'] == '=':
                    if self.accumulation(fn, c[0], c[1]) or self.guarded_minmax(fn, n):
                        self.event('acc', fn, n, c[0], env)
                    else:
                        self.event('set', fn, n, c[0], env, self.rhs(fn, c[0], c[1], env))
                elif n['op'] in ('+=', '-=', '*=', '|=', '&=', '^='):
                    v = self.dep(fn, c[1], env)
                    self.event('acc' if v != 'carried' else 'carried', fn, n, c[0], env, v)
                else:
                    self.event('set', fn, n, c[0], env, 'carried')
            elif k == 'Un' and n['op'] in ('++', '--'):
                on = fn.nodes[c[0]]
                if not (on['k'] == 'Var' and 'iterator' in fn.vars[on['v']]['type']):
                    self.event('acc', fn, n, c[0], env)
            elif k == 'Ctor' and not n.get('my'):
                for x, m in zip(c, n.get('pm', '')):
                    if m in 'wq':
                        self.event('set', fn, n, x, env, 'dep')
            elif k == 'Call' and not n.get('my'):
                self.stdcall(fn, n, c, env, depth)
            if k in ('Call', 'Ctor') and n.get('my'):
                self.owncall(fn, n, c, env, depth)
        self.stack.pop()

    def stdcall(self, fn, n, c, env, depth):
        nm = effects.cname(n)
        cn = n.get('cn', '')
        t = n.get('t', '')
        if n.get('obj') and c:
            on = fn.nodes[c[0]]
            if 'iterator' in cn and nm.startswith('operator'):
                if nm == 'operator=' and False:
                    pass
                return
            if n.get('fc') or n.get('fs'):
                return
            args = c[1:]
            if 'iterator' in cn:
                return
            if nm == 'operator=':
                if self.accumulation(fn, c[0], c[1]):
                    self.event('acc', fn, n, c[0], env)
                elif not hashtype(cn):
                    self.event('set', fn, n, c[0], env, self.rhs(fn, c[0], c[1], env))
                return
            if cn.startswith(effects.SMARTS) and nm == 'reset':
                self.event('set', fn, n, c[0], env, self.argsdep(fn, args, env))
                return
            if cn.startswith(SEQ) or cn.startswith('std::__cxx11::basic_string'):
                if nm in ('push_back', 'push_front', 'emplace_back', 'emplace_front', 'append', 'operator+=', 'insert', 'emplace', 'operator<<',
                          'splice', 'merge', 'write', 'put'):
                    self.event('seq', fn, n, c[0], env, self.argsdep(fn, args, env))
                elif nm in ('clear', 'resize', 'reserve', 'assign', 'pop_back', 'pop_front', 'erase'):
                    v = self.argsdep(fn, args, env)
                    if nm in ('pop_back', 'pop_front', 'erase'):
                        v = 'carried'
                    if nm != 'reserve':
                        self.event('set', fn, n, c[0], env, v)
                elif nm in ('sort', 'unique', 'reverse'):
                    pass
                return
            if 'map<' in cn.split('<')[0] + '<' or 'set<' in cn.split('<')[0] + '<':
                ismap = 'map<' in cn.split('<')[0] + '<'
                if nm in ('insert', 'emplace', 'emplace_hint'):
                    v = self.argsdep(fn, args, env)
                    if ismap and 'multi' not in cn:
                        # the key of make_pair(key, value)
                        self.event('mapinsert', fn, n, c[0], env, v)
                    else:
                        self.event('insert', fn, n, c[0], env, v)
                elif nm == 'erase':
                    # erasing the visited item
                    v = self.argsdep(fn, args, env)
                    root, keys, item = self.base(fn, args[0], env) if args else (None, [], False)
                    if not (root == ('item',)):
                        self.event('erase', fn, n, c[0], env, v)
                elif nm == 'clear':
                    self.event('set', fn, n, c[0], env, 'inv')
                elif nm in ('operator[]',):
                    pass
                return
            if nm in ('begin', 'end', 'find', 'get', 'at', 'operator[]', 'operator*', 'operator->', 'front', 'back', 'data', 'operator()', 'lower_bound'):
                return
            self.event('set', fn, n, c[0], env, 'dep')
            return
        if n.get('op') == '<<' and c:
            self.event('seq', fn, n, c[0], env, self.argsdep(fn, c[1:], env))
            return
        if nm in ('sort', 'stable_sort', 'reverse', 'swap') and c:
            return
        pos = sym.ALGO_OUT.get(nm)
        if pos is not None and n.get('fq', '').startswith('std::'):
            if nm == 'transform':
                pos = (2,) if len(c) == 4 else (3,)
            for p in pos:
                if p < len(c):
                    on = fn.nodes[c[p]]
                    while on['k'] in ('Cast', 'Ctor') and on.get('c'):
                        on = fn.nodes[on['c'][0]]
                    if on['k'] == 'Call' and effects.cname(on) in ('inserter',):
                        self.event('insert', fn, n, on['c'][0], env)
                    elif on['k'] == 'Call' and effects.cname(on) in ('back_inserter', 'front_inserter'):
                        self.event('seq', fn, n, on['c'][0], env)
                    else:
                        self.event('set', fn, n, c[p], env, self.argsdep(fn, [x for q, x in enumerate(c) if q != p], env))
            return
        for x, m in zip(c, n.get('pm', '')):
            if m in 'wq':
                xn = fn.nodes[x]
                if xn['k'] == 'Var' and 'iterator' in fn.vars[xn['v']]['type']:
                    continue
                if nm in ('swap', 'get', 'move', 'forward', 'make_pair', 'tie', 'begin', 'end', 'ref', 'back_inserter', 'inserter'):
                    continue
                self.event('set', fn, n, x, env, 'dep')

    def owncall(self, fn, n, c, env, depth):
        args = c[1:] if n['k'] == 'Call' and n.get('obj') else c
        for g in self.E.callees(fn, n, None):
            if not g.blocks or g.const:
                continue            # queries; their caches are covered by other properties
            R, W = self.E.trans(g)
            if not any(r[0] in ('F',) for r in W) and not any(m in 'wq' for m in n.get('pm', '')):
                continue
            if n['k'] == 'Ctor':
                continue
            genv, amap = {}, {}
            pv = [p['v'] for p in g.params]
            for v, x in zip(pv, args):
                genv[v] = self.dep(fn, x, env)
                if g.vars[v]['type'].endswith(('&', '*')):
                    amap[(g.usr, v)] = self.base(fn, x, env)
            obj = None
            if n['k'] == 'Call' and n.get('obj') and c and fn.nodes[c[0]]['k'] != 'This':
                obj = self.base(fn, c[0], env)
                if obj[2] or obj[0] and obj[0][0] == 'V' and obj[0][2] in self.inner.get(obj[0][1], ()):
                    continue            # changes the visited item or a local object
            self.alias.update({a: b for a, b in amap.items() if b[0] is not None})
            self.inner.setdefault(g.usr, set()).update(v for v in g.vars if v not in pv and not g.vars[v]['static'])
            self.inner[g.usr].update(v for v in pv if not g.vars[v]['type'].endswith(('&', '*')))
            self.locals_env(g, list(g.all()), genv)
            self.scan(g, list(g.all()), genv, depth + 1)

    def locals_env(self, fn, nodes, env):
        """dependence of variables that are declared or assigned in the nodes"""
        for _ in range(6):
            before = dict(env)
            for n in nodes:
                if n['k'] == 'Decl':
                    for vo in n['vars']:
                        if vo['init'] >= 0:
                            d = self.dep(fn, vo['init'], env)
                            v = vo['v']
                            if v in self.itvars and fn is self.fn:
                                continue
                            env[v] = d if v not in env or env[v] == 'inv' else join(env[v], d)
                            t = fn.vars[v]['type']
                            if t.endswith('&') or 'iterator' in t or t.endswith('*') or 'shared_ptr' in t:
                                b = self.base(fn, vo['init'], env)
                                if b[0] is not None and (fn.usr, v) not in self.alias and b[0] != ('V', fn.usr, v):
                                    self.alias[(fn.usr, v)] = b
                elif n['k'] == 'Assign' or n['k'] == 'Call' and n.get('op') == '=' and len(n.get('c', ())) == 2:
                    x = fn.nodes[n['c'][0]]
                    if x['k'] == 'Var' and x['v'] in self.inner.get(fn.usr, ()) and not (x['v'] in self.itvars and fn is self.fn):
                        d = self.dep(fn, n['c'][1], env)
                        env[x['v']] = d if env.get(x['v'], 'inv') == 'inv' else join(env[x['v']], d)
            if env == before:
                break


def loopof(fn, i):
    par = fn.parents()
    p = par.get(i)
    while p is not None:
        if fn.nodes[p]['k'] in LOOPS:
            return p
        p = par.get(p)
    return None


def advanced(fn, pred):
    """{loop id: set(iterator variables)} for loops that advance a variable satisfying the predicate"""
    out = {}
    for n in fn.all('Call', 'Un', 'Assign'):
        c = n.get('c', ())
        ok = n['k'] == 'Un' and n['op'] in ('++', '--') or n['k'] == 'Call' and n.get('op') in ('++', '--', '=', '+=') and n.get('obj') or \
            n['k'] == 'Call' and effects.cname(n) == 'advance' or n['k'] == 'Assign' and n['op'] in ('=', '+=')
        if not ok or not c or c[0] < 0:
            continue
        x = fn.nodes[c[0]]
        if x['k'] != 'Var' or not pred(x['v']):
            continue
        if n.get('op') == '=':
            # only "it = next(it)" and "it = h.erase(it)" advance
            rhs = list(fn.subtree(c[1]))
            if not any(m['k'] == 'Var' and m['v'] == x['v'] for m in rhs):
                continue
        L = loopof(fn, n['i'])
        # the head of a for statement initializes the iterator outside of the cycle
        if L is not None:
            if n.get('op') in ('=',) and fn.nodes[L]['k'] == 'ForStmt' and not any(m['k'] == 'Var' and m['v'] == x['v'] for m in fn.subtree(c[1])):
                continue
            out.setdefault(L, set()).add(x['v'])
    return out


def container(fn, L, itv, E):
    """name of the iterated container"""
    names = set()
    for n in fn.all('Decl', 'Assign', 'Call'):
        ini = None
        if n['k'] == 'Decl':
            for vo in n['vars']:
                if vo['v'] in itv and vo['init'] >= 0:
                    ini = vo['init']
        elif n.get('op') == '=' and len(n.get('c', ())) == 2 and fn.nodes[n['c'][0]]['k'] == 'Var' and fn.nodes[n['c'][0]]['v'] in itv:
            ini = n['c'][1]
        if ini is None:
            continue
        for r in E.roots(fn, ini):
            if r[0] == 'F':
                names.add(E.P.fieldowner[r[1]][1]['name'] if r[1] in E.P.fieldowner else '?')
            elif r[0] == 'V' and r[1] not in itv and not fn.vars[r[1]]['name'].startswith('__'):
                names.add(fn.vars[r[1]]['name'])
    return '+'.join(sorted(names)) or 'container'


def rootname(P, fn, r):
    if r is None:
        return '?'
    if r[0] == 'F':
        return P.fieldowner[r[1]][1]['name'] if r[1] in P.fieldowner else '?'
    if r[0] == 'V':
        f = P.fns.get(r[1])
        return f.vars[r[2]]['name'] if f else '?'
    return str(r[-1])


def analyze(ctx, fn, L, itv, elem, tainted):
    """elem: dependence of the dereferenced iterator ('item' for maps and sets)"""
    P, E = ctx.P, effects.of(ctx.P)
    S = Scan(P, fn)
    nodes = [n for n in fn.subtree(L)]
    body = {n['i'] for n in nodes}
    S.itvars = set(itv)
    S.alias = {}
    inner = set()
    for n in nodes:
        if n['k'] == 'Decl':
            inner |= {vo['v'] for vo in n['vars']}
    inner |= set(itv)
    S.inner = {fn.usr: inner}
    S.modfields = set()
    env = {v: elem for v in itv}
    # what the loop changes
    mod = set()
    for n in nodes:
        if n['k'] in ('Call', 'Ctor') and n.get('my'):
            for g in E.callees(fn, n, None):
                if g.const:
                    continue
                R, W = E.trans(g)
                S.modfields |= {r[1] for r in W if r[0] == 'F'}
    R, W = {}, {}
    d0 = {}
    tmp = Scan(P, fn)
    for n in nodes:
        if n['k'] == 'Assign' or n['k'] == 'Un' and n['op'] in ('++', '--') or n['k'] == 'Call' and not n.get('fc') and n.get('obj') \
                and not n.get('my') and effects.cname(n) in ('operator=', 'insert', 'emplace', 'push_back', 'push_front', 'erase', 'clear',
                                                             'reset', 'operator+=', 'emplace_back', 'append'):
            c = n['c']
            x = fn.nodes[c[0]]
            if x['k'] == 'Var' and ('iterator' in fn.vars[x['v']]['type'] or fn.vars[x['v']]['type'].endswith('*')):
                if x['v'] not in inner:
                    mod.add(x['v'])
                continue
            for r in E.roots(fn, c[0]):
                if r[0] == 'V' and r[1] not in inner:
                    mod.add(r[1])
                elif r[0] == 'F':
                    S.modfields.add(r[1])
    # a variable that every iteration assigns before any other use lives for one iteration
    par = fn.parents()
    for v in sorted(mod | {n['v'] for n in nodes if n['k'] == 'Var' and n['v'] not in inner}):
        refs = sorted(n['i'] for n in nodes if n['k'] == 'Var' and n['v'] == v)
        if not refs or refs[0] in {m['i'] for m in fn.subtree(fn.nodes[L]['c'][0])} if fn.nodes[L]['k'] == 'ForStmt' and fn.nodes[L]['c'][0] >= 0 else not refs:
            continue
        p = par.get(refs[0])
        pn = fn.nodes.get(p)
        if pn is None or pn.get('op') != '=' or pn['k'] not in ('Assign', 'Call') or pn['c'][0] != refs[0]:
            continue
        cond = False
        q = p
        while q != L:
            up = par.get(q)
            un = fn.nodes[up]
            if un['k'] in ('IfStmt', 'Cond', 'SwitchStmt', 'CXXTryStmt') or un['k'] in LOOPS and up != L and not (
                    un['k'] == 'ForStmt' and un['c'][0] == q):
                cond = True
            q = up
        if cond or derefs_after(fn, body, v, True):
            continue
        inner.add(v)
        mod.discard(v)
    # fields of the visited item are not carried
    own = set()
    for v in itv:
        own |= {r[1] for r in E.aliases(fn).get(v, ()) if r[0] == 'F'}
    S.modfields -= own
    for v in mod:
        env[v] = 'carried'
    # a constant flag carries no information on the order that matters
    consts = {}
    for n in nodes:
        if n['k'] == 'Assign' and fn.nodes[n['c'][0]]['k'] == 'Var':
            consts.setdefault(fn.nodes[n['c'][0]]['v'], []).append(n)
    S.locals_env(fn, nodes, env)
    skip = set()
    for n in nodes:
        if n['k'] == 'Lambda':
            pass
    # iterator initialization in the head of the loop is not an effect
    head = set()
    ln = fn.nodes[L]
    if ln['k'] == 'ForStmt':
        for x in ln['c']:
            if x >= 0 and fn.nodes[x]['k'] != 'CompoundStmt':
                xn = fn.nodes[x]
                if xn['k'] == 'Call' and xn.get('op') == '=' or xn['k'] == 'Assign' and xn.get('op') == '=':
                    head |= {m['i'] for m in fn.subtree(x)}
                break
    S.scan(fn, [n for n in nodes if n['i'] not in head], env)
    cont = container(fn, L, itv, E)
    where = fn.loc(fn.nodes[L])
    label = '%s#%s' % (fn.short.split('(')[0], cont)
    ctx.touched(fn)
    bad = []
    groups = {}
    for e in S.events:
        groups.setdefault(e[1], []).append(e)
    for root, evs in sorted(groups.items(), key=str):
        rn = rootname(P, fn, root)
        kinds = {e[0] for e in evs}
        for kind, _, key, val, n, f in evs:
            if val == 'carried' and kind != 'acc' or key == 'carried':
                bad.append((rn, f.loc(n), 'the value stored in %s depends on items visited before' % rn))
            elif kind == 'acc' and 'set' in kinds and any(e[0] == 'set' and e[2] != 'key' for e in evs):
                bad.append((rn, f.loc(n), '%s is both accumulated and assigned' % rn))
            elif kind == 'set':
                if key == 'key' or key == 'item':
                    continue
                if val == 'inv':
                    vals = {tuple(sorted((m['k'], str(m.get('val')), m.get('v'), m.get('f')) for m in e[5].subtree(e[4]['c'][-1])) if e[4].get('c') else ()) for e in evs if e[0] == 'set'}
                    if len(vals) > 1:
                        bad.append((rn, f.loc(n), '%s is assigned different values, the last visited item wins' % rn))
                    continue
                bad.append((rn, f.loc(n), '%s is assigned a value of the item, the last visited item wins' % rn))
            elif kind == 'mapinsert':
                if val not in ('key', 'inv') and key != 'key':
                    bad.append((rn, f.loc(n), 'several items can be stored in %s under the same key, the first visited one wins' % rn))
                if 'erase' in kinds and key != 'key' and val != 'key':
                    bad.append((rn, f.loc(n), '%s is changed by insertions and removals for the same keys' % rn))
            elif kind == 'insert':
                if 'erase' in kinds and val != 'key':
                    bad.append((rn, f.loc(n), '%s is changed by insertions and removals for the same keys' % rn))
            elif kind == 'seq':
                if key == 'key':
                    continue
                if root[0] == 'V' and root[1] == fn.usr and not fn.vars[root[2]]['type'].endswith('&') or \
                        root[0] == 'V' and root[1] == fn.usr:
                    tainted.setdefault(root[2], (L, n, val))
                elif root[0] == 'F' and sorted_later(fn, ('F', root[1]), E):
                    pass
                else:
                    bad.append((rn, f.loc(n), '%s is filled in the order of the hash table' % rn))
    # early exits
    outer = [e for e in S.events if not (e[0] == 'set' and e[3] == 'inv')]
    for n in nodes:
        if n['k'] == 'Return' and n.get('c'):
            d = S.dep(fn, n['c'][0], env)
            rets = [m for m in nodes if m['k'] == 'Return']
            if d != 'inv':
                bad.append(('return', fn.loc(n), 'the returned value depends on the item that is visited first'))
        if n['k'] == 'BreakStmt' and loopof(fn, n['i']) == L and not inswitch(fn, n['i'], L):
            if outer:
                bad.append(('break', fn.loc(n), 'the loop is left before all items were visited while %s keeps what was visited' %
                            rootname(P, fn, outer[0][1])))
    # use of the iterator after the loop
    for v in itv:
        for n in derefs_after(fn, body, v):
            bad.append(('iterator', fn.loc(n), 'the item at which the loop stopped is used after the loop'))
    ctx.check(True, 'loop', label + ('' if not bad else ' (order-sensitive)'), where, '')
    for what, loc, msg in bad:
        ctx.bad('order-insensitive', '%s->%s' % (label, what), loc, msg)
    if not bad:
        ctx.ok('order-insensitive', label + ' ' + ','.join(sorted({e[0] for e in S.events})))


def inswitch(fn, i, L):
    par = fn.parents()
    p = par.get(i)
    while p is not None and p != L:
        if fn.nodes[p]['k'] == 'SwitchStmt':
            return True
        p = par.get(p)
    return False


def derefs_after(fn, body, v, anyuse=False):
    """dereferences of the iterator reachable from the end of the loop without a new assignment"""
    if not fn.blocks:
        return []
    inb = {b for b, blk in fn.blocks.items() if any(e in body for e in blk['e']) or blk.get('t') in body}
    work = [s for b in inb for s in fn.blocks[b]['s'] if s >= 0 and s not in inb]
    seen, out = set(), []
    while work:
        b = work.pop()
        if b in seen or b in inb:
            continue
        seen.add(b)
        stop = False
        for e in fn.blocks[b]['e']:
            n = fn.nodes[e]
            c = n.get('c', ())
            if n['k'] == 'Decl' and any(vo['v'] == v for vo in n['vars']) or (n['k'] == 'Assign' or n['k'] == 'Call') and n.get('op') == '=' and \
                    fn.nodes[c[0]]['k'] == 'Var' and fn.nodes[c[0]]['v'] == v:
                stop = True
                break
            if anyuse and n['k'] == 'Var' and n['v'] == v:
                p = fn.parents().get(e)
                pn = fn.nodes.get(p, {})
                if not (pn.get('op') == '=' and pn['k'] in ('Assign', 'Call') and pn['c'][0] == e):
                    out.append(n)
            if n['k'] == 'Call' and n.get('op') in ('*', '->') and fn.nodes[c[0]]['k'] == 'Var' and fn.nodes[c[0]]['v'] == v:
                out.append(n)
        if not stop:
            work.extend(s for s in fn.blocks[b]['s'] if s >= 0)
    return out


def sorted_later(fn, root, E):
    for n in fn.all('Call'):
        nm = effects.cname(n)
        c = n.get('c', ())
        if nm in ('sort', 'stable_sort') and c:
            if any(r[:2] == root for r in E.roots(fn, c[0])):
                return n
    return None


def run(ctx):
    P = ctx.P
    E = effects.of(P)
    seqret = {}             # functions that return a sequence in hash order
    queue = [f for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.usr)) if f.file.startswith('diffpy')]
    done = set()
    work = [(f, {}) for f in queue]
    rounds = 0
    while work:
        fn, extra = work.pop(0)
        rounds += 1
        if rounds > 5000:
            break
        tainted = dict(extra)
        first = fn.usr not in done
        done.add(fn.usr)
        if first:
            for L, itv in sorted(advanced(fn, lambda v: hashtype(fn.vars[v]['type'])).items()):
                ismap = any('pair<const' in fn.vars[v]['type'] for v in itv)
                analyze(ctx, fn, L, itv, 'item' if ismap else 'key', tainted)
            for n in fn.all('Call', 'Ctor'):
                c = [x for x in n.get('c', ()) if x >= 0]
                nm = effects.cname(n) if n['k'] == 'Call' else ''
                hargs = [x for x in c if hashtype(fn.nodes[x].get('t', '')) and fn.nodes[x]['k'] in ('Call', 'Var', 'Ctor', 'Cast')]
                label = '%s#%s' % (fn.short.split('(')[0], nm or n.get('cn', '').split('<')[0])
                if n['k'] == 'Call' and n.get('op') in ('*', '->') and c and hargs:
                    b = fn.nodes[c[0]]
                    while b['k'] in ('Cast', 'Ctor') and b.get('c'):
                        b = fn.nodes[b['c'][0]]
                    if b['k'] == 'Call' and effects.cname(b) in ('begin', 'cbegin'):
                        ctx.bad('no-first-item', label, fn.loc(n), 'an arbitrary item of a hash table is used')
                    continue
                if len(hargs) < 2:
                    continue
                if n['k'] == 'Ctor' and ('pair<' in n.get('cn', '')[:12] or hashtype(n.get('cn', ''))):
                    continue
                if n.get('op') in ('==', '!=', '='):
                    continue
                ctx.touched(fn)
                if n['k'] == 'Ctor' or n.get('obj') and nm in ('insert', 'assign', 'append'):
                    cn = n.get('cn', '')
                    if cn.startswith(SEQ) or cn.startswith('std::valarray'):
                        if n['k'] == 'Ctor':
                            v = declared(fn, n['i'])
                        else:
                            v = next((r[1] for r in E.roots(fn, c[0]) if r[0] == 'V'), None)
                        if v is None:
                            ctx.bad('range-operation', label, fn.loc(n), 'a sequence is filled in the order of the hash table')
                        else:
                            tainted[v] = (n['i'], n, 'key')
                            ctx.ok('range-operation', label)
                    else:
                        ctx.ok('range-operation', label)
                elif nm in ('count', 'count_if', 'any_of', 'all_of', 'none_of', 'distance', 'accumulate', 'max_element', 'min_element', 'for_each',
                            'copy', 'transform', 'copy_if', 'erase', 'find', 'is_permutation'):
                    outs = [m for x in c for m in fn.subtree(x) if m['k'] == 'Call' and effects.cname(m) in ('back_inserter', 'front_inserter')]
                    if outs:
                        v = next((r[1] for m in outs for r in E.roots(fn, m['c'][0]) if r[0] == 'V'), None)
                        if v is not None:
                            tainted[v] = (n['i'], n, 'key')
                        else:
                            ctx.bad('range-operation', label, fn.loc(n), 'a sequence is filled in the order of the hash table')
                    elif nm in ('copy', 'transform', 'copy_if') and not any(
                            m['k'] == 'Call' and effects.cname(m) == 'inserter' for x in c for m in fn.subtree(x)) and \
                            not hashtype(fn.nodes[c[2 if len(c) < 5 else 3]].get('t', '') if len(c) > 2 else ''):
                        ctx.bad('range-operation', label, fn.loc(n), 'a sequence is filled in the order of the hash table')
                    elif nm in ('for_each', 'accumulate'):
                        lam = [m for x in c for m in fn.subtree(x) if m['k'] == 'Lambda']
                        okk = True
                        for m in lam:
                            g = P.fns.get(m.get('fn'))
                            if g is None:
                                continue
                            okk = lambda_ok(ctx, fn, g, nm, label, n, tainted) and okk
                        if okk:
                            ctx.ok('range-operation', label)
                    else:
                        ctx.ok('range-operation', label)
                elif n.get('my') or nm in ('find_if', 'search', 'equal', 'mismatch', 'lexicographical_compare', 'partial_sum', 'adjacent_difference'):
                    if nm in ('equal', 'find_if', 'search', 'mismatch', 'lexicographical_compare', 'partial_sum'):
                        ctx.bad('range-operation', label, fn.loc(n), 'operation %s depends on the order of the hash table' % nm)
            # calls of functions that return sequences in hash order
        for n in fn.all('Decl', 'Return'):
            ini = [(vo['v'], vo['init']) for vo in n['vars']] if n['k'] == 'Decl' else []
            for v, i in ini:
                if i < 0:
                    continue
                m = fn.nodes[i]
                while m['k'] in ('Cast', 'Ctor') and len(m.get('c', ())) == 1:
                    m = fn.nodes[m['c'][0]]
                if m['k'] == 'Call' and m.get('fn') in seqret:
                    tainted[v] = (n['i'], n, 'key')
        # sequences in hash order: sorted, or used in ways that do not depend on the order
        pend = sorted(tainted.items())
        while pend:
            v, (L, n0, val) = pend.pop(0)
            vn = fn.vars[v]['name']
            label = '%s#%s' % (fn.short.split('(')[0], vn)
            t = fn.vars[v]['type']
            if (fn.usr, v) in done:
                continue
            done.add((fn.usr, v))
            if sorted_later(fn, ('V', v), E):
                ctx.ok('sequence-sorted', label)
                continue
            # loops over the sequence
            al = {w for w, rs in E.aliases(fn).items() if ('V', v) in rs and 'iterator' in fn.vars[w]['type']}
            sub = {}
            inloop = {m['i'] for m in fn.subtree(L)}
            loops2 = advanced(fn, lambda w: w in al)
            covered = set()
            for L2, itv in sorted(loops2.items()):
                analyze(ctx, fn, L2, itv, 'key' if val == 'key' else 'dep', sub)
                covered |= {m['i'] for m in fn.subtree(L2)}
            pend.extend(sorted(sub.items()))
            for n in fn.all():
                c = n.get('c', ())
                if n['i'] in inloop or n['i'] in covered:
                    continue
                if n['k'] == 'Return' and c and any(r == ('V', v) for r in E.roots(fn, c[0])):
                    if fn.access == 0 and fn.cls or not fn.cls and 'anonymous' not in fn.qname and not fn.static:
                        ctx.bad('sequence-sorted', label, fn.loc(n), 'the returned sequence %s has the order of the hash table' % vn)
                    else:
                        seqret[fn.usr] = v
                        for g, cn in P.callers().get(fn.usr, ()):
                            work.append((g, {}))
                elif n['k'] == 'Call' and n.get('obj') and c and not n.get('my') and any(r == ('V', v) for r in E.roots(fn, c[0])) and \
                        effects.cname(n) in ('front', 'back', 'operator[]', 'at', 'str'):
                    ctx.bad('sequence-sorted', label, fn.loc(n), 'items of %s are used in the order of the hash table' % vn)
                elif n['k'] in ('Call', 'Ctor') and n.get('my') and any(
                        r == ('V', v) for x in (c[1:] if n.get('obj') else c) for r in E.roots(fn, x)):
                    ctx.bad('sequence-sorted', label, fn.loc(n), 'the unordered sequence %s is passed on' % vn)
                elif n['k'] in ('Assign', 'Call') and n.get('op') == '=' and len(c) == 2 and any(r == ('V', v) for r in E.roots(fn, c[1])) and \
                        not any(r == ('V', v) for r in E.roots(fn, c[0])) and 'iterator' not in n.get('cn', 'iterator' if n['k'] == 'Assign' else ''):
                    ctx.bad('sequence-sorted', label, fn.loc(n), 'the unordered sequence %s is stored' % vn)
            if t.endswith('&') and v < len(fn.params):
                ctx.bad('sequence-sorted', label, fn.loc(n0), 'the sequence %s is filled in the order of the hash table' % vn)
            ctx.ok('sequence-use', label)
    ctx.floor('order-insensitive', 8)


def lambda_ok(ctx, fn, g, nm, label, n, tainted):
    P, E = ctx.P, effects.of(ctx.P)
    S = Scan(P, g)
    S.itvars = set()
    S.alias = {}
    S.modfields = set()
    pv = sorted(g.vars)[:len(g.params)]
    if nm == 'accumulate':
        return True
    S.itvars = set(pv)
    S.inner = {g.usr: {v for v in g.vars if g.vars[v].get('owner', g.usr) == g.usr}}
    env = {v: 'item' for v in pv}
    nodes = list(g.all())
    S.locals_env(g, nodes, env)
    S.scan(g, nodes, env)
    bad = [e for e in S.events if e[0] in ('seq', 'carried') or e[0] == 'set' and e[2] != 'key' and e[3] != 'inv']
    for e in bad:
        ctx.bad('range-operation', label + '->' + rootname(P, g, e[1]), g.loc(e[4]), 'effect on %s depends on the order of the hash table' % rootname(P, g, e[1]))
    return not bad


def declared(fn, i):
    par = fn.parents()
    p = par.get(i)
    while p is not None and fn.nodes[p]['k'] in ('Cast', 'Ctor'):
        p = par.get(p)
    for n in fn.all('Decl'):
        for vo in n['vars']:
            if vo['init'] >= 0 and any(m['i'] == i for m in fn.subtree(vo['init'])):
                return vo['v']
    return None
