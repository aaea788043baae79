"""Flow-insensitive transitive effects: fields read and written by a function, resolved with class context."""

ITERS = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'find', 'lower_bound', 'upper_bound', 'emplace', 'insert',
         'back', 'front', 'at', 'operator[]', 'operator()', 'data', 'erase', 'get', 'operator*', 'operator->'}
SMARTS = ('boost::shared_ptr<', 'std::shared_ptr<', 'std::unique_ptr<', 'boost::scoped_ptr<', 'boost::weak_ptr<',
          'std::__shared_ptr')

_inst = {}


def of(P):
    if id(P) not in _inst:
        _inst[id(P)] = Effects(P)
    return _inst[id(P)]


def cname(n):
    """unqualified name of the callee of a call node"""
    fq = n.get('fq', '')
    if '::operator' in fq or fq.startswith('operator'):
        return 'operator' + fq.rsplit('operator', 1)[1]
    return fq.split('::')[-1].split('<')[0]


class Effects:
    def __init__(self, P):
        self.P = P
        self._direct = {}
        self._trans = {}
        self._alias = {}

    # storage that an lvalue expression designates: set of ('F', fieldusr, onthis) | ('V', var) | ('G', name)
    def roots(self, fn, i, depth=0):
        out = set()
        if i is None or i < 0 or depth > 12:
            return out
        n = fn.nodes.get(i)
        if n is None:
            return out
        k = n['k']
        c = n.get('c', [])
        if k == 'Field':
            base = self.roots(fn, c[0], depth + 1) if c else set()
            bn = fn.nodes.get(c[0]) if c else None
            onthis = bn is not None and (bn['k'] == 'This' or any(b[0] == 'F' and b[2] for b in base)) and \
                not (n.get('arrow') and bn['k'] != 'This')
            out.add(('F', n['fu'], onthis))
            if not n.get('arrow') or (bn is not None and bn['k'] == 'This'):
                out |= base
        elif k == 'Var':
            out.add(('V', n['v']))
            if depth < 8:
                out |= self.aliases(fn).get(n['v'], set())
        elif k == 'Global':
            out.add(('G', n['g']))
        elif k == 'Call':
            nm = cname(n)
            if n.get('obj') and c:
                if nm in ITERS or n.get('rt') in ('w', 'r') or n.get('op') in ('*', '->', '[]', '++', '--', '=', '+', '-', '+=', '-='):
                    cn = n.get('cn', '')
                    if cn.startswith(SMARTS) and nm in ('get', 'operator*', 'operator->'):
                        return out          # another object
                    if not n.get('my'):
                        out |= self.roots(fn, c[0], depth + 1)
                    elif n.get('rt') == 'w':
                        # own accessor that returns a reference: its returned storage
                        for u in self.callees(fn, n, None):
                            out |= {r for r in self.retroots(u) if r[0] == 'F'}
            elif n.get('fq', '').startswith('std::') and c and nm in ('begin', 'end', 'move', 'forward', 'back_inserter', 'inserter', 'get'):
                out |= self.roots(fn, c[0], depth + 1)
        elif k in ('Index', 'Cast', 'DefArg') and c:
            out |= self.roots(fn, c[0], depth + 1)
        elif k == 'Un' and n['op'] in ('*', '&', '++', '--') and c:
            out |= self.roots(fn, c[0], depth + 1)
        elif k == 'Cond' and len(c) == 3:
            out |= self.roots(fn, c[1], depth + 1) | self.roots(fn, c[2], depth + 1)
        elif k == 'Ctor' and c and (n.get('copy') or 'iterator' in n.get('cn', '')):
            out |= self.roots(fn, c[0], depth + 1)
        elif k == 'Assign' and c:
            out |= self.roots(fn, c[0], depth + 1)
        return out

    def memberobject(self, fn, i):
        """member held by value"""
        n = fn.nodes.get(i)
        if n is None or n['k'] != 'Field' or n['fu'] not in self.P.fieldowner:
            return False
        t = self.P.fieldowner[n['fu']][1]['type']
        return not (t.endswith(('*', '&')) or t.replace('const ', '').startswith(SMARTS))

    def retroots(self, fn):
        out = set()
        for n in fn.all('Return'):
            if n.get('c'):
                out |= self.roots(fn, n['c'][0])
        return out

    def aliases(self, fn):
        """storage that local references, pointers and iterators refer to"""
        if fn.usr in self._alias:
            return self._alias[fn.usr]
        res = {}
        self._alias[fn.usr] = res

        def handle(t):
            return t.endswith('&') or t.endswith('*') or 'iterator' in t or ('pair<' in t and 'iterator' in t)
        for _ in range(3):
            before = sum(len(v) for v in res.values())
            for n in fn.all('Decl', 'Assign', 'Call'):
                if n['k'] == 'Decl':
                    for vo in n['vars']:
                        if vo['init'] >= 0 and handle(fn.vars[vo['v']]['type']):
                            res.setdefault(vo['v'], set()).update(self.roots(fn, vo['init']))
                else:
                    c = n.get('c', [])
                    if n['k'] == 'Call' and n.get('op') != '=':
                        continue
                    if len(c) == 2 and c[0] >= 0 and fn.nodes[c[0]]['k'] == 'Var':
                        v = fn.nodes[c[0]]['v']
                        if handle(fn.vars[v]['type']):
                            res.setdefault(v, set()).update(self.roots(fn, c[1]))
            if sum(len(v) for v in res.values()) == before:
                break
        for v in res:
            res[v].discard(('V', v))
        return res

    def direct(self, fn):
        """(reads, writes): roots accessed by the function itself, without callees"""
        if fn.usr in self._direct:
            return self._direct[fn.usr]
        R, W = {}, {}

        def w(i, n):
            for r in self.roots(fn, i):
                W.setdefault(r, n)
        pure_targets = set()
        for n in fn.all():
            k, c = n['k'], n.get('c', [])
            if k == 'Assign':
                w(c[0], n)
                if n['op'] == '=' and fn.nodes[c[0]]['k'] in ('Field', 'Global'):
                    pure_targets.add(c[0])
            elif k == 'Un' and n['op'] in ('++', '--'):
                w(c[0], n)
            elif k == 'Init' and 'fu' in n:
                W.setdefault(('F', n['fu'], True), n)
            elif k in ('Call', 'Ctor') and not n.get('my'):
                ids = list(c)
                if k == 'Call' and n.get('obj') and ids:
                    on = fn.nodes.get(ids[0])
                    if not n.get('fc') and not n.get('fs'):
                        nm = cname(n)
                        cn = n.get('cn', '')
                        if nm in ('begin', 'end', 'rbegin', 'rend', 'find', 'lower_bound', 'upper_bound', 'get', 'operator*',
                                  'operator->', 'back', 'front', 'at', 'data'):
                            pass
                        elif nm in ('operator[]', 'operator()') and 'map<' not in cn:
                            pass
                        elif 'iterator' in cn and nm.startswith('operator') and on is not None and on['k'] == 'Var':
                            pass
                        else:
                            w(ids[0], n)
                            if nm == 'operator=' and on is not None and on['k'] in ('Field', 'Global'):
                                pure_targets.add(ids[0])
                    ids = ids[1:]
                for x, m in zip(ids, n.get('pm', '')):
                    if m in 'wq':
                        w(x, n)
                if n.get('fq', '').startswith('std::') and k == 'Call':
                    import sym
                    nm = cname(n)
                    pos = sym.ALGO_OUT.get(nm)
                    if pos is not None:
                        if nm == 'transform':
                            pos = (2,) if len(c) == 4 else (3,)
                        for p in pos:
                            if p < len(c):
                                w(c[p], n)
            elif k in ('Call', 'Ctor') and n.get('my'):
                ids = list(c)
                if k == 'Call' and n.get('obj') and ids:
                    if n.get('cn', '').startswith('diffpy::srreal::R3::') and not n.get('fc'):
                        w(ids[0], n)            # vectors and matrices count as plain values
                        if n.get('op') == '=' and fn.nodes[ids[0]]['k'] in ('Field', 'Global'):
                            pure_targets.add(ids[0])
                    elif n.get('op') == '=' and n.get('fn') not in self.P.fns:
                        w(ids[0], n)            # implicit assignment
                        if fn.nodes[ids[0]]['k'] in ('Field', 'Global'):
                            pure_targets.add(ids[0])
                    elif not n.get('fc') and not n.get('fs') and not n.get('arrow') and 'EventTicker' not in n.get('cn', '') \
                            and self.memberobject(fn, ids[0]):
                        w(ids[0], n)            # a member object is changed by its own member function
                    ids = ids[1:]
                for x, m in zip(ids, n.get('pm', '')):
                    if m in 'wq':
                        w(x, n)
        for n in fn.all('Field', 'Global'):
            if n['i'] in pure_targets:
                continue
            if n['k'] == 'Field':
                for r in self.roots(fn, n['i']):
                    if r[0] == 'F' and r[1] == n['fu']:
                        R.setdefault(r, n)
            else:
                R.setdefault(('G', n['g']), n)
        self._direct[fn.usr] = (R, W)
        return R, W

    def callees(self, fn, n, cls):
        """possible callees with bodies of a call or constructor node"""
        u = n.get('fn')
        if not u:
            return []
        us = [u]
        if n.get('dyn'):
            c = n.get('c', [])
            on = fn.nodes.get(c[0]) if c else None
            if on is not None and on['k'] == 'This' and cls:
                us = [self.P.final(cls, u)]
            else:
                us = self.P.targets(u, n.get('cls'))
        return [self.P.fns[x] for x in us if x in self.P.fns]

    def calls(self, fn, cls=None):
        """(node, callee, class context of the callee)"""
        for n in fn.all('Call', 'Ctor', 'Lambda', 'New'):
            if n['k'] == 'Lambda':
                f = self.P.fns.get(n.get('fn'))
                if f:
                    yield n, f, cls
                continue
            if n['k'] == 'New':
                continue
            c = n.get('c', [])
            onthis = False
            if n['k'] == 'Call' and n.get('obj') and c:
                on = fn.nodes.get(c[0])
                onthis = on is not None and (on['k'] == 'This' or (on['k'] == 'Un' and on['op'] == '*' and
                                                                   fn.nodes[on['c'][0]]['k'] == 'This'))
            for f in self.callees(fn, n, cls):
                yield n, f, (cls if onthis else None)
            # functions passed by address
            for x in c:
                xn = fn.nodes.get(x)
                if xn is not None and xn['k'] == 'Un' and xn['op'] == '&' and xn.get('c'):
                    y = fn.nodes.get(xn['c'][0])
                    if y is not None and y['k'] == 'Func' and y.get('fn') in self.P.fns:
                        yield n, self.P.fns[y['fn']], None

    def closure(self, fn, cls=None, stop=None):
        """{(fn usr, cls): (fn, parent key, call node)} of everything reachable from fn"""
        key = (fn.usr, cls)
        out = {key: (fn, None, None)}
        work = [(fn, cls)]
        while work:
            f, c = work.pop()
            for n, g, gc in self.calls(f, c):
                k = (g.usr, gc)
                if k in out:
                    continue
                if stop and stop(f, n, g):
                    continue
                out[k] = (g, (f.usr, c), n)
                work.append((g, gc))
        return out

    def trans(self, fn, cls=None, stop=None):
        key = (fn.usr, cls) if stop is None else None
        if key and key in self._trans:
            return self._trans[key]
        R, W = {}, {}
        for (u, c), (f, par, n) in self.closure(fn, cls, stop).items():
            r, w = self.direct(f)
            for x, nn in r.items():
                R.setdefault(x, (f, nn))
            for x, nn in w.items():
                W.setdefault(x, (f, nn))
        if key:
            self._trans[key] = (R, W)
        return R, W

    def writes_names(self, fn, cls=None):
        R, W = self.trans(fn, cls)
        return {(self.P.fieldowner[r[1]][0].usr, self.P.fieldowner[r[1]][1]['name']) for r in W
                if r[0] == 'F' and r[1] in self.P.fieldowner}
