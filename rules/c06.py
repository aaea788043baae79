"""Comparison.  (1) Every equality, inequality and order function of two objects of one type is interpreted over signs: for each
attribute the relation (less, equal, greater) between the two objects is assumed, all other attributes being equal, and for
each pair of attributes likewise.  The result must be decided by these relations, and: 'equality': it is true if all are
equal and false otherwise; 'negation': the inequality is its exact opposite; 'order': exactly one of a<b, b<a holds when
something differs, the attributes take precedence over each other without cycles; 'order-forms': >, <=, >= agree with <.
Functors used as key equality are decided the same way over the attributes which their hash uses ('hash').
(2) Each diff() is executed symbolically for each final class: a result that does not list all sites is returned only where both
structures are of the same type and every attribute other than the atoms was found equal ('same-kind', 'attribute'); wrappers
delegate only when both are wrappers ('wrapper'); in the comparison of atoms every differing site is listed on both sides,
remaining sites are listed, and every list entry is the position of its site ('listed', 'rest', 'position', 'ordered')."""
import itertools
import sym, effects
from sym import Facts, ZERO, ONE, mk_eq, mk_lt, mk_truth
from c12 import deep

ASSUMPTIONS = ['attributes are comparable (no not-a-number values)', 'standard algorithms and containers behave as documented']
# attributes that determine the others
DEFINING = {'Lattice': ('mbase',)}
SIZES = {'R3::Vector': 3, 'R3::Matrix': 9}


class Compare(sym.Exec):
    """loops over vectors and matrices are followed element by element"""
    max_depth = 8
    max_inline_nodes = 400
    head_limit = 300

    def __init__(self, P):
        super().__init__(P)
        self.sizes = {}

    def should_inline(self, fr, fn, n):
        return fn.file.startswith('diffpy')

    def widen(self, fn, fr, head, body, st):
        k = ('loops', fr.tok, head)
        st.data = dict(st.data)
        st.data[k] = st.data.get(k, 0) + 1
        if st.data[k] > 12:
            return super().widen(fn, fr, head, body, st)
        inner = set()
        for b in body:
            for e in list(fn.blocks[b]['e']) + [fn.blocks[b].get('c', -1)]:
                if e is not None and e >= 0:
                    inner |= {m['i'] for m in fn.subtree(e)}
        st.vals = {k: v for k, v in st.vals.items() if k not in inner}

    def nitems(self, path):
        return self.sizes.get(path)

    def elem(self, path, k):
        return ('i', path + (('[]', ('c', k)),))

    def incr(self, fr, n, old, op):
        r = self.shift(old, 1 if op == '++' else -1)
        return r or super().incr(fr, n, old, op)

    def shift(self, v, d):
        if v[0] == 'it' and isinstance(v[2], tuple) and v[2][0] == 'c':
            return ('it', v[1], ('c', v[2][1] + d))
        return None

    def deref(self, v):
        if v[0] == 'it' and isinstance(v[2], tuple) and v[2][0] == 'c':
            return v[1] + (('[]', v[2]),)
        return super().deref(v)

    def span(self, a, b):
        if a[0] == b[0] == 'it' and a[1] == b[1] and a[2][0] == b[2][0] == 'c':
            return [self.elem(a[1], k) for k in range(a[2][1], b[2][1])]
        return None

    def lexicographic(self, st, op, x, y):
        if len(x) != len(y):
            return None
        first = 0
        for a, b in zip(x, y):
            if Facts.truth(st.facts, mk_eq(a, b)) is True:
                continue
            for t, r in ((mk_lt(a, b), -1), (mk_lt(b, a), 1)):
                if Facts.truth(st.facts, t) is True:
                    first = r
            if not first:
                if op in ('==', '!=') and Facts.truth(st.facts, mk_eq(a, b)) is False:
                    first = 1
                else:
                    return None
            break
        return [(st, sym.mk_op(op, ('c', first), ZERO))]

    def on_call(self, fr, st, n, callee, obj, args):
        name = effects.cname(n)
        R = lambda v: self.rvalue(fr, st, v)
        if callee is not None and callee.blocks:
            return None
        if obj is not None and obj[0] == 'ref':
            N = self.nitems(obj[1])
            if N is not None:
                if name in ('begin', 'cbegin'):
                    return [(st, ('it', obj[1], ('c', 0)))]
                if name in ('end', 'cend'):
                    return [(st, ('it', obj[1], ('c', N)))]
                if name == 'size':
                    return [(st, ('c', N))]
                if name in ('size1', 'size2'):
                    return [(st, ('c', 3))]
                if name == 'data':
                    return [(st, obj)]
                idx = [R(a) for a in args]
                if name in ('operator()', 'operator[]') and all(i[0] == 'c' for i in idx):
                    k = idx[0][1] if len(idx) == 1 else 3 * idx[0][1] + idx[1][1]
                    return [(st, ('ref', obj[1] + (('[]', ('c', k)),)))]
        ops = ([obj] if obj is not None else []) + list(args)
        if n.get('op') in OPS.values() and len(ops) == 2:
            a, b = R(ops[0]), R(ops[1])
            if a[0] == b[0] == 'it' and a[1] == b[1] and a[2][0] == b[2][0] == 'c':
                return [(st, sym.mk_op(n['op'], a[2], b[2]))]
            if a[0] == b[0] == 'call' and a[1] == b[1] and a[1] in ('tie', 'make_tuple', 'forward_as_tuple') or a[0] == b[0] == 'pair':
                x, y = (a[2:], b[2:]) if a[0] == 'call' else (a[1:], b[1:])
                return self.lexicographic(st, n['op'], x, y)
        peek = None if obj is None else R(obj)
        if peek is not None and peek[0] == 'it' and isinstance(peek[2], tuple) and peek[2][0] == 'c':
            d = {'operator++': 1, 'operator--': -1}.get(name)
            a0 = R(args[0]) if args else None
            if name in ('operator+=', 'operator-=', 'operator+', 'operator-') and a0 and a0[0] == 'c':
                d = a0[1] * (1 if '+' in name else -1)
                if name in ('operator+', 'operator-'):
                    return [(st, self.shift(peek, d))]
            if d is not None and obj[0] == 'ref':
                self.write(fr, st, n, obj[1], self.shift(peek, d))
                return [(st, peek if args and name in ('operator++', 'operator--') else obj)]
        if obj is None and name in ('equal', 'lexicographical_compare'):
            v = [R(a) for a in args]
            x = self.span(v[0], v[1]) if len(v) >= 3 else None
            if x is not None:
                if name == 'equal' and v[2][0] == 'it' and v[2][2][0] == 'c':
                    y = [self.elem(v[2][1], v[2][2][1] + k) for k in range(len(x))]
                    if len(v) == 4 and v[3][0] == 'it' and v[3][2][1] - v[2][2][1] != len(x):
                        return [(st, ZERO)]
                    if len(v) > 3 and v[3][0] != 'it':
                        return None
                    t = [Facts.truth(st.facts, mk_eq(a, b)) for a, b in zip(x, y)]
                    if None in t:
                        return None
                    return [(st, ONE if all(t) else ZERO)]
                if name == 'lexicographical_compare' and len(v) == 4:
                    y = self.span(v[2], v[3])
                    if y is None:
                        return None
                    for a, b in zip(x, y):
                        if Facts.truth(st.facts, mk_lt(a, b)) is True:
                            return [(st, ONE)]
                        if Facts.truth(st.facts, mk_lt(b, a)) is True:
                            return [(st, ZERO)]
                        if Facts.truth(st.facts, mk_eq(a, b)) is not True:
                            return None
                    return [(st, ONE if len(x) < len(y) else ZERO)]
        if name == 'compare' and obj is not None and len(args) == 1:
            a, b = R(obj), R(args[0])
            for t, r in ((mk_lt(a, b), -1), (mk_lt(b, a), 1), (mk_eq(a, b), 0)):
                if Facts.truth(st.facts, t) is True:
                    return [(st, ('c', r))]
        return None


def attributes(P, cls):
    """defining attributes: list of (path suffix, record or None)"""
    rec = P.recs[cls]
    only = next((v for k, v in DEFINING.items() if rec.short.endswith(k)), None)
    out = []
    for r, f in P.allfields(cls):
        if f.get('static') or f['mutable'] and not (only and f['name'] in only):
            continue
        if only and f['name'] not in only:
            continue
        out.append(f)
    return out


def vecsize(t):
    t = t.replace('const ', '')
    for k, v in SIZES.items():
        if t.rstrip(' &').endswith(k):
            return v
    return None


def record(P, t):
    t = t.replace('const ', '').rstrip(' &')
    r = P.recname.get(t)
    return r if r is not None and r.file.startswith('diffpy') else None


def leaves(P, cls, sizes, A, pre=()):
    """paths of the elementary attributes of an object at A; fills sizes"""
    N = vecsize(P.recs[cls].short)
    if N:
        sizes[A + pre] = N
        return [pre + (('[]', ('c', k)),) for k in range(N)]
    out = []
    for f in attributes(P, cls):
        out += typeleaves(P, f['type'], sizes, A, pre + (f['name'],))
    return out


def typeleaves(P, t, sizes, A, p):
    t = t.replace('const ', '').strip()
    r = record(P, t)
    if r is not None and (r.fields or vecsize(r.short)):
        return leaves(P, r.usr, sizes, A, p)
    if t.startswith('std::vector<'):
        sizes[A + p] = 2
        item = t[len('std::vector<'):-1]
        return [x for k in range(2) for x in typeleaves(P, item, sizes, A, p + (('[]', ('c', k)),))]
    if t == 'bool':
        sizes[('bool',) + A + p] = 0
    return [p]


OPS = {'operator==': '==', 'operator!=': '!=', 'operator<': '<', 'operator>': '>', 'operator<=': '<=', 'operator>=': '>='}


class Relation:
    """result of a comparison function for assumed relations of the attributes"""

    def __init__(self, P, f):
        self.P, self.f = P, f
        self.sizes = {}
        if len(f.params) == 2:
            self.a = tuple(('A', p['pm'] and 0, p['name']) for p in f.params)
            self.a = (('A', 0, f.params[0]['name']), ('A', 1, f.params[1]['name']))
            t = f.params[0]['type']
            self.cls = record(P, t).usr
        else:
            self.a = (('T',), ('A', 0, f.params[0]['name']))
            self.cls = f.cls
        for a in self.a:
            self.leaves = leaves(P, self.cls, self.sizes, a)
        self.containers = sorted({p[len(self.a[0]):] for p, n in self.sizes.items() if p[:len(self.a[0])] == self.a[0] and n == 2}, key=str)
        self.memo = {}

    def __call__(self, rel, short=None):
        key = (frozenset(rel.items()), short)
        if key not in self.memo:
            self.memo[key] = self.evaluate(rel, short)
        return self.memo[key]

    def evaluate(self, rel, short):
        ex = Compare(self.P)
        ex.sizes = dict(self.sizes)
        if short is not None:
            ex.sizes[self.a[1] + short] = 1
        init = sym.State()
        fs = init.facts

        def know(v, val):
            if v[0] in ('eq', 'lt'):
                fs[v] = val
        prefixes = {}
        for p in self.leaves:
            for k in range(1, len(p) + 1):
                prefixes.setdefault(p[:k], []).append(p)
        prefixes.setdefault((), list(self.leaves))
        know(mk_eq(('ptr', self.a[0]), ('ptr', self.a[1])), False)
        for p, ls in prefixes.items():
            x, y = ('i', self.a[0] + p), ('i', self.a[1] + p)
            r = {rel.get(q, '=') for q in ls}
            if short is not None and (p == short or short[:len(p)] == p):
                r.add('short')
            same = r == {'='}
            know(mk_eq(x, y), same)
            know(mk_eq(('ptr', self.a[0] + p), ('ptr', self.a[1] + p)), False)
            if p in self.containers:
                sx, sy = ('call', 'size', x), ('call', 'size', y)
                know(mk_eq(sx, sy), short != p)
            if len(ls) == 1 and ls[0] == p or same:
                know(mk_lt(x, y), r == {'<'})
                know(mk_lt(y, x), r == {'>'})
            if ('bool',) + self.a[0] + p in self.sizes and r <= {'<', '>'}:
                fs[mk_eq(x, ZERO)], fs[mk_eq(y, ZERO)] = r == {'<'}, r == {'>'}
        outs, fr = ex.analyze(self.f, self.f.cls, init=init)
        res = set()
        for o in outs:
            if o.kind != 'return' or o.value is None:
                res.add(None)
                continue
            v = ex.rvalue(fr, o.st, o.value)
            res.add(Facts.truth(o.st.facts, mk_truth(v)))
        return res.pop() if len(res) == 1 else None


def name_of(p):
    return '.'.join(x if isinstance(x, str) else str(x[1][1]) for x in p)


FLIP = {'<': '>', '>': '<'}


def check_equality(ctx, P, f, F, want):
    """want: result for equal objects"""
    rule = 'equality' if want else 'negation'
    ctx.check(F({}) is want, rule, f.short, f.loc(), 'objects with equal attributes: the result is not %s' % str(want).lower())
    for p in F.leaves:
        for s in '<>':
            ctx.check(F({p: s}) is (not want), rule, '%s:%s' % (f.short, name_of(p)), f.loc(),
                      'objects that differ only in %s: the result is not %s' % (name_of(p), str(not want).lower()))
    for c in F.containers:
        ctx.check(F({}, c) is (not want), rule, '%s:%s' % (f.short, name_of(c)), f.loc(),
                  'objects that differ only in the number of items in %s: the result is not %s' % (name_of(c), str(not want).lower()))
    if len(F.leaves) <= 16:
        for p, q in itertools.combinations(F.leaves, 2):
            for s, t in itertools.product('<>', repeat=2):
                ctx.check(F({p: s, q: t}) is (not want), rule, '%s:%s,%s' % (f.short, name_of(p), name_of(q)), f.loc(),
                          'objects that differ in %s and %s: the result is not %s' % (name_of(p), name_of(q), str(not want).lower()))


def check_less(ctx, P, f, F):
    ctx.check(F({}) is False, 'order', f.short, f.loc(), 'an object is less than an equal one')
    for p in F.leaves:
        r = F({p: '<'}), F({p: '>'})
        ctx.check(None not in r and r[0] is not r[1], 'order', '%s:%s' % (f.short, name_of(p)), f.loc(),
                          'objects that differ only in %s are not ordered' % name_of(p))
    before = {}
    for p, q in itertools.combinations(F.leaves, 2):
        res = {(s, t): F({p: s, q: t}) for s in '<>' for t in '<>'}
        byp = all(v is F({p: s}) for (s, t), v in res.items())
        byq = all(v is F({q: t}) for (s, t), v in res.items())
        ctx.check(byp or byq, 'order', '%s:%s,%s' % (f.short, name_of(p), name_of(q)), f.loc(),
                  'neither %s nor %s decides the order of objects that differ in both' % (name_of(p), name_of(q)))
        before.setdefault(p if byp else q, set()).add(q if byp else p)
    ranks = sorted(len(before.get(p, ())) for p in F.leaves)
    ctx.check(ranks == list(range(len(F.leaves))), 'order', f.short + ':precedence', f.loc(), 'the attributes do not take precedence in a fixed sequence')


def check_form(ctx, P, f, F, less):
    op = OPS[f.name]
    def expect(rel):
        lt, gt = less(rel), less({p: FLIP[s] for p, s in rel.items()})
        return {'>': gt, '<=': not gt, '>=': not lt}[op]
    cases = [{}] + [{p: s} for p in F.leaves for s in '<>']
    for rel in cases:
        ctx.check(F(rel) is expect(rel), 'order-forms', '%s:%s' % (f.short, ','.join(map(name_of, rel))), f.loc(), 'the result disagrees with operator<')


def comparisons(P):
    """comparison functions by the compared class"""
    out = {}
    for f in P.fns.values():
        if not f.file.startswith('diffpy') or '/tests/' in f.file or not f.blocks or f.name not in OPS:
            continue
        ts = [p['type'] for p in f.params]
        if f.cls and not f.static and len(ts) == 1:
            r = record(P, ts[0])
            if r is not None and r.usr == f.cls:
                out.setdefault(f.cls, {})[f.name] = f
        elif len(ts) == 2 and ts[0] == ts[1] and record(P, ts[0]) is not None:
            out.setdefault(record(P, ts[0]).usr, {})[f.name] = f
    return out


def functors(P):
    """(hash, equality) functions by key type"""
    out = {}
    for f in P.fns.values():
        if not f.file.startswith('diffpy') or '/tests/' in f.file or not f.blocks:
            continue
        if f.name == 'hash_value' and len(f.params) == 1 and record(P, f.params[0]['type']) is not None:
            out.setdefault((record(P, f.params[0]['type']).usr, 'own'), {})['hash'] = f
        if f.name == 'operator()' and f.cls and not any('Epsilon' in f.short for _ in (0,)):
            ts = [p['type'] for p in f.params]
            r = record(P, ts[0]) if ts else None
            if r is None or not r.fields and not vecsize(r.short):
                continue
            if len(ts) == 1 and f.ret in ('unsigned long', 'size_t', 'std::size_t'):
                out.setdefault((r.usr, 'functor'), {})['hash'] = f
            if len(ts) == 2 and ts[0] == ts[1] and f.ret == 'bool':
                out.setdefault((r.usr, 'functor'), {})['equal'] = f
    return out


def check_hashes(ctx, P, E, comps):
    n = 0
    for (cls, kind), d in sorted(functors(P).items(), key=str):
        h = d.get('hash')
        eq = d.get('equal') or comps.get(cls, {}).get('operator==')
        if kind == 'functor' and 'equal' in d:
            F = Relation(P, d['equal'])
            used = [p for p in F.leaves if F({p: '<'}) is not True]
            ctx.check(F({}) is True and used, 'equality', d['equal'].short, d['equal'].loc(), 'equal keys do not compare equal')
            for p in used:
                for s in '<>':
                    ctx.check(F({p: s}) is False, 'equality', '%s:%s' % (d['equal'].short, name_of(p)), d['equal'].loc(), 'keys that differ in %s may compare equal' % name_of(p))
            for p, q in itertools.combinations(F.leaves, 2):
                for s, t in itertools.product('<>', repeat=2):
                    ctx.check(F({p: s, q: t}) is (p not in used and q not in used), 'equality', '%s:%s,%s' % (d['equal'].short, name_of(p), name_of(q)),
                              d['equal'].loc(), 'keys that differ in %s and %s are compared wrongly' % (name_of(p), name_of(q)))
        elif eq is not None:
            F = Relation(P, eq)
            used = F.leaves
        else:
            continue
        if h is None:
            continue
        n += 1
        names = {p[0] for p in used if isinstance(p[0], str)}
        ctx.touched(h)
        for g, _, _ in E.closure(h, h.cls).values():
            if not g.file.startswith('diffpy'):
                continue
            for x in g.all('Field'):
                if x.get('fr') == cls or P.isa(cls, x.get('fr')):
                    ctx.check(x['f'] in names, 'hash', '%s:%s' % (h.short, x['f']), g.loc(x), 'the hash depends on %s, which equal objects need not share' % x['f'])
            for x in g.all('Un'):
                if x.get('op') == '&':
                    ctx.bad('hash', h.short, g.loc(x), 'the hash depends on an address')
        ctx.ok('hash', h.short)
    return n


# ---- differences of structures
LISTS = ('pop0', 'add1')


def counter(fr, head, start, step):
    return ('phi', fr.tok, head, 'count', start, step)


def linear(v):
    """(a, base, b): v = a * base + b, where base counts the passes of a loop or is None"""
    if v[0] == 'c' and isinstance(v[1], int):
        return 0, None, v[1]
    if v[0] == 'phi' and len(v) == 6 and v[3] == 'count':
        s = linear(v[4])
        if s and s[0] == 0:
            return v[5], v[:3], s[2]
        return None
    if v[0] == 'op' and v[1] in '+-*' and len(v) == 4:
        x, y = linear(v[2]), linear(v[3])
        if x is None or y is None:
            return None
        if v[1] == '*':
            if x[0] and y[0]:
                return None
            if y[0]:
                x, y = y, x
            return x[0] * y[2], x[1], x[2] * y[2]
        if x[1] is not None and y[1] is not None and x[1] != y[1]:
            return None
        k = 1 if v[1] == '+' else -1
        return x[0] + k * y[0], x[1] or y[1], x[2] + k * y[2]
    return None


class Diff(sym.Exec):
    max_depth = 6
    max_inline_nodes = 900
    head_limit = 60

    def __init__(self, P, base, comps):
        super().__init__(P)
        self.base = base
        self.own = {f.usr for d in comps.values() for f in d.values()}
        self.found, self.good = [], 0
        self.passes = {}
        self.orders = {}

    def report(self, rule, fr, n, text):
        self.found.append((rule, fr.fn, n, text))

    def should_inline(self, fr, fn, n):
        if fn.usr in self.own or fn.usr == self.base:
            return False
        if fn.name == 'diff' and n.get('dyn'):
            return False
        return fn.file.startswith('diffpy') and fn.name not in ('countSites', 'allowsfastupdate')

    def count_sites(self, path):
        return ('call', 'sites', ('obj', path))

    # -- iterators carry positions
    def step_by(self, idx, d):
        if idx[0] == 'c' and isinstance(idx[1], int):
            return ('c', idx[1] + d)
        return ('op', '+' if d > 0 else '-', idx, ONE)

    def isatoms(self, path):
        return 'matoms' in path

    def incr(self, fr, n, old, op):
        if old[0] == 'it' and isinstance(old[2], tuple):
            return ('it', old[1], self.step_by(old[2], 1 if op == '++' else -1))
        return super().incr(fr, n, old, op)

    def moved(self, st, path):
        if self.isatoms(path):
            st.data = dict(st.data)
            st.data[('may', 'moved')] = st.data.get(('may', 'moved'), frozenset()) | {path}

    def on_widen(self, fr, st, head):
        pairs = [v for k, v in st.facts.items() if self.atompair(k)]
        pushed = st.data.get(('may', 'pushed'), frozenset()) & set(LISTS)
        if not st.data.get(('item',)):
            self.passes.setdefault((fr.fn.usr, head), []).append((True in pairs, bool(pairs), bool(pushed)))
        self.endpass(fr, st)

    def uncompared(self):
        """loops comparing sites in which a pass ends without a site found equal or listed"""
        for (usr, head), ps in self.passes.items():
            if any(pushed for _, _, pushed in ps) and any(not pushed for _, _, pushed in ps):
                self.good += 1
                if any(not same and not pushed for same, _, pushed in ps):
                    yield self.P.fns[usr]

    def widen(self, fn, fr, head, body, st):
        ent = dict(st.data.get(('loop', fr.tok, head), ()))
        new = {}
        for p, v in st.store.items():
            if p not in ent:
                continue
            s = ent[p]
            if s[0] == v[0] == 'it' and s[1] == v[1] and isinstance(s[2], tuple) and isinstance(v[2], tuple):
                c = self.counted(fr, head, s[2], v[2])
                if c:
                    new[p] = ('it', s[1], c)
            elif s != v:
                c = self.counted(fr, head, s, v)
                if c:
                    new[p] = c
        super().widen(fn, fr, head, body, st)
        st.store.update(new)

    def counted(self, fr, head, s, v):
        for d in (1, -1):
            c = counter(fr, head, s, d)
            if v == c or v == self.step_by(s, d) or v == self.step_by(c, d):
                return c
        return None

    def endpass(self, fr, st):
        d = st.data
        pend = d.get(('pend',))
        if pend and pend[0]:
            self.report('listed', fr, pend[1], 'sites that differ are not added to %s' % ', '.join(sorted(pend[0])))
        moved = d.get(('may', 'moved'), frozenset())
        pushed = d.get(('may', 'pushed'), frozenset())
        if len(moved) == 1:
            side = 'pop0' if list(moved)[0][0] == 'T' else 'add1'
            other = 'add1' if side == 'pop0' else 'pop0'
            self.good += 1
            if not pushed or pushed == {other}:
                self.report('rest', fr, None, 'a site without counterpart is not recorded in %s' % side)
        if d.get(('item',)) and not pushed & set(LISTS):
            self.report('listed', fr, None, 'a differing site found by the ordered comparison is not listed')
        st.facts = {k: v for k, v in st.facts.items() if not (k[0] == 'eq' and self.atompair(k))}
        st.data = {k: v for k, v in st.data.items() if k not in (('may', 'handled'), ('pend',), ('may', 'moved'), ('may', 'pushed'), ('item',))}

    # -- calls
    def on_call(self, fr, st, n, callee, obj, args):
        name = effects.cname(n)
        R = lambda v: self.rvalue(fr, st, v)
        own = callee is not None and callee.blocks
        if own and callee.usr == self.base and not n.get('dyn'):
            st.data = dict(st.data)
            st.data[('restricted',)] = False
            st.data[('ends',)] = frozenset()
            for l in LISTS:
                st.data[('fill', l)] = 'full'
                st.data.pop(('taken', l), None)
            return [(st, ('full', self.fresh(fr, n)))]
        if own and callee.usr in self.own and callee.name in OPS and callee.name in ('operator==', 'operator!='):
            ops = ([obj] if obj is not None else []) + list(args)
            v = mk_eq(R(ops[0]), R(ops[1]))
            return [(st, v if callee.name == 'operator==' else sym.mk_not(v))]
        if name == 'diff' and n.get('dyn') and len(args) == 1 and obj is not None:
            return [(st, ('delegated', self.fresh(fr, n), obj, R(args[0])))]
        if obj is None and name.startswith('dynamic_pointer_cast') or n.get('fq', '').split('<')[0].endswith('dynamic_pointer_cast'):
            v = R(args[0])
            t = n.get('t', '')
            r = next((x for x in sorted(self.P.recname, key=len, reverse=True) if x in t and self.P.recname[x].file.startswith('diffpy')), None)
            cls = self.P.recname[r].usr if r else None
            known = st.data.get(('isa', v))
            if known and cls and self.P.isa(known, cls):
                return [(st, v)]
            s2 = st.copy()
            s2.data = dict(s2.data)
            s2.data[('isa', v)] = cls
            return [(st, ZERO), (s2, v)]
        if own and callee.name != 'countSites':
            return None
        if obj is not None and obj[0] == 'ref':
            path = obj[1]
            last = path[-1]
            if name in ('clear', 'swap') and last in LISTS:
                st.data = dict(st.data)
                st.data.pop(('fill', last), None)
            if name in ('push_back', 'emplace_back', 'insert', 'push_front', 'resize', 'assign'):
                self.push(fr, st, n, path, last, [R(a) for a in args])
            if name in ('begin', 'cbegin') and not args:
                return [(st, ('it', path, ('c', 0)))]
        peek = R(obj) if obj is not None else None
        if name == 'countSites' and obj is not None:
            path = obj[1] if obj[0] in ('ref', 'ptr') else ('D', R(obj))
            return [(st, ('call', 'size', ('i', path + ('matoms',))))]
        if peek is not None and peek[0] == 'it' and name in ('operator++', 'operator--') and st.data.get(('result',)) == peek[1]:
            st.data = dict(st.data)
            st.data[('item',)] = True
        if peek is not None and peek[0] == 'it' and isinstance(peek[2], tuple) and name in ('operator++', 'operator--') and obj[0] == 'ref':
            self.moved(st, peek[1])
            self.write(fr, st, n, obj[1], ('it', peek[1], self.step_by(peek[2], 1 if name == 'operator++' else -1)))
            return [(st, peek if args else obj)]
        if name in ('back_inserter', 'inserter') and args and args[0][0] == 'ref':
            return [(st, ('inserter', args[0][1]))]
        if obj is None and name in ('sort', 'stable_sort') and len(args) >= 2:
            v = [R(a) for a in args]
            if v[0][0] == v[1][0] == 'it' and v[0][1] == v[1][1] and v[0][2] == ('c', 0) and v[1][2] == 'end':
                st.data = dict(st.data)
                st.data[('sorted', v[0][1])] = str(v[2]) if len(v) > 2 else ''
                if len(v) > 2:
                    self.orders.setdefault(v[2], (fr.fn, n))
        if obj is None and name in ('set_symmetric_difference', 'set_difference', 'set_intersection', 'set_union', 'merge') and len(args) >= 5:
            v = [R(a) for a in args]
            for a, b in ((v[0], v[1]), (v[2], v[3])):
                whole = a[0] == b[0] == 'it' and a[1] == b[1] and a[2] == ('c', 0) and b[2] == 'end'
                self.good += 1
                if not whole:
                    self.report('ordered', fr, n, 'the ordered comparison does not cover all sites')
                elif st.data.get(('sorted', a[1])) != (str(v[5]) if len(v) > 5 else ''):
                    self.report('ordered', fr, n, 'the sites are not ordered by the relation used for their comparison')
            if v[0][1:2] == v[2][1:2]:
                self.report('ordered', fr, n, 'sites are compared with themselves')
            r = self.external(fr, st, n, callee, obj, args)
            if v[4][0] == 'inserter':
                for q, _ in r:
                    q.data = dict(q.data)
                    q.data[('result',)] = v[4][1]
                    self.write(fr, q, n, v[4][1], ('w', fr.tok, n['i'], v[4][1]))
                return r
            if v[4][0] == 'it':
                for s, _ in r:
                    s.data = dict(s.data)
                    s.data[('result',)] = v[4][1]
                return [(s, ('it', v[4][1], 'last')) for s, _ in r]
            return r
        if obj is not None and obj[0] == 'ref' and name == 'erase' and st.data.get(('result',)) == obj[1] and len(args) == 2:
            v = [R(a) for a in args]
            if v[0] == ('it', obj[1], 'last') and v[1][0] == 'it' and v[1][2] == 'end':
                st.data = dict(st.data)
                st.data[('trimmed',)] = True
        return None

    def deref(self, v):
        if v[0] == 'it' and isinstance(v[2], tuple):
            return v[1] + (('[]', v[2]),)
        return super().deref(v)

    def push(self, fr, st, n, path, last, vals):
        st.data = dict(st.data)
        st.data[('may', 'pushed')] = st.data.get(('may', 'pushed'), frozenset()) | {last if last in LISTS else 'other'}
        if last not in LISTS:
            # an item of a list to be sorted: the address of an atom and its code
            for v in vals:
                if v[0] == 'pair' and v[1][0] == 'ptr' and self.isatoms(v[1][1]) and v[1][1][-1][0] == '[]':
                    pos, code = linear(v[1][1][-1][1]), linear(v[2])
                    side = v[1][1][0] == 'T'
                    if pos and code and pos[1] is not None:
                        if code[1] not in (None, pos[1]):
                            self.report('position', fr, n, 'the index kept with a site is not related to its position')
                        elif pos[:1] == (1,):
                            k = (code[0], code[2] - code[0] * pos[2])
                            key = ('code', side)
                            self.good += 1
                            if st.data.get(key, k) != k:
                                self.report('position', fr, n, 'the index kept with a site is not a function of its position')
                            st.data[key] = k
            return
        pend = st.data.get(('pend',))
        if pend:
            st.data[('pend',)] = (pend[0] - {last}, pend[1])
        phase = 'ordered' if st.data.get(('result',)) is not None else 'paired'
        self.good += 1
        if st.data.get(('fill', last), phase) != phase:
            self.report('fresh', fr, n, 'sites are added to %s although it still lists those of an earlier comparison' % last)
        st.data[('fill', last)] = phase
        if not vals:
            return
        v = vals[-1]
        src = st.data.get(('result',))
        if src is not None and deep(v, lambda x: self.itemof(x, src)):
            self.decoded(fr, st, n, last, v, src)
            return
        its = [w for w in st.store.values() if w[0] == 'it' and isinstance(w[2], tuple) and self.isatoms(w[1]) and (w[1][0] == 'T') == (last == 'pop0')]
        if not its:
            return
        self.good += 1
        counts = v[0] == 'phi' and len(v) == 6 and v[5] == 1
        if not any(self.sameplace(st, v, w[2]) or counts and self.sameplace(st, v[4], w[2]) for w in its):
            self.report('position', fr, n, 'the index added to %s is not the position of the site' % last)

    def sameplace(self, st, v, idx):
        if v == idx or Facts.truth(st.facts, mk_eq(v, idx)) is True:
            return True
        a, b = linear(v), linear(idx)
        if a is not None and a == b:
            return True
        # a second loop continues where the first one ended
        if v[0] == idx[0] == 'phi' and len(v) == len(idx) == 6 and v[:3] == idx[:3] and v[5] == idx[5]:
            return self.ended(st, idx[4], v[4])
        return self.ended(st, idx, v)

    def ended(self, st, x, bound):
        """x counts up in steps of one and its loop ended at the bound"""
        if x == bound:
            return True
        if x[0] == 'phi' and len(x) == 6 and x[5] == 1 and x[4] == ZERO:
            return Facts.truth(st.facts, mk_lt(x, bound)) is False or Facts.truth(st.facts, mk_eq(x, bound)) is True
        # no pass of the loop
        return x == ZERO and Facts.truth(st.facts, mk_lt(x, bound)) is False

    def itemof(self, x, src):
        if x[0] == 'i' and len(x) == 2 and isinstance(x[1], tuple):
            return x[1][:len(src)] == src and len(x[1]) > len(src)
        return x[0] == 'sel' and x[1][0] == 'w' and x[1][-1] == src

    def decoded(self, fr, st, n, last, v, src):
        side = last == 'pop0'
        code = st.data.get(('code', side))
        if code is None or st.data.get(('code', not side)) is None:
            return
        atom = []
        deep(v, lambda x: self.itemof(x, src) and not atom.append(x))
        x = atom[0]
        if (x[1] if x[0] == 'i' else x[2])[-1] != 'second':
            return
        self.good += 1
        a, b = code

        def ev(w):
            """linear in the position: w with the code replaced"""
            if w == x:
                return a, b
            if w[0] == 'c':
                return 0, w[1]
            if w[0] == 'op' and len(w) == 4:
                p, q = ev(w[2]), ev(w[3])
                if p is None or q is None:
                    return None
                if w[1] == '+':
                    return p[0] + q[0], p[1] + q[1]
                if w[1] == '-':
                    return p[0] - q[0], p[1] - q[1]
                if w[1] == '*':
                    if p[0] and q[0]:
                        return None
                    return p[0] * q[1] + q[0] * p[1], p[1] * q[1]
            if w[0] == 'op' and w[1] in ('neg', '-') and len(w) == 3:
                p = ev(w[2])
                return p and (-p[0], -p[1])
            if w[0] in ('neg', '~') and len(w) == 2:
                p = ev(w[1])
                return p and ((-p[0], -p[1]) if w[0] == 'neg' else (-p[0], -p[1] - 1))
            return None
        if ev(v) != (1, 0):

            self.report('position', fr, n, 'the index added to %s is not the position of the site' % last)
        # the codes of the other structure are excluded
        oa, ob = st.data[('code', not side)]
        excluded = False
        for q, t in st.facts.items():
            if q[0] == 'lt' and x in q[1:]:
                first = [('c', ob) if w == x else w for w in q[1:]]
                later = [('c', ob + 1000000 * oa) if w == x else w for w in q[1:]]
                if all(w[0] == 'c' for w in first) and (first[0][1] < first[1][1]) is not t and (later[0][1] < later[1][1]) is not t:
                    excluded = True
        if not excluded:
            self.report('position', fr, n, 'sites of one structure may be listed as sites of the other')

    def edge(self, fn, fr, frm, to, st, loops, back, work):
        # atoms found different on this edge have to be listed
        handled = st.data.get(('may', 'handled'), frozenset())
        for k, v in st.facts.items():
            if v is False and k[0] == 'eq' and k not in handled and self.atompair(k):
                st.data = dict(st.data)
                st.data[('may', 'handled')] = handled = handled | {k}
                st.data[('pend',)] = (frozenset(LISTS), None)
                self.good += 1
            w = None
            if v and k[0] == 'eq' and k[1][0] == k[2][0] == 'it' and 'end' in (k[1][2], k[2][2]):
                w = k[1][1]
            elif not v and k[0] == 'lt' and k[2][:2] == ('call', 'size') and k[2][2][0] == 'i':
                w = k[2][2][1]
            if w is not None and self.isatoms(w) and not st.data.get(('done', w)):
                st.data = dict(st.data)
                st.data[('done', w)] = True
        return super().edge(fn, fr, frm, to, st, loops, back, work)

    def atompair(self, k):
        return all(w[0] == 'i' and len(w) == 2 and self.isatoms(w[1]) and isinstance(w[1][-1], tuple) and w[1][-1][0] == '[]' for w in k[1:3])

    def on_write(self, fr, st, n, path, value, old, cond):
        if value[0] == 'delegated':
            st.data = dict(st.data)
            st.data[('restricted',)] = value
            st.data[('ends',)] = frozenset(['stru0', 'stru1'])
            st.data[('good',)] = frozenset()
            for l in LISTS:
                st.data.pop(('taken', l), None)
        if path[-1] in LISTS:
            st.data = dict(st.data)
            if value[0] == 'sel' and value[1][0] == 'delegated' and value[2][-1] == path[-1]:
                st.data[('taken', path[-1])] = value[1]
                st.data[('restricted',)] = value[1]
                return
            st.data[('restricted',)] = True
            st.data[('taken', path[-1])] = 'other'
            if value[0] == 'obj':
                st.data.pop(('fill', path[-1]), None)
        ends = st.data.get(('ends',), frozenset())
        if path[-1] in ('stru0', 'stru1'):
            v = self.rvalue(fr, st, value)
            mine = deep(v, lambda x: x[:1] == ('T',)) and not deep(v, lambda x: len(x) > 1 and x[0] == 'T')
            good = mine if path[-1] == 'stru0' else v[0] == 'p'
            good = good or v[0] == 'sel' and v[1][0] == 'full' and v[2] == (path[-1],)
            st.data = dict(st.data)
            st.data[('ends',)] = ends - {path[-1]} if good else ends | {path[-1]}
            st.data[('good',)] = st.data.get(('good',), frozenset()) - {path[-1]} | (frozenset(path[-1:]) if good else frozenset())


class Order(sym.Exec):
    """comparator of the sorted sites for an assumed relation of the two sites"""
    max_depth = 6

    def __init__(self, P, own, rel):
        super().__init__(P)
        self.own, self.rel = own, rel

    def should_inline(self, fr, fn, n):
        return fn.file.startswith('diffpy') and fn.usr not in self.own

    def side(self, v):
        ks = {k for k in (0, 1) if deep(v, lambda x: x[:2] == ('A', k) or x[:2] == ('p', k))}
        return ks.pop() if len(ks) == 1 else None

    def on_call(self, fr, st, n, callee, obj, args):
        if callee is not None and callee.usr in self.own and callee.name in OPS:
            ops = [self.side(v) for v in ([obj] if obj is not None else []) + list(args)]
            if sorted(map(str, ops)) == ['0', '1']:
                r = {'<': -1, '=': 0, '>': 1}[self.rel]
                x = sym.mk_op(OPS[callee.name], ('c', r if ops == [0, 1] else -r), ZERO)
                return [(st, x)]
        return None


def check_comparator(ctx, P, comps, v, g, n):
    f = P.fns.get(v[1]) if v[0] in ('fn', 'lambda') else None
    if f is None:
        # an object with a call operator
        return
    own = {x.usr for d in comps.values() for x in d.values()}
    for rel in '<=>':
        ex = Order(P, own, rel)
        outs, fr = ex.analyze(f, f.cls)
        res = {Facts.truth(o.st.facts, mk_truth(ex.rvalue(fr, o.st, o.value))) for o in outs if o.kind == 'return' and o.value is not None}
        ctx.check(res == {rel == '<'}, 'ordered', '%s:%s' % (f.short, rel), f.loc(), 'sites are not ordered by their attributes')


class Full(Diff):
    """constructor of the difference of unrelated structures"""

    def should_inline(self, fr, fn, n):
        return fn.file.startswith('diffpy') and fn.name != 'countSites'

    def note(self, st, last, what):
        st.data = dict(st.data)
        st.data[('filled', last)] = what

    def on_call(self, fr, st, n, callee, obj, args):
        name = effects.cname(n)
        R = lambda v: self.rvalue(fr, st, v)
        if name == 'countSites' and obj is not None:
            x = R(obj) if obj[0] != 'ref' else ('ptr', obj[1])
            return [(st, ('call', 'sites', x[1][1] if x[0] == 'ptr' and x[1][0] == 'D' and len(x[1]) == 2 else x))]
        if obj is not None and obj[0] == 'ref' and obj[1][-1] in LISTS:
            last = obj[1][-1]
            v = [R(a) for a in args]
            if name in ('resize', 'assign') and v:
                self.note(st, last, ('size', v[0]))
                return [(st, ('c', 0))]
            if name in ('push_back', 'emplace_back') and v:
                x = linear(v[-1])
                first = v[-1] == ZERO and not st.data.get(('filled', last))
                if not first and (x is None or x[0] != 1 or x[2] != 0):
                    self.report('full', fr, n, 'the listed indices are not 0, 1, ...')
                self.note(st, last, ('pushed', v[-1], frozenset(k for k, t in st.facts.items() if t is False)))
                return [(st, ('c', 0))]
            if name in ('begin', 'cbegin'):
                return [(st, ('it', obj[1], ('c', 0)))]
            if name == 'size':
                return [(st, ('call', 'size', obj[1]))]
        if name == 'iota' and len(args) == 3:
            v = [R(a) for a in args]
            if v[0][0] == 'it' and v[0][1][-1] in LISTS:
                last = v[0][1][-1]
                if v[0][2] == ('c', 0) and v[1][2] == 'end' and v[2] == ('c', 0):
                    self.note(st, last, st.data.get(('filled', last), ('?',)) + ('all',))
                else:
                    self.report('full', fr, n, 'the listed indices are not 0, 1, ...')
        return super().on_call(fr, st, n, callee, obj, args)

    def on_write(self, fr, st, n, path, value, old, cond):
        for k, last in enumerate(path):
            if last in LISTS and len(path) == k + 2 and path[-1][0] == '[]':
                self.good += 1
                if not self.sameplace(st, self.rvalue(fr, st, value), path[-1][1]):
                    self.report('full', fr, n, 'the listed indices are not 0, 1, ...')

    def edge(self, fn, fr, frm, to, st, loops, back, work):
        for k, v in st.facts.items():
            if v and k[0] == 'eq' and k[1][0] == k[2][0] == 'it' and 'end' in (k[1][2], k[2][2]) and k[1][1][-1] in LISTS:
                f = st.data.get(('filled', k[1][1][-1]))
                if f and f[-1] != 'all':
                    self.note(st, k[1][1][-1], f + ('all',))
            if v is False and k[0] == 'lt' and linear(k[1]) and linear(k[1])[0] == 1:
                for l in LISTS:
                    f = st.data.get(('filled', l))
                    if f and f[0] == 'pushed' and linear(f[1]) and (linear(f[1])[1] == linear(k[1])[1] or f[1] == ZERO and k not in f[2]):
                        self.note(st, l, ('size', k[2], 'all'))
                    elif f and f[0] == 'size' and f[-1] != 'all' and k[2] in (f[1], ('call', 'size', ('T', l))):
                        self.note(st, l, f + ('all',))
        return sym.Exec.edge(self, fn, fr, frm, to, st, loops, back, work)


def check_full(ctx, P, comps):
    """unrelated structures differ in all sites"""
    cls = P.rec('StructureDifference').usr
    ctors = [f for f in P.methods_of(cls) if f.ctor and len(f.params) == 2]
    ctx.need(len(ctors) == 1, 'constructor of the full difference')
    f = ctors[0]
    ctx.touched(f)
    ex = Full(P, None, comps)
    outs, fr = ex.analyze(f, cls)
    for o in outs:
        if o.kind == 'throw':
            continue
        s = [ex.rvalue(fr, o.st, ('ref', ('T', x))) for x in ('stru0', 'stru1')]
        val = lambda v: Facts.truth(o.st.facts, v)
        if val(mk_eq(s[0], s[1])) is True:
            # nothing differs
            continue
        for l, x in zip(LISTS, s):
            got = o.st.data.get(('filled', l))
            none = val(mk_truth(x)) is False
            size = got[1] if got and got[0] == 'size' else None
            none = none or val(mk_lt(ZERO, ('call', 'sites', x))) is False
            good = none and (got is None or got[0] == 'size' and (got[1] == ZERO or deep(got[1], lambda y: y == x))) or \
                size is not None and got[-1] == 'all' and size[:2] == ('call', 'sites') and deep(size, lambda y: y == x)
            ctx.check(good, 'full', '%s:%s' % (f.short, l), f.loc(), '%s does not list all sites of its structure' % l)
    for rule, g, n, text in ex.found:
        ctx.bad(rule, g.short, g.loc(n) if n else g.loc(), text)
    ctx.floor('full', 3)


def check_diff(ctx, P, E, comps):
    base = P.rec('StructureAdapter').usr
    bdiff = P.method(base, 'diff', 1)
    total = 0
    for c in P.subclasses(base):
        if P.recs[c].abstract:
            continue
        f = P.fns[P.final(c, bdiff.usr)]
        if f.usr == bdiff.usr:
            continue
        total += 1
        ctx.touched(f)
        short = P.recs[c].short
        ex = Diff(P, bdiff.usr, comps)
        outs, fr = ex.analyze(f, c)
        ctx.npaths += len(outs)
        other = ('p', 0, f.params[0]['name'])
        opath = ('D', other)
        restricted = 0
        for o in outs:
            if o.kind != 'return':
                continue
            r = o.st.data.get(('restricted',))
            ends = o.st.data.get(('ends',), frozenset())
            v = ex.rvalue(fr, o.st, o.value) if o.value is not None else None
            if v is not None and v[0] == 'delegated' and not isinstance(r, tuple):
                r, ends = v, frozenset(['stru0', 'stru1']) - o.st.data.get(('good',), frozenset())
            if not r:
                continue
            restricted += 1
            ctx.check(not ends, 'ends', '%s:%s' % (f.short, short), f.loc(), 'the result does not refer to the compared structures in ' + ', '.join(sorted(ends)))
            known = o.st.data.get(('isa', other))
            alike = known == c and P.subclasses(c) in ([c], {c}, (c,)) or known == c and not [x for x in P.subclasses(c) if x != c] or \
                any(v and k[0] == 'eq' and all(isinstance(w, tuple) and w[:2] == ('call', 'typeid') for w in k[1:3])
                    and deep(k, lambda x: x == ('T',)) and deep(k, lambda x: x == other) for k, v in o.st.facts.items())
            ctx.check(alike, 'same-kind', '%s:%s' % (f.short, short), f.loc(), 'the difference is restricted to some sites although the structures may be of different types')
            if isinstance(r, tuple):
                src = [fl['name'] for fl in attributes(P, c) if 'StructureAdapter' in fl['type']]
                good = len(src) == 1 and deep(r[2], lambda x: x == ('T', src[0])) and deep(r[3], lambda x: x[:3] == ('D', other, src[0]))
                taken = [o.st.data.get(('taken', l)) for l in LISTS]
                good = good and (taken == [None, None] or taken == [r, r])
                ctx.check(good and known == c, 'wrapper', f.short, f.loc(), 'the wrapped structures are not those that are compared')
                ctx.check(all(fl['name'] in src for fl in attributes(P, c)), 'attribute', f.short, f.loc(), 'an attribute of the wrapper is not compared')
                continue
            for fl in attributes(P, c):
                if fl['type'].replace(' ', '') == 'std::vector<diffpy::srreal::Atom>':
                    for side, p in (('first', ('T', fl['name'])), ('second', opath + (fl['name'],))):
                        done = o.st.data.get(('done', p))
                        ctx.check(done, 'rest', '%s:%s' % (f.short, side), f.loc(), 'not all sites of the %s structure were compared' % side)
                    continue
                eq = mk_eq(('i', ('T', fl['name'])), ('i', opath + (fl['name'],)))
                ctx.check(Facts.truth(o.st.facts, eq) is True, 'attribute', '%s:%s:%s' % (f.short, short, fl['name']), f.loc(),
                          'the difference is restricted to some sites although %s may differ' % fl['name'])
        ctx.check(restricted > 0, 'attribute', f.short + ':' + short, f.loc(), 'no difference is ever restricted to some sites')
        for g in ex.uncompared():
            ctx.bad('listed', g.short, g.loc(), 'a pass of the comparison ends although the sites were not found equal and are not listed')
        for v, (g, n) in ex.orders.items():
            check_comparator(ctx, P, comps, v, g, n)
        for rule, g, n, text in ex.found:
            ctx.bad(rule, g.short, g.loc(n) if n else g.loc(), text)
        for k in range(ex.good):
            ctx.ok('listed', short)
    ctx.need(total >= 5, 'diff functions')
    ctx.floor('attribute', 8)
    ctx.floor('listed', 10)


def run(ctx):
    P = ctx.P
    E = effects.of(P)
    comps = comparisons(P)
    for cls, d in sorted(comps.items()):
        if 'Epsilon' in P.recs[cls].short:
            continue
        less = None
        if 'operator<' in d:
            f = d['operator<']
            less = Relation(P, f)
            ctx.touched(f)
            check_less(ctx, P, f, less)
        for name, f in sorted(d.items()):
            ctx.touched(f)
            if name == 'operator<':
                continue
            F = Relation(P, f)
            if name in ('operator==', 'operator!='):
                check_equality(ctx, P, f, F, name == 'operator==')
            elif less is not None:
                check_form(ctx, P, f, F, less)
    n = check_hashes(ctx, P, E, comps)
    check_diff(ctx, P, E, comps)
    check_full(ctx, P, comps)
    ctx.need(len(comps) >= 9, 'compared classes')
    ctx.need(n >= 4, 'hash functions')
    ctx.floor('equality', 300)
    ctx.floor('order', 100)
