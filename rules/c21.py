"""The loop protocol of every bond generator class is executed symbolically.  (1) 'presented': after rewind and next the search has
either finished or it stands at a pair whose distance is within both limits and is not zero.  (2) 'skipped': a pair is passed over
only when it is outside of the limits or of zero distance.  (3) 'step': one step moves the innermost of the counters (site, cell,
symmetry position), a counter moves on only when the inner ones are exhausted, and those start over.  (4) 'restart': every public
operation that changes a limit, the anchor or the selected sites ends the search in progress.  (5) 'stored': the changed setting is
the given one.  (6) 'region': a region of cells prepared for the search covers the limits and is prepared anew when they change.
(7) 'configured': every calculator passes its own lower and upper limit to the search, on every path."""
import sym, effects
from sym import Facts, mk_eq, mk_lt, mk_truth, ZERO, ONE
from c12 import deep
from c10 import linear

ASSUMPTIONS = ['the points of PointsInSphere cover the requested spherical shell',
               'a structure does not change while a search over its pairs is in progress']
EPS = ('eps_eq', 'eps_gt', 'eps_lt')


class Gen(sym.Exec):
    max_depth = 8

    def __init__(self, P, gen, roles=None, opaque=True):
        super().__init__(P)
        self.gen, self.opaque, self.roles = gen, opaque, roles
        self.E = effects.of(P)
        self.advances = []
        self.created = []

    def own(self, fn):
        return fn.cls and fn.cls in self.P.recs and self.P.isa(fn.cls, self.gen)

    def hidden(self, fn):
        """a step of the search which a derived class may define"""
        return fn.access != 0 and (self.P.methodinfo.get(fn.usr) or (0, {}))[1].get('virtual')

    def should_inline(self, fr, fn, n):
        if not self.own(fn):
            return fn.file.startswith('diffpy') and not fn.cls and len(fn.nodes) < 80
        return not (self.opaque and n.get('dyn') and self.hidden(fn))

    def on_call(self, fr, st, n, callee, obj, args):
        if callee is not None and callee.name in EPS and len(args) >= 2:
            a, b = (self.rvalue(fr, st, x) for x in args[:2])
            near = ('call', 'near', a, b)
            v = {'eps_eq': ('or', mk_eq(a, b), mk_truth(near)), 'eps_lt': sym.mk_op('&&', mk_lt(a, b), near),
                 'eps_gt': sym.mk_op('&&', mk_lt(b, a), near)}[callee.name]
            return [(st, v)]
        if self.roles and callee is not None and self.opaque and self.own(callee) and n.get('dyn') and self.hidden(callee):
            cur = self.roles['current']
            if self.P.fieldowner and any(w == cur[-1] for w in self.writes(callee, fr)):
                k = ('advanced',)
                first = not st.data.get(k)
                self.advances.append((first, self.state(st), dict(st.facts), fr, n))
                st.data = dict(st.data)
                st.data[k] = True
        return None

    def writes(self, fn, fr):
        R, W = self.E.trans(fn, fr.cls)
        out = set()
        for r in W:
            if r[0] == 'F':
                o = self.P.fieldowner.get(r[1])
                if o:
                    out.add(o[1]['name'])
        return out

    def state(self, st):
        return {k: self.load(st, p) for k, p in self.roles.items()}


def run_on(P, gen, cls, f, roles=None, opaque=True):
    ex = Gen(P, gen, roles, opaque)
    outs, fr = ex.analyze(f, cls)
    return ex, fr, outs


def roles(ctx, P, gen):
    """data members behind the public accessors"""
    out = {}
    for role, name in (('rmin', 'getRmin'), ('rmax', 'getRmax'), ('distance', 'distance'), ('anchor', 'site0'), ('r0', 'r0'),
                       ('r1', 'r1'), ('r01', 'r01')):
        ex, fr, outs = run_on(P, gen, gen, P.method(gen, name))
        vals = {ex.rvalue(fr, o.st, o.value) for o in outs if o.kind == 'return'}
        v = vals.pop() if len(vals) == 1 else None
        ctx.need(v and v[0] == 'i' and v[1][0] == 'T', 'data member returned by ' + name)
        out[role] = v[1]
    ex, fr, outs = run_on(P, gen, gen, P.method(gen, 'finished'))
    ends = set()
    for o in outs:
        v = sym.expand(ex.rvalue(fr, o.st, o.value))
        todo = [v] + [k for k in o.st.facts]
        while todo:
            x = todo.pop()
            if isinstance(x, tuple) and x and x[0] in ('not', 'truth', 'eq'):
                todo += [y for y in x[1:] if isinstance(y, tuple)]
            if isinstance(x, tuple) and x and x[0] == 'lt':
                ends.add((x[1], x[2]))
    ctx.need(len(ends) == 1, 'comparison of positions in finished()')
    a, b = ends.pop()
    ctx.need(a[0] == b[0] == 'i', 'positions compared in finished()')
    out['current'], out['last'] = a[1], b[1]
    return out


def tests(S):
    """(condition that must not hold, description) for a pair that may be presented"""
    d = S['distance']
    return [(mk_lt(d, S['rmin']), 'is below the lower limit'), (mk_lt(S['rmax'], d), 'exceeds the upper limit')], \
        [(mk_eq(d, ZERO), 'has zero distance'), (mk_truth(('call', 'near', d, ZERO)), 'has zero distance'),
         (mk_truth(('call', 'near', ZERO, d)), 'has zero distance')]


def nonzero(S, facts):
    d = S['distance']
    if Facts.truth(facts, mk_eq(d, ZERO)) is not False:
        # a distance above some positive number
        return False
    return any(Facts.truth(facts, mk_truth(('call', 'near', a, b))) is False for a, b in ((d, ZERO), (ZERO, d)))


def finished(S, facts):
    return S['current'] == S['last'] or Facts.truth(facts, mk_lt(S['current'], S['last'])) is False


def classes(P):
    gen = P.rec('BaseBondGenerator').usr
    return gen, [gen] + sorted(P.subclasses(gen))


def check_presented(ctx, rule, range_too=True):
    P = ctx.P
    gen, cs = classes(P)
    ro = roles(ctx, P, gen)
    for c in cs:
        for name in ('rewind', 'next'):
            f = P.fns[P.final(c, P.method(c, name).usr)]
            ctx.touched(f)
            ex, fr, outs = run_on(P, gen, c, f, ro)
            for o in outs:
                if o.kind != 'return':
                    continue
                ctx.npaths += 1
                S = ex.state(o.st)
                if finished(S, o.st.facts):
                    continue
                bad = []
                if range_too:
                    bad = [w for t, w in tests(S)[0] if Facts.truth(o.st.facts, t) is not False]
                if not nonzero(S, o.st.facts):
                    bad.append('has zero distance')
                what = '%s::%s' % (P.recs[c].short, name)
                ctx.check(not bad, rule, what, f.loc(f.nodes[next(iter(f.nodes))]) if f.nodes else f.file,
                          'the search may stop at a pair which %s' % ' or '.join(bad))
                if name == 'rewind' and range_too:
                    init = ('i', ro['distance'])
                    ctx.check(S['distance'] != init, rule, what + ' distance', f.loc(f.nodes[next(iter(f.nodes))]),
                              'the distance is not evaluated for the first pair')
            if range_too:
                check_skipped(ctx, P, c, name, f, ex, ro)


def check_skipped(ctx, P, c, name, f, ex, ro):
    what = '%s::%s' % (P.recs[c].short, name)
    for first, S, facts, fr, n in ex.advances:
        if first and name == 'next':
            continue
        T = Facts.truth
        inval = any(T(facts, t) is True for t, _ in tests(S)[0]) or any(T(facts, t) is True for t, _ in tests(S)[1])
        ctx.check(inval, 'skipped', what, fr.fn.loc(n), 'a pair within the limits is passed over')
    if name == 'next':
        ctx.check(any(a[0] for a in ex.advances), 'skipped', what + ' moves', f.file, 'next does not move to another pair')


class Step(Gen):
    """counters moved by one step"""
    outcome_limit = 400
    head_limit = 60

    def __init__(self, P, gen, ro, first):
        super().__init__(P, gen, ro, False)
        self.first = first
        self.memo = {}

    def event(self, st, *e):
        st.data = dict(st.data)
        st.data[('steps',)] = st.data.get(('steps',), ()) + (e,)

    def steps(self, st):
        return st.data.get(('steps',), ())

    def counts(self, fn, cls):
        """fn may move a counter or tells about one"""
        k = (fn.usr, cls)
        if k not in self.memo:
            R, W = self.E.trans(fn, cls)
            names = {self.P.fieldowner[r[1]][1]['name'] for r in W if r[0] == 'F' and r[1] in self.P.fieldowner}
            self.memo[k] = bool(names & self.counters(cls)) or bool(fn.ret and fn.ret.replace('const ', '').strip() in ('bool', 'int'))
        return self.memo[k]

    def counters(self, cls):
        out = {self.roles['current'][-1]}
        for u in [cls] + [x for x in self.P.mro(cls) if x in self.P.recs]:
            for f in self.P.recs[u].fields:
                t = f['type'].replace('const ', '')
                if 'PointsInSphere' in t or t in ('int', 'size_t', 'unsigned long', 'unsigned int', 'long', 'std::size_t'):
                    out.add(f['name'])
        for u, r in self.P.recs.items():
            if r.short == 'PointsInSphere':
                out |= {f['name'] for f in r.fields}
        return out

    def should_inline(self, fr, fn, n):
        return bool(self.own(fn)) and self.counts(fn, fr.cls)

    def on_call(self, fr, st, n, callee, obj, args):
        r = super().on_call(fr, st, n, callee, obj, args)
        if r is not None:
            return r
        if callee is not None and callee.cls in self.P.recs and self.P.recs[callee.cls].short == 'PointsInSphere':
            d = ('T', 'PointsInSphere')
            if callee.name == 'next':
                self.event(st, 'adv', d)
            elif callee.name == 'rewind':
                self.event(st, 'reset', d)
            elif callee.name == 'finished':
                return [(st, ('call', 'exhausted', d, ('c', len(self.steps(st)))))]
            return [(st, ('call', callee.name, d, ('c', len(self.steps(st)))))]
        return None

    def on_write(self, fr, st, n, path, value, old, cond):
        for k in ('distance', 'r1'):
            if path[:2] == self.roles[k][:2]:
                st.data = dict(st.data)
                st.data[('at', k)] = len(self.steps(st))
        if path[0] != 'T' or len(path) != 2:
            return
        v = self.rvalue(fr, st, value)
        if path == self.roles['current'] or path[-1] in self.counters(fr.cls):
            if v[0] == 'w' and n is not None and n.get('op') == '++':
                self.event(st, 'adv', path)
            elif linear(v).get((), 0) == 1 and len(linear(v)) == 2:
                self.event(st, 'adv', path)
            elif v == ZERO or v == ('i', self.first):
                self.event(st, 'reset', path)
            elif v[0] != 'f':
                self.event(st, 'other', path)


def first_of(ctx, P, gen, c, ro):
    """member that holds the first selected position"""
    found = []

    class W(Gen):
        def on_write(self, fr, st, n, path, value, old, cond):
            if path == ro['current']:
                found.append(self.rvalue(fr, st, value))
    f = P.fns[P.final(c, P.method(c, 'rewind').usr)]
    ex = W(P, gen, ro, True)
    ex.analyze(f, c)
    vals = {v for v in found if v[0] not in ('f', 'w')}
    return vals


def check_step(ctx):
    P = ctx.P
    gen, cs = classes(P)
    ro = roles(ctx, P, gen)
    for c in cs:
        vals = first_of(ctx, P, gen, c, ro)
        f = P.fns[P.final(c, P.method(c, 'rewind').usr)]
        where = '%s:%d' % (f.file, f.line)
        v = next(iter(vals)) if len(vals) == 1 else (None,)
        good = v[0] == 'i' and v[1] not in (ro['last'], ro['current'])
        ctx.check(good, 'step', P.recs[c].short + '::rewind', where, 'the search does not start over from the first selected site')
        if not good:
            continue
        first = v[1]
        # the virtual operation called by next
        ex, fr, outs = run_on(P, gen, c, P.fns[P.final(c, P.method(c, 'next').usr)], ro)
        calls = {}
        for a in ex.advances:
            for usr in {a[4].get('fn')}:
                calls[usr] = a
        for usr, a in calls.items():
            g = P.fns[P.final(c, usr)]
            ctx.touched(g)
            sx = Step(P, gen, ro, first)
            souts, sfr = sx.analyze(g, c)
            inner = set()
            for o in souts:
                if o.kind != 'return':
                    continue
                ctx.npaths += 1
                msg = judge(sx, sfr, o, ro, inner)
                ctx.check(msg is None, 'step', '%s::%s' % (P.recs[c].short, g.name), '%s:%d' % (g.file, g.line), msg or '')
            ctx.check(len(inner) <= 1, 'step', '%s::%s innermost' % (P.recs[c].short, g.name), '%s:%d' % (g.file, g.line),
                      'different counters are moved first: ' + ', '.join(sorted(x[-1] for x in inner)))


def judge(sx, fr, o, ro, inner):
    ev = sx.steps(o.st)
    facts = o.st.facts
    adv = [(i, e[1]) for i, e in enumerate(ev) if e[0] == 'adv']
    if not adv:
        return 'a path does not move to another pair'
    inner.add(adv[0][1])
    if any(e[0] == 'other' for e in ev):
        return 'counter %s is set to an unexpected value' % [e[1][-1] for e in ev if e[0] == 'other'][0]
    over = finished(sx.state(o.st), facts)
    for k, (i, d) in enumerate(adv):
        spent = exhausted(sx, o, d, i, ev)
        if k + 1 < len(adv):
            if spent is not True:
                return '%s moves on before %s is exhausted' % (adv[k + 1][1][-1], d[-1])
            if not over and not any(e == ('reset', d) for e in ev[i + 1:]):
                return '%s does not start over after %s has moved' % (d[-1], adv[k + 1][1][-1])
        elif not over and d != ro['current'] and spent is not False:
            return '%s is used beyond its end' % d[-1]
    if not over:
        for k in ('distance', 'r1'):
            if o.st.data.get(('at', k), -1) != len(ev):
                return 'the %s is not evaluated for the new pair' % ('distance' if k == 'distance' else 'position')
    idx = [d for _, d in adv]
    for e in ev:
        if e[0] == 'reset' and e[1] not in idx[:-1]:
            return 'counter %s starts over although it was not exhausted' % e[1][-1]
    return None


def exhausted(sx, o, d, i, ev):
    facts = o.st.facts
    if d[-1] == 'PointsInSphere':
        for k, t in facts.items():
            x = k
            while isinstance(x, tuple) and x and x[0] in ('eq', 'truth', 'not'):
                if x[0] in ('eq', 'not'):
                    t = not t if (x[0] == 'not' or ZERO in x[1:]) else t
                x = next((y for y in x[1:] if isinstance(y, tuple) and y != ZERO), None)
                x = sym.expand(x) if x else x
            if isinstance(x, tuple) and x and x[:2] == ('call', 'exhausted') and x[3] == ('c', i + 1):
                return t
        return None
    if (d == sx.roles['current']):
        # compared with the end after the move
        for k, t in facts.items():
            if k[0] == 'lt' and k[2] == ('i', sx.roles['last']) and k[1] != ('i', d):
                return not t
        return None
    res = None
    for k, t in facts.items():
        if k[0] == 'lt' and deep(k[1], lambda x: x == ('i', d)) and linear(k[1]).get((), 0) == 1:
            res = not t
    return res


class Setter(Gen):
    """public operations of the generator; the region of cells is an opaque object"""

    def __init__(self, P, gen, ro):
        super().__init__(P, gen, ro, False)
        self.made = []

    def on_call(self, fr, st, n, callee, obj, args):
        r = super().on_call(fr, st, n, callee, obj, args)
        if r is None and callee is not None and callee.cls in self.P.recs and self.P.recs[callee.cls].short == 'PointsInSphere':
            return [(st, ('call', callee.name, ('T', 'PointsInSphere')))]
        return r

    def on_element(self, fr, st, n):
        if n['k'] == 'Ctor' and (n.get('cn') or '').split('::')[-1] == 'PointsInSphere' and not n.get('copy'):
            self.made.append(([self.getr(fr, st, x) for x in n['c'] if x >= 0], st, fr, n))


def same(v, w, facts):
    return v == w or Facts.truth(facts, mk_eq(v, w)) is True


def check_settings(ctx):
    P = ctx.P
    gen, cs = classes(P)
    ro = roles(ctx, P, gen)
    for c in cs:
        first = next((v[1] for v in first_of(ctx, P, gen, c, ro) if v[0] == 'i'), None)
        if first is None:
            continue
        watched = dict(ro, first=first)
        for r in ('current', 'distance', 'r1', 'r01'):
            del watched[r]
        seen = {}
        for m in P.methods_of(gen):
            g0 = P.fns.get(m.usr) if hasattr(m, 'usr') else None
            if g0 is None or g0.ctor or g0.dtor or g0.const or g0.static or g0.access != 0 or g0.name in ('rewind', 'next') \
                    or g0.name.startswith('operator'):
                continue
            g = P.fns[P.final(c, g0.usr)]
            what = '%s::%s/%d' % (P.recs[c].short, g0.name, len(g0.params))
            where = '%s:%d' % (g.file, g.line)
            ctx.touched(g)
            ex = Setter(P, gen, ro)
            outs, fr = ex.analyze(g, c)
            for o in outs:
                if o.kind != 'return':
                    continue
                ctx.npaths += 1
                S = {k: ex.load(o.st, p) for k, p in watched.items()}
                changed = sorted(k for k, p in watched.items() if not same(S[k], ('i', p), o.st.facts))
                over = finished(ex.state(o.st), o.st.facts)
                ctx.check(over or not changed, 'restart', what, where,
                          'the search goes on with pairs of the earlier settings after %s changed' % ', '.join(changed))
                stored(ctx, what, where, g0, S, ex, fr, o)
                check_region_gone(ctx, what, where, ex, c, o, changed)
            seen[g0.name] = g0
        need = {'setRmin', 'setRmax', 'selectAnchorSite', 'selectSites', 'selectSiteRange'}
        ctx.need(need <= set(seen), 'public settings of the bond search')


def stored(ctx, what, where, g0, S, ex, fr, o):
    pv = lambda k: (lambda x: deep(x, lambda y: y[:2] == ('p', k) or y[:2] == ('A', k)))
    if g0.name in ('setRmin', 'setRmax'):
        role = 'rmin' if g0.name == 'setRmin' else 'rmax'
        p = ('p', 0, g0.params[0]['name'])
        v = S[role]
        good = v[0] == 'p' and v[1] == 0 or any(k[0] == 'eq' and t and S[role] in k[1:3] and any(
            x[0] == 'p' and x[1] == 0 for x in k[1:3]) for k, t in o.st.facts.items())
        ctx.check(good, 'stored', what, where, 'the limit of the search is not the given one')
    elif g0.name == 'selectAnchorSite':
        v = S['anchor']
        ctx.check(v[0] == 'p' and v[1] == 0, 'stored', what, where, 'the anchor of the search is not the given site')
        ctx.check(pv(0)(S['r0']), 'stored', what + ' position', where, 'the position of the anchor is not that of the given site')
    elif g0.name == 'selectSiteRange':
        ctx.check(pv(0)(S['first']) and not pv(1)(S['first']), 'stored', what + ' first', where, 'the first site is not the given one')
        ctx.check(pv(1)(S['last']) and not pv(0)(S['last']), 'stored', what + ' last', where, 'the end of the sites is not the given one')
    elif g0.name == 'selectSites' and len(g0.params) == 2:
        ctx.check(pv(0)(S['first']) and not pv(1)(S['first']), 'stored', what + ' first', where, 'the first site is not the given one')
        ctx.check(pv(1)(S['last']) and not pv(0)(S['last']), 'stored', what + ' last', where, 'the end of the sites is not the given one')
    elif g0.name == 'selectSites':
        a, b = S['first'], S['last']
        good = a[0] == 'it' and b[0] == 'it' and a[1] == b[1] and a[2] == 'begin' and b[2] == 'end'
        ctx.check(good, 'stored', what, where, 'the selected sites are not those of one list')
        if good:
            ctx.check(pv(0)(ex.load(o.st, a[1])), 'stored', what + ' list', where, 'the selected sites are not the given ones')


def region_members(P, c):
    out = []
    for u in [c] + [x for x in P.mro(c) if x in P.recs]:
        out += [f['name'] for f in P.recs[u].fields if 'PointsInSphere' in f['type'] and ('ptr' in f['type'] or '*' in f['type'])]
    return sorted(set(out))


def check_region_gone(ctx, what, where, ex, c, o, changed):
    if not {'rmin', 'rmax'} & set(changed):
        return
    for name in region_members(ctx.P, c):
        v = ex.load(o.st, ('T', name))
        ctx.check(v == ZERO or Facts.truth(o.st.facts, mk_truth(v)) is False or v[0] in ('new', 'obj'), 'region', what + ' ' + name, where,
                  '%s still covers the earlier limits' % name)


def check_region(ctx):
    """the region of cells exceeds the limits by the size of the cell"""
    P = ctx.P
    gen, cs = classes(P)
    ro = roles(ctx, P, gen)
    for c in cs:
        if not region_members(P, c):
            continue
        f = P.fns[P.final(c, P.method(c, 'rewind').usr)]
        ctx.touched(f)
        ex = Setter(P, gen, ro)
        ex.analyze(f, c)
        what = P.recs[c].short
        ctx.check(bool(ex.made), 'region', what + ' made', '%s:%d' % (f.file, f.line), 'no region of cells is prepared')
        for args, st, fr, n in ex.made:
            lo, hi = linear(args[0]), linear(args[1])
            for side, L, role, sign in (('lower', lo, 'rmin', -1), ('upper', hi, 'rmax', 1)):
                v = ex.load(st, ro[role])
                rest = {k: x for k, x in L.items() if k != v}
                good = L.get(v) == 1 and len(rest) == 1 and all(
                    x * sign >= 1 and k and deep(k, lambda y: y[0] == 'call' and str(y[1]).split('::')[-1] == 'ucMaxDiagonalLength')
                    and k[0] == 'call' for k, x in rest.items())
                ctx.check(good, 'region', '%s %s' % (what, side), fr.fn.loc(n),
                          'the region of cells does not exceed the %s limit by the largest diagonal of the cell' % side)


class Conf(sym.Exec):
    """what configureBondGenerator passes to the bond search"""
    max_depth = 6

    def __init__(self, P, pq):
        super().__init__(P)
        self.pq, self.gen = pq, P.rec('BaseBondGenerator').usr

    def should_inline(self, fr, fn, n):
        if not fn.file.startswith('diffpy') or fn.ctor:
            return False
        if fn.cls in self.P.recs and self.P.isa(fn.cls, self.pq):
            return len(fn.nodes) < 40
        return not fn.cls and len(fn.nodes) < 40 and fn.name not in EPS

    def on_call(self, fr, st, n, callee, obj, args):
        name = effects.cname(n)
        if name in ('setRmin', 'setRmax') and (n.get('cn') or '').endswith('BondGenerator'):
            st.data = dict(st.data)
            st.data[(name,)] = (self.rvalue(fr, st, args[0]), fr.fn.usr, n['i'])
            return [(st, ZERO)]
        return None


class Cache(Conf):
    outcome_limit = 30


def pieces(v, op):
    v = sym.expand(v)
    return [y for x in v[2:] for y in pieces(x, op)] if v[0] == 'op' and v[1] == op else [v]


def covers(v, end, root, step):
    """True when the value v is the setting `root`, or lies outwards of it: below the lower limit (end -1), above the upper one (+1).
    A smaller of the upper limit and of another bound, and a larger of the lower one and of zero are accepted."""
    v = sym.expand(v)
    if v == ('i', root):
        return True
    if v[0] == 'op' and v[1] == ('min' if end > 0 else 'max'):
        parts = pieces(v, v[1])
        rest = [p for p in parts if not covers(p, end, root, step)]
        return len(rest) < len(parts) and (end > 0 or all(p == ZERO for p in rest))
    if v[0] == 'op' and v[1] == '*' and ('i', step) in v[2:]:
        return any(covers(x, end, root, None) for x in v[2:] if x != ('i', step))
    if step is None:                # a number of steps
        if v[0] == 'op' and v[1] == '-' and end < 0 and v[3] == ONE:
            return covers(v[2], end, root, None)
        if v[0] == 'op' and v[1] == '+' and end > 0 and ONE in v[2:]:
            return any(covers(x, end, root, None) for x in v[2:])
        if v[0] == 'call' and v[1] in ('ceil', 'floor', 'round') and len(v) == 3:
            return covers(v[2], end, root, None)
        if v[0] == 'op' and v[1] == '/' and v[3][0] == 'i' and v[3][1][-1] == 'mrstep':
            return covers(v[2], end, root, ())
    if step == ():
        m = linear(v)
        return m.pop(('i', root), 0) == 1 and all(k * end > 0 for a, k in m.items() if k)
    return False


def cached(v, root, end):
    """members holding a number of steps that v multiplies by the step"""
    if v[0] == 'op' and v[1] == '*':
        for x in v[2:]:
            if x[0] == 'f':
                yield x[3]
            elif x[0] == 'i' and x[1][-1] != 'mrstep':
                yield x[1][-1]
            elif x[0] == 'op':
                yield from cached(('op', '*') + tuple(y for y in x[2:]), root, end)


def check_cache(ctx, P, pq, c, member, end, root, seen):
    """every value that the class stores in the member is a covering limit in steps"""
    if (c, member, end) in seen:
        return seen[(c, member, end)]
    E, n = effects.of(P), 0
    us = {f['usr'] for r in P.recs.values() for f in r.fields if f['name'] == member}
    fs = [f for k in P.mro(c) if k in P.recs for f in P.methods_of(k) if not f.ctor and f.name != 'serialize']
    direct = [f for f in fs if us & {r[1] for r in E.direct(f)[1] if r[0] == 'F'}]
    for f in direct or [f for f in fs if us & {r[1] for r in E.trans(f, c)[1] if r[0] == 'F'}]:
        ctx.touched(f)
        ex = Cache(P, pq)
        outs, fr = ex.analyze(f, c)
        for o in outs:
            if o.kind != 'return':
                continue
            for p, v in o.st.store.items():
                if not (isinstance(p, tuple) and p[0] == 'T' and p[-1] == member):
                    continue
                v = sym.expand(v)
                if v in (ZERO, ('i', p)) or v[0] in ('f', 'w'):
                    continue
                n += 1
                done = covers(v, end, root, None)
                ctx.check(done, 'configured', '%s::%s of %s' % (f.short, member, P.recs[c].short), f.loc(None),
                          'the stored number of steps does not cover the %s limit' % ('upper' if end > 0 else 'lower'))
    seen[(c, member, end)] = bool(n)
    return bool(n)


def check_configured(ctx):
    P = ctx.P
    pq = P.rec('PairQuantity').usr
    limit = {}
    for name in ('getRmin', 'getRmax'):
        ex = Conf(P, pq)
        o, fr = ex.analyze(P.fns[P.method(pq, name).usr], pq)
        v = ex.rvalue(fr, o[0].st, o[0].value)
        ctx.need(len(o) == 1 and v[0] == 'i', '%s returns a member' % name)
        limit[name[3:]] = v[1]
    seen = {}
    for c in [pq] + sorted(P.subclasses(pq)):
        f = P.fns[P.final(c, P.method(pq, 'configureBondGenerator').usr)]
        ctx.touched(f)
        outs, fr = Conf(P, pq).analyze(f, c)
        for o in outs:
            if o.kind != 'return':
                continue
            for name, end in (('Rmin', -1), ('Rmax', 1)):
                what = '%s of %s' % (name, P.recs[c].short)
                e = o.st.data.get(('set' + name,))
                if e is None:
                    ctx.bad('configured', what, f.loc(None), '%s leaves the %s of the search as it was' % (f.short, name))
                    continue
                v = sym.expand(e[0])
                where = P.fns[e[1]].loc(P.fns[e[1]].nodes[e[2]])
                R = ('i', limit[name])
                smaller = end > 0 and (sym.Facts.truth(o.st.facts, sym.mk_lt(e[0], R)) is True or
                                       sym.Facts.truth(o.st.facts, sym.mk_lt(R, e[0])) is False)
                if smaller or covers(v, end, limit[name], ('T', 'mrstep')):
                    ctx.ok('configured', what)
                    continue
                ms = sorted(set(cached(v, limit[name], end)))
                ctx.check(len(ms) == 1 and check_cache(ctx, P, pq, c, ms[0], end, limit[name], seen), 'configured', what, where,
                          'the %s of the search does not come from the %s of the calculation' % (name, name))


def run(ctx):
    check_presented(ctx, 'presented')
    check_step(ctx)
    check_settings(ctx)
    check_region(ctx)
    check_configured(ctx)
    for rule, n in (('presented', 20), ('skipped', 20), ('step', 10), ('restart', 10), ('stored', 10), ('region', 4), ('configured', 15)):
        ctx.floor(rule, n)
