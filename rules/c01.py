"""Fast updates and settings.  Settings are computed, not listed: the members that are read while pairs are summed (member
functions that configure the bond generator, reset the value, test masks and add contributions, with everything they call,
resolved for every concrete calculator and every helper model behind its handles) and that the summation does not compute
itself.  For every class with such settings, each user-callable operation that may write one of them is executed
symbolically over all its paths, helpers included.  Every path on which a setting may differ from its value before the call
has to click a time mark that reaches ticker() of that object; whether a write is a change is decided from the conditions
of the path (old value equals new value, item already present, container empty).  Further obligations: click() makes the
mark newer than every mark given before, comparisons and updateFrom() of marks are in order, and the incremental part of the
optimized evaluator is entered only under conditions that the calculator mark is older than the value mark, both before the
update and after the new structure has customized the calculator; value marks are clicked after contributions are summed."""
import sym, effects
from sym import Facts, mk_eq, ZERO, ONE

ASSUMPTIONS = ['peak-width models, profiles and tables derived outside of the library click their ticker in the same way',
               'handles are not replaced through the references returned by the non-constant getters of handles',
               'baselines and envelopes act on finished sums only']
SUMPHASE = ['addPairContribution', 'configureBondGenerator', 'resetValue', 'getPairMask', 'hasMask', 'hasPairMask']
# entry points of an evaluation; replacement of the structure is covered by the comparison of structures
EVALUATION = {'eval', 'setStructure', 'mergeParallelData', 'executeParallelMerge', 'addPairContribution', 'stashPartialValue',
              'restorePartialValue', 'finishValue', 'updateMaskData', 'serialize', 'save', 'load', 'resizeValue', 'accept'}
NOTSETTING = ('EventTicker', 'PQEvaluator', 'StructureAdapter', 'PDFBaseline', 'PDFEnvelope', 'mdoubleattrs')
CONTAINER = ('vector', 'map<', 'set<', 'list<', 'deque', 'basic_string', 'QuantityType', 'Storage')


def calculators(P, optimized=True):
    pq = P.rec('PairQuantity')
    out = []
    for u in P.subclasses(pq.usr):
        if not P.concrete(u):
            continue
        st = P.final(u, P.method('PairQuantity', 'stashPartialValue').usr)
        if optimized and P.fns.get(st) is not None and P.fns[st].cls == pq.usr:
            continue
        out.append(u)
    return out


def sum_access(P, E, u):
    """fields read and written while class u sums pairs"""
    R, W = {}, {}
    keys = {}
    for m in SUMPHASE:
        f = P.fns.get(P.final(u, P.method('PairQuantity', m).usr))
        if f is None:
            continue
        for k, (g, par, n) in E.closure(f, u).items():
            keys[k] = g
    for k, g in keys.items():
        r, w = E.direct(g)
        for x, nn in r.items():
            if x[0] == 'F':
                R.setdefault(x[1], (g, nn))
        for x, nn in w.items():
            if x[0] == 'F':
                W.setdefault(x[1], (g, nn))
    return R, W


def set_from_param(P, E, fu):
    """assigned from a parameter in a user-callable setter"""
    for f in P.fns.values():
        if not f.name.startswith('set') or f.access == 2 or not f.cls:
            continue
        pv = {p['v'] for p in f.params}
        for n in f.all('Assign'):
            l, r = n['c'][:2]
            if f.nodes[l]['k'] == 'Field' and f.nodes[l].get('fu') == fu and \
                    any(m['k'] == 'Var' and m.get('v') in pv for m in f.subtree(r)):
                return True
    return False


def is_setting_type(rec, f):
    return not any(x in f['type'] or x == f['name'] for x in NOTSETTING)


def settings(P, E):
    """{concrete class: {field usr: (rec, field)}} of calculators with incremental evaluation and of their helper models"""
    out = {}
    helper = set()
    for u in calculators(P):
        R, W = sum_access(P, E, u)
        d = {}
        for fu in R:
            if fu not in P.fieldowner:
                continue
            rec, f = P.fieldowner[fu]
            if not P.isa(u, rec.usr):
                helper.add(fu)
                continue
            if not is_setting_type(rec, f) or fu in W and not set_from_param(P, E, fu):
                continue
            d[fu] = (rec, f)
        out[u] = d
    families = [r for r in P.recs.values() if r.short in ('PeakWidthModel', 'PeakProfile', 'ScatteringFactorTable')]
    for r in families:
        for u in P.subclasses(r.usr):
            if not P.concrete(u):
                continue
            d = {}
            for rec, f in P.allfields(u):
                if f['usr'] in helper and is_setting_type(rec, f):
                    d[f['usr']] = (rec, f)
            out[u] = d
    return out


class Tick(sym.Exec):
    """collects what ticker() aggregates"""
    max_depth = 4

    def __init__(self, P):
        super().__init__(P)
        self.sources = set()
        self.cond = {}

    def should_inline(self, fr, fn, n):
        return fn.name == 'ticker' or len(fn.nodes) < 60

    def on_call(self, fr, st, n, callee, obj, args):
        if n.get('fq', '').endswith('EventTicker::updateFrom') and obj is not None and obj[0] == 'ref' and args and args[0][0] == 'ref':
            st.data = dict(st.data)
            st.data[('upd', obj[1], args[0][1])] = True
            return [(st, ('none',))]
        return None


class Setter(sym.Exec):
    max_depth = 5

    def __init__(self, P, cls, paths):
        super().__init__(P)
        self.rootcls = cls
        self.paths = paths          # names of the members that are settings
        self.twins = {}

    def should_inline(self, fr, fn, n):
        if len(fn.nodes) > self.max_inline_nodes:
            return False
        if fn.cls and self.P.isa(self.rootcls, fn.cls):
            return fn.name not in ('registerDoubleAttribute',)
        return fn.name.startswith('ensure') or len(fn.nodes) < 60

    def on_call(self, fr, st, n, callee, obj, args):
        fq = n.get('fq', '')
        if fq.endswith('EventTicker::click') and obj is not None:
            st.data = dict(st.data)
            st.data[('click', obj[1] if obj[0] == 'ref' else obj)] = True
            return [(st, ('none',))]
        if fq.endswith('EventTicker::updateFrom'):
            return [(st, ('none',))]
        if fq.endswith('::resetValue') and obj is not None:
            return [(st, ('none',))]
        if callee is None and effects.cname(n) in ('insert', 'emplace', 'erase') and obj is not None and obj[0] == 'ref' \
                and obj[1][:1] == ('T',):
            out = []
            old = self.load(st, obj[1])
            for r in self.external(fr, st, n, callee, obj, args):
                if isinstance(r, sym.Outcome):
                    out.append(r)
                    continue
                s, v = r
                flag = v if v[0] == 'b' else v[2] if v[0] == 'pair' and v[2][0] == 'b' else None
                if flag is None:
                    out.append(r)
                    continue
                key = args[0] if len(args) == 1 and effects.cname(n) == 'erase' else None
                for val in (True, False):
                    for f in Facts.assume(s.facts, flag, val):
                        fs = [f]
                        if key is not None:
                            had = mk_eq(('call', 'count', old, self.rvalue(fr, s, key)), ZERO)
                            fs = Facts.assume(f, had, not val)
                        for g in fs:
                            s2 = s.copy()
                            s2.facts = g
                            out.append((s2, v))
            return out
        return None

    def on_write(self, fr, st, n, path, value, old, cond):
        if path[0] != 'T' or len(path) < 2 or path[1] not in self.paths:
            return
        if len(path) == 2 and not self.paths[path[1]]:
            return                      # plain member: compared at the end
        if len(path) == 2 and value[0] not in ('w',) and cond == ONE:
            # assignment of a whole container
            cond = sym.mk_not(mk_eq(value, old)) if value != ('c', 'emptycontainer') else cond
        if len(path) > 2 and value[0] != 'w':
            cond = sym.mk_not(mk_eq(value, old))
        if value[0] == 'it':
            return
        if value == ('c', 'emptycontainer') and any(Facts.truth(st.facts, mk_eq(('call', 'size', ('i', ('T', q))), ZERO)) is True
                                                    for q in self.twins.get(path[1], ())):
            return
        if Facts.truth(st.facts, cond) is False:
            return
        st.data = dict(st.data)
        k = ('may', path[1])
        st.data[k] = st.data.get(k, frozenset()) | {(cond, fr.fn.usr, n['i'] if n else -1)}

    def boolvalue(self, st, v):
        t = Facts.truth(st.facts, v)
        if t is None and v[0] == 'op' and v[1] in ('|', '|=', '&'):
            ts = [self.boolvalue(st, x) for x in v[2:]]
            if v[1][0] == '|':
                t = True if True in ts else False if set(ts) == {False} else None
            else:
                t = False if False in ts else True if set(ts) == {True} else None
        return t

    def on_widen(self, fr, st, head):
        for p in list(st.store):
            if p[0] == 'L' and self.isbool(p) and st.store[p] not in (ZERO, ONE):
                t = self.boolvalue(st, st.store[p])
                if t is not None:
                    st.store[p] = ONE if t else ZERO
        for k, evs in list(st.data.items()):
            if k[0] == 'may':
                st.data = dict(st.data)
                st.data[k] = frozenset((ONE, u, i) for c, u, i in evs if Facts.truth(st.facts, c) is not False)

    def limit(self, fr, head, st, heads):
        """one state per combination of flags, clicks and changes"""
        key = (head, frozenset((p, v) for p, v in st.store.items() if v in (ZERO, ONE) and self.isbool(p)),
               frozenset(k for k in st.data if k[0] == 'click'),
               frozenset((k, any(c == ONE for c, u, i in v)) for k, v in st.data.items() if k[0] == 'may' and v))
        h = heads.setdefault(key, [0, None])
        h[0] += 1
        if h[1] is None:
            h[1] = st
            return st
        if h[0] <= 2:
            return st
        j = self.join(fr, head, h[1], st)
        if j.key() == h[1].key():
            return None
        h[1] = j
        return j.copy()

    def pending(self, st):
        """settings that may have changed on the path of st: {name: (fn usr, node)}"""
        out = {}
        for k, evs in st.data.items():
            if k[0] != 'may' or k[1] not in self.paths:
                continue
            for c, u, i in sorted(evs, key=repr):
                if Facts.truth(st.facts, c) is False:
                    continue
                if c[0] == 'not' and c[1][0] == 'eq' and self.boolvalue(st, c) is False:
                    continue
                out[k[1]] = (u, i)
        for name, cont in self.paths.items():
            if cont:
                continue
            for p, v in st.store.items():
                if p[:2] == ('T', name) and v != ('i', p):
                    if Facts.truth(st.facts, mk_eq(v, ('i', p))) is True or self.derived(st, v):
                        continue
                    out[name] = (None, None)
        return out

    def derived(self, st, v):
        """computed only from members that have not changed"""
        if v[0] == 'c':
            # a constant chosen by conditions on members and arguments that have not changed
            fv = [self.derived(st, ('op', '+', k, ZERO)) for k in st.facts
                  if sym.mentions_any(k, lambda x: x[0] in ('p', 'A'))]
            return bool(fv) and all(fv)
        def same(x):
            """equal to a member that keeps its value"""
            if x[0] == 'i' and x[1][:1] == ('T',) and len(x[1]) == 2:
                now = st.store.get(x[1], x)
                if now == x or Facts.truth(st.facts, mk_eq(now, x)) is True:
                    return True
            for name in self.paths:
                y = ('i', ('T', name))
                if Facts.truth(st.facts, mk_eq(x, y)) is True:
                    now = st.store.get(y[1], y)
                    if now == y or now == x or Facts.truth(st.facts, mk_eq(now, y)) is True:
                        return True
            return False

        def walk(x):
            if x[0] == 'c':
                return True
            if same(x):
                return True
            if x[0] in ('op', 'call', 'not', 'eq', 'lt', 'and', 'or'):
                ys = [y for y in x[1:] if isinstance(y, tuple)]
                return bool(ys) and all(walk(y) for y in ys)
            return False
        return v[0] != 'i' and walk(v)

    def merge_outcomes(self, fr, outs):
        if len(outs) <= self.outcome_limit:
            return outs
        res, groups = [], {}
        for o in outs:
            st = o.st
            changed = set()
            for name, cont in self.paths.items():
                if cont:
                    continue
                p = ('T', name)
                v = st.store.get(p)
                if v is None or v == ('i', p):
                    continue
                if Facts.truth(st.facts, mk_eq(v, ('i', p))) is True or self.derived(st, v):
                    st.store[p] = ('i', p)
                else:
                    changed.add(name)
            k = (o.kind, st.ret if st.ret in (ZERO, ONE) else None, frozenset(changed),
                 frozenset((k, v) for k, v in st.data.items() if k[0] == 'click'),
                 frozenset(k for k, v in st.data.items() if k[0] == 'may' and v))
            if k in groups:
                g = groups[k]
                ret = g.st.ret if g.st.ret == st.ret else ('f', fr.tok, -1, 'ret')
                g.st = self.join(fr, -1, g.st, st)
                g.st.ret = ret
            else:
                groups[k] = o
                res.append(o)
        return res


def tick_sources(P, cls):
    """paths of tickers that ticker() of the class includes on every path; and the conditions"""
    f = P.fns[P.final(cls, P.method(P.recs[cls].short, 'ticker').usr)]
    ex = Tick(P)
    outs, fr = ex.analyze(f, cls)
    res = []
    for o in outs:
        if o.kind != 'return':
            continue
        v = o.value
        src = set()
        if v[0] == 'ref':
            src.add(v[1])
            upd = [k[1:] for k in o.st.data if k[0] == 'upd']
            while True:
                new = {b for a, b in upd if a in src} - src
                if not new:
                    break
                src |= new
        res.append((src, o.st))
    return f, res


def operations(P, E, u, fields):
    """functions that users can call on class u and that may write one of the fields"""
    seen = {}
    for c in P.mro(u):
        for f in P.methods_of(c):
            if f.static or f.ctor or f.dtor or f.access == 2 or f.name.startswith('operator') or f.name in EVALUATION:
                continue
            if c != u and P.final(u, f.usr) != f.usr:
                continue
            R, W = E.trans(f, u, stop=lambda a, n, g: g.name in ('resetValue', 'setStructure'))
            if any(x[0] == 'F' and x[1] in fields for x in W):
                seen[f.usr] = f
    return list(seen.values())


def twins(P, fields):
    """containers that grow and shrink together: every function applies the same modifiers to both"""
    ops = {}
    for f in P.fns.values():
        for n in f.all('Call'):
            if n.get('my') or not n.get('obj') or n.get('fc') or not n.get('c'):
                continue
            on = f.nodes[n['c'][0]]
            if on['k'] == 'Field' and on.get('fu') in fields and effects.cname(n) not in sym.ITER_MAKERS | {
                    'size', 'empty', 'at', 'operator[]', 'back', 'front', 'count'}:
                ops.setdefault(on['fu'], []).append((f.usr, effects.cname(n)))
        for n in f.all('Assign'):
            on = f.nodes[n['c'][0]]
            if on['k'] == 'Field' and on.get('fu') in fields:
                ops.setdefault(on['fu'], []).append((f.usr, '='))
    out = {}
    for a in ops:
        for b in ops:
            if a != b and sorted(ops[a]) == sorted(ops[b]):
                out.setdefault(fields[a][1]['name'], []).append(fields[b][1]['name'])
    return out


def check_setters(ctx, P, E, S):
    for u, fields in sorted(S.items()):
        cls = P.recs[u].short
        names = {}
        uniq = P.fieldnames()
        for fu, (rec, f) in fields.items():
            names[uniq.get(fu, f['name'])] = any(x in f['type'] for x in CONTAINER)
        for nm in sorted(names):
            ctx.ok('setting', '%s.%s' % (cls, nm))
        tf, ticks = tick_sources(P, u)
        common = set.intersection(*[s for s, st in ticks]) if ticks else set()
        ctx.touched(tf)
        tw = twins(P, fields)
        for f in operations(P, E, u, fields):
            ex = Setter(P, u, names)
            ex.twins = tw
            outs, fr = ex.analyze(f, u)
            ctx.npaths += len(outs)
            ctx.touched(f)
            bad = None
            for o in outs:
                pend = ex.pending(o.st)
                # site masks are empty in the mode of type masks
                if 'msiteallmask' in pend and any(k == ('may', 'mtypemask') for k in o.st.data):
                    pend.pop('msiteallmask')
                if not pend:
                    continue
                clicks = {k[1] for k in o.st.data if k[0] == 'click'}
                if not clicks & common:
                    nm = sorted(pend)[0]
                    bad = (nm, pend[nm], clicks, o)
                    break
            what = '%s::%s' % (cls, f.name)
            if bad:
                nm, (fu, i), clicks, o = bad
                where = f.loc() if fu is None or i < 0 else P.fns[fu].loc(P.fns[fu].nodes[i])
                ctx.bad('click', what, where, '%s can change %s while no time mark of %s is clicked%s' % (
                    f.short, nm, cls, ' (a mark outside of ticker() is)' if clicks else ''))
            else:
                ctx.ok('click', what)


def check_marks(ctx, P):
    """time marks are strictly increasing and compared by their values"""
    rec = P.rec('eventticker::EventTicker')

    class Click(sym.Exec):
        def on_write(self, fr, st, n, path, value, old, cond):
            if path[0] in ('G', 'S') and 'gtick' in str(path[1]) or path[0] == 'T' and path[1:2] == ('gtick',):
                st.data = dict(st.data)
                inc = value[0] == 'op' and value[1] == '+' and any(x[0] == 'c' and x[1] > 0 for x in value[2:]) and old in value[2:]
                if path[-1] == 'first' and inc:
                    st.data[('inc', 'first')] = True
                elif path[-1] == 'second' and inc:
                    st.data[('inc', 'second')] = True
                elif path[-1] == 'second':
                    st.data[('inc', 'second')] = False
                else:
                    st.data[('inc', 'first')] = st.data[('inc', 'second')] = False
                st.data[('copy',)] = frozenset()
            if path[:2] == ('T', 'mtick'):
                st.data = dict(st.data)
                have = st.data.get(('copy',), frozenset())
                src = None
                if n is not None:
                    src = any(fr.fn.nodes[m['i']]['k'] == 'Global' and 'gtick' in m.get('g', '') for m in fr.fn.subtree(n['i']))
                st.data[('copy',)] = (have | {path[2:] or 'all'}) if src else frozenset()
    f = P.method('eventticker::EventTicker', 'click')
    ex = Click(P)
    outs, fr = ex.analyze(f, rec.usr)
    ctx.touched(f)
    for o in outs:
        d = o.st.data
        inc = d.get(('inc', 'first')) or d.get(('inc', 'second'))
        cp = d.get(('copy',), frozenset())
        ctx.check(bool(inc) and ('all' in cp or {('first',), ('second',)} <= cp), 'mark', 'EventTicker::click', f.loc(),
                  'click() does not take over an increased global counter on every path')
    this, other = ('i', ('T', 'mtick')), ('i', ('A', 0, 'other', 'mtick'))
    for m in P.methods_of(rec.usr):
        if m.name == 'updateFrom':
            ex = sym.Exec(P)
            outs, fr = ex.analyze(m, rec.usr)
            ctx.touched(m)
            oth = ('i', ('A', 0, m.params[0]['name'], 'mtick'))
            for o in outs:
                v = o.st.store.get(('T', 'mtick'), this)
                less = Facts.truth(o.st.facts, sym.mk_lt(this, oth))
                good = v == oth and (less is True or Facts.truth(o.st.facts, sym.mk_lt(oth, this)) is False) or \
                    v == this and less is False or v[0] == 'op' and v[1] == 'max' and set(v[2:]) == {this, oth}
                ctx.check(good, 'mark', 'EventTicker::updateFrom', m.loc(), 'updateFrom() does not leave the newer mark')
        elif m.name.startswith('operator') and m.name[8:] in ('<', '<=', '>', '>=', '==', '!='):
            ex = sym.Exec(P)
            outs, fr = ex.analyze(m, rec.usr)
            ctx.touched(m)
            oth = ('i', ('A', 0, m.params[0]['name'], 'mtick'))
            want = sym.mk_op(m.name[8:], this, oth)
            for o in outs:
                good = o.kind == 'return' and o.value == want or \
                    Facts.truth(o.st.facts, mk_eq(o.value, want)) is True or \
                    o.value in (ZERO, ONE) and Facts.truth(o.st.facts, want) is (o.value == ONE)
                ctx.check(good, 'mark', 'EventTicker::' + m.name, m.loc(), 'the comparison of marks does not compare their values')


def check_evaluators(ctx, P):
    import pqeval
    for u in pqeval.evaluators(P):
        cls = P.recs[u].short
        ex, f, outs = pqeval.run_eval(P, u, follow=False)
        ctx.touched(f)
        ctx.npaths += len(outs)
        seen = set()
        for what, st, fr, n in [(pqeval.SUMS, e.st, e.fr, e.node) for e in ex.events] + ex.partial:
            if what == 'stashPartialValue' or what == 'setStructure':
                continue
            if what == pqeval.SUMS and not pqeval.incremental(st):
                ctx.ok('full-sum', '%s:%s' % (cls, fr.fn.short))
                continue
            key = '%s:%s@%s' % (cls, what, fr.fn.short)
            ctx.check(pqeval.ticker_older(ex, st), 'guard', key, fr.fn.loc(n),
                      '%s continues an earlier sum where the settings may be newer than that sum' % fr.fn.short)
            # pair masks refer to positions in the structure
            ctx.check(ex.indexsafe(st), 'masked-index', key, fr.fn.loc(n),
                      '%s continues an earlier sum while pair masks or site indices may refer to shifted sites' % fr.fn.short)
        for o in outs:
            if o.kind != 'return' or not (o.st.data.get(('summed',)) or o.st.data.get(('restored',))):
                continue
            ctx.check(o.st.data.get(('click', ('T', 'mvalue_ticker'))) is True, 'value-mark', cls, f.loc(),
                      'a value is completed without a new value mark')


def run(ctx):
    P = ctx.P
    E = effects.of(P)
    S = settings(P, E)
    check_setters(ctx, P, E, S)
    check_marks(ctx, P)
    check_evaluators(ctx, P)
    ctx.floor('setting', 40)
    ctx.floor('click', 50)
    ctx.floor('mark', 7)
    ctx.floor('guard', 3)
    ctx.floor('value-mark', 2)
