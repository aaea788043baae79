"""Derived data.  (1) Members guarded by a validity mark: the mark is every mutable truth value of a class, the builders are
the functions that raise it, the derived members are the mutable members the builders write, the sources are the members
of the object that the builders read (closure over the call graph, for every concrete class).  Every user-callable function
that may change a source is executed symbolically: on each path that may leave a source changed the mark is down or the
builder ran afterwards.  Sources that can be changed behind the back of the class (functions of base classes, references
handed out to the user) have to be compared with a remembered copy wherever the mark is trusted.  Derived members are read
only where the mark is known to be up or the builder just ran; a builder raises the mark last; members which a builder only
extends are emptied whenever the mark goes down.  (2) Members computed at once: the dependencies between scalar, vector and
matrix members are extracted from the symbolic final state of every function that changes an object.  Whenever a source
changes, each dependent member is computed again from the new value (or takes part in the relation as an independent
quantity), also in constructors.  (3) Members of calculators derived from the attached structure and models: each of
their private update functions runs whenever a structure is attached for an evaluation, in an order such that nothing is
computed from members that are updated later."""
import sym, effects
from sym import Facts, mk_eq, ZERO, ONE, expand
from c12 import deep
from c01 import SUMPHASE

ASSUMPTIONS = ['changes inside attached objects (structure, peak-width model) take effect at the next evaluation',
               'the rotation of a lattice base is an independent quantity when cell parameters are set']
HANDLE = ('_ptr<', '*', 'EventTicker', 'PQEvaluator')
REFILL = ('clear', 'assign', 'operator=', 'swap')
SERIAL = ('serialize', 'save', 'load')
PROTOCOL = ('PairQuantity', 'BaseBondGenerator', 'PointsInSphere', 'PQEvaluatorBasic')


def marks(P, E):
    """[(record, field dict, builders)]"""
    out = []
    for r in P.recs.values():
        if not r.file.startswith('diffpy'):
            continue
        for f in r.fields:
            if not f.get('mutable') or f['type'] != 'bool':
                continue
            builders = []
            for g in P.fns.values():
                for n in g.all('Assign', 'Bin'):
                    if n.get('op') != '=' or len(n.get('c', ())) != 2:
                        continue
                    l, v = g.nodes[n['c'][0]], g.nodes[n['c'][1]]
                    while v['k'] == 'Cast':
                        v = g.nodes[v['c'][0]]
                    if l['k'] == 'Field' and l['fu'] == f['usr'] and v['k'] == 'Lit' and str(v.get('val')) in ('1', 'true', 'True'):
                        builders.append(g)
            out.append((r, f, builders))
    return out


class Cache(sym.Exec):
    max_depth = 5
    max_inline_nodes = 900

    def __init__(self, P, root, flag, sources, derived, builders, touch):
        super().__init__(P)
        self.root, self.flag, self.sources, self.derived, self.builders = root, flag, sources, derived, builders
        self.touch = touch
        self.uses = []
        self.early = []
        self.building = None

    def should_inline(self, fr, fn, n):
        if fn.name.startswith('operator') and fn.name != 'operator[]' or 'EventTicker' in fn.short:
            return False
        if fn.cls and self.P.isa(self.root, fn.cls):
            return fn.usr in self.touch or len(fn.nodes) < 60
        return len(fn.nodes) < 40 and len(fn.blocks) <= 3

    def inbuilder(self, fr):
        while fr is not None:
            if fr.fn.usr in self.builders:
                return True
            fr = fr.up
        return False

    def on_write(self, fr, st, n, path, value, old, cond):
        if path[0] != 'T' or len(path) < 2:
            return
        p = path[1]
        if p in self.sources and Facts.truth(st.facts, mk_eq(value, old)) is not True:
            st.data = dict(st.data)
            st.data['built'] = False
        if p in self.derived and self.inbuilder(fr):
            self.uses.append((Facts.truth(st.facts, sym.mk_truth(self.load(st, ('T', self.flag)))) is True and
                              st.data.get('raised') or False, 'order', fr.fn, n, p))
        if p == self.flag:
            st.data = dict(st.data)
            st.data['raised'] = value == ONE

    cur = None

    def on_call(self, fr, st, n, callee, obj, args):
        self.cur = n
        if obj is not None and obj[0] == 'ref' and n['k'] == 'Call' and effects.cname(n) not in REFILL:
            self.on_read(fr, st, n, obj[1])
        return None

    def on_return(self, fr, st, callee, n):
        if callee.usr in self.builders:
            st.data = dict(st.data)
            st.data['built'] = True

    def on_read(self, fr, st, n, path):
        if path[0] == 'T' and len(path) >= 2 and path[1] in self.derived and not self.inbuilder(fr):
            up = self.isup(st)
            seen = not self.compare or self.verified(st) is True or compared(fr.fn, n or self.cur)
            self.uses.append((bool(st.data.get('built')) or up and seen, 'use', fr.fn, n, path[1]))

    compare = ()

    def isup(self, st):
        return Facts.truth(st.facts, sym.mk_truth(self.load(st, ('T', self.flag)))) is True

    def verified(self, st):
        for s in self.compare:
            ok = False
            for k, v in st.facts.items():
                test = k[1] if k[0] == 'eq' and k[2] == ZERO else k[2] if k[0] == 'eq' and k[1] == ZERO else None
                differ = test is not None and test[0] == 'call'
                unequal = differ and 'operator!=' in str(test[1])
                if v is not (not differ or unequal) or k[0] not in ('eq', 'call', 'f', 'op'):
                    continue
                if differ and not unequal and 'operator==' not in test[1] and 'equal' not in test[1]:
                    continue
                length = lambda x: x[0] == 'call' and x[1] == 'size'
                if deep(k, lambda x: x[0] in ('i', 'T', 'w') and names(x) == s, cut=length) and \
                        deep(k, lambda x: x[0] in ('i', 'T', 'w') and names(x) in self.derived, cut=length):
                    ok = True
            if not ok:
                return s
        return True


def compared(fn, n):
    """the value is only compared with something"""
    if n is None:
        return False
    if n.get('op') in ('==', '!='):
        return True
    par = fn.parents()
    for _ in range(6):
        up = par.get(n['i'])
        up = up[0] if isinstance(up, (list, tuple)) else up
        if up is None:
            return False
        n = fn.nodes[up] if not isinstance(up, dict) else up
        if n.get('op') in ('==', '!=') or effects.cname(n) in ('operator==', 'operator!=', 'equal'):
            return True
        if not (n['k'] in ('Cast', 'Index') or n['k'] == 'Call' and effects.cname(n) in ('operator[]', 'at', 'begin', 'end', 'size', 'get')):
            return False
    return False


def names(x):
    """member of this that a path or value designates"""
    p = x[1] if x[0] == 'i' else x[-1] if x[0] == 'w' else x
    return p[1] if isinstance(p, tuple) and len(p) > 1 and p[0] == 'T' and isinstance(p[1], str) else None


def closure_fields(E, fns, cls):
    R, W = set(), set()
    for f in fns:
        r, w = E.trans(f, cls)
        R |= {k[1] for k in r if k[0] == 'F'}
        W |= {k[1] for k in w if k[0] == 'F'}
    return R, W


def entries(P, E, cls):
    """functions of the class that are called from outside"""
    called = getattr(P, '_c11called', None)
    if called is None:
        called = P._c11called = set()
        for f in P.fns.values():
            for n, g, gc in E.calls(f):
                if g.cls and f.cls and (P.isa(f.cls, g.cls) or P.isa(g.cls, f.cls)):
                    called.add(g.usr)
    seen = {}
    for c in P.mro(cls):
        seen['derived'] = {(g.name, len(g.params)) for d in P.mro(cls) if d != c and P.isa(d, c) for g in P.methods_of(d)}
        for f in P.methods_of(c):
            if f.static or f.ctor or f.dtor or not f.blocks or f.name in SERIAL:
                continue
            if c != cls and P.final(cls, f.usr) != f.usr:
                continue
            if (f.name, len(f.params)) in seen.get('derived', ()) :
                continue                # hidden by a function of a derived class
            if f.access == 0 or f.usr not in called or f.name in SUMPHASE + ['finishValue', 'stashPartialValue', 'restorePartialValue']:
                yield f


def check_marks(ctx, P, E):
    found = marks(P, E)
    for rec, fld, builders in found:
        flag = fld['name']
        ctx.check(bool(builders), 'mark', '%s::%s' % (rec.short, flag), '%s:%d' % (rec.file, fld['line']), 'the mark is never raised')
        if not builders:
            continue
        busr = {b.usr for b in builders}
        for cls in P.subclasses(rec.usr):
            if P.recs[cls].abstract:
                continue
            own = {f['usr']: f for _, f in P.allfields(cls)}
            R, W = closure_fields(E, builders, cls)
            derived = {own[u]['name'] for u in W if u in own and own[u].get('mutable') and own[u]['name'] != flag}
            written_all = {own[u]['name'] for u in W if u in own}
            sources = {own[u]['name'] for u in R if u in own and own[u]['name'] not in derived and own[u]['name'] != flag
                       and not any(h in own[u]['type'] for h in HANDLE)} - {'mticker'}
            ctx.need(bool(derived), 'data derived under %s' % flag)
            susr = {u for u in own if own[u]['name'] in sources}
            dusr = {u for u in own if own[u]['name'] in derived}
            fusr = fld['usr']
            touch = set()
            for f in P.fns.values():
                if not (f.cls and P.isa(cls, f.cls)) or f.name in SERIAL:
                    continue
                r, w = E.trans(f, cls)
                r = {k[1] for k in r if k[0] == 'F' and k[2]}
                w = {k[1] for k in w if k[0] == 'F' and k[2]}
                if w & (susr | dusr | {fusr}) or r & (dusr | {fusr}):
                    touch.add(f.usr)
            mk = lambda: Cache(P, cls, flag, sources, derived, busr, touch)
            outside = lambda f, n, g: g.cls and not P.isa(cls, g.cls) and not any(g.cls in str(own[u]['type']) or P.recs[g.cls].name in own[u]['type'] for u in susr if g.cls in P.recs)
            def informed(f):
                if P.isa(f.cls, rec.usr):
                    return True
                return any(g.cls and P.isa(g.cls, rec.usr) and any(k[0] == 'F' and k[1] in susr for k in E.direct(g)[1])
                           for g, _, _ in E.closure(f, cls, outside).values())
            # members that leave the class as references, or are changed by classes which do not know the mark
            behind = {}
            for f in entries(P, E, cls):
                fowner = informed(f)
                if not f.const:
                    for x in E.retroots(f) if f.ret.endswith('&') and not f.ret.startswith('const ') or 'iterator' in f.ret and 'const' not in f.ret else ():
                        if x[0] == 'F' and x[1] in susr:
                            behind[own[x[1]]['name']] = f
                if not fowner and not f.const and any(k[0] == 'F' and k[1] in susr for k in E.trans(f, cls, outside)[1]):
                    ex = mk()
                    for o in ex.analyze(f, cls)[0]:
                        ch = changed(o.st, sources)
                        if ch and not (Facts.truth(o.st.facts, sym.mk_truth(ex.load(o.st, ('T', flag)))) is False or o.st.data.get('built')):
                            behind.update({s: f for s in ch})
            reset = P.trymethod(P.recs[cls].short, 'resetValue') if 'mvalue' in sources else None
            # extended only?
            grown = set()
            for b in builders:
                ex = mk()
                grows = {}
                orig = ex.on_call

                def on_call(fr, st, n, callee, obj, args):
                    if obj is not None and obj[0] == 'ref' and obj[1][0] == 'T' and len(obj[1]) > 1 and obj[1][1] in derived:
                        nm = effects.cname(n)
                        grows.setdefault(obj[1][1], []).append(nm)
                    return orig(fr, st, n, callee, obj, args)
                ex.on_call = on_call
                outs, fr = ex.analyze(b, cls)
                ctx.touched(b)
                ctx.npaths += len(outs)
                for d, ops in grows.items():
                    if any(o in ('push_back', 'insert', 'emplace_back', 'push_front', 'operator[]') for o in ops) and \
                            not any(o in ('clear', 'assign', 'resize', 'operator=', 'swap') for o in ops):
                        grown.add(d)
                for bad, kind, fn, n, d in ex.uses:
                    if kind == 'order':
                        ctx.check(not bad, 'mark-last', '%s#%s' % (b.short, d), fn.loc(n), '%s is computed after %s was raised' % (d, flag))
                ctx.check(any(o.kind == 'return' and o.st.data.get('raised') for o in outs), 'mark', b.short, b.loc(), 'never raises %s' % flag)
            for f in entries(P, E, cls):
                tr, tw = E.trans(f, cls, outside)
                w = {k[1] for k in tw if k[0] == 'F'} & susr
                knows = informed(f)
                if f.usr not in touch or f.usr in busr:
                    continue
                ex = mk()
                ex.compare = sorted(behind)
                init = None
                if f.name in ('addPairContribution', 'finishValue', 'stashPartialValue', 'restorePartialValue') and reset is not None:
                    init = sym.State()
                    init.store[('T', flag)] = ZERO
                outs, fr = ex.analyze(f, cls, **({'init': init} if init else {}))
                ctx.touched(f)
                ctx.npaths += len(outs)
                key = '%s in %s' % (f.short, P.recs[cls].short)
                for good, kind, fn, n, d in ex.uses:
                    if kind == 'use':
                        ctx.check(good, 'used-valid', '%s#%s' % (key, d), fn.loc(n), '%s is used although it may be outdated' % d)
                if not (knows and w) or f.const:
                    continue
                for o in outs:
                    if o.kind == 'noreturn':
                        continue
                    # only the cases in which the mark stays up matter
                    up = Facts.assume(o.st.facts, sym.mk_truth(ex.load(o.st, ('T', flag))), True)
                    ch = set().union(*[changed(o.st, sources, fm) for fm in up]) - set(behind)
                    down = Facts.truth(o.st.facts, sym.mk_truth(ex.load(o.st, ('T', flag)))) is False
                    ctx.check(not ch or down or o.st.data.get('built') is True, 'invalidated', '%s#%s' % (key, flag),
                              (o.fn or f).loc(o.node) if o.node else f.loc(),
                              '%s may change but data derived from it stay marked as valid (%s)' % (', '.join(sorted(ch)), flag))
                    if down and grown and o.st.store.get(('T', flag)) == ZERO and init is None:
                        for d in sorted(grown):
                            ctx.check(ex.load(o.st, ('T', d)) == ('c', 'emptycontainer'), 'emptied', '%s#%s' % (key, d), f.loc(),
                                      '%s is not emptied although it is going to be extended' % d)
            if reset is not None:
                f = P.fns[P.final(cls, reset.usr)]
                ex = mk()
                outs, fr = ex.analyze(f, cls)
                for o in outs:
                    if o.kind == 'return':
                        ctx.check(Facts.truth(o.st.facts, sym.mk_truth(ex.load(o.st, ('T', flag)))) is False, 'invalidated',
                                  '%s#%s' % (f.short, flag), f.loc(), '%s stays up although new results are summed' % flag)
            foreign(ctx, P, E, rec, cls, dusr, busr, own)
    ctx.need(len(found) >= 3, 'validity marks')


def changed(st, sources, facts=None):
    facts = st.facts if facts is None else facts
    out = set()
    for p, v in st.store.items():
        if p[0] == 'T' and len(p) > 1 and p[1] in sources and v != ('i', p) and Facts.truth(facts, mk_eq(v, ('i', p))) is not True:
            out.add(p[1])
    return out


def foreign(ctx, P, E, rec, cls, dusr, busr, own):
    """derived members that other classes read directly: the builder runs whenever such an object is created"""
    readers = {}
    for g in P.fns.values():
        if g.cls and not P.isa(g.cls, rec.usr) and not P.isa(rec.usr, g.cls):
            for n in g.all('Field'):
                if n['fu'] in dusr:
                    readers.setdefault(g.cls, (g, n))
    for k, (g, n) in readers.items():
        kinds = set(P.subclasses(k)) | {k}
        sites = 0
        for f in P.fns.values():
            if not f.blocks or not any(c.get('cls') in {P.recs[x].name for x in kinds} or c.get('cu') in kinds or
                                       any(P.recs[x].short in str(c.get('t', '')) + str(c.get('fq', '')) for x in kinds)
                                       for c in f.all('New')):
                continue

            class Made(sym.Exec):
                max_depth = 3

                def should_inline(s, fr, fn, n):
                    return fn.usr not in busr and len(fn.nodes) < 80

                def on_call(s, fr, st, n, callee, obj, args):
                    if callee is not None and callee.usr in busr:
                        st.data = dict(st.data)
                        st.data['built'] = True
                        return [(st, ('none',))]
                    return None

                def on_element(s, fr, st, n):
                    if n['k'] == 'New' and any(P.recs[x].short in str(n.get('t', '')) for x in kinds):
                        s.made.append((bool(st.data.get('built')), fr.fn, n))
            ex = Made(P)
            ex.made = []
            outs, fr = ex.analyze(f, f.cls)
            ctx.touched(f)
            ctx.npaths += len(outs)
            for good, fn, n in ex.made:
                sites += 1
                ctx.check(good, 'built-before', f.short, fn.loc(n), 'an object that reads %s is created before the data are up to date' %
                          ', '.join(sorted(own[u]['name'] for u in dusr)))
        ctx.need(sites > 0, 'creation of %s' % P.recs[k].short)


# ---- members that are computed at once
class Final(sym.Exec):
    max_depth = 5
    max_inline_nodes = 900

    def should_inline(self, fr, fn, n):
        if fn.name in ('acosd', 'asind', 'cosd', 'sind', 'click') or 'EventTicker' in fn.short or '::R3::' in '::' + fn.short:
            return False
        return fn.cls is not None and self.P.isa(self.root, fn.cls) or len(fn.nodes) < 60 and len(fn.blocks) <= 3

    def on_call(self, fr, st, n, callee, obj, args):
        nm = effects.cname(n)
        fq = str(n.get('fq', ''))
        if nm in ('row', 'column') and args and args[0][0] == 'ref' and ('ublas' in fq or 'R3' in fq):
            return [(st, ('ref', args[0][1] + ((nm, self.rvalue(fr, st, args[1])),)))]
        if 'R3' in fq or 'ublas' in fq or 'ublas' in str(n.get('cn', '')) or callee is not None and '::R3::' in '::' + callee.name:
            ops = ([obj] if obj is not None else []) + args
            if nm in ('operator=', 'assign', 'operator+=', 'operator-=', 'operator*=', 'operator/=') and ops and ops[0][0] == 'ref':
                v = whole(self, st, ops[1]) if len(ops) > 1 else ('none',)
                if nm not in ('operator=', 'assign'):
                    v = ('call', nm, whole(self, st, ops[0]), v)
                self.write(fr, st, n, ops[0][1], v)
                return [(st, ops[0])]
            if nm in ('operator()', 'operator[]'):
                return None
            if n.get('t', '') != 'void':
                return [(st, ('call', nm) + tuple(whole(self, st, a) for a in ops))]
        return None

    def on_write(self, fr, st, n, path, value, old, cond):
        if path[0] == 'T' and len(path) > 1:
            st.data = dict(st.data)
            st.data[('by', path[1])] = (fr.tok, bool(fr.fn.ctor))

    def on_branch(self, fr, st, blk, cond):
        st.data = dict(st.data)
        st.data[('may', 'br', fr.tok)] = st.data.get(('may', 'br', fr.tok), frozenset()) | {cond}
        return None


def whole(ex, st, a):
    """value of an operand together with its parts that were written one by one"""
    if a[0] != 'ref':
        return a
    parts = tuple(sorted(((p[len(a[1]):], v) for p, v in st.store.items() if len(p) > len(a[1]) and p[:len(a[1])] == a[1]), key=repr))
    v = ex.load(st, a[1])
    return ('call', 'parts', v, parts) if parts else v


def number(t):
    return t in ('double', 'int', 'float', 'bool') or 'R3::' in t


def states(ctx, P, E, cls, ctors):
    for c in P.mro(cls):
        for f in P.methods_of(c):
            if f.static or f.dtor or f.const or not f.blocks or f.name in SERIAL or f.name.startswith('operator'):
                continue
            if f.ctor:
                if not ctors or c != cls or f.params and f.params[0].get('pm') == 'c' and P.recs[cls].short in str(f.params[0].get('t', '')):
                    continue
            elif P.final(cls, f.usr) != f.usr or f.access == 2:
                continue
            if not f.ctor and not any(k[0] == 'F' and k[2] for k in E.trans(f, cls)[1]):
                continue
            ex = Final(P)
            ex.root = cls
            outs, fr = ex.analyze(f, cls)
            ctx.npaths += len(outs)
            for o in outs:
                if o.kind == 'return':
                    fin = {}
                    for p, v in o.st.store.items():
                        if p[0] == 'T' and len(p) > 1:
                            fin.setdefault(p[1], []).append((p, v))
                    yield f, ex, o, fin


def final_value(fin, d):
    xs = fin[d]
    if len(xs) == 1:
        return xs[0][1]
    return ('call', 'parts') + tuple(v for p, v in sorted(xs, key=repr))


def initial(nm):
    return lambda x: x[0] == 'i' and x[1][:2] == ('T', nm)


def check_eager(ctx, P, E):
    proto = {P.rec(x).usr for x in PROTOCOL}
    groups = 0
    for rec in sorted(P.recs.values(), key=lambda r: r.name):
        if not rec.file.startswith('diffpy') or rec.abstract or any(P.isa(rec.usr, p) for p in proto):
            continue
        ft = {f['name']: f['type'] for _, f in P.allfields(rec.usr)}
        nums = {n for n in ft if number(ft[n])}
        if len(nums) < 2:
            continue
        deps = {}
        runs = list(states(ctx, P, E, rec.usr, True))
        for f, ex, o, fin in runs:
            if f.ctor:
                continue
            for d in fin:
                if d not in nums:
                    continue
                v = final_value(fin, d)
                if deep(v, lambda x: x[0] == 'i' and x[1][:2] == ('T', d)) and len(fin[d]) == 1:
                    continue
                for s in nums - {d}:
                    fs = final_value(fin, s) if s in fin else None
                    if fs is not None and not sym.const(fs) and fs != v and part_of(fin[s], v) or deep(v, initial(s)):
                        deps.setdefault(d, {}).setdefault(s, set()).add(f.short)
        if not deps:
            continue
        groups += 1
        npart = {}
        for f, ex, o, fin in runs:
            for d in fin:
                if d in nums and not any(len(p) == 2 for p, v in fin[d]):
                    npart[d] = max(npart.get(d, 0), len({p[:3] for p, v in fin[d]}))
        inherited = {f['usr'] for r, f in P.allfields(rec.usr) if r.usr != rec.usr}
        inherited = {f['name'] for r, f in P.allfields(rec.usr) if f['usr'] in inherited}
        for f, ex, o, fin in runs:
            ctx.touched(f)
            for d in fin:
                if d in npart and not any(len(p) == 2 for p, v in fin[d]):
                    ctx.check(len({p[:3] for p, v in fin[d]}) == npart[d], 'recomputed', '%s#%s' % (f.short, d), f.loc(), 'only a part of %s is computed' % d)
            for d in sorted(set(fin) & set(deps)):
                for s in sorted(deps[d]):
                    if s not in fin and not f.ctor and all(v != ('i', p) for p, v in fin[d]):
                        ctx.check(deep(final_value(fin, d), initial(s)), 'source-follows', '%s#%s' % (f.short, s), f.loc(),
                                  '%s changes but %s, from which it is computed in %s, is kept' % (d, s, ', '.join(sorted(deps[d][s]))))
            ch = {s for s in fin if s in nums and (f.ctor or any(v != ('i', p) and Facts.truth(o.st.facts, mk_eq(v, ('i', p))) is not True
                                                             for p, v in fin[s]))}
            for d in sorted(deps):
                key = '%s#%s' % (f.short, d)
                for s in sorted(deps[d]):
                    if s not in ch and f.ctor and s in inherited and d in fin:
                        ctx.check(not (sym.const(final_value(fin, d)) and o.st.data.get(('by', d), (0, 0))[1]), 'recomputed', key, f.loc(),
                                  '%s is not computed from %s in the constructor' % (d, s))
                    if s not in ch:
                        continue
                    if d not in fin:
                        good = any(deep(final_value(fin, e), initial(d)) and part_of(fin[s], final_value(fin, e)) for e in fin if e != d)
                        ctx.check(good or f.ctor, 'recomputed', key, f.loc(), '%s is kept although %s, from which it is computed in %s, changes' %
                                  (d, s, ', '.join(sorted(deps[d][s]))))
                        continue
                    v = final_value(fin, d)
                    ctx.check(f.ctor or not deep(v, initial(s)), 'from-current', key, f.loc(), '%s is computed from an earlier value of %s' % (d, s))
                    tok, writer = o.st.data.get(('by', d))
                    if sym.const(v) and (f.ctor or not all(sym.const(x) for p, x in fin[s])):
                        if f.ctor:
                            ctx.check(not writer, 'recomputed', key, f.loc(),
                                      '%s is not computed from %s in the constructor' % (d, s))
                            continue
                        br = o.st.data.get(('may', 'br', tok), ())
                        ctx.check(any(part_of(fin[s], b) for b in br), 'recomputed', key, f.loc(), '%s stays constant although it depends on %s' % (d, s))
    ctx.need(groups >= 3, 'classes with members computed at once')


def part_of(parts, v):
    vals = {x for p, x in parts if not sym.const(x)}
    return bool(vals) and deep(v, lambda x: x in vals)


# ---- members refreshed when a structure is attached
class Attach(sym.Exec):
    max_depth = 5
    max_inline_nodes = 900

    def should_inline(self, fr, fn, n):
        if fn.cls is None:
            return len(fn.nodes) < 80
        if not self.P.isa(self.root, fn.cls):
            return False
        return fn.usr in self.leads or fn.usr in self.updates or fn.usr in self.readers

    def on_return(self, fr, st, callee, n):
        if callee.usr in self.updates:
            st.data = dict(st.data)
            st.data[('done', callee.usr)] = True

    def on_read(self, fr, st, n, path):
        if path[0] != 'T' or len(path) < 2 or path[1] not in self.owner:
            return
        frames = set()
        x = fr
        while x is not None:
            frames.add(x.fn.usr)
            x = x.up
        for w in self.owner[path[1]]:
            if w in frames or st.data.get(('done', w)) or path in st.store or ('T', path[1]) in st.store:
                return
        self.stale.append((fr.fn, n, path[1]))


def check_attached(ctx, P, E):
    pq = P.rec('PairQuantity').usr
    ms = [f['usr'] for f in P.rec('PairQuantity').fields if f['name'] == 'mstructure'][0]
    setstru = P.method('PairQuantity', 'setStructure')
    virt = {m['usr'] for r in P.recs.values() for m in r.methods if m.get('virtual') or m.get('over')}
    nupd = 0
    for cls in P.subclasses(pq):
        if P.recs[cls].abstract:
            continue
        own = {f['usr']: f for _, f in P.allfields(cls)}
        updates, owner = {}, {}
        for c in P.mro(cls):
            for f in P.methods_of(c):
                if f.params or f.ctor or f.dtor or f.static or not f.blocks or f.access == 0 or f.ret != 'void' or f.usr in virt:
                    continue
                R, W = E.trans(f, cls)
                w = {own[k[1]]['name'] for k in W if k[0] == 'F' and k[2] and k[1] in own}
                if w and any(k[0] == 'F' and k[1] == ms for k in R):
                    updates[f.usr] = f
        for u, f in updates.items():
            nested = {k[1] for h in updates.values() if h.usr != u and (h.usr, cls) in E.closure(f, cls) for k in E.trans(h, cls)[1] if k[0] == 'F'}
            for k in E.trans(f, cls)[1]:
                if k[0] == 'F' and k[2] and k[1] in own and k[1] not in nested and own[k[1]]['name'] != 'mticker':
                    owner.setdefault(own[k[1]]['name'], set()).add(u)
        top = {u: f for u, f in updates.items()
               if not any(f.usr in {g.usr for n, g, gc in E.calls(h, cls)} for h in updates.values() if h.usr != f.usr)} or updates
        leads = set()
        for c in P.mro(cls):
            for f in P.methods_of(c):
                if any(k in updates for k in {g.usr for g, _, _ in E.closure(f, cls).values()}):
                    leads.add(f.usr)
        ex = Attach(P)
        ex.root, ex.updates, ex.leads, ex.stale = cls, set(updates), leads, []
        ex.readers = {f.usr for c in P.mro(cls) for f in P.methods_of(c)
                      if any(k[0] == 'F' and k[1] in own and own[k[1]]['name'] in owner for k in E.direct(f)[0])}
        # members of settings are not derived
        ex.owner = {d: w for d, w in owner.items()}
        outs, fr = ex.analyze(setstru, cls)
        ctx.touched(setstru, *updates.values())
        ctx.npaths += len(outs)
        ret = [o for o in outs if o.kind == 'return']
        ctx.need(bool(ret), 'a return of setStructure')
        for u, f in updates.items():
            nupd += 1
            for o in ret:
                ctx.check(o.st.data.get(('done', u)) is True, 'refreshed', '%s in %s' % (f.short, P.recs[cls].short), f.loc(),
                          '%s() does not run when a structure is attached to %s' % (f.short, P.recs[cls].short))
        for fn, n, d in ex.stale:
            ctx.bad('refresh-order', '%s#%s in %s' % (fn.short, d, P.recs[cls].short), fn.loc(n), '%s is used before it is updated for the new structure' % d)
        ctx.ok('refresh-order', P.recs[cls].short)
    ctx.need(nupd >= 8, 'update functions of calculators')


def run(ctx):
    P = ctx.P
    E = effects.of(P)
    check_marks(ctx, P, E)
    check_eager(ctx, P, E)
    check_attached(ctx, P, E)
    ctx.floor('used-valid', 5)
    ctx.floor('invalidated', 8)
    ctx.floor('recomputed', 1)
    ctx.floor('from-current', 50)
    ctx.floor('refreshed', 8)
