"""Rejected settings.  (1) Every public member function that takes arguments, changes its object and may throw explicitly is
executed symbolically together with the functions it calls.  On each path that ends with an exception whose condition
depends on the arguments, every data member - including those of helper objects held by the object - still has the value it
had on entry.  Reading foreign data from an archive may fail as well.  (2) For each documented restriction of an argument,
the restriction is implied by the path condition of every path that returns normally, so an invalid value is always
rejected."""
import sym, effects
from sym import Facts, mk_eq, mk_lt, ZERO, ONE, expand

ASSUMPTIONS = ['modification times and the memory of an evaluator are not part of the visible state',
               'exceptions thrown by the standard library for lack of memory are not considered',
               'a positive constant divided by a distance is epsilon positive']

# (class, function, argument, restriction)
DOCUMENTED = [
    ('PDFCalculator', 'setQmin', 0, 'nonneg'), ('PDFCalculator', 'setQmax', 0, 'nonneg'), ('PDFCalculator', 'setRmin', 0, 'nonneg'),
    ('PDFCalculator', 'setRmax', 0, 'nonneg'), ('PDFCalculator', 'setRstep', 0, 'positive'),
    ('PDFCalculator', 'setMaxExtension', 0, 'nonneg'), ('PDFCalculator', 'setPeakProfile', 0, 'nonnull'),
    ('PDFCalculator', 'setBaseline', 0, 'nonnull'),
    ('BaseDebyeSum', 'setQmin', 0, 'nonneg'), ('BaseDebyeSum', 'setQmax', 0, 'nonneg'), ('BaseDebyeSum', 'setQstep', 0, 'positive'),
    ('DebyePDFCalculator', 'setQmin', 0, 'nonneg'), ('DebyePDFCalculator', 'setQmax', 0, 'nonneg'),
    ('DebyePDFCalculator', 'setQstep', 0, 'positive'), ('DebyePDFCalculator', 'setRmin', 0, 'nonneg'),
    ('DebyePDFCalculator', 'setRmax', 0, 'nonneg'), ('DebyePDFCalculator', 'setRstep', 0, 'positive'),
    ('DebyePDFCalculator', 'setMaxExtension', 0, 'nonneg'),
    ('PDFEnvelopeOwner', 'addEnvelope', 0, 'nonnull'), ('ScatteringFactorTableOwner', 'setScatteringFactorTable', 0, 'nonnull'),
    ('PeakWidthModelOwner', 'setPeakWidthModel', 0, 'nonnull'), ('BVSCalculator', 'setBVParamTable', 0, 'nonnull'),
    ('BVSCalculator', 'setValencePrecision', 0, 'positive'), ('OverlapCalculator', 'setAtomRadiiTable', 0, 'nonnull'),
    ('CrystalStructureAdapter', 'setSymmetryPrecision', 0, 'positive'), ('PQEvaluatorBasic', 'setupParallelRun', 1, 'atleast1'),
    ('BondCalculator', 'filterCone', 0, 'norm'), ('Lattice', 'setLatBase', None, 'base'),
]


def may_throw(P, E):
    thr = {f.usr for f in P.fns.values() if any(True for _ in f.all('Throw'))}
    callers = {}
    for f in P.fns.values():
        for n, g, gc in E.calls(f):
            callers.setdefault(g.usr, set()).add(f.usr)
        for n in f.all('Call'):
            if extracts(n):
                thr.add(f.usr)
    work, seen = list(thr), set(thr)
    while work:
        for c in callers.get(work.pop(), ()):
            if c not in seen:
                seen.add(c)
                work.append(c)
    return seen


def extracts(n):
    return n.get('op') == '>>' and 'archive' in str(n.get('cn', '')) + str(n.get('fq', ''))


EVALUATION = {'resetValue', 'updateValue', 'eval', 'customPQConfig', 'createBondGenerator', 'finishValue'}


class Reject(sym.Exec):
    max_depth = 5
    max_inline_nodes = 900

    def __init__(self, P, may):
        super().__init__(P)
        self.may = may
        self.ev = P.rec('PQEvaluatorBasic').usr

    def should_inline(self, fr, fn, n):
        if fn.name in EVALUATION or 'EventTicker' in fn.short:
            return False
        if fn.cls and self.P.isa(fn.cls, self.ev) and not (fr.fn.cls and self.P.isa(fr.fn.cls, self.ev)):
            return fn.name == 'setupParallelRun'
        return fn.usr in self.may or len(fn.nodes) < 60 and (len(fn.blocks) <= 3 or fn.name.startswith('eps_'))

    def on_branch(self, fr, st, blk, cond):
        st.data = dict(st.data)
        st.data[('guard',)] = cond
        return None

    def on_call(self, fr, st, n, callee, obj, args):
        if extracts(n):
            st.data = dict(st.data)
            bad = [k for k in self.changes(st)]
            if bad:
                self.late.append((tuple(bad), fr.fn, n))
        return None

    def relevant(self, p):
        """data member of the object or of a helper object that it holds"""
        if p[0] == 'T':
            q = p
        elif p[0] == 'D' and p[1][0] == 'i':
            if not self.relevant(p[1][1]) or any(x == 'mevaluator' for x in p[1][1]):
                return False
            q = p[1:]
        else:
            return False
        names = [x for x in q if isinstance(x, str)]
        return not any(x in self.exempt for x in names)

    def changes(self, st):
        for p, v in st.store.items():
            if len(p) > 1 and self.relevant(p) and v != ('i', p) and Facts.truth(st.facts, mk_eq(v, ('i', p))) is not True:
                # a part of an unchanged object
                yield p


def isparam(v):
    return v[0] == 'p' and len(v) == 3 and isinstance(v[1], int) or v[0] == 'i' and v[1][:1] == ('A',) or v[0] == 'A' and len(v) > 1


def about(v):
    """depends on the arguments or on something computed from them by means that are not followed"""
    return isparam(v) or v[0] in ('f', 'call', 'phi', 'loop', 'h')


def deep(v, pred, memo=None, cut=None):
    memo = set() if memo is None else memo
    if not isinstance(v, (tuple, frozenset)) or not v or v in memo:
        return False
    memo.add(v)
    if isinstance(v, tuple) and isinstance(v[0], str):
        if v[0] == 'big':
            return deep(expand(v), pred, memo, cut)
        if cut and cut(v):
            return False
        if pred(v):
            return True
    return any(deep(x, pred, memo, cut) for x in v if isinstance(x, (tuple, frozenset)))


def constquot(v):
    """positive constant divided by something that is not one of the arguments themselves"""
    return v[0] == 'op' and v[1] == '/' and len(v) == 4 and sym.const(v[2]) and isinstance(v[2][1], (int, float)) and v[2][1] > 0 \
        and not isparam(v[3])


def check_unchanged(ctx, P, E):
    may = may_throw(P, E)
    done = set()
    for r in sorted(P.recs.values(), key=lambda r: r.name):
        if not r.file.startswith('diffpy') or '/tests/' in r.file:
            continue
        if r.abstract and any(not P.recs[s].abstract for s in P.subclasses(r.usr)):
            continue
        for c in P.mro(r.usr):
            for f in P.methods_of(c):
                if f.static or f.ctor or f.dtor or f.access != 0 or f.const or not f.params or f.name in ('serialize', 'load', 'save') \
                        or f.name in EVALUATION or f.usr not in may or f.name == 'operator()':
                    continue
                if c != r.usr and P.final(r.usr, f.usr) != f.usr:
                    continue
                if not any(k[0] == 'F' for k in E.trans(f, r.usr)[1]):
                    continue
                # a function without virtual calls on this behaves the same in all classes
                ex = Reject(P, may)
                ex.exempt = {'mticker'}
                ex.late = []
                outs, fr = ex.analyze(f, r.usr)
                ctx.npaths += len(outs)
                key = '%s::%s' % (r.short, f.name)
                th = [o for o in outs if o.kind == 'throw']
                if not th and not ex.late:
                    continue
                ctx.touched(f)
                for bad, fn, n in ex.late:
                    ctx.bad('unchanged', key, fn.loc(n), '%s is changed before the data are read, which may fail' % names(bad))
                for o in th:
                    g = o.st.data.get(('guard',))
                    if g is None or not deep(g, about, cut=constquot):
                        ctx.ok('unchanged', key + ' (not about the argument)')
                        continue
                    bad = list(ex.changes(o.st))
                    ctx.check(not bad, 'unchanged', key, (o.fn or f).loc(o.node) if o.node else f.loc(),
                              '%s() throws after it changed %s' % (f.short, names(bad)))


def names(paths):
    return ', '.join(sorted({'.'.join(str(x) for x in p if isinstance(x, str) and x not in 'TD') or 'the object' for p in paths}))


def argvalue(fr, f, k):
    p = f.params[k]
    return ('i', ('A', k, p['name'])) if p['pm'] in 'rwm' else ('p', k, p['name'])


def implied(facts, kind, v):
    if kind == 'nonneg':
        return Facts.truth(facts, mk_lt(v, ZERO)) is False
    if kind == 'positive':
        if Facts.truth(facts, mk_lt(ZERO, v)) is True or Facts.truth(facts, mk_lt(v, ZERO)) is False and \
                Facts.truth(facts, mk_eq(v, ZERO)) is False:
            return True
        # more than a small positive constant
        for k, val in facts.items():
            if k[0] == 'lt' and val is True and v in (k[2], ('op', '-', k[2])) and k[1] != ZERO:
                lo = expand(k[1])
                if sym.const(lo) and lo[1] > 0 or lo[0] in ('i', 'op', 'call') and not deep(lo, isparam):
                    return True
            if k[0] == 'lt' and val is False and k[1] == v and sym.const(k[2]) and k[2][1] > 0:
                return True
        return False
    if kind == 'nonnull':
        return Facts.truth(facts, mk_eq(v, ZERO)) is False
    if kind == 'atleast1':
        return Facts.truth(facts, mk_lt(v, ONE)) is False or Facts.truth(facts, mk_lt(ZERO, v)) is True
    if kind == 'norm':
        return any(k[0] == 'lt' and val is True and deep(k[2], lambda x: x[0] == 'call' and str(x[1]).split('::')[-1].startswith(('norm', 'sqrt', 'fabs')))
                   and deep(k[2], isparam) and not deep(k[1], isparam) for k, val in facts.items())
    if kind == 'base':
        isdet = lambda x: x[0] == 'call' and 'determinant' in str(x[1])
        degenerate = any(k[0] == 'lt' and val is False and deep(k[1], lambda x: x[0] == 'call' and str(x[1]).split('::')[-1] in ('fabs', 'abs'))
                         and deep(k[1], isdet) and sym.const(k[2]) and k[2][1] > 0 for k, val in facts.items())
        righthanded = any(k[0] == 'lt' and val is False and isdet(expand(k[1])) and sym.const(k[2]) and k[2][1] >= 0 or
                          k[0] == 'lt' and val is True and isdet(expand(k[2])) and sym.const(k[1]) and k[1][1] >= 0
                          for k, val in facts.items())
        both = any(k[0] == 'lt' and val is False and isdet(expand(k[1])) and sym.const(k[2]) and k[2][1] > 0 for k, val in facts.items())
        return both or degenerate and righthanded
    raise ValueError(kind)


WHAT = {'nonneg': 'a negative value', 'positive': 'a value that is not positive', 'nonnull': 'a null pointer', 'atleast1': 'a value below one',
        'norm': 'a zero vector', 'base': 'a degenerate or left-handed base'}


def check_documented(ctx, P, E):
    may = may_throw(P, E)
    for cname, fname, k, kind in DOCUMENTED:
        rec = P.rec(cname)
        fs = [f for f in P.methods_of(rec.usr) if f.name == fname and not f.const]
        subs = [rec.usr]
        if not fs:
            fs = [f for c in P.mro(rec.usr) for f in P.methods_of(c) if f.name == fname and not f.const][:1]
        ctx.need(bool(fs), '%s::%s' % (cname, fname))
        for f in fs:
            if k is not None and k >= len(f.params) or not f.blocks:
                continue
            ex = Reject(P, may)
            ex.exempt, ex.late = set(), []
            outs, fr = ex.analyze(f, rec.usr)
            ctx.touched(f)
            ctx.npaths += len(outs)
            ret = [o for o in outs if o.kind == 'return']
            ctx.need(bool(ret), 'a normal return of %s::%s' % (cname, fname))
            for o in ret:
                v = None if k is None else argvalue(fr, f, k)
                ctx.check(implied(o.st.facts, kind, v), 'rejected', '%s::%s' % (cname, fname), f.loc(),
                          '%s() can accept %s' % (f.short, WHAT[kind]))


def check_types(ctx, P, E):
    """unknown type names never give an object"""
    for f in P.fns.values():
        if f.name != 'createByType' or not f.blocks or 'HasClassRegistry' not in f.short:
            continue
        ex = sym.Exec(P)
        outs, fr = ex.analyze(f, f.cls)
        ctx.touched(f)
        ctx.npaths += len(outs)
        for o in outs:
            if o.kind != 'return':
                continue
            found = any(deep(k, isparam) for k, val in o.st.facts.items())
            ctx.check(found and o.value != ZERO, 'unknown-type', f.short, f.loc(), 'an unknown type name can be accepted')


def run(ctx):
    P = ctx.P
    E = effects.of(P)
    check_unchanged(ctx, P, E)
    check_documented(ctx, P, E)
    check_types(ctx, P, E)
    ctx.floor('unchanged', 40)
    ctx.floor('rejected', 28)
    ctx.floor('unknown-type', 5)
