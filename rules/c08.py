"""Partial sums are attributed only to what they represent.  Every evaluator class is executed symbolically from the entry of
updateValue.  Wherever a pair contribution is added to or removed from an earlier sum, or that sum is set aside or put back,
the remembered structure has to be forgotten already, so an error at that point leaves no sum that a later evaluation would
continue.  An evaluation may end only with the remembered structure unset, or equal to a copy of the structure that was
summed.  Work split changes, setting a structure, merging data of other processes and every other user-callable operation
that may write accumulated values must forget the remembered structure before the first such write.  The final processing of
a sum must leave the accumulated values in place, or clear the ones that an incremental update does not carry over, or
forget the remembered structure."""
import sym, effects, c01, pqeval
from sym import Facts, mk_eq, mk_truth, ZERO

ASSUMPTIONS = ['a sum is reused only through the structure remembered by an evaluator (member of StructureAdapter pointer type)',
               'exceptions may leave any call made during summation; clone() returns an independent equal copy (C05, C20)']


def memory(P, cls):
    """members of the evaluator class that hold a structure"""
    return [f['name'] for rec, f in P.allfields(cls) if 'StructureAdapter' in f['type'] and 'shared_ptr' in f['type'] or
            f['type'].endswith('StructureAdapterPtr') or f['type'].endswith('StructureAdapterConstPtr')]


def accumulators(P, E, u):
    """members that a pair contribution may change"""
    f = P.fns[P.final(u, P.method('PairQuantity', 'addPairContribution').usr)]
    R, W = E.trans(f, u)
    W = {k: v for k, v in W.items()}
    out = {}
    for k in W:
        if k[0] == 'F' and k[1] in P.fieldowner:
            rec, fld = P.fieldowner[k[1]]
            if P.isa(u, rec.usr):
                out[k[1]] = (rec, fld)
    return f, out


def source(e):
    """handle of the structure that supplies the bonds of an event"""
    b = e.bnds
    return b[1][1] if b and b[0] == 'D' and b[1][0] == 'bgen' else None


def null(st, ex, p):
    v = ex.load(st, p)
    return Facts.truth(st.facts, mk_eq(v, ZERO)) is True


class Ops(sym.Exec):
    """user-callable operations: writes to accumulated values and the invalidation of the evaluator"""
    max_depth = 5
    max_inline_nodes = 900

    def __init__(self, P, E, cls, acc):
        super().__init__(P)
        self.E, self.rootcls, self.acc = E, cls, acc
        self.accnames = {f['name'] for rec, f in acc.values()}
        self.evcls = P.rec('PQEvaluatorBasic').usr
        self.writes = []
        self.relevant = {}

    def should_inline(self, fr, fn, n):
        if fn.cls and self.P.isa(fn.cls, self.evcls):
            return False
        if fn.usr not in self.relevant:
            W = self.E.trans(fn, self.rootcls if fn.cls and self.P.isa(self.rootcls, fn.cls) else fn.cls)[1]
            r = any(k[0] == 'F' and (k[1] in self.acc or k[1] in self.memo) for k in W)
            r = r or any(self.E.trans(fn, None)[1]) and any(k[0] == 'F' and k[1] in self.memo for k in self.E.trans(fn, None)[1])
            self.relevant[fn.usr] = r or len(fn.nodes) < 60
        return self.relevant[fn.usr]

    def on_call(self, fr, st, n, callee, obj, args):
        rec, nm = self.P.recname.get(n.get('cn', '')), effects.cname(n)
        if n.get('fq', '').endswith('emptyStructureAdapter'):
            return [(st, ('emptystru',))]
        if rec is not None and self.P.isa(rec.usr, self.evcls):
            if nm == 'invalidate':
                st.data = dict(st.data)
                st.data[('inv',)] = True
                return [(st, ('none',))]
            if nm == 'updateValue':
                st.data = dict(st.data)
                st.data[('eval',)] = True
                return [(st, ('none',))]
            if nm in ('validate', 'setupParallelRun'):
                return [(st, ('none',))]
        if n.get('fq', '').endswith('createPQEvaluator'):
            return [(st, ('freshev',))]
        return None

    def okstate(self, st):
        d = st.data
        if d.get(('inv',)) or d.get(('eval',)):
            return True
        ev = self.load(st, ('T', 'mevaluator'))
        if ev == ('freshev',) or Facts.truth(st.facts, mk_eq(ev, ZERO)) is True:
            return True
        for k, v in st.facts.items():
            if k[0] == 'eq' and v is True and ('emptystru',) in k[1:] and \
                    any(sym.mentions_any(x, lambda y: y == ('T', 'mstructure') or y == 'mstructure') for x in k[1:]):
                return True
        return False

    def on_write(self, fr, st, n, path, value, old, cond):
        if path[0] == 'T' and len(path) > 1 and path[1] in self.accnames:
            self.writes.append((path[1], self.okstate(st), fr, n))


class Finish(sym.Exec):
    max_depth = 3

    def on_call(self, fr, st, n, callee, obj, args):
        if effects.cname(n) == 'invalidate' and 'PQEvaluator' in (n.get('cn') or ''):
            st.data = dict(st.data)
            st.data[('inv',)] = True
            return [(st, ('none',))]
        return None


def check_evaluators(ctx, P):
    for u in pqeval.evaluators(P):
        cls = P.recs[u].short
        mem = memory(P, u)
        ex, f, outs = pqeval.run_eval(P, u, follow=False, lastnames=mem)
        ctx.touched(f)
        ctx.npaths += len(outs)
        paths = [('T', m) for m in mem]
        for e in ex.events:
            src, g = source(e), ex.gen(e.st)
            if g == 0:
                good = src is not None and sym.mentions_any(src, lambda x: x[0] == 'i' and x[1] in paths) and src[-1] != ('stru1',)
            else:
                good = src in (e.st.data.get(('stru',)), ('pqstru', g))
            ctx.check(good, 'source', '%s:%s' % (cls, e.fr.fn.short), e.fr.fn.loc(e.node),
                      'contributions are taken from a structure other than the one they are attributed to')
        for what, st, fr, n in [(pqeval.SUMS, e.st, e.fr, e.node) for e in ex.events] + ex.partial:
            key = '%s:%s@%s' % (cls, what, fr.fn.short)
            if what == 'setStructure':
                continue
            if what == pqeval.SUMS and not pqeval.incremental(st):
                continue
            ctx.check(bool(paths) and all(null(st, ex, p) for p in paths), 'forgotten', key, fr.fn.loc(n),
                      'an error here would leave a partial sum that is attributed to the remembered structure')
            init = [('i', p) for p in paths]
            ctx.check(any(Facts.truth(st.facts, mk_eq(v, ZERO)) is False for v in init), 'has-previous', key, fr.fn.loc(n),
                      'a sum is continued although no structure may be remembered')
            if what == 'restorePartialValue':
                ctx.check(st.data.get(('stash',)) == 'reset', 'stash-order', key, fr.fn.loc(n),
                          'the partial sum is not set aside before and put back after the structure is replaced')
            if what == pqeval.SUMS and ex.gen(st) > 0:
                pass
            elif what == pqeval.SUMS:
                ctx.check(st.data.get(('stash',)) != 'stashed', 'stash-order', key, fr.fn.loc(n),
                          'a contribution is removed after the sum was set aside')
        for o in outs:
            if o.kind != 'return' or not paths:
                continue
            d = o.st.data
            for p in paths:
                v = ex.load(o.st, p)
                g = d.get(('gen',), 0)
                isnull = Facts.truth(o.st.facts, mk_eq(v, ZERO)) is True
                cur = v[0] == 'clone' and v[1] in (('pqstru', g), d.get(('stru',)), ('D', ('pqstru', g))) and g > 0
                same = v == ('i', p) and not d.get(('summed',)) and not g
                ctx.check(isnull or same or cur, 'attributed', '%s.%s' % (cls, p[1]), f.loc(),
                          'the value is attributed to something other than a copy of the structure that was summed')


def check_memory_writers(ctx, P, E):
    """only the evaluators themselves set the remembered structure"""
    ev = P.rec('PQEvaluatorBasic')
    memo = {}
    for u in P.subclasses(ev.usr):
        for m in memory(P, u):
            for rec, f in P.allfields(u):
                if f['name'] == m:
                    memo[f['usr']] = (rec, f)
    for fu, (rec, f) in memo.items():
        for g in P.fns.values():
            R, W = E.direct(g)
            if ('F', fu) in [k[:2] for k in W]:
                ok = g.cls and P.isa(g.cls, rec.usr)
                ctx.check(bool(ok), 'memory-owner', '%s@%s' % (f['name'], g.short), g.loc(),
                          '%s changes the structure remembered by an evaluator' % g.short)
    return memo


def check_operations(ctx, P, E, memo):
    for u in c01.calculators(P):
        cls = P.recs[u].short
        f0, acc = accumulators(P, E, u)
        ctx.need(bool(acc), 'no accumulated members in ' + cls)
        ctx.touched(f0)
        for a in acc.values():
            ctx.ok('accumulator', '%s.%s' % (cls, a[1]['name']))
        for c in P.mro(u):
            for f in P.methods_of(c):
                if f.static or f.ctor or f.dtor or f.access != 0 or f.const or f.name.startswith('operator'):
                    continue
                if c != u and P.final(u, f.usr) != f.usr:
                    continue
                R, W = E.trans(f, u)
                if not any(k[0] == 'F' and k[1] in acc for k in W):
                    continue
                ex = Ops(P, E, u, acc)
                ex.memo = memo
                outs, fr = ex.analyze(f, u)
                ctx.npaths += len(outs)
                ctx.touched(f)
                for nm, good, wf, n in ex.writes:
                    ctx.check(good, 'invalidated', '%s::%s' % (cls, f.name), wf.fn.loc(n),
                              '%s may change %s while the evaluator still attributes it to the remembered structure' % (f.short, nm))
        check_finished(ctx, P, E, u, acc)


def check_finished(ctx, P, E, u, acc):
    """state of the accumulated members at the end of an evaluation"""
    cls = P.recs[u].short
    fin = P.fns[P.final(u, P.method('PairQuantity', 'finishValue').usr)]
    stash = P.fns[P.final(u, P.method('PairQuantity', 'stashPartialValue').usr)]
    R, W = E.trans(stash, u)
    carried = {k[1] for k in list(R) + list(W) if k[0] == 'F'}
    R, W = E.trans(fin, u)
    ex = Finish(P)
    outs, fr = ex.analyze(fin, u)
    ctx.npaths += len(outs)
    ctx.touched(fin, stash)
    for fu, (rec, a) in acc.items():
        p = ('T', a['name'])
        for o in outs:
            if o.kind != 'return' or o.st.data.get(('inv',)):
                continue
            v = ex.load(o.st, p)
            empty = v == ('c', 'emptycontainer')
            same = not any(k[:len(p)] == p for k in o.st.store) or v == ('i', p)
            if fu in carried:
                good = empty or same
                msg = 'finishValue() changes %s, which the next fast update continues' % a['name']
            else:
                good = empty
                msg = 'fast updates neither carry over %s nor find it empty' % a['name']
            if not ctx.check(good, 'finished', '%s.%s' % (cls, a['name']), fin.loc(), msg):
                break


class Split(sym.Exec):
    max_depth = 3

    def should_inline(self, fr, fn, n):
        return True


def check_split(ctx, P):
    base = P.method('PQEvaluatorBasic', 'setupParallelRun')
    for u in pqeval.evaluators(P):
        mem = memory(P, u)
        if not mem:
            continue
        f = P.fns[P.final(u, base.usr)]
        for nm in ('setupParallelRun', ):
            ex = Split(P)
            outs, fr = ex.analyze(f, u)
            ctx.touched(f)
            ctx.npaths += len(outs)
            for o in outs:
                if o.kind == 'noreturn':
                    continue
                changed = [k for k, v in o.st.store.items() if k[0] == 'T' and k[1] in ('mcpuindex', 'mncpu') and v != ('i', k) and
                           Facts.truth(o.st.facts, mk_eq(v, ('i', k))) is not True]
                good = not changed or all(null(o.st, ex, ('T', m)) for m in mem)
                ctx.check(good, 'split', '%s::%s' % (P.recs[u].short, f.name), f.loc(),
                          'a change of the work split keeps sums of the earlier split')
        # invalidate() itself
        g = P.fns[P.final(u, P.method('PQEvaluatorBasic', 'invalidate').usr)]
        ex = Split(P)
        outs, fr = ex.analyze(g, u)
        ctx.touched(g)
        for o in outs:
            ctx.check(all(null(o.st, ex, ('T', m)) for m in mem), 'invalidate', P.recs[u].short, g.loc(),
                      'invalidate() keeps the remembered structure')


def check_factory(ctx, P, E):
    """a new evaluator starts without a remembered structure: the factory never hands it over"""
    for f in P.fns.values():
        if f.name != 'createPQEvaluator':
            continue
        ctx.touched(f)
        for n in f.all('Ctor'):
            if n.get('copy') and P.recname.get((n.get('t') or '').replace('const ', '').strip()) is not None:
                r = P.recname[(n.get('t') or '').replace('const ', '').strip()]
                ctx.check(not P.isa(r.usr, P.rec('PQEvaluatorBasic').usr), 'factory', 'copy', f.loc(n),
                          'the new evaluator is copied from the earlier one')
        ctx.ok('factory', f.short)


def run(ctx):
    P = ctx.P
    E = effects.of(P)
    check_evaluators(ctx, P)
    memo = check_memory_writers(ctx, P, E)
    check_operations(ctx, P, E, memo)
    check_split(ctx, P)
    check_factory(ctx, P, E)
    ctx.floor('forgotten', 4)
    ctx.floor('has-previous', 4)
    ctx.floor('source', 6)
    ctx.floor('stash-order', 2)
    ctx.floor('attributed', 4)
    ctx.floor('memory-owner', 2)
    ctx.floor('accumulator', 4)
    ctx.floor('invalidated', 10)
    ctx.floor('finished', 4)
    ctx.floor('split', 2)
    ctx.floor('invalidate', 2)
