"""Helper models reach the calculator.  For every calculator with incremental evaluation, and for every helper model it
consults while summing pairs, the handles to helper models (objects with a time mark of their own) are collected from the
summation code.  ticker() of the calculator is executed symbolically through all overrides: on every path where a handle is
set, the returned mark has to include the mark of the model behind that handle, directly or through the mark of an owner
class.  Every user-callable operation that may replace a handle, and every operation of a helper model that may change a
member read during summation, must click a mark that ticker() of that object includes on each path with a change."""
import sym, effects, c01
from sym import Facts, mk_eq, ZERO

ASSUMPTIONS = c01.ASSUMPTIONS


def pointee(P, t):
    i = t.find('shared_ptr<')
    if i < 0:
        return None
    s = t[i + len('shared_ptr<'):].rsplit('>', 1)[0].replace('const ', '').replace('class ', '').strip()
    return P.recname.get(s)


def has_ticker(P, u):
    return any(m['name'] == 'ticker' for c in P.mro(u) if c in P.recs for m in P.recs[c].methods)


def run(ctx):
    P = ctx.P
    E = effects.of(P)
    S = c01.settings(P, E)
    uniq = P.fieldnames()
    keep = {}
    for u, fields in sorted(S.items()):
        cls = P.recs[u].short
        handles = {}
        for fu, (rec, f) in fields.items():
            r = pointee(P, f['type'])
            if r is not None and has_ticker(P, r.usr):
                handles[uniq.get(fu, f['name'])] = (rec, f)
        f, ticks = c01.tick_sources(P, u)
        ctx.touched(f)
        ctx.npaths += len(ticks)
        own = any(('T', 'mticker') in src for src, st in ticks)
        ctx.need(bool(ticks), 'no result of ticker() of ' + cls)
        for h, (rec, fld) in sorted(handles.items()):
            for src, st in ticks:
                hv = ('i', ('T', h))
                if Facts.truth(st.facts, mk_eq(hv, ZERO)) is True:
                    continue
                got = any(sym.mentions_any(p, lambda x: x == hv) for p in src)
                if not ctx.check(got, 'aggregated', '%s.%s' % (cls, h), f.loc(),
                                 'ticker() of %s does not include the time mark of the model in %s' % (cls, h)):
                    break
        base = P.rec('PairQuantity').usr
        if P.isa(u, base):
            keep[u] = {fu: x for fu, x in fields.items() if uniq.get(fu, x[1]['name']) in handles}
            ctx.check(own, 'own-mark', cls, f.loc(), 'ticker() of %s leaves out the mark clicked by its setters' % cls)
        else:
            keep[u] = fields
    c01.check_setters(ctx, P, E, keep)
    ctx.floor('aggregated', 5)
    ctx.floor('click', 30)
