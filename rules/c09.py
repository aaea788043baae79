"""Mask, work split and weight of every pair contribution.  Every evaluator is executed symbolically; at each call of
addPairContribution the path has to establish that the pair mask of exactly the anchor site and the current neighbor site of
that bond generator is on (or that there are no masks), that the current anchor or the current bond was taken by this process
(remainder of a counter that starts from the process index and advances by one between two tests) exactly once unless the run
is not parallel, and that the weight is a constant of magnitude one if and only if the full sum is configured or both sites
are the same and two otherwise, negative for bonds of the previous structure and positive for bonds of the new one.  The mask
lookups are executed symbolically as well: the flag that masks exist may be false only if no pair can be masked, and a lookup
and an update of the mask of a pair use the same key for both orders of the sites."""
import sym, effects, pqeval, c08
from sym import Facts, mk_eq, mk_lt, mk_op, mk_truth, ZERO, ONE

ASSUMPTIONS = ['next() and rewind() of a bond generator position it at one bond, site1() is the neighbor site of that bond',
               'each process of a parallel run is given a different process index (checked by the caller)']


def arguments(P, caller, callee):
    """calls of callee in caller with their arguments: [(call node, [argument nodes])]"""
    out = []
    for n in caller.all('Call'):
        if P.fns.get(n.get('fn')) is callee:
            out.append((n, n['c'][len(n['c']) - len(callee.params):]))
    return out


def counters(P, f, helpers):
    """counter variables of the work split in f: {variable: ([remainder nodes], {calls of a helper that also steps})}"""
    out = {}
    params = [p['v'] for p in f.params]
    for n in f.all('Bin'):
        if n.get('op') != '%':
            continue
        l, r = n['c'][:2]
        ofproc = any(m['k'] == 'Field' and m.get('f') == 'mncpu' for m in f.subtree(r))
        for k in [params.index(m['v']) for m in f.subtree(r) if m['k'] == 'Var' and m['v'] in params]:
            ofproc = ofproc or any(m['k'] == 'Field' and m.get('f') == 'mncpu' for g in P.fns.values()
                                   for _, args in arguments(P, g, f) if k < len(args) for m in g.subtree(args[k]))
        if not ofproc:
            continue
        vs = {m['v'] for m in f.subtree(l) if m['k'] == 'Var'}
        for v in vs:
            out.setdefault(v, ([], set()))[0].append(n['i'])
    for h, (k, steps) in helpers.items():
        for n, args in arguments(P, f, P.fns[h]):
            a = f.nodes[strip(f, args[k])] if k < len(args) else {}
            if a.get('k') == 'Var':
                e = out.setdefault(a['v'], ([], set()))
                e[0].append(n['i'])
                if steps:
                    e[1].add(n['i'])
    return out


def alternates(f, v, tests, stepping=()):
    """between two tests the counter advances, and between two steps it is tested: (ok, node)"""
    pos = {}
    for b, blk in f.blocks.items():
        seq = []
        els = [e for e in blk['e'] if isinstance(e, int) and e >= 0]
        if 'c' in blk and isinstance(blk['c'], int) and blk['c'] >= 0 and blk['c'] not in els:
            els = els + [blk['c']]
        done = set()
        for e in els:
            for m in postorder(f, e):
                if m['i'] in done:
                    continue
                done.add(m['i'])
                if m['k'] == 'Un' and m.get('op') in ('++', '--') and f.nodes[strip(f, m['c'][0])].get('v') == v:
                    seq.append(('inc' if m['op'] == '++' else 'bad', m['i']))
                elif m['k'] == 'Assign' and f.nodes[strip(f, m['c'][0])].get('v') == v:
                    seq.append(('inc', m['i']))
                elif m['i'] in tests:
                    # n++ % m tests the value before the step
                    post = seq and seq[-1][0] == 'inc' and f.nodes[seq[-1][1]].get('post') and \
                        any(x['i'] == seq[-1][1] for x in f.subtree(m['c'][0]))
                    seq.insert(len(seq) - 1 if post else len(seq), ('test', m['i']))
                    if m['i'] in stepping:
                        seq.append(('inc', m['i']))
        pos[b] = seq
    # an element of a nested expression may be listed in an earlier block too
    owner, first = {}, {}
    order = sorted(f.blocks, reverse=True)
    for b in order:
        for k, i in pos[b]:
            first.setdefault(i, b)
    for b in order:
        pos[b] = [(k, i) for k, i in pos[b] if first[i] == b]

    def follow(b, k, want):
        """first kinds reached after element k of block b"""
        seen, work = set(), [(b, k + 1)]
        while work:
            b, k = work.pop()
            if k < len(pos[b]):
                yield pos[b][k]
                continue
            for s in f.blocks[b]['s']:
                if s >= 0 and s not in seen:
                    seen.add(s)
                    work.append((s, 0))
    for b in f.blocks:
        for k, (kind, i) in enumerate(pos[b]):
            if kind == 'bad':
                return False, i
            for k2, j in follow(b, k, kind):
                if k2 == kind:
                    return False, i
    return True, None


def strip(f, i):
    while f.nodes[i]['k'] in ('Cast', 'Paren') and f.nodes[i].get('c'):
        i = f.nodes[i]['c'][0]
    return i


def postorder(f, i):
    n = f.nodes.get(i)
    if n is None:
        return
    for c in n.get('c', ()):
        if isinstance(c, int) and c >= 0:
            yield from postorder(f, c)
    yield n


def check_events(ctx, P):
    for u in pqeval.evaluators(P):
        cls = P.recs[u].short
        ex, f, outs = pqeval.run_eval(P, u, follow=False, lastnames=c08.memory(P, u))
        ctx.touched(f)
        ctx.npaths += len(outs)
        flags = ('i', ('T', 'mconfigflags'))
        for e in ex.events:
            b, d, facts = e.bnds, e.st.data, e.st.facts
            T = lambda v: Facts.truth(facts, v)
            s1 = ('site1', b)
            av = d.get(('ancval', b))
            anc = [('anc', b)] + ([av] if av is not None else [])
            key = '%s:%s' % (cls, e.fr.fn.short)
            where = e.fr.fn.loc(e.node)
            ctx.touched(e.fr.fn)
            ctx.check(d.get(('anchor', b)) is True, 'anchored', key, where, 'a bond is summed without an anchor site')
            nomask = any(T(mk_truth(('pqflag', 'hasMask', g))) is False for g in range(6))
            on = any(T(mk_truth(('mask', x, y))) is True for a in anc for x, y in ((a, s1), (s1, a)))
            ctx.check(nomask or on, 'masked', key, where,
                      'a contribution does not depend on the mask of the pair of the anchor and the current site')
            full = T(mk_truth(mk_op('&', flags, ONE)))
            if any(T(mk_eq(a, s1)) is True for a in anc):
                same = True
            elif any(T(mk_eq(a, s1)) is False for a in anc):
                same = False
            else:
                same = None
            w = e.scale[1] if e.scale[0] == 'c' and isinstance(e.scale[1], (int, float)) else None
            good = w is not None and (abs(w) == 1 and (full is True or same is True) or
                                      abs(w) == 2 and full is False and same is False)
            ctx.check(good, 'weight', key, where, 'the weight of a pair is not one for a full sum or a self pair and two otherwise')
            old = ex.gen(e.st) == 0
            ctx.check(w is not None and (w < 0) == old, 'sign', key, where,
                      'bonds of the previous structure must be removed and bonds of the new one added')
            par = T(mk_lt(ONE, ('i', ('T', 'mncpu'))))
            A, B = d.get(('turnA', b)) is True, d.get(('turnB', b)) is True
            ctx.check(par is False or A or B, 'split', key, where,
                      'a contribution is summed by every process of a parallel run')
            ctx.check(not (A and B), 'split-once', key, where,
                      'the work of a parallel run is divided twice, so some pairs are left out')
            ctx.check(d.get(('conf', b)) == ex.gen(e.st), 'configured', key, where,
                      'the bond generator was not configured by the calculator')


def halfsum(sel, anc):
    """the selection pairs every anchor with itself and with one side of the list; None if it is not understood"""
    if len(sel) != 3:
        return None
    if sel[0] == 'selectSiteRange':
        lo, hi = sel[1:]
        if lo == ZERO and any(hi == mk_op('+', a, ONE) for a in anc):
            return True
        if lo in anc and hi[0] == 'call' and hi[1].endswith('countSites'):
            return True
        known = lambda x: x[0] == 'c' or x in anc or x[0] == 'call' and x[1].endswith('countSites') or \
            x[0] == 'op' and x[1] in '+-' and all(known(y) for y in x[2:])
        return False if known(lo) and known(hi) else None
    lo, hi = sel[1:]
    if lo[0] != 'it' or hi[0] != 'it' or lo[1] != hi[1]:
        return None
    pos = lambda k: ('off', 'begin', 'operator+', k) if k[0] not in ('off', 'phi', 'begin', 'end') and k not in ('begin', 'end') else k
    at = set()
    for a in anc:
        if a[0] == 'sel' and a[2] and a[2][-1][:1] == ('[]',):
            at.add(a[2][-1][1])
    at |= {pos(k) for k in at}
    if not at:
        return None
    lo, hi = lo[2], hi[2]
    after = {('off', k, 'operator+', ONE) for k in at} | {('off', 'begin', 'operator+', mk_op('+', k, ONE)) for k in at if isinstance(k, tuple)}
    if hi == 'end' and (lo in at or lo == 'begin' and 'begin' in at):
        return True
    if lo == 'begin' and hi in after:
        return True
    known = lambda x: x in ('begin', 'end') or x in at or x in after
    return False if known(lo) and known(hi) else None


def check_fullsum(ctx, P, ex, cls):
    """in a full sum the neighbors are restricted to the changed sites, or freed again, where the anchors pass from
    changed sites to unchanged ones or back"""
    for g, facts, av, sel, fr, n in ex.selections:
        if Facts.truth(facts, mk_truth(mk_op('&', ('i', ('T', 'mconfigflags')), ONE))) is not True or len(sel) != 3 or sel[0] != 'selectSites':
            continue
        if av is None or av[0] != 'sel' or not av[2] or av[2][-1][:1] != ('[]',) or sel[1][0] != 'it' or sel[1][1][0] != 'L':
            continue
        K = av[2][-1][1]
        changed = sel[1][1][-1] in ('pop0', 'add1')
        if not changed and (sel[1][2] != 'begin' or sel[2][2:] != ('end',)):
            continue
        if changed == (g > 0):
            continue
        inK = lambda x: x[0] == 'it' and x[2] == K or x == K
        tests = [v for k, v in facts.items() if k[0] == 'lt' and (inK(k[1]) or K != 'begin' and sym.mentions_any(k[1], inK))]
        ctx.check(False in tests, 'full-sum', '%s:%s' % (cls, fr.fn.short), fr.fn.loc(n),
                  'the selected sites change although the anchors have not passed the changed sites' if not g else
                  'the selected sites change before the anchors have reached the changed sites')


def check_coverage(ctx, P):
    for u in pqeval.evaluators(P):
        ex, f, outs = pqeval.run_eval(P, u, follow=False)
        ctx.npaths += len(outs)
        ctx.touched(f)
        for e in ex.events:
            b, d = e.bnds, e.st.data
            av = d.get(('ancval', b))
            if not d.get(('sel', b)) or Facts.truth(e.st.facts, mk_truth(mk_op('&', ('i', ('T', 'mconfigflags')), ONE))) is not False:
                continue
            anc = [('anc', b)] + ([av] if av is not None else [])
            ctx.check(halfsum(d[('sel', b)], anc) is not False, 'half-sum', '%s:%s' % (P.recs[u].short, e.fr.fn.short), e.fr.fn.loc(e.node),
                      'the sites selected for an anchor of a half sum are not those up to the anchor or those from the anchor on')
        check_fullsum(ctx, P, ex, P.recs[u].short)


def check_counters(ctx, P):
    helpers = {}
    for key, f in P.fns.items():
        if any(n.get('op') == '%' for n in f.all('Bin')):
            for v in counters(P, f, {}):
                for k, p in enumerate(f.params):
                    if p['v'] == v:
                        helpers[key] = (k, any(f.nodes[strip(f, n['c'][0])].get('v') == v for n in list(f.all('Un')) + list(f.all('Assign'))
                                               if n['k'] == 'Assign' or n.get('op') in ('++', '--'))
                                        and '&' in p['type'])
    for f in P.fns.values():
        if not any(n.get('op') == '%' for n in f.all('Bin')) and not any(n.get('fn') in helpers for n in f.all('Call')):
            continue
        for v, (tests, stepping) in counters(P, f, helpers).items():
            ctx.touched(f)
            ok, i = alternates(f, v, set(tests), stepping)
            nm = next((x['name'] for k, x in f.vars.items() if k == v), '?')
            what = '%s:%s' % (f.short, nm)
            ctx.check(ok, 'counter-step', what, f.loc(f.nodes[i]) if i is not None else f.loc(),
                      'the counter of the work split does not advance by one between two of its tests')
            if v in [p['v'] for p in f.params]:
                continue
            srcs = [n['c'][1] for n in f.all('Assign') if f.nodes[strip(f, n['c'][0])].get('v') == v]
            srcs += [x['init'] for n in f.all('Decl') for x in n['vars'] if x['v'] == v and x.get('init', -1) >= 0]
            ctx.check(any(m['k'] == 'Field' and m.get('f') == 'mcpuindex' for i in srcs for m in f.subtree(i)),
                      'counter-start', what, f.loc(), 'the counter of the work split does not start from the process index')


class Keys(sym.Exec):
    max_depth = 3

    def __init__(self, P):
        super().__init__(P)
        self.ops = []

    def on_write(self, fr, st, n, path, value, old, cond):
        pass

    def on_call(self, fr, st, n, callee, obj, args):
        if obj is not None and obj[0] == 'ref' and obj[1][:2] == ('T', 'minvertpairmask') and \
                effects.cname(n) in ('insert', 'erase', 'emplace', 'count', 'find'):
            self.ops.append((effects.cname(n), [self.rvalue(fr, st, a) for a in args], dict(st.facts), fr, n))
        return None


def canonical(k, facts, i, j):
    """the key does not depend on the order of the sites"""
    if k[0] != 'pair':
        return None
    a, b = k[1:3]
    if {a, b} == {i, j}:
        return Facts.truth(facts, mk_lt(b, a)) is False
    if a[0] == 'op' and b[0] == 'op' and {a[1], b[1]} == {'min', 'max'}:
        return a[1] == 'min' and set(a[2:]) == {i, j} and set(b[2:]) == {i, j}
    return False


def check_masks(ctx, P):
    pq = P.rec('PairQuantity')
    dm = ('i', ('T', 'mdefaultpairmask'))
    # the flag
    f = P.method('PairQuantity', 'hasMask')
    ex = sym.Exec(P)
    outs, fr = ex.analyze(f, pq.usr)
    ctx.touched(f)
    for o in outs:
        for facts in Facts.assume(o.st.facts, mk_truth(o.value), False):
            on = Facts.truth(facts, mk_truth(dm)) is True
            none = Facts.truth(facts, mk_eq(('call', 'size', ('i', ('T', 'minvertpairmask'))), ZERO)) is True
            ctx.check(on and none, 'mask-flag', 'PairQuantity::hasMask', f.loc(),
                      'hasMask() may be false while some pairs are masked')
    # lookup and update
    for nm in ('getPairMask', 'setPairMaskValue'):
        f = P.method('PairQuantity', nm)
        ctx.touched(f)
        ex = Keys(P)
        outs, fr = ex.analyze(f, pq.usr)
        i, j = ('p', 0, f.params[0]['name']), ('p', 1, f.params[1]['name'])
        ctx.need(bool(ex.ops), 'no access to the pair masks in ' + nm)
        for op, args, facts, fr, n in ex.ops:
            c = canonical(args[0], facts, i, j) if args else None
            if c is None and op == 'emplace' and len(args) == 2:
                c = canonical(('pair', args[0], args[1]), facts, i, j)
            ctx.check(c is True or c is None and args and args[0][0] == 'it', 'mask-key', '%s:%s' % (f.short, op), fr.fn.loc(n),
                      'the mask of a pair depends on the order of its sites')
            if nm == 'setPairMaskValue' and op in ('insert', 'erase', 'emplace'):
                same = Facts.truth(facts, mk_eq(('p', 2, f.params[2]['name']), dm))
                ctx.check(same is (op == 'erase'), 'mask-value', '%s:%s' % (f.short, op), fr.fn.loc(n),
                          'the stored exception does not correspond to the requested mask')
        if nm == 'getPairMask':
            for o in outs:
                listed = None
                for k, v in o.st.facts.items():
                    if k[0] == 'eq' and ZERO in k[1:]:
                        for x in k[1:]:
                            if x[0] == 'call' and x[1] == 'count' and x[2] == ('i', ('T', 'minvertpairmask')):
                                listed = not v
                if listed is None:
                    continue
                for facts in Facts.assume(o.st.facts, mk_truth(dm), True) + Facts.assume(o.st.facts, mk_truth(dm), False):
                    d = Facts.truth(facts, mk_truth(dm))
                    r = Facts.truth(facts, mk_truth(o.value))
                    ctx.check(r is (d != listed), 'mask-value', 'PairQuantity::getPairMask', f.loc(),
                              'the mask of a pair is not the default or its inverse for listed pairs')


def run(ctx):
    P = ctx.P
    check_events(ctx, P)
    check_coverage(ctx, P)
    check_counters(ctx, P)
    check_masks(ctx, P)
    for r, k in (('anchored', 10), ('masked', 10), ('weight', 10), ('sign', 10), ('split', 10), ('split-once', 10),
                 ('configured', 10), ('half-sum', 6), ('full-sum', 2), ('counter-step', 1), ('counter-start', 1), ('mask-flag', 1), ('mask-key', 3), ('mask-value', 4)):
        ctx.floor(r, k)
