"""Accumulated results.  The values that a pair contribution may change are found by effect analysis of every
addPairContribution override.  For each concrete calculator: every path through resetValue() empties or zeroes each of
them (and the count of merged results); every path through getParallelData() writes each of them to the archive, and every
path through executeParallelMerge() reads the same sequence of types and adds the k-th item to the k-th accumulated value;
stashing, resetting and restoring gives back the earlier content, at the same positions of the grid; and each contribution
is an exact multiple of the summation scale (and of the bond multiplicity when it is spread over a grid), is not decided
by anything that depends on the sign of the scale, and does not depend on values accumulated so far - or goes to one of two
lists chosen by the sign, of which the second is removed from the first when the sum is finished."""
import sym, effects, c01, c08, c09
from sym import Facts, mk_eq, ZERO, ONE, expand

ASSUMPTIONS = ['standard algorithms (fill, transform, merge, sort, set_difference) and boost archives do what they are specified to do',
               'rounding of repeated addition and subtraction is not considered',
               'replacePairQuantityStructure is used only for pickling, as documented']


def under(p, q):
    """q is p or a part of p"""
    return q[:len(p)] == p


def root(ex, v):
    """container path an argument refers to"""
    if v is None:
        return None
    if v[0] in ('ref', 'ptr'):
        return v[1]
    if v[0] == 'it':
        return v[1]
    return None


def bare(v):
    while v is not None and v[0] == 'call' and v[1] in ('move', 'forward') and len(v) == 3:
        v = v[2]
    return v


# ---- reset --------------------------------------------------------------------------------------------------------------

def zero_loops(fn):
    """conditions of loops whose every iteration writes one constant and which are left only at the head: {cond: header}"""
    out = {}
    for h, bl in fn.loops().items():
        B = fn.blocks
        if any(x != h and any(s is not None and s >= 0 and s not in bl for s in B[x]['s']) for x in bl):
            continue
        out[h] = bl
    return out


class Reset(sym.Exec):
    """which accumulated values are empty or zero"""
    max_depth = 6
    max_inline_nodes = 900

    def __init__(self, P, E, cls, paths):
        super().__init__(P)
        self.E, self.rootcls, self.paths = E, cls, paths
        self.rel = {}

    def should_inline(self, fr, fn, n):
        if fn.usr not in self.rel:
            W = self.E.trans(fn, fr.cls)[1]
            names = {p[1] for p in self.paths}
            self.rel[fn.usr] = any(k[0] == 'F' and k[1] in self.P.fieldowner and self.P.fieldowner[k[1]][1]['name'] in names for k in W) \
                or any(k[0] == 'V' for k in W) or len(fn.nodes) < 40
        return self.rel[fn.usr]

    def mark(self, st, p, val=True):
        st.data = dict(st.data)
        st.data[('clean', p)] = val

    def on_call(self, fr, st, n, callee, obj, args):
        nm = effects.cname(n).split('<')[0]
        if callee is not None or n.get('my'):
            return None
        R = lambda v: self.rvalue(fr, st, v)
        if nm in ('fill', 'fill_n') and len(args) == 3 and obj is None:
            a, b, c = R(args[0]), R(args[1]), R(args[2])
            p = a[1] if a and a[0] == 'it' else None
            if p in self.paths and a[2] == 'begin' and sym.const(c):
                if nm == 'fill' and b == ('it', p, 'end') or nm == 'fill_n' and b == ('call', 'size', self.load(st, p)):
                    self.setpath(st, p, ('zeroed', fr.tok, n['i']))
                    self.mark(st, p)
                    return [(st, ('none',))]
        p = root(self, obj)
        if p in self.paths:
            if nm == 'assign' and len(args) == 2 and sym.const(R(args[1])):
                self.setpath(st, p, ('zeroed', fr.tok, n['i']))
                self.mark(st, p)
                return [(st, ('none',))]
            if nm == 'resize' and (len(args) == 1 or sym.const(R(args[1]))):
                c = self.clean(st, p)
                self.setpath(st, p, ('w', fr.tok, n['i'], p) if not c else ('zeroed', fr.tok, n['i']))
                st.data = dict(st.data)
                st.data[('empty', p)] = self.rvalue(fr, st, args[0]) == ZERO
                return [(st, ('none',))]
        return None

    def clean(self, st, p):
        v = self.load(st, p)
        if st.data.get(('clean', p)) or sym.const(v) or v[0] == 'zeroed':
            return True
        if v[0] in ('call', 'op') and v[1] in ('c',):
            return True
        return v[0] == 'obj' and len(v) > 1 and not sym.mentions_any(v, lambda x: x[0] == 'i' and x[1][:1] == ('T',) and x[1] in self.paths)

    def on_write(self, fr, st, n, path, value, old, cond):
        for p in self.paths:
            if path == p:
                self.mark(st, p, sym.const(value))
                st.data[('empty', p)] = value == ('c', 'emptycontainer')
            elif under(p, path):
                if not sym.const(value):
                    self.mark(st, p, False)
                elif self.covering(fr, n, p):
                    self.loopzero.add((p, fr.tok))

    def covering(self, fr, n, p):
        return True

    def edge(self, fn, fr, frm, to, st, loops, back, work):
        # leaving a loop that zeroes every item
        for h, p in self.zeroing(fn, fr):
            if frm == h and to not in fn.loops()[h]:
                self.mark(st, p)
        return super().edge(fn, fr, frm, to, st, loops, back, work)

    def zeroing(self, fn, fr):
        """(header, path) of the loops of fn in which each iteration sets the current item to a constant"""
        if not hasattr(self, '_z'):
            self._z = {}
        if fn.usr not in self._z:
            out = []
            import c07
            zl = zero_loops(fn)
            for n in fn.all('Assign'):
                if n.get('op', '=') not in ('=', None) or len(n['c']) != 2:
                    continue
                rhs = fn.nodes[n['c'][1]]
                while rhs['k'] == 'Cast' and rhs['c']:
                    rhs = fn.nodes[rhs['c'][0]]
                if rhs['k'] != 'Lit':
                    continue
                names = {m['f'] for m in fn.subtree(n['c'][0]) if m['k'] == 'Field'}
                b = c07.block_of(fn, n['i'])
                for h, bl in zl.items():
                    if b in bl and c07.always_in_loop(fn, bl, b, h):
                        cn = {m['f'] for x in bl for e in fn.blocks[x]['e'] for m in fn.subtree(e) if m['k'] == 'Field'} | names
                        for p in self.paths:
                            if p[1] in cn:
                                out.append((h, p))
            self._z[fn.usr] = out
        return self._z[fn.usr]


def check_reset(ctx, P, E, u, acc, extra):
    f = P.fns[P.final(u, P.method('PairQuantity', 'resetValue').usr)]
    paths = [('T', a['name']) for rec, a in list(acc.values()) + extra]
    add = Add(P, paths, lambda v: False)
    add.analyze(P.fns[P.final(u, P.method('PairQuantity', 'addPairContribution').usr)], u)
    grown = {a[0] for a in add.appends}     # lists that contributions are appended to have to be empty
    ex = Reset(P, E, u, paths)
    ex.loopzero = set()
    outs, fr = ex.analyze(f, u)
    ctx.touched(f)
    ctx.npaths += len(outs)
    for p in paths:
        for o in outs:
            good = o.st.data.get(('empty', p)) if p in grown else ex.clean(o.st, p)
            if o.kind == 'return' and not ctx.check(good, 'reset', '%s.%s' % (P.recs[u].short, p[1]), f.loc(),
                                                    'resetValue() can leave earlier content in %s' % p[1]):
                break


def check_reset_callers(ctx, P, E):
    """whoever replaces the structure resets the value afterwards"""
    pq = P.rec('PairQuantity')
    fu = [f['usr'] for f in pq.fields if f['name'] == 'mstructure']
    ctx.need(len(fu) == 1, 'PairQuantity::mstructure')

    class Seq(sym.Exec):
        max_depth = 4

        def should_inline(self, fr, fn, n):
            return fn.name not in ('resetValue',) and len(fn.nodes) < 200

        def on_call(self, fr, st, n, callee, obj, args):
            if effects.cname(n) == 'resetValue':
                st.data = dict(st.data)
                st.data[('dirty',)] = False
                return [(st, ('none',))]

        def on_write(self, fr, st, n, path, value, old, cond):
            if path[-1:] == ('mstructure',) and path[:1] == ('T',):
                st.data = dict(st.data)
                st.data[('dirty',)] = True
    for f in list(P.fns.values()):
        if f.ctor or not f.blocks or 'serialize' in f.name or f.name == 'replacePairQuantityStructure' or f.name.startswith('operator'):
            continue
        R, W = E.direct(f)
        if not any(k[:2] == ('F', fu[0]) for k in W) or not f.cls:
            continue
        if f.access != 0:
            continue
        ex = Seq(P)
        outs, fr = ex.analyze(f, f.cls)
        ctx.touched(f)
        for o in outs:
            ctx.check(o.kind != 'return' or not o.st.data.get(('dirty',)), 'reset-called', f.short, f.loc(),
                      '%s replaces the structure without resetting the value afterwards' % f.short)


# ---- parallel data ------------------------------------------------------------------------------------------------------

class Pack(sym.Exec):
    max_depth = 5

    def on_call(self, fr, st, n, callee, obj, args):
        if n.get('op') in ('<<', '&', '>>') and 'archive' in str(n.get('cn', '')) + str(n.get('fq', '')) and args:
            st.data = dict(st.data)
            a = args[-1]
            node = fr.fn.nodes.get(n['c'][-1]) if n.get('c') else None
            t = (node or {}).get('t', '').replace('const ', '').strip(' &')
            st.data[('seq',)] = st.data.get(('seq',), ()) + ((a[1] if a[0] == 'ref' else a, t),)
            arc = obj if obj is not None else args[0]
            if n['op'] == '>>' and a[0] == 'ref':
                self.write(fr, st, n, a[1], ('extracted', len(st.data[('seq',)]) - 1))
            return [(st, arc)]
        return None


class Merge(Pack):
    """links between extracted items and accumulated values"""

    def __init__(self, P, paths):
        super().__init__(P)
        self.paths = paths
        self.loose = {}             # item -> set of (path, additive): links made in loops

    def item(self, st, p):
        """number of the extracted item that is held at path p"""
        for q in [p[:k] for k in range(1, len(p) + 1)]:
            v = self.load(st, q) if q in st.store else None
            if v is not None and v[0] == 'extracted':
                return v[1]
            if v is not None and v[0] == 'w' and st.data.get(('sorted', q)) is not None:
                return st.data[('sorted', q)]
        return None

    def link(self, st, k, p, good):
        st.data = dict(st.data)
        st.data[('link', k)] = st.data.get(('link', k), ()) + ((p, good),)

    def on_call(self, fr, st, n, callee, obj, args):
        r = super().on_call(fr, st, n, callee, obj, args)
        if r is not None or (callee is not None and self.should_inline(fr, callee, n) and callee.blocks and fr.depth < self.max_depth):
            return r
        R = lambda v: self.rvalue(fr, st, v)
        nm = effects.cname(n).split('<')[0]
        vals = ([obj] if obj is not None else []) + list(args)
        full = [R(a) if a is not None and a[0] == 'ref' and root(self, R(a)) is not None and R(a)[0] == 'it' else a for a in vals]
        items = [(self.item(st, root(self, v)), v) for v in full if root(self, v) is not None]
        items = [(k, v) for k, v in items if k is not None]
        dst = [root(self, v) for v in full if root(self, v) is not None]
        dst = [p for p in dst if p in self.paths]
        if not items or not dst:
            if nm in ('sort', 'stable_sort') and items:
                p = root(self, items[0][1])
                st.data = dict(st.data)
                st.data[('sorted', p)] = items[0][0]
            return None
        modifies = nm not in ('size', 'empty', 'begin', 'end', 'operator==', 'operator!=', 'equal', 'max_size', 'capacity') \
            and not (obj is not None and (n.get('fc') or n.get('fs')))
        if not modifies:
            return None
        good = True
        if nm == 'transform':
            fun = vals[-1]
            ft = ''
            for x in n['c'][-1:]:
                ft = fr.fn.nodes[x].get('t', '') if x in fr.fn.nodes else ''
                while not ('plus' in ft or 'minus' in ft) and fr.fn.nodes[x].get('c') and fr.fn.nodes[x]['c'][0] in fr.fn.nodes:
                    x = fr.fn.nodes[x]['c'][0]
                    ft = fr.fn.nodes[x].get('t', '')
            fv = R(fun)
            good = 'plus' in ft or fv is not None and fv[0] == 'lambda'
            if any(w in ft for w in ('minus', 'multiplies', 'divides')):
                good = False
            its = [R(v) for v in vals]
            rng = [v[2] for v in its[:4] if v and v[0] == 'it']
            if rng[:2] != ['begin', 'end'] or any(x != 'begin' for x in rng[2:]):
                good = False
        elif nm in ('merge', 'insert', 'append', 'splice', 'copy', 'set_union'):
            k = {v[2] for _, v in items if v[0] == 'it'}
            good = not k or k == {'begin', 'end'}
            if nm == 'insert' and args:
                good = good
        elif nm in ('operator=', 'swap', 'assign'):
            good = False
        for k in {k for k, v in items}:
            for p in set(dst):
                self.link(st, k, p, good)
        return None

    def on_write(self, fr, st, n, path, value, old, cond):
        for p in self.paths:
            if under(p, path) and len(path) > len(p):
                ks = set()

                def look(x):
                    if x[0] in ('i', 'sel', 'extracted'):
                        if x[0] == 'extracted':
                            ks.add(x[1])
                        elif x[0] == 'sel' and x[1][0] == 'extracted':
                            ks.add(x[1][1])
                    return False
                sym.mentions_any(expand(value), look)
                v = expand(value)
                for k in ks:
                    additive = v[0] == 'op' and v[1] == '+' and expand(old) in [expand(x) for x in v[2:]]
                    self.loose.setdefault(k, set()).add((p, additive))


def check_parallel(ctx, P, E, u, acc):
    cls = P.recs[u].short
    paths = [('T', a['name']) for rec, a in acc.values()]
    g = P.fns[P.final(u, P.method('PairQuantity', 'getParallelData').usr)]
    m = P.fns[P.final(u, P.method('PairQuantity', 'executeParallelMerge').usr)]
    ex = Pack(P)
    outs, fr = ex.analyze(g, u)
    ctx.touched(g, m)
    ctx.npaths += len(outs)
    seqs = {o.st.data.get(('seq',), ()) for o in outs if o.kind == 'return'}
    ctx.check(len(seqs) == 1, 'exchange-order', cls, g.loc(), 'the exchanged data differ between paths of getParallelData()')
    seq = sorted(seqs, key=repr)[0] if seqs else ()
    for p in paths:
        ctx.check(all(p in [x[0] for x in s] for s in seqs) and bool(seqs), 'exchanged', '%s.%s' % (cls, p[1]), g.loc(),
                  '%s is changed by pair contributions, but it is not included in getParallelData()' % p[1])
    ex = Merge(P, paths)
    outs, fr = ex.analyze(m, u)
    ctx.npaths += len(outs)
    for o in outs:
        if o.kind != 'return':
            continue
        rs = o.st.data.get(('seq',), ())
        ctx.check([t for p, t in rs] == [t for p, t in seq], 'exchange-types', cls, m.loc(),
                  'executeParallelMerge() reads %s where getParallelData() wrote %s' % ([t for p, t in rs], [t for p, t in seq]))
        for k, (p, t) in enumerate(seq):
            if p not in paths:
                continue
            links = set(o.st.data.get(('link', k), ())) | ex.loose.get(k, set())
            empty = any(kk[0] == 'eq' and vv is True and ZERO in kk[1:] and sym.mentions_any(kk, lambda x: x == ('extracted', k))
                        for kk, vv in o.st.facts.items())
            wrong = {q for q, good in links if q != p}
            ctx.check(bool(links) or empty, 'merged', '%s.%s' % (cls, p[1]), m.loc(), 'data received for %s are not merged' % p[1])
            ctx.check(not wrong, 'merge-target', '%s.%s' % (cls, p[1]), m.loc(),
                      'data of %s are merged into %s' % (p[1], ', '.join(sorted(q[1] for q in wrong))))
            ctx.check(all(good for q, good in links), 'merge-adds', '%s.%s' % (cls, p[1]), m.loc(),
                      'data received for %s are not added to all of it' % p[1])


def check_merge_protocol(ctx, P, E):
    f = P.method('PairQuantity', 'mergeParallelData')

    class Seq(sym.Exec):
        max_depth = 3

        def on_call(self, fr, st, n, callee, obj, args):
            nm = effects.cname(n)
            if nm in ('executeParallelMerge', 'finishValue'):
                st.data = dict(st.data)
                st.data['calls'] = st.data.get('calls', ()) + ((nm, tuple(self.rvalue(fr, st, a) for a in args)),)
                return [(st, ('none',))]
    ex = Seq(P)
    outs, fr = ex.analyze(f, P.rec('PairQuantity').usr)
    ctx.touched(f)
    pc = ('T', 'mmergedvaluescount')
    ncpu = [('p', 1, f.params[1]['name']), ('i', ('A', 1, f.params[1]['name']))]
    cnt = 0
    for o in outs:
        calls = o.st.data.get('calls', ())
        v = ex.load(o.st, pc)
        if o.kind != 'return':
            if o.kind == 'throw' and not calls:
                ctx.check(v == ('i', pc), 'merge-rejected', 'count', f.loc(), 'a rejected merge is counted')
            continue
        cnt += 1
        names = [c[0] for c in calls]
        ctx.check(names.count('executeParallelMerge') == 1 and names[:1] == ['executeParallelMerge'], 'merge-once', 'mergeParallelData', f.loc(),
                  'the data are not merged exactly once before the value is finished')
        ctx.check(v == sym.mk_op('+', ('i', pc), ONE), 'merge-count', 'mergeParallelData', f.loc(), 'merged results are miscounted')
        last = [Facts.truth(o.st.facts, mk_eq(v, x)) for x in ncpu] + [
            None if not any(Facts.truth(o.st.facts, sym.mk_lt(v, x)) is False for x in ncpu) else True,
            None if not any(Facts.truth(o.st.facts, sym.mk_lt(v, x)) is True for x in ncpu) else False]
        known = [x for x in last if x is not None]
        ctx.check(bool(known) and all(x == ('finishValue' in names) for x in known), 'merge-finish', 'mergeParallelData', f.loc(),
                  'the value is not finished exactly when the last process was merged')
    ctx.need(cnt >= 2, 'paths of mergeParallelData')
    # evaluation finishes the value
    for f in [f for f in P.methods_of(P.rec('PairQuantity').usr) if f.name == 'eval']:
        class Ev(sym.Exec):
            max_depth = 3

            def on_call(self, fr, st, n, callee, obj, args):
                nm = effects.cname(n)
                if nm in ('updateValue', 'finishValue'):
                    st.data = dict(st.data)
                    st.data['calls'] = st.data.get('calls', ()) + (nm,)
                    return [(st, ('none',))]
        ex = Ev(P)
        outs, fr = ex.analyze(f, P.rec('PairQuantity').usr)
        ctx.touched(f)
        for o in outs:
            if o.kind == 'return':
                ctx.check(o.st.data.get('calls') == ('updateValue', 'finishValue'), 'finish-order', f.short, f.loc(),
                          'the value is not finished exactly once after the summation')


# ---- carry-over ---------------------------------------------------------------------------------------------------------

def totals_of(P, E, u, acc):
    """members that finishValue() combines with the accumulated values: {fu: (rec, field)}, read before they are set"""
    fin = P.fns[P.final(u, P.method('PairQuantity', 'finishValue').usr)]
    R, W = E.trans(fin, u)
    out = {}
    for k in W:
        if k[0] == 'F' and k[1] in P.fieldowner and k[1] not in acc:
            rec, fld = P.fieldowner[k[1]]
            if P.isa(u, rec.usr) and '_ptr' not in fld['type'] and 'Ptr' not in fld['type']:
                out[k[1]] = (rec, fld)
    return out, {k[1] for k in R if k[0] == 'F'}


def check_carry(ctx, P, E, u, acc, totals):
    totals = {fu: ('T', x[1]['name']) for fu, x in totals.items()}
    cls = P.recs[u].short
    st_ = P.fns[P.final(u, P.method('PairQuantity', 'stashPartialValue').usr)]
    re_ = P.fns[P.final(u, P.method('PairQuantity', 'restorePartialValue').usr)]
    rs_ = P.fns[P.final(u, P.method('PairQuantity', 'resetValue').usr)]
    ctx.touched(st_, re_)
    paths = {fu: ('T', a['name']) for fu, (rec, a) in acc.items()}
    R, W = E.trans(st_, u)
    used = {k[1] for k in list(R) + list(W) if k[0] == 'F'}
    R, W = E.trans(re_, u)
    rewritten = {k[1] for k in W if k[0] == 'F'}
    paths.update(totals)
    carried = [fu for fu in paths if fu in used]
    for fu, p in totals.items():
        ctx.check(fu in used and fu in rewritten, 'carry-total', '%s.%s' % (cls, p[1]), st_.loc(),
                  'finishValue() continues %s, but fast updates do not carry it over' % p[1])
    # values that survive the replacement of the structure are moved in the first step
    ex = sym.Exec(P)
    outs, fr = ex.analyze(st_, u)
    ctx.npaths += len(outs)
    for fu in paths:
        ctx.check((fu in used) == (fu in rewritten), 'carry-pair', '%s.%s' % (cls, paths[fu][1]), st_.loc(),
                  '%s is set aside, but not put back (or the other way round)' % paths[fu][1])
    for o in outs:
        if o.kind != 'return':
            continue
        stored = dict(o.st.store)
        keep = {p: v for p, v in stored.items() if p[0] == 'T'}

        def reset(s):
            # resetting clears the accumulated values and changes nothing that was set aside
            for p in paths.values():
                for q in [q for q in s.store if under(p, q)]:
                    del s.store[q]
                s.store[p] = ('afterreset', p[1])
        Rr, Wr = E.trans(rs_, u)
        wr = {P.fieldowner[k[1]][1]['name'] for k in Wr if k[0] == 'F' and k[1] in P.fieldowner}
        for p, v in keep.items():
            if p not in paths.values() and p[1] in wr and v in [('i', q) for q in paths.values()]:
                ctx.bad('carry-reset', '%s.%s' % (cls, p[1]), rs_.loc(), 'resetting the value overwrites %s, which was set aside' % p[1])

        class Restore(sym.Exec):
            copies = set()

            def on_write(self, fr, st, n, path, value, old, cond):
                for p in paths.values():
                    if under(p, path) and len(path) > len(p):
                        self.copies.add((p, path, value, fr.fn, n['i'] if n else -1))
            def on_call(self, fr, st, n, callee, obj, args):
                if effects.cname(n).split('<')[0] in ('copy', 'move', 'swap_ranges') and len(args) == 3:
                    v = [self.rvalue(fr, st, a) for a in args]
                    if all(x and x[0] == 'it' for x in v):
                        self.algos.append((v, self.load(st, v[0][1]), fr.fn, n['i']))
                return None
        ex2 = Restore(P)
        ex2.copies, ex2.algos = set(), []
        outs2 = run_with(ex2, re_, u, keep, reset)
        for o2 in outs2:
            if o2.kind != 'return':
                continue
            for fu in carried:
                p = paths[fu]
                v = ex2.load(o2.st, p)
                whole = v == ('i', p)
                partial = [c for c in ex2.copies if c[0] == p and sym.mentions_any(expand(c[2]), lambda x: x == ('i', p) or x[0] == 'i' and under(p, x[1]))]
                algo = [a for a in ex2.algos if a[0][2][1] == p and a[1] == ('i', p)]
                ctx.check(whole or bool(partial) or bool(algo), 'carried', '%s.%s' % (cls, p[1]), re_.loc(),
                          'the earlier content of %s is not put back' % p[1])
    return carried


def run_with(ex, f, u, keep, reset):
    """executes f from a state with given member values"""
    st = sym.State()
    st.store.update(keep)
    reset(st)
    return ex.analyze(f, u, init=st)[0]


def linear(v):
    """{atom: coefficient} of a sum; min(x, size) counts as x, since nothing is copied when the limit is reached"""
    v = expand(v)
    if sym.const(v) and isinstance(v[1], (int, float)):
        return {(): v[1]} if v[1] else {}
    if v[0] == 'op' and v[1] in ('+', '-') and len(v) == 4:
        a, b = linear(v[2]), linear(v[3])
        for k, c in b.items():
            a[k] = a.get(k, 0) + (c if v[1] == '+' else -c)
        return {k: c for k, c in a.items() if c}
    if v[0] == 'op' and v[1] in ('neg', '-') and len(v) == 3:
        return {k: -c for k, c in linear(v[2]).items()}
    if v[0] == 'op' and v[1] == 'min' and len(v) == 4:
        sz = [x for x in v[2:] if 'size' in str(expand(x))[:14] or expand(x)[:2] == ('call', 'size')]
        if len(sz) == 1:
            return linear([x for x in v[2:] if x is not sz[0]][0])
    return {v: 1}


class Positions(sym.Exec):
    """offsets of iterators and indices used to copy values one by one"""

    def __init__(self, P, keepout):
        super().__init__(P)
        self.entries, self.copies, self.keepout = [], [], keepout

    def should_inline(self, fr, fn, n):
        return fn.name not in self.keepout

    def on_call(self, fr, st, n, callee, obj, args):
        nm = effects.cname(n)
        if obj is not None and callee is None and args and nm in ('operator+=', 'operator-=', 'operator+', 'operator-'):
            v = self.rvalue(fr, st, obj)
            if v and v[0] == 'it':
                off = ('lin', sym.mk_op(nm[8], self.offset(v), self.rvalue(fr, st, args[0])))
                new = ('it', v[1], off)
                if nm.endswith('='):
                    self.write(fr, st, n, obj[1], new)
                    return [(st, obj)]
                return [(st, new)]
        return None

    def offset(self, it):
        return it[2][1] if isinstance(it[2], tuple) and it[2] and it[2][0] == 'lin' else ZERO if it[2] == 'begin' else ('it?', it[2])

    def edge(self, fn, fr, frm, to, st, loops, back, work):
        ls = fn.loops()
        if to in ls and frm not in ls[to]:
            for k, v in st.store.items():
                if v and v[0] == 'it':
                    self.entries.append((fn.usr, to, k, v[1], self.offset(v), dict(st.store)))
        return super().edge(fn, fr, frm, to, st, loops, back, work)


def check_positions(ctx, P, E, u, acc):
    """values that are put back item by item keep their position on the grid although its origin may have moved"""
    cls = P.recs[u].short
    re_ = P.fns[P.final(u, P.method('PairQuantity', 'restorePartialValue').usr)]
    st_ = P.fns[P.final(u, P.method('PairQuantity', 'stashPartialValue').usr)]
    names = {('T', a['name']) for rec, a in acc.values()}
    if not re_.loops():
        return
    consts = {f.name for c in P.mro(u) for f in P.methods_of(c) if f.const and not f.params}
    ex = Positions(P, consts)
    outs, fr = ex.analyze(st_, u)
    org = {}
    for o in outs:
        for p, v in o.st.store.items():
            if p[0] == 'T' and v[0] in ('call',) and str(v[1]).split('::')[-1] in consts:
                org[p] = str(v[1]).split('::')[-1]
    ex = Positions(P, consts)
    outs, fr = ex.analyze(re_, u)
    groups = {}
    for fu, h, k, cont, off, store in ex.entries:
        groups.setdefault((fu, h, id(store)), []).append((cont, off, store))
    seen = set()
    for fu, h, k, cont, off, store in ex.entries:
        others = [(c2, o2) for fu2, h2, k2, c2, o2, s2 in ex.entries if (fu2, h2) == (fu, h) and s2 == store and c2 != cont]
        if cont not in names:
            continue
        for c2, o2 in others:
            if c2[0] != 'T' or 'it?' in (off[0], o2[0]):
                continue
            d = linear(('op', '-', o2, off))
            if any(isinstance(a, tuple) and a and a[0] in ('it?', 'f', 'w') or 'it?' in str(a) for a in d):
                continue
            want = {}
            good = False
            for p, nm in org.items():
                calls = [a for a in d if a and a[0] == 'call' and str(a[1]).split('::')[-1] == nm]
                if len(d) == 2 and len(calls) == 1 and d[calls[0]] == 1 and d.get(('i', p)) == -1:
                    good = True
            tag = (fu, h, cont, c2)
            ctx.check(good, 'carry-position', '%s.%s' % (cls, cont[1]), re_.loc(),
                      'values put back into %s are displaced when the start of the grid changes' % cont[1])


def degree(v, isx):
    """power with which the quantity recognised by isx enters the value; None for zero; 'mixed' if it is not a product"""
    v = expand(v)
    if isx(v):
        return 1
    if sym.const(v):
        return None if v == ZERO else 0
    if not contains(v, isx):
        return 0
    if v[0] == 'op':
        op, a = v[1], v[2:]
        d = [degree(x, isx) for x in a]
        if 'mixed' in d:
            return 'mixed'
        if op == '*':
            return None if None in d else sum(d)
        if op == '/':
            return d[0] if d[0] is None else d[0] - (d[1] or 0)
        if op in ('+', '-', 'neg'):
            s = {x for x in d if x is not None}
            return s.pop() if len(s) == 1 else None if not s else 'mixed'
    if v[0] == 'cond':
        if contains(v[1], isx) and not even(v[1], isx):
            return 'mixed'
        s = {x for x in (degree(v[2], isx), degree(v[3], isx)) if x is not None}
        return s.pop() if len(s) == 1 else None if not s else 'mixed'
    if v[0] == 'call' and len(v) == 3 and v[1].split('::')[-1] in ('real', 'static_cast', 'double', 'int'):
        return degree(v[2], isx)
    return 'mixed'


def contains(v, isx, memo=None):
    memo = {} if memo is None else memo
    if not isinstance(v, (tuple, frozenset)) or not v:
        return False
    if isinstance(v, tuple) and v[0] == 'big':
        if v not in memo:
            memo[v] = False
            memo[v] = contains(expand(v), isx, memo)
        return memo[v]
    if isinstance(v, tuple) and isinstance(v[0], str) and isx(v):
        return True
    return any(contains(x, isx, memo) for x in v if isinstance(x, (tuple, frozenset)))


def even(v, isx):
    """the value is the same for the negative of the quantity"""
    v = expand(v)
    if not contains(v, isx):
        return True
    if isx(v):
        return False
    if v[0] == 'call' and v[1].split('::')[-1] in ('fabs', 'abs', 'cosh', 'cos', 'norm') and len(v) == 3:
        d = degree(v[2], isx)
        return d is None or isinstance(d, int) or even(v[2], isx)
    if v[0] == 'call' and v[1].split('::')[-1] == 'pow' and v[3] == ('c', 2):
        d = degree(v[2], isx)
        return d is None or isinstance(d, int)
    if v[0] == 'call' and v[1].split('::')[-1] == 'eps_eq' and ZERO in v[2:4]:
        return all(isinstance(degree(x, isx), (int, type(None))) for x in v[2:4]) and all(even(x, isx) for x in v[4:])
    if v[0] == 'eq' and ZERO in v[1:]:
        return all(isinstance(degree(x, isx), (int, type(None))) or even(x, isx) for x in v[1:])
    if v[0] == 'op' and v[1] in ('*', '/'):
        d = degree(v, isx)
        return isinstance(d, int) and d % 2 == 0 or all(even(x, isx) for x in v[2:])
    return all(even(x, isx) for x in v[1:] if isinstance(x, tuple))


def terms(v):
    v = expand(v)
    if v[0] == 'op' and v[1] == '+' and len(v) == 4:
        return terms(v[2]) + terms(v[3])
    if v[0] == 'op' and v[1] == '-' and len(v) == 4:
        return terms(v[2]) + [('op', '-', ZERO, x) for x in terms(v[3])]
    return [v]


class Add(sym.Exec):
    """writes to accumulated values by a pair contribution"""
    max_depth = 4

    def __init__(self, P, paths, isx):
        super().__init__(P)
        self.paths, self.isx = paths, isx
        self.sums, self.appends, self.branches, self.other = [], [], [], []
        self.bg = P.rec('BaseBondGenerator').usr

    def should_inline(self, fr, fn, n):
        return not (fn.cls and self.P.isa(fn.cls, self.bg)) and len(fn.nodes) < 300

    def on_branch(self, fr, st, blk, cond):
        self.branches.append((cond, fr.fn, blk))

    def on_call(self, fr, st, n, callee, obj, args):
        p = root(self, obj)
        nm = effects.cname(n)
        if p in self.paths and callee is None and nm in ('push_back', 'emplace_back', 'push_front', 'insert', 'emplace', 'append'):
            self.appends.append((p, tuple(self.rvalue(fr, st, a) for a in args), dict(st.facts), fr.fn, n))
            st.data = dict(st.data)
            st.data[('app',)] = st.data.get(('app',), ()) + (p,)
        return None

    def on_write(self, fr, st, n, path, value, old, cond):
        for p in self.paths:
            if under(p, path):
                if len(path) > len(p):
                    self.sums.append((p, path, value, old, dict(st.facts), fr.fn, n))
                elif value[0] != 'w':
                    self.sums.append((p, path, value, old, dict(st.facts), fr.fn, n))


def is_fullsum(P, u):
    for c in P.mro(u):
        for f in P.methods_of(c):
            if f.ctor and not f.params:
                for n in f.all('Call'):
                    if effects.cname(n) == 'setFlag' and 'PQEvaluator' in n.get('cn', ''):
                        t = [m for a in n['c'] if a in f.nodes for m in f.subtree(a)]
                        if any(str(m.get('val')) == '1' or 'USEFULLSUM' in str(m.get('name', m.get('en', ''))) for m in t) and \
                                any(str(m.get('val')) == 'true' or m.get('val') == 1 for m in t):
                            return True
    return False


def check_weight(ctx, P, E, u, acc, f):
    cls = P.recs[u].short
    paths = [('T', a['name']) for rec, a in acc.values()]
    nm = f.params[1]['name']
    scale = ('p', 1, nm)
    isx = lambda v: v in (scale, ('i', ('A', 1, nm)))
    ismult = lambda v: v[0] == 'call' and str(v[1]).endswith('multiplicity')
    isacc = lambda v: v[0] == 'i' and len(v[1]) > 1 and ('T', v[1][1]) in paths and v[1][0] == 'T'
    ex = Add(P, paths, isx)
    outs, fr = ex.analyze(f, u)
    ctx.touched(f)
    ctx.npaths += len(outs)
    full = is_fullsum(P, u)
    bysign = {}
    for p, path, value, old, facts, fn, n in ex.sums:
        key = '%s.%s' % (cls, p[1])
        where = fn.loc(n) if n else fn.loc()
        ts = terms(value)
        olds = [t for t in ts if t == expand(old)]
        if not olds:
            appended = any(a[0] == p for a in ex.appends)
            d = degree(value, isx)
            ctx.check(full and appended and d in (0, None), 'added', key, where, 'a contribution replaces what was accumulated in %s' % p[1])
            continue
        rest = [t for t in ts if t != expand(old)]
        ctx.check(len(olds) == 1, 'added', key, where, 'a contribution does not just add to %s' % p[1])
        d = [degree(t, isx) for t in rest]
        ctx.check(all(x in (1, None) for x in d), 'proportional', key, where,
                  'the contribution to %s is not proportional to the summation scale, so removing a pair does not cancel adding it' % p[1])
        ctx.check(not any(contains(t, isacc) for t in rest), 'independent', key, where, 'the contribution depends on what was accumulated before')
        idx = [x[1] for x in path if isinstance(x, tuple) and x and x[0] == '[]']
        grid = idx and idx[0][0] != 'c' and idx[0] not in ('front', 'back') and \
            not contains(idx[0], lambda v: v[0] == 'call' and str(v[1]).split('::')[-1] in ('site0', 'site1'))
        if grid:
            dm = [degree(t, ismult) for t in rest]
            ctx.check(all(x in (1, None) for x in dm), 'multiplicity', key, where,
                      'the contribution spread over the grid is not proportional to the multiplicity of the bond')
        else:
            ctx.ok('multiplicity', key + ' (by site)')
    signs = False
    for cond, fn, blk in ex.branches:
        if cond is None or not contains(cond, isx):
            continue
        if not even(cond, isx):
            signs = True
    lists = {}
    for p, vals, facts, fn, n in ex.appends:
        ctx.check(not any(contains(v, isx) for v in vals), 'entry', '%s.%s' % (cls, p[1]), fn.loc(n), 'an entry depends on the summation scale')
        pos = None
        for s in [scale, ('i', ('A', 1, nm))]:
            for t, val in ((sym.mk_lt(ZERO, s), True), (sym.mk_lt(s, ZERO), False), (sym.mk_eq(s, ONE), True)):
                r = Facts.truth(facts, t)
                if r is True:
                    pos = val
                elif r is False and t[0] == 'lt' or r is False and t[0] == 'eq':
                    pos = not val
        lists.setdefault(pos, set()).add(p)
    if lists and not (set(lists) == {None} and full and not signs):
        P1, P0 = lists.get(True, set()), lists.get(False, set())
        ctx.check(bool(P1) and bool(P0) and not (P1 & P0) and None not in lists, 'by-sign', cls, f.loc(),
                  'additions and removals are not kept in separate lists')
        signs = False
        fin = P.fns[P.final(u, P.method('PairQuantity', 'finishValue').usr)]
        removed = removed_lists(P, fin, u, paths)
        ctx.touched(fin)
        if removed is not None:
            ctx.check(P0 <= removed and not (P1 & removed), 'removal', cls, fin.loc(),
                      'the list of removed pairs is not what finishValue() takes out of the result')
    elif lists:
        ctx.ok('by-sign', cls + ' (complete sums only)')
    ctx.check(not signs, 'sign-free', cls, f.loc(), 'the sign of the summation scale decides whether a pair contributes')


def removed_lists(P, fin, u, paths):
    """lists that are the second range of a set difference (or are looked up for erasure)"""
    out = []

    class Fin(sym.Exec):
        max_depth = 4

        def on_call(self, fr, st, n, callee, obj, args):
            nm = effects.cname(n).split('<')[0]
            if nm == 'set_difference' and len(args) >= 5:
                a = self.rvalue(fr, st, args[2])
                if a and a[0] == 'it':
                    out.append(a[1])
            return None
    ex = Fin(P)
    ex.analyze(fin, u)
    return {p for p in out if p in paths} or None


def run(ctx):
    P = ctx.P
    E = effects.of(P)
    pq = P.rec('PairQuantity')
    cnt = [(pq, f) for f in pq.fields if f['name'] == 'mmergedvaluescount']
    inc = {u for u in c01.calculators(P)}
    concrete = [u for u in P.subclasses(pq.usr) if not P.recs[u].abstract and u != pq.usr]
    for u in sorted(concrete, key=lambda x: P.recs[x].short):
        if not P.recs[u].file.startswith('diffpy'):
            continue
        f, acc = c08.accumulators(P, E, u)
        if f.cls == pq.usr:
            continue
        ctx.need(bool(acc), 'no accumulated members in ' + P.recs[u].short)
        for rec, a in acc.values():
            ctx.ok('accumulator', '%s.%s' % (P.recs[u].short, a['name']))
        tot, rd = totals_of(P, E, u, acc)
        check_reset(ctx, P, E, u, acc, cnt + list(tot.values()))
        check_parallel(ctx, P, E, u, acc)
        check_weight(ctx, P, E, u, acc, f)
        if u in inc:
            c08.check_finished(ctx, P, E, u, acc)
            check_positions(ctx, P, E, u, acc)
            check_carry(ctx, P, E, u, acc, {fu: x for fu, x in tot.items() if fu in rd})
    c09.check_coverage(ctx, P)
    check_reset_callers(ctx, P, E)
    check_merge_protocol(ctx, P, E)
    for rule, least in (('accumulator', 5), ('reset', 10), ('exchanged', 5), ('merged', 5), ('merge-adds', 5), ('exchange-types', 4),
                        ('added', 5), ('proportional', 4), ('carried', 4), ('carry-pair', 4), ('reset-called', 1), ('merge-finish', 2),
                        ('finish-order', 2)):
        ctx.floor(rule, least)
