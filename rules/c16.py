"""No leftovers in storage shared between calls.  All static local variables, static data members and namespace variables
that are written after their initialization are enumerated.  For each of them one of these must hold: (scratch) the abstract
interpreter shows that on every path every read is preceded by a write of the whole variable in the same call; or
(constant contents) every value that is ever stored depends neither on parameters nor on the object, so it is the same
whoever asks first.  An initializer of a static variable must not depend on parameters or the object.  Second, functions
that return a reference to such storage are found (through any number of forwarding functions): the reference must not be
used after another call that overwrites the same storage, must not be an argument next to another argument that overwrites
it or of a function that overwrites it, and must not be kept in a member."""
import sym, effects

ASSUMPTIONS = ['loops over the components of a vector or matrix cover all of them',
               'class registries and the global event counter are meant to be shared (explicit registration, monotonic counter)']
SIZES = {'diffpy::srreal::R3::Vector': 3, 'diffpy::srreal::R3::Matrix': 9}
SHARED = ('getRegistry/the_registry', 'diffpy::eventticker::EventTicker::gtick')


class Scratch(sym.Exec):
    max_depth = 2

    def __init__(self, P, fn, statics):
        super().__init__(P)
        self.root = fn
        self.statics = statics      # path -> var
        self.early = {}
        self.lw = {}
        self.stored = {}            # path -> [(value, node)]

    def should_inline(self, fr, fn, n):
        return False

    def var(self, path):
        if path and path[0] == 'S':
            return path[:4] if path[:4] in self.statics else None
        return None

    def is_full(self, st, v):
        return st.data.get(('full', v)) is True

    def note_read(self, fr, st, n, path):
        v = self.var(path)
        if v is None or self.is_full(st, v):
            return
        # a component that was written
        k = st.data.get(('comp', v), frozenset())
        if len(path) > 4 and path[4] in k:
            return
        self.early.setdefault(v, (fr.fn, n))

    def on_read(self, fr, st, n, path):
        self.note_read(fr, st, n, path)

    def on_write(self, fr, st, n, path, value, old, cond):
        v = self.var(path)
        if v is None:
            return
        self.stored.setdefault(v, []).append((value, n, fr.fn, dict(st.facts)))
        st.data = dict(st.data)
        if len(path) == 4:
            # x = x + y keeps the old value
            st.data[('full', v)] = True
        else:
            idx = path[4]
            comps = st.data.get(('comp', v), frozenset()) | {idx}
            st.data[('comp', v)] = comps
            size = SIZES.get(self.statics[v]['type'].replace('const ', ''))
            vals = [c[1] for c in comps if isinstance(c, tuple) and c[0] == '[]']
            const = [x for x in vals if x[0] == 'c' or x[0] == 'idx' and all(y[0] == 'c' for y in x[1:])]
            if len(const) < len(vals) or size and len(const) >= size:
                st.data[('full', v)] = True

    def on_call(self, fr, st, n, callee, obj, args):
        pm = n.get('pm', '')
        nm = effects.cname(n)
        for a, m in zip(args, pm):
            if a is not None and a[0] in ('ref', 'ptr', 'it'):
                v = self.var(a[1])
                if v is None:
                    continue
                if m in 'wq' and a[0] in ('ref', 'ptr'):
                    self.stored.setdefault(v, []).append((('call', nm) + tuple(self.rvalue(fr, st, x) for x in args if x is not a), n, fr.fn, dict(st.facts)))
                    if not self.is_full(st, v):
                        st.data = dict(st.data)
                        st.data[('full', v)] = True
                elif a[0] == 'ref':
                    self.note_read(fr, st, n, a[1])
        if n.get('op') == '=' and obj is not None and obj[0] == 'ref' and self.var(obj[1]) and len(args) == 1:
            self.write(fr, st, n, obj[1], self.rvalue(fr, st, args[0]))
            return [(st, obj)]
        if obj is not None and obj[0] == 'ref' and self.var(obj[1]):
            v = self.var(obj[1])
            if n.get('op') in ('=', '[]', '()') or nm in ('begin', 'end', 'at', 'data', 'front', 'back') or nm in sym.ITER_MAKERS:
                if nm not in ('operator=',) and not n.get('fc'):
                    pass
                if nm == 'data':
                    st.data = dict(st.data)
                    st.data[('full', v)] = True
            elif nm in ('clear', 'assign', 'reset') or nm == 'resize' and False:
                self.stored.setdefault(v, []).append((('call', nm) + tuple(self.rvalue(fr, st, x) for x in args), n, fr.fn, dict(st.facts)))
                st.data = dict(st.data)
                st.data[('full', v)] = True
            elif n.get('fc'):
                self.note_read(fr, st, n, obj[1])
            else:
                # the call changes a part and keeps the rest
                self.note_read(fr, st, n, obj[1])
                self.stored.setdefault(v, []).append((('call', nm) + tuple(self.rvalue(fr, st, x) for x in args), n, fr.fn, dict(st.facts)))
        return None

    def on_element(self, fr, st, n):
        if n['k'] == 'Assign' and n.get('op') != '=':
            lv = st.vals.get(n['c'][0])
            if lv is not None and lv[0] == 'ref':
                self.note_read(fr, st, n, lv[1])
        if n['k'] == 'Return' and n.get('c') and fr.depth == 0:
            v = st.vals.get(n['c'][0])
            if v is not None and v[0] in ('ref', 'ptr'):
                self.note_read(fr, st, n, v[1])


    def edge(self, fn, fr, frm, to, st, loops, back, work):
        for h, body in loops.items():
            if frm in body and to not in body:
                for v in self.loopwrites(fn, h, body):
                    st.data = dict(st.data)
                    st.data[('full', v)] = True
        super().edge(fn, fr, frm, to, st, loops, back, work)

    def loopwrites(self, fn, h, body):
        """vectors and matrices with items written by the loop"""
        if (fn.usr, h) not in self.lw:
            out = set()
            E = effects.of(self.P)
            for b in body:
                for e in fn.blocks[b]['e']:
                    n = fn.nodes[e]
                    if n['k'] == 'Assign' and n['op'] == '=' or n['k'] == 'Call' and n.get('op') == '=':
                        for r in E.roots(fn, n['c'][0]):
                            if r[0] == 'V' and fn.vars[r[1]]['static']:
                                v = fn.vars[r[1]]
                                if v['type'] in SIZES:
                                    out.add(('S', v['owner'], v['name'], v['line']))
            self.lw[(fn.usr, h)] = out
        return self.lw[(fn.usr, h)]


def depends(v):
    """value depends on a parameter or on the object"""
    return sym.mentions_any(v, lambda x: x[0] == 'i' and len(x) == 2 and isinstance(x[1], tuple) and x[1][:1] in (('T',), ('A',))
                            or x[0] == 'p' and len(x) == 3 or x[0] == 'ptr' and x[1][:1] in (('T',), ('A',)))


def statics_of(fn):
    return {('S', v['owner'], v['name'], v['line']): v for v in fn.vars.values() if v['static'] and v['owner'] == fn.usr}


def name(fn, v):
    return '%s/%s' % (fn.short.split('(')[0], v['name'])


def buffers(P):
    """function usr -> static storage that the returned reference can designate"""
    E = effects.of(P)
    out = {}

    def roots(fn, i, seen, depth=0):
        res = set()
        n = fn.nodes.get(i)
        if n is None or depth > 12:
            return res
        k, c = n['k'], [x for x in n.get('c', ()) if x >= 0]
        if k == 'Var':
            v = fn.vars[n['v']]
            if v['static']:
                res.add((v['owner'], v['name'], v['line']))
            elif v['type'].endswith(('&', '*')):
                for d in fn.all('Decl'):
                    for vo in d['vars']:
                        if vo['v'] == n['v'] and vo['init'] >= 0:
                            res |= roots(fn, vo['init'], seen, depth + 1)
        elif k == 'Call':
            if n.get('my') and n.get('rt') in ('r', 'w', 'q') or n.get('my') and n.get('t', '').endswith('&'):
                for g in E.callees(fn, n, None):
                    res |= of(g, seen)
            elif n.get('obj') and c and not n.get('my') and (n.get('rt') in ('r', 'w')):
                res |= roots(fn, c[0], seen, depth + 1)
            elif effects.cname(n) in ('min', 'max') and n.get('rt') in ('r', 'w'):
                for x in c:
                    res |= roots(fn, x, seen, depth + 1)
        elif k == 'Cond' and len(c) == 3:
            res |= roots(fn, c[1], seen, depth + 1) | roots(fn, c[2], seen, depth + 1)
        elif k in ('Cast', 'Index', 'Field', 'Un', 'DefArg') and c and not n.get('rv'):
            if not (k == 'Field' and n.get('arrow')):
                res |= roots(fn, c[0], seen, depth + 1)
        return res

    def of(fn, seen=frozenset()):
        if fn.usr in out:
            return out[fn.usr]
        if fn.usr in seen or not fn.ret.endswith('&'):
            return set()
        res = set()
        for r in fn.all('Return'):
            if r.get('c'):
                res |= roots(fn, r['c'][0], seen | {fn.usr})
        out[fn.usr] = res
        return res
    for f in P.fns.values():
        of(f)
    return out, roots


def mutated(P):
    """static variables written after initialization: key -> functions"""
    E = effects.of(P)
    res = {}
    for f in P.fns.values():
        R, W = E.direct(f)
        for r in W:
            if r[0] == 'V' and f.vars[r[1]]['static']:
                v = f.vars[r[1]]
                res.setdefault((v['owner'], v['name'], v['line']), set()).add(f.usr)
        # components written through references and pointers
        for n in f.all('Assign', 'Un'):
            pass
    return res


def run(ctx):
    P = ctx.P
    E = effects.of(P)
    mut = mutated(P)
    nstat = 0
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.usr)):
        if not f.file.startswith('diffpy') or not f.blocks:
            continue
        st = statics_of(f)
        if not st:
            continue
        ctx.touched(f)
        nstat += len(st)
        # initializers
        for d in f.all('Decl'):
            for vo in d['vars']:
                v = f.vars[vo['v']]
                if not v['static'] or vo['init'] < 0:
                    continue
                bad = [n for n in f.subtree(vo['init']) if n['k'] == 'This' or
                       n['k'] == 'Var' and not f.vars[n['v']]['static'] and not constlocal(f, n['v'])]
                ctx.check(not bad, 'initializer-independent', name(f, v), f.loc(d),
                          'static variable %s is initialized from values of the first call' % v['name'])
        ex = Scratch(P, f, st)
        outs, fr = ex.analyze(f)
        ctx.npaths += len(outs)
        for path, v in sorted(st.items(), key=lambda x: x[1]['line']):
            key = (v['owner'], v['name'], v['line'])
            nm = name(f, v)
            if path not in ex.stored and key not in mut:
                ctx.ok('static-never-written', nm)
                continue
            if nm.endswith(SHARED[0]):
                continue
            e = ex.early.get(path)
            if e is None:
                ctx.ok('written-before-read', nm)
                continue
            dep = [(val, n, g) for val, n, g, facts in ex.stored.get(path, ()) if depends(val)]
            if not dep and ex.stored.get(path):
                ctx.ok('contents-independent', nm)
                continue
            ctx.bad('leftover', nm, e[0].loc(e[1]) if e[1] else f.loc(),
                    'static variable %s is read before it is completely written in the call, and its contents depend on the '
                    'arguments or the object of earlier calls' % v['name'])
    # globals and static members
    seen = set()
    for f in sorted(P.fns.values(), key=lambda f: f.usr):
        R, W = E.direct(f)
        for r, n in W.items():
            if r[0] != 'G' or r[1] in SHARED or not any(g['name'] == r[1] for g in P.gs):
                continue
            if f.file.startswith('diffpy'):
                ctx.bad('global-written', '%s:%s' % (f.short, r[1].split('::')[-1]), f.loc(n), 'shared variable %s is written' % r[1])
    ctx.ok('globals-inspected', '%d namespace variables' % len(P.gs))
    references(ctx, P, E, mut)
    foreign(ctx, P, E)
    ctx.floor('written-before-read', 15)
    ctx.floor('contents-independent', 3)


def foreign(ctx, P, E):
    """writes to the static storage of another function through the reference that it returns"""
    bufs, roots = buffers(P)
    for f in sorted(P.fns.values(), key=lambda f: f.usr):
        if not f.file.startswith('diffpy') or 'HasClassRegistry' in f.qname:
            continue
        for n in f.all('Assign', 'Call', 'Un'):
            c = [x for x in n.get('c', ()) if x >= 0]
            if not c or n['k'] == 'Un' and n['op'] not in ('++', '--') or n.get('my'):
                continue
            tgt = []
            if n['k'] in ('Assign', 'Un'):
                tgt = [c[0]]
            else:
                nm = effects.cname(n)
                if n.get('obj') and not n.get('fc') and not n.get('fs') and nm not in sym.ITER_MAKERS and \
                        not (nm in ('operator[]', 'operator()', 'at', 'front', 'back', 'data', 'get', 'operator*', 'operator->') and 'map<' not in n.get('cn', '')):
                    tgt.append(c[0])
                ids = c[1:] if n.get('obj') else c
                tgt += [x for x, m in zip(ids, n.get('pm', '')) if m == 'w']
            for t in tgt:
                keys = {k for k in roots(f, t, frozenset()) if k[0] != f.usr and not f.usr.startswith(k[0])}
                ctx.check(not keys, 'foreign-storage-not-written', '%s:%s' % (f.short, sorted(k[1] for k in keys)), f.loc(n),
                          'storage shared between calls is modified through a returned reference')


def constlocal(f, vid):
    v = f.vars[vid]
    return v.get('owner') != f.usr or v['type'].startswith('const ') and all(
        n['k'] not in ('This', 'Var') for d in f.all('Decl') for vo in d['vars'] if vo['v'] == vid and vo['init'] >= 0
        for n in f.subtree(vo['init']))


def references(ctx, P, E, mut):
    bufs, roots = buffers(P)
    live = {u: {b for b in s if b in mut} for u, s in bufs.items()}
    live = {u: s for u, s in live.items() if s}
    ctx.need(len(live) >= 8, 'only %d functions return shared storage' % len(live))
    for u in live:
        ctx.touched(P.fns[u])
    # storage overwritten by a function, transitively
    clob = {}

    def clobbers(f):
        if f.usr in clob:
            return clob[f.usr]
        res = set()
        for (u, c), (g, p, n) in E.closure(f).items():
            for k, fs in mut.items():
                if u in fs:
                    res.add(k)
        clob[f.usr] = res
        return res

    def node_clobbers(f, i):
        res = set()
        for n in f.subtree(i):
            if n['k'] in ('Call', 'Ctor'):
                for g in E.callees(f, n, None):
                    res |= clobbers(g)
        return res
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.usr)):
        if not f.file.startswith('diffpy'):
            continue
        par = None
        for n in f.all('Call'):
            s = set()
            for g in E.callees(f, n, None):
                s |= live.get(g.usr, set())
            if not s or n.get('rv'):
                continue
            par = f.parents() if par is None else par
            ctx.touched(f)
            what = '%s:%s' % (f.short, effects.cname(n))
            # climb through expressions that keep the reference
            cur, p = n['i'], par.get(n['i'])
            hazard = None
            while p is not None:
                pn = f.nodes[p]
                k = pn['k']
                if k in ('Cast', 'Index', 'DefArg') and not pn.get('rv') or k == 'Cond':
                    cur, p = p, par.get(p)
                    continue
                if k == 'Field' or k == 'Un' and pn['op'] == '&':
                    cur, p = p, par.get(p)
                    continue
                if k in ('Call', 'Ctor'):
                    others = [c for c in pn.get('c', ()) if c >= 0 and c != cur]
                    if pn.get('copy'):
                        break
                    for o in others:
                        if node_clobbers(f, o) & s:
                            hazard = 'an argument next to it overwrites the same storage'
                    for g in E.callees(f, pn, None):
                        if clobbers(g) & s:
                            hazard = '%s overwrites the storage that its argument refers to' % g.short
                    if not pn.get('my') and pn['k'] == 'Call' and (pn.get('rt') in ('r', 'w') or 'ublas' in pn.get('t', '') and 'expression' in pn.get('t', '') + pn.get('cn', '')) \
                            and pn.get('op') not in ('=', '+=', '-=', '*=', '/=', '<<'):
                        cur, p = p, par.get(p)
                        continue
                    break
                if k == 'Decl':
                    vo = [x for x in pn['vars'] if x['init'] == cur]
                    if vo and f.vars[vo[0]['v']]['type'].endswith(('&', '*')) and not f.vars[vo[0]['v']]['static']:
                        h = stale_use(f, pn, vo[0]['v'], s, node_clobbers)
                        if h:
                            hazard = 'variable %s refers to shared storage that a later call overwrites before line %s uses it' % (
                                f.vars[vo[0]['v']]['name'], h['l'])
                    break
                if k == 'Bin':
                    others = [c for c in pn.get('c', ()) if c >= 0 and c != cur]
                    for o in others:
                        if node_clobbers(f, o) & s and f.nodes[cur].get('t', '').find('&') >= 0:
                            hazard = 'the other operand overwrites the same storage'
                    break
                if k == 'Init' and P.fieldowner.get(pn.get('fu')) and P.fieldowner[pn['fu']][1]['type'].endswith(('&', '*')):
                    hazard = 'a member keeps a reference to shared storage'
                break
            ctx.check(hazard is None, 'shared-reference', what, f.loc(n), hazard or '')
    ctx.floor('shared-reference', 30)


def stale_use(f, decl, vid, s, node_clobbers):
    """use of the reference variable that is reachable after a call that overwrites the storage"""
    pos = {}
    for b, blk in f.blocks.items():
        for k, e in enumerate(blk['e']):
            pos[e] = (b, k)
    if decl['i'] not in pos:
        return None
    start = pos[decl['i']]
    work = [(start[0], start[1] + 1, False)]
    seen = set()
    while work:
        b, k, dirty = work.pop()
        if (b, k, dirty) in seen:
            continue
        seen.add((b, k, dirty))
        blk = f.blocks[b]
        stop = False
        for e in blk['e'][k:]:
            n = f.nodes[e]
            if e == decl['i']:
                stop = True
                break
            if n['k'] == 'Var' and n['v'] == vid and dirty:
                return n
            if n['k'] in ('Call', 'Ctor'):
                if node_clobbers(f, n['i']) & s:
                    dirty = True
        if stop:
            continue
        for x in blk['s']:
            if x >= 0:
                work.append((x, 0, dirty))
    return None


