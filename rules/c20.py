"""Ownership and effect analysis.  (1) Every function that can run during an evaluation, a comparison of structures or a
bond search (call-graph closure of the methods of calculators, evaluators, bond generators, peak-width, profile and
scattering models, StructureDifference, and of the constant methods of structures) is scanned for modifications of data
that belong to structures: writes to fields of structure classes and of their atoms, lattices and symmetry operations,
calls of modifying methods and passing of such data to modifying functions.  The modified object must be a local copy or an
object created by the function; anything reached through a handle, a parameter or a getter is the structure of the caller.
(2) Every long-lived object that keeps a handle to a structure keeps either the structure attached by the user, which is
never an operand of a comparison, or a clone: on every path each stored value is null or a fresh clone().  (3) Comparisons
start from a remembered clone.  (4) Clones do not share parts with the original: structure classes hold their data by value
or clone what they own through a handle.  (5) No long-lived evaluation object keeps a pointer, reference or iterator into
a structure."""
import re
import effects, sym, model

ASSUMPTIONS = ['mutable caches of symmetry expanded atoms are derived data (their consistency is property C11)',
               'structures of classes outside of the library obey the constness of the StructureAdapter interface']

FAMROOT = 'StructureAdapter'
PARTS = ('Atom', 'Lattice', 'SymOpRotTrans')
EVALROOTS = ('PairQuantity', 'PQEvaluatorBasic', 'BaseBondGenerator', 'PeakWidthModel', 'PeakProfile', 'ScatteringFactorTable',
             'StructureDifference', 'PDFBaseline', 'PDFEnvelope', 'BVParametersTable', 'AtomRadiiTable')
TRANSIENT = ('BaseBondGenerator', 'StructureDifference', 'StructureAdapter')
GIVEN = {'PairQuantity::mstructure'}
SERIAL = ('serialize', 'save', 'load')
SMART = effects.SMARTS


def stype(t):
    return t.replace('diffpy::srreal::', '').replace('const ', '')


class Scan:
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        self.E = effects.of(ctx.P)
        P = self.P
        self.fam = set(P.subclasses(P.rec(FAMROOT).usr))
        for x in PARTS:
            self.fam |= set(P.subclasses(P.rec(x).usr))
        self.famnames = {P.recs[u].name for u in self.fam if u in P.recs}
        # mutable members that do not take part in comparisons are caches
        compared = {k[1] for f in P.fns.values() if f.name in ('operator==', 'operator<', 'diff') for k in self.E.direct(f)[0] if k[0] == 'F'}
        self.caches = {f['usr'] for u in self.fam if u in P.recs for f in P.recs[u].fields if f.get('mutable') and f['usr'] not in compared}
        self.famfields = {f['usr'] for u in self.fam if u in P.recs for f in P.recs[u].fields} - self.caches
        self._w = {}

    def famtype(self, t):
        t = t.replace('const ', '').rstrip(' &*')
        return t in self.famnames or any(('<' + x) in t for x in self.famnames)

    def writes(self, f):
        if f.usr not in self._w:
            R, W = self.E.trans(f)
            self._w[f.usr] = any(r[0] == 'F' and r[1] in self.famfields for r in W)
        return self._w[f.usr]

    # who owns the object that an expression designates
    def owner(self, fn, i, d=0):
        if i is None or i < 0 or d > 25:
            return 'foreign'
        n = fn.nodes[i]
        k, c = n['k'], [x for x in n.get('c', ()) if x >= 0]
        if k == 'This':
            return 'self'
        if k == 'Var':
            v = fn.vars[n['v']]
            t = v['type']
            handle = t.endswith(('&', '*')) or 'iterator' in t or t.replace('const ', '').startswith(SMART)
            if v['static']:
                return 'static'
            if any(p['v'] == n['v'] for p in fn.params):
                if not handle:
                    return 'local'
                return 'param' if t.endswith('&') and not t.replace('const ', '').startswith(SMART) else 'foreign'
            if not handle:
                return 'local'
            inits = []
            for m in fn.all('Decl', 'Assign', 'Call'):
                if m['k'] == 'Decl':
                    inits += [vo['init'] for vo in m['vars'] if vo['v'] == n['v'] and vo['init'] >= 0]
                elif m.get('op') == '=' and len(m.get('c', ())) == 2 and fn.nodes[m['c'][0]]['k'] == 'Var' and fn.nodes[m['c'][0]]['v'] == n['v']:
                    inits.append(m['c'][1])
                elif m['k'] == 'Call' and effects.cname(m) == 'reset' and len(m.get('c', ())) == 2 and fn.nodes[m['c'][0]].get('v') == n['v'] \
                        and fn.nodes[m['c'][0]]['k'] == 'Var':
                    inits.append(m['c'][1])
            ks = {self.owner(fn, x, d + 1) for x in inits} - {'null'}
            if 'iterator' in t and not ks:
                return 'local'
            return ks.pop() if len(ks) == 1 else 'foreign' if ks else 'null'
        if k == 'Field':
            ow = self.P.fieldowner.get(n.get('fu'))
            t = ow[1]['type'] if ow else ''
            if n['fu'] in self.caches:
                return 'local'              # derived data
            if t.replace('const ', '').startswith(SMART) or t.endswith('*'):
                return 'foreign'
            return self.owner(fn, c[0], d + 1) if c else 'self'
        if k == 'New':
            return 'local'
        if k == 'Global':
            return 'static'
        if k == 'Lit':
            return 'null'
        if k == 'Cond' and len(c) == 3:
            ks = {self.owner(fn, x, d + 1) for x in c[1:]} - {'null'}
            return ks.pop() if len(ks) == 1 else 'foreign' if ks else 'null'
        if k == 'Call':
            nm = effects.cname(n)
            if nm in ('make_shared', 'make_unique', 'allocate_shared') or nm == 'clone':
                return 'local'
            if nm in ('dynamic_pointer_cast', 'static_pointer_cast', 'const_pointer_cast', 'move', 'forward', 'next', 'prev', 'begin', 'end') and c:
                return self.owner(fn, c[0], d + 1)
            if n.get('obj') and c:
                if n.get('my') and n.get('rt') not in ('w', 'r') and not n.get('t', '').endswith(('&', '*')) and 'iterator' not in n.get('t', ''):
                    t = n.get('t', '').replace('const ', '')
                    return 'foreign' if t.startswith(SMART) else 'local'
                return self.owner(fn, c[0], d + 1)
            t = n.get('t', '').replace('const ', '')
            if not t.startswith(SMART) and not t.endswith(('*', '&')) and not n.get('rt') in ('w', 'r'):
                return 'local'
            return 'foreign'
        if k == 'Ctor':
            cn = n.get('cn', '')
            if cn.startswith(SMART) or 'iterator' in cn:
                return self.owner(fn, c[0], d + 1) if c else 'null'
            return 'local'
        if k in ('Cast', 'Un', 'Index', 'DefArg', 'Assign', 'Bin') and c:
            return self.owner(fn, c[0], d + 1)
        if k == 'InitList':
            return 'local'
        return 'foreign'

    def belongs(self, fn, i, d=0):
        """the lvalue is a field of a structure class or lies inside of one"""
        while i is not None and i >= 0 and d < 25:
            d += 1
            n = fn.nodes[i]
            k, c = n['k'], [x for x in n.get('c', ()) if x >= 0]
            if k == 'Field':
                if n.get('fu') in self.famfields:
                    return n['f']
                ow = self.P.fieldowner.get(n.get('fu'))
                if ow and (ow[1]['type'].replace('const ', '').startswith(SMART)):
                    return None
                i = c[0] if c else None
                continue
            if k in ('Index', 'Cast', 'Un') and c:
                i = c[0]
                continue
            if k == 'Call' and n.get('obj') and c:
                if n.get('my') and n.get('rt') == 'w':
                    # accessor that gives access to the data of a structure
                    for g in self.E.callees(fn, n, None):
                        for r in self.E.retroots(g):
                            if r[0] == 'F' and r[1] in self.famfields:
                                return self.P.fieldowner[r[1]][1]['name']
                    return None
                i = c[0]
                continue
            if k == 'Var':
                for r in self.E.aliases(fn).get(n['v'], ()):
                    if r[0] == 'F' and r[1] in self.famfields:
                        return self.P.fieldowner[r[1]][1]['name']
                t = fn.vars[n['v']]['type']
                if t.endswith(('&', '*')) and self.famtype(t) and not t.startswith('const'):
                    return fn.vars[n['v']]['name']
                return None
            return None
        return None

    def ok(self, fn, own):
        if own in ('local', 'null'):
            return True
        if own == 'param':
            return True                     # decided at the calls
        if own == 'self':
            return fn.cls in self.fam and not fn.const
        return False

    def scan(self, fn):
        ctx, E = self.ctx, self.E
        sites = []
        ctor = fn.cls in self.fam and (fn.name == self.P.recs[fn.cls].name.split('::')[-1].split('<')[0] or fn.name.startswith('~')) if fn.cls in self.P.recs else False
        for n in fn.all('Assign', 'Un', 'Call', 'Ctor'):
            k = n['k']
            c = [x for x in n.get('c', ()) if x >= 0]
            if k == 'Assign' or k == 'Un' and n['op'] in ('++', '--'):
                x = fn.nodes[c[0]]
                if x['k'] == 'Var' and not fn.vars[x['v']]['type'].endswith('&'):
                    continue
                b = self.belongs(fn, c[0])
                if b:
                    sites.append((n, b, self.owner(fn, c[0]), 'is assigned'))
            elif k in ('Call', 'Ctor'):
                args = c
                nm = effects.cname(n) if k == 'Call' else 'constructor'
                if k == 'Call' and n.get('obj') and c:
                    args = c[1:]
                    if not n.get('fc') and not n.get('fs'):
                        if n.get('my'):
                            R3 = n.get('cn', '').startswith('diffpy::srreal::R3::')
                            g = [x for x in E.callees(fn, n, None) if x.cls in self.fam and self.writes(x)]
                            if g:
                                sites.append((n, fn_class(self.P, g[0]), self.owner(fn, c[0]), 'is changed by ' + nm))
                            elif R3 and (n.get('op') in ('=', '+=', '-=', '*=', '/=')) and self.belongs(fn, c[0]):
                                sites.append((n, self.belongs(fn, c[0]), self.owner(fn, c[0]), 'is assigned'))
                        elif nm in ('operator*', 'operator->', 'get', 'begin', 'end', 'rbegin', 'rend', 'find', 'at', 'front', 'back', 'operator()',
                                    'data', 'lower_bound', 'upper_bound') or nm == 'operator[]' and 'map<' not in n.get('cn', '') or \
                                'iterator' in n.get('cn', '') or n.get('cn', '').startswith(SMART):
                            pass
                        else:
                            b = self.belongs(fn, c[0])
                            xn = fn.nodes[c[0]]
                            if b and not (xn['k'] == 'Var' and not fn.vars[xn['v']]['type'].endswith('&')):
                                sites.append((n, b, self.owner(fn, c[0]), 'is changed by ' + nm))
                pm = n.get('pm', '')
                for x, m in zip(args, pm):
                    if m not in 'wq':
                        continue
                    t = fn.nodes[x].get('t', '')
                    if t.startswith('const'):
                        continue
                    if n.get('my'):
                        g = [y for y in E.callees(fn, n, None) if self.writes(y)]
                        if not g or not (self.famtype(t) or self.belongs(fn, x)):
                            continue
                        if t.replace('const ', '').startswith(SMART):
                            continue
                    elif not self.belongs(fn, x) or nm in ('get', 'move', 'forward', 'ref', 'tie', 'begin', 'end', 'make_pair', 'operator<<'):
                        continue
                    sites.append((n, self.belongs(fn, x) or t, self.owner(fn, x), 'is passed to %s for modification' % nm))
                if k == 'Call' and n.get('fq', '').startswith('std::') and not n.get('obj'):
                    pos = sym.ALGO_OUT.get(nm)
                    if pos is not None:
                        if nm == 'transform':
                            pos = (2,) if len(c) == 4 else (3,)
                        for p in pos:
                            if p < len(c) and self.belongs(fn, c[p]):
                                sites.append((n, self.belongs(fn, c[p]), self.owner(fn, c[p]), 'is overwritten by ' + nm))
        for n, what, own, how in sites:
            good = self.ok(fn, own) or ctor and own == 'self'
            ctx.check(good, 'structure-untouched', '%s#%s' % (fn.short.split('(')[0], what), fn.loc(n),
                      '%s of a structure that the caller owns %s during an evaluation' % (what, how))
        for n in fn.all('Cast'):
            if n.get('cst') == 'const' and self.famtype(n.get('t', '')):
                ctx.bad('structure-untouched', '%s#const_cast' % fn.short.split('(')[0], fn.loc(n), 'the constness of a structure is cast away')
        return len(sites)


def fn_class(P, g):
    return P.recs[g.cls].short if g.cls in P.recs else '?'


def handletype(t):
    t2 = t.replace('const ', '')
    return t2.startswith(SMART) and 'StructureAdapter>' in t2 or t2.startswith(SMART) and any(
        x in t2 for x in ('StructureAdapter',))


class Stores(sym.Exec):
    """values stored into handle fields"""
    def __init__(self, P, fields):
        super().__init__(P)
        self.fields = fields
        self.stores = []

    def on_write(self, fr, st, n, path, value, old, cond):
        if value is not None and value[0] == 'f' and n['k'] == 'Call' and n.get('op') != '=':
            return                          # possible writes of a called function, which is analysed itself
        if path[-1] in self.fields and path[0] != 'L':
            self.stores.append((fr, n, path, value, dict(st.facts)))


def run(ctx):
    P = ctx.P
    S = Scan(ctx)
    E = S.E
    # (1) modifications
    roots = []
    for nm in EVALROOTS:
        for u in P.subclasses(P.rec(nm).usr):
            for f in P.methods_of(u):
                if f.name not in SERIAL and f.blocks:
                    roots.append((f, u if not P.recs[u].abstract else None))
    for u in P.subclasses(P.rec(FAMROOT).usr):
        for f in P.methods_of(u):
            if f.const and f.name not in SERIAL and f.blocks:
                roots.append((f, u))
    seen = {}
    work = [f for f, _ in roots]
    while work:
        f = work.pop()
        if f.usr in seen or f.name in SERIAL:
            continue
        seen[f.usr] = f
        for n, g, gc in E.calls(f, None):
            if g.blocks and g.usr not in seen:
                work.append(g)
    nsites = 0
    for f in sorted(seen.values(), key=lambda x: (x.file, x.line, x.usr)):
        ctx.touched(f)
        nsites += S.scan(f)
        ctx.ok('functions-scanned', f.short.split('(')[0])
    ctx.floor('functions-scanned', 300)
    ctx.need(nsites >= 3, 'modification sites of structure data')
    # (2) remembered structures
    kept = {}
    for u, r in sorted(P.recs.items()):
        if not r.file.startswith('diffpy') or any(P.isa(u, P.rec(t).usr) for t in TRANSIENT):
            continue
        for fd in r.fields:
            if handletype(fd['type']):
                kept.setdefault(r.short, []).append((r, fd))
    nkept = 0
    remembered = set()
    for cls, l in sorted(kept.items()):
        for r, fd in l:
            name = '%s::%s' % (cls, fd['name'])
            if name in GIVEN:
                ctx.ok('kept-handle', name + ' (attached by the user)')
                continue
            nkept += 1
            remembered.add(fd['name'])
            writers = 0
            wset = {f.usr for f in P.fns.values() if f.file.startswith('diffpy') and f.blocks and f.name not in SERIAL and
                    any(x[0] == 'F' and x[1] == fd['usr'] for x in E.direct(f)[1])}
            helpers = {u for u in wset if P.fns[u].access in (1, 2) and P.callers().get(u) and
                       not P.methodinfo.get(u, (0, {}))[1].get('virtual')}
            callers = {g.usr for u in helpers for g, n in P.callers()[u]}
            for f in sorted(P.fns.values(), key=lambda x: (x.file, x.line, x.usr)):
                if not f.file.startswith('diffpy') or not f.blocks or f.name in SERIAL:
                    continue
                R, W = E.direct(f)
                if f.usr not in wset | callers:
                    continue
                cls0 = f.cls
                ex = Stores(P, {fd['name']})
                ex.should_inline = lambda frame, fn, n: fn.usr in helpers
                outs, fr = ex.analyze(f, cls0)
                ctx.touched(f)
                bad = None
                for fr2, n, path, value, facts in ex.stores:
                    writers += 1
                    v = sym.expand(value)
                    if f.usr in helpers and v[0] == 'p':
                        continue            # decided in the callers, where the helper is inlined
                    if not fresh_copy(v, facts, fd['name'], path):
                        bad = n
                ctx.check(bad is None, 'kept-handle', '%s in %s' % (name, f.short.split('(')[0]), f.loc(bad) if bad else '',
                          '%s remembers a structure that the caller can modify instead of a clone' % name)
            ctx.need(writers > 0, 'stores into ' + name)
    ctx.need(nkept >= 1, 'remembered structures')
    # (3) comparisons in evaluators start from the remembered clone
    ncmp = 0
    for u in P.subclasses(P.rec('PQEvaluatorBasic').usr):
        for f in P.methods_of(u):
            for n in f.all('Call'):
                if effects.cname(n) != 'diff' or not n.get('obj') or 'StructureAdapter' not in n.get('cn', ''):
                    continue
                ncmp += 1
                own = f.nodes[n['c'][0]]
                roots_ = set()
                for m in f.subtree(n['c'][0]):
                    if m['k'] == 'Field':
                        roots_.add(m['f'])
                    if m['k'] == 'Var':
                        for d in f.all('Decl'):
                            for vo in d['vars']:
                                if vo['v'] == m['v'] and vo['init'] >= 0:
                                    roots_ |= {x['f'] for x in f.subtree(vo['init']) if x['k'] == 'Field'}
                ctx.touched(f)
                ctx.check(bool(roots_ & remembered), 'compare-with-clone', '%s#diff' % f.short.split('(')[0], f.loc(n),
                          'the comparison does not start from the remembered copy of the evaluated structure')
    ctx.need(ncmp >= 1, 'comparisons of structures in evaluators')
    # (4) clones are independent
    for u in sorted(P.concrete(P.rec(FAMROOT).usr)):
        r = P.recs[u]
        shared = []
        for rr, fd in P.allfields(u):
            t = fd['type'].replace('const ', '')
            if t.startswith(SMART) or t.endswith(('*', '&')) or 'shared_ptr<' in t:
                if 'weak_ptr' in t:
                    continue
                shared.append(fd)
        f = P.trymethod(u, 'clone')
        if f is None:
            continue
        ctx.touched(f)
        msg = None
        if shared:
            for fd in shared:
                ex = Stores(P, {fd['name']})
                outs, fr = ex.analyze(f, u)
                good = False
                for fr2, n, path, value, facts in ex.stores:
                    v = sym.expand(value)
                    if v == sym.ZERO:
                        continue
                    if is_clone(v):
                        good = True
                    else:
                        msg = 'the clone shares %s with the original' % fd['name']
                if not good:
                    msg = msg or 'the clone does not get its own copy of %s' % fd['name']
        ctx.check(not msg, 'independent-clone', r.short, f.loc(), msg or '')
    ctx.floor('independent-clone', 6)
    # (5) pointers into structures
    npf = 0
    for u, r in sorted(P.recs.items()):
        if not r.file.startswith('diffpy') or any(P.isa(u, P.rec(t).usr) for t in TRANSIENT) or u in S.fam:
            continue
        if not any(P.isa(u, P.rec(t).usr) for t in EVALROOTS):
            continue
        for fd in r.fields:
            npf += 1
            t = fd['type']
            inner = stype(t)
            raw = t.endswith(('*', '&')) or '*' in t or 'iterator' in t or 'reference_wrapper' in t
            structural = any(x.replace('diffpy::srreal::', '') in inner for x in S.famnames) or 'R3::' in inner or 'basic_string' in inner or \
                'void' in inner or 'std::' in inner
            ctx.check(not (raw and structural and not is_function(t)), 'no-pointer-into-structure', '%s::%s' % (r.short, fd['name']),
                      '%s:%d' % (r.file, r.line), 'a long-lived object keeps a pointer into data that the caller can change')
    ctx.floor('no-pointer-into-structure', 30)


def is_function(t):
    return '(*)' in t or 'std::function' in t


def is_clone(v):
    if v[0] == 'call' and v[1].split('::')[-1] == 'clone':
        return True
    return False


def fresh_copy(v, facts, name, path):
    if v == sym.ZERO or is_clone(v) or v[0] == 'new':
        return True
    if v[0] == 'i' and v[1][-1:] == (name,):
        return True                         # copied between objects that remember
    if v[0] == 'cond':
        return fresh_copy(sym.expand(v[2]), facts, name, path) and fresh_copy(sym.expand(v[3]), facts, name, path)
    return sym.Facts.truth(facts, sym.mk_eq(v, sym.ZERO)) is True
