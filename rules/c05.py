"""Factory contracts.  The abstract interpreter executes the clone, create and type method that a virtual call reaches for
every concrete class of every registry and for every structure adapter: clone must return a new object of exactly that
class whose every data member (bases included) is a copy or a clone of the member of the cloned object (or the object
itself for classes without data), create must return a default-constructed object of exactly that class that takes nothing
from the object asked, type must return one constant string that is unique in its registry.  Every concrete registry class
must be registered by a static initializer that runs registerThisType on exactly that class.  The registry functions are
executed symbolically for every registry: registration stores a created prototype under its type and rejects duplicates,
creation asks the prototype found under the requested name and rejects unknown names.  User-written copy constructors must
copy every member; functions named ...ByType must use the product created for the name given."""
import sym, effects, model

ASSUMPTIONS = ['implicit copy constructors copy every member (language rule)',
               'containers of values copy their items']
SKIPF = {'mdoubleattrs'}


class Fac(sym.Exec):
    def __init__(self, P, cls):
        super().__init__(P)
        self.root = cls

    def step(self, fr, st, n, nested=False):
        if n['k'] == 'New':
            v = ('new', fr.tok, n['i'], n.get('nt', ''))
            c = n.get('c', [])
            src = self.getr(fr, st, c[0]) if c and c[0] >= 0 else ('none',)
            if n.get('nt', '').replace('const ', '') in self.P.recname:
                st.data = dict(st.data)
                st.data[('src', v)] = src
            st.vals[n['i']] = v
            return [st]
        return super().step(fr, st, n, nested)

    def on_call(self, fr, st, n, callee, obj, args):
        fq = n.get('fq', '')
        if fq in ('boost::make_shared', 'std::make_shared', 'std::make_unique') or fq.startswith(('boost::make_shared<', 'std::make_shared<')):
            t = n.get('t', '')
            nt = t[t.find('<') + 1:t.rfind('>')] if '<' in t else t
            v = ('new', fr.tok, n['i'], nt)
            vals = tuple(self.rvalue(fr, st, a) for a in args)
            st.data = dict(st.data)
            st.data[('src', v)] = vals[0] if len(vals) == 1 and vals[0] == ('i', ('T',)) else ('obj', nt, fr.tok, n['i']) + vals
            return [(st, v)]
        if effects.cname(n) in ('const_pointer_cast', 'static_pointer_cast', 'dynamic_pointer_cast') and args:
            return [(st, self.rvalue(fr, st, args[0]))]
        if effects.cname(n) == 'shared_from_this':
            return [(st, ('ptr', obj[1] if obj and obj[0] == 'ref' else ('T',)))]
        return None


def mentions_this(v):
    return sym.mentions_any(v, lambda x: x[0] == 'i' and len(x) == 2 and isinstance(x[1], tuple) and x[1][:1] == ('T',))


def fields(P, usr):
    return [(r, f) for r, f in P.allfields(usr) if f['name'] not in SKIPF]


def analyse(ctx, P, fn, usr):
    ex = Fac(P, usr)
    outs, fr = ex.analyze(fn, usr)
    ctx.touched(fn)
    ctx.npaths += len(outs)
    return ex, [o for o in outs if o.kind == 'return'], outs


def val(ex, o):
    v = o.value
    if v is not None and v[0] == 'ref':
        v = ex.load(o.st, v[1])
    return v


def check_clone(ctx, P, r):
    m = next((m['usr'] for c in P.mro(r.usr) if c in P.recs for m in P.recs[c].methods if m['name'] == 'clone'), None)
    fn = P.fns.get(P.final(r.usr, m)) if m else None
    ctx.need(fn is not None, 'clone of %s not found' % r.short)
    ex, rets, outs = analyse(ctx, P, fn, r.usr)
    ctx.need(rets, 'clone of %s never returns' % r.short)
    fs = fields(P, r.usr)
    for o in rets:
        v = val(ex, o)
        if v == ('ptr', ('T',)):
            ctx.check(not fs, 'clone-type', r.short, fn.loc(), 'clone returns the object itself, which has state that can change')
            continue
        same = v[0] == 'new' and v[3].replace('const ', '') == r.name
        if not ctx.check(same, 'clone-type', r.short, fn.loc(), 'clone of %s gives %s' % (r.short, v[3] if v[0] == 'new' else 'another object')):
            continue
        src = o.st.data.get(('src', v))
        copied = src == ('i', ('T',))
        for fr_, f in fs:
            path = ('D', v, f['name'])
            x = ex.load(o.st, path)
            own = ('i', ('T', f['name']))
            ptr = 'shared_ptr' in f['type']
            if path not in o.st.store:
                good = copied and not ptr or sym.Facts.truth(o.st.facts, sym.mk_eq(own, sym.ZERO)) is True and ptr
                if copied and ptr:
                    ctx.bad('clone-state', '%s.%s' % (r.short, f['name']), fn.loc(), 'clone shares %s with the original' % f['name'])
                    continue
            elif ptr:
                good = x[0] == 'call' and x[1].endswith('clone') and sym.mentions_any(x, lambda y: y == own) or \
                    sym.mentions_any(x, lambda y: y == own) and x != own or x[0] == 'c'and sym.Facts.truth(o.st.facts, sym.mk_eq(own, sym.ZERO)) is True
            else:
                good = x == own
            ctx.check(good, 'clone-state', '%s.%s' % (r.short, f['name']), fn.loc(),
                      'the clone does not get the value of %s' % f['name'])
    # nothing of the original changes
    for o in outs:
        ch = [p for p in o.st.store if p[0] == 'T' and len(p) > 1]
        ctx.check(not ch, 'clone-const', r.short, fn.loc(), 'clone modifies the cloned object')


def check_create(ctx, P, r, root):
    m = next(m['usr'] for c in P.mro(r.usr) if c in P.recs for m in P.recs[c].methods if m['name'] == 'create')
    fn = P.fns.get(P.final(r.usr, m))
    ctx.need(fn is not None, 'create of %s not found' % r.short)
    ex, rets, outs = analyse(ctx, P, fn, r.usr)
    ctx.need(rets, 'create of %s never returns' % r.short)
    for o in rets:
        v = val(ex, o)
        if not ctx.check(v[0] == 'new' and v[3].replace('const ', '') == r.name, 'create-type', r.short, fn.loc(),
                         'create of %s gives %s' % (r.short, v[3] if v[0] == 'new' else 'another object')):
            continue
        src = o.st.data.get(('src', v), ('none',))
        fresh = not mentions_this(src) and not any(p[:2] == ('D', v) and mentions_this(x) for p, x in o.st.store.items())
        changed = [p for p in o.st.store if p[:2] == ('D', v) and len(p) > 2]
        ctx.check(fresh and not changed and not (src[0] == 'obj' and len(src) > 4), 'create-fresh', r.short, fn.loc(),
                  'create does not return a default-constructed object')


def strings(P, fn, i, depth=0):
    """literals that a returned expression can designate; None in the set means unknown"""
    n = fn.nodes.get(i)
    if n is None or depth > 10:
        return {None}
    k, c = n['k'], [x for x in n.get('c', ()) if x >= 0]
    if k == 'Lit':
        return {n['str']} if 'str' in n else {None}
    if k == 'Var':
        out = set()
        for d in fn.all('Decl'):
            for vo in d['vars']:
                if vo['v'] == n['v'] and vo['init'] >= 0:
                    out |= strings(P, fn, vo['init'], depth + 1)
        for a in fn.all('Assign', 'Call'):
            if (a['k'] == 'Assign' or a.get('op') in ('=', '+=')) and a.get('c') and fn.nodes[a['c'][0]].get('v') == n['v'] \
                    and fn.nodes[a['c'][0]]['k'] == 'Var':
                out |= {None}
        return out or {None}
    if k == 'Global':
        g = [g for g in P.gs if g['name'] == n['g']]
        s = g[0].get('strs', []) if g else []
        return {s[0]} if len(s) == 1 else {None}
    if k == 'Call' and n.get('my') and n.get('fn') in P.fns:
        f = P.fns[n['fn']]
        return {s for x in f.all('Return') for s in strings(P, f, x['c'][0], depth + 1)}
    if k == 'Cond':
        return strings(P, fn, c[1], depth + 1) | strings(P, fn, c[2], depth + 1)
    if k in ('Ctor', 'Cast', 'DefArg', 'Un') and c:
        return strings(P, fn, c[0], depth + 1)
    return {None}


def type_names(ctx, P, r):
    m = next(m['usr'] for c in P.mro(r.usr) if c in P.recs for m in P.recs[c].methods if m['name'] == 'type')
    fn = P.fns.get(P.final(r.usr, m))
    ctx.need(fn is not None, 'type of %s not found' % r.short)
    ctx.touched(fn)
    out = set()
    for x in fn.all('Return'):
        out |= strings(P, fn, x['c'][0])
    return fn, out


def registered(P, g):
    """classes that the initializer of a global registers"""
    E = effects.of(P)
    out = set()
    for c in g.get('calls', ()):
        if c['fn'].endswith('::registerThisType') and 'objusr' in c:
            out.add(c['objusr'])
        f = P.fns.get(c.get('usr'))
        if f is not None and not c['fn'].endswith('::registerThisType'):
            for (u, cc), (h, par, nn) in E.closure(f).items():
                for n in h.all('Call'):
                    if effects.cname(n) == 'registerThisType' and n.get('c'):
                        o = h.nodes[n['c'][0]]
                        rr = P.recname.get(o.get('t', '').replace('const ', '').rstrip(' *&'))
                        if rr:
                            out.add(rr.usr)
    return out


def run(ctx):
    P = ctx.P
    roots = [r for r in P.recs.values() if r.name.startswith('diffpy::HasClassRegistry<')]
    ctx.need(len(roots) >= 6, 'registries not found')
    regs = set()
    for g in P.gs:
        regs |= registered(P, g)
    for root in sorted(roots, key=lambda r: r.name):
        names = {}
        classes = [P.recs[c] for c in P.concrete(root.usr)]
        for r in sorted(classes, key=lambda r: r.name):
            check_clone(ctx, P, r)
            check_create(ctx, P, r, root)
            fn, tn = type_names(ctx, P, r)
            if ctx.check(len(tn) == 1 and None not in tn, 'type-constant', r.short, fn.loc(), 'type is not one constant string'):
                t = next(iter(tn))
                ctx.check(t not in names and t != '', 'type-unique', r.short, fn.loc(),
                          '%s has the same type name as %s' % (r.short, names.get(t)))
                names[t] = r.short
            ctx.check(r.usr in regs, 'class-registered', r.short, 'src/%s:%s' % (r.file, r.line),
                      'no static initializer registers %s' % r.short)
    # structures
    for c in P.concrete(P.rec('StructureAdapter').usr):
        check_clone(ctx, P, P.recs[c])
    ctx.floor('clone-type', 20)
    ctx.floor('class-registered', 14)
    ctx.floor('clone-state', 20)
    check_registry(ctx, P)
    check_copies(ctx, P)
    check_bytype(ctx, P)


class Reg(sym.Exec):
    """registry map accesses become ('entry', key)"""

    def on_call(self, fr, st, n, callee, obj, args):
        nm = effects.cname(n)
        R = lambda v: self.rvalue(fr, st, v)
        if nm == 'getRegistry':
            return [(st, ('ref', ('REG',)))]
        if nm == 'type' and n.get('my'):
            return [(st, ('type', self.who(fr, st, obj)))]
        if nm in ('create', 'clone') and n.get('my'):
            return [(st, (nm, self.who(fr, st, obj)))]
        if nm in ('count', 'contains') and obj is not None and obj[0] == 'ref' and obj[1] == ('REG',):
            return [(st, ('present', R(args[0])))]
        if nm == 'find' and obj is not None and obj[0] == 'ref' and obj[1] == ('REG',):
            return [(st, ('itf', R(args[0])))]
        if nm in ('end', 'cend') and obj is not None and obj[0] == 'ref' and obj[1] == ('REG',):
            return [(st, ('c', 'REGEND'))]
        if n.get('op') in ('==', '!=') and len(args) + (obj is not None) == 2:
            a, b = [R(x) for x in ([obj] if obj is not None else []) + list(args)]
            for x, y in ((a, b), (b, a)):
                if x[0] == 'itf' and y == ('c', 'REGEND'):
                    t = sym.mk_eq(('present', x[1]), sym.ZERO)
                    return [(st, t if n['op'] == '==' else sym.mk_not(t))]
        o = R(obj) if obj is not None and obj[0] == 'ref' and obj[1][:1] == ('L',) or obj is not None and obj[0] != 'ref' else None
        if o is not None and o[0] == 'itf' and nm in ('operator->', 'operator*'):
            return [(st, ('ptr', ('ENTRY', o[1])) if nm == 'operator->' else ('ref', ('ENTRY', o[1])))]
        if nm in ('operator[]', 'at') and obj is not None and obj[0] == 'ref' and obj[1] == ('REG',):
            return [(st, ('ref', ('ENTRY', R(args[0]), 'second')))]
        if nm in ('emplace', 'insert') and obj is not None and obj[0] == 'ref' and obj[1] == ('REG',):
            vs = [R(a) for a in args]
            if len(vs) == 1 and vs[0][0] == 'pair':
                vs = [vs[0][1], vs[0][2]]
            if len(vs) == 2:
                k, v = vs
                if v[0] == 'ref':
                    v = self.load(st, v[1])
                self.write(fr, st, n, ('ENTRY', k, 'second'), v)
                return [(st, self.fresh(fr, n))]
        return None

    def who(self, fr, st, obj):
        if obj is None:
            return ('T',)
        p = obj[1] if obj[0] == 'ref' else obj
        if p == ('T',):
            return p
        if p[0] == 'D':
            v = p[1]
            if v[0] == 'i' and v[1][0] == 'ENTRY':
                return ('proto', v[1][1])
        return p

    def setpath(self, st, path, value):
        super().setpath(st, path, value)


def known(o, key):
    t = sym.Facts.truth(o.st.facts, ('present', key))
    if t is None:
        t2 = sym.Facts.truth(o.st.facts, sym.mk_eq(('present', key), sym.ZERO))
        t = None if t2 is None else not t2
    return t


def check_registry(ctx, P):
    for name in ('registerThisType', 'createByType', 'aliasType', 'deregisterType'):
        fs = [f for f in P.fns.values() if f.name == name and 'HasClassRegistry' in f.qname]
        ctx.need(len(fs) >= 6, 'registry function %s not found' % name)
        for f in sorted(fs, key=lambda f: f.qname):
            ctx.touched(f)
            ex = Reg(P)
            outs, fr = ex.analyze(f, f.cls)
            ctx.npaths += len(outs)
            rets = [o for o in outs if o.kind == 'return']
            what = f.short
            arg = [('i', ('A', k, p['name'])) for k, p in enumerate(f.params)]
            if name == 'registerThisType':
                key = ('type', ('T',))
                good = bool(rets)
                for o in rets:
                    w = {p: v for p, v in o.st.store.items() if p[0] == 'ENTRY'}
                    good &= len(w) == 1 and w.get(('ENTRY', key, 'second')) == ('create', ('T',)) and known(o, key) is False
                good &= any(o.kind == 'throw' and known(o, key) is True for o in outs)
                ctx.check(good, 'register-stores-prototype', what, f.loc(),
                          'registration does not store a created prototype under its own type or accepts duplicates')
            elif name == 'createByType':
                good = bool(rets) and all(val(ex, o) == ('create', ('proto', arg[0])) and known(o, arg[0]) is True for o in rets)
                good &= any(o.kind == 'throw' and known(o, arg[0]) is False for o in outs)
                good &= not any(p[0] == 'ENTRY' for o in outs for p in o.st.store)
                ctx.check(good, 'create-uses-prototype', what, f.loc(),
                          'createByType does not return what the prototype of the name creates, or accepts unknown names')
            elif name == 'aliasType':
                a, b = ('ENTRY', arg[0], 'second'), ('ENTRY', arg[1], 'second')
                good = bool(rets)
                for o in rets:
                    w = {p: v for p, v in o.st.store.items() if p[0] == 'ENTRY'}
                    free = known(o, arg[1]) is False or sym.Facts.truth(o.st.facts, sym.mk_eq(('i', a), ('i', b))) is True
                    good &= known(o, arg[0]) is True and free and w == {b: ('i', a)}
                ctx.check(good, 'alias-keeps-prototypes', what, f.loc(),
                          'an alias replaces another prototype or refers to an unknown one')


def check_copies(ctx, P):
    for r in sorted(P.recs.values(), key=lambda r: r.name):
        if not r.file.startswith('diffpy') or r.d.get('lambda') or '(unnamed' in r.name:
            continue
        for f in P.methods_of(r.usr):
            t = f.params[0]['type'] if len(f.params) == 1 else ''
            same = t.endswith('&') and t.replace('const ', '').rstrip(' &') == r.name
            if not same or not (f.ctor or f.name == 'operator=') or f.d.get('implicit'):
                continue
            ex = sym.Exec(P)
            outs, fr = ex.analyze(f, r.usr)
            ctx.touched(f)
            for o in outs:
                if o.kind != 'return':
                    continue
                for x in r.fields:
                    if x['name'] in SKIPF:
                        continue
                    v = ex.load(o.st, ('T', x['name']))
                    src = ('i', ('A', 0, f.params[0]['name'], x['name']))
                    selfassign = sym.Facts.truth(o.st.facts, sym.mk_eq(('ptr', ('T',)), ('ptr', ('A', 0, f.params[0]['name'])))) is True
                    array = '[' in x['type'] and any(p[:2] == ('T', x['name']) for p in o.st.store)
                    ctx.check(v == src or selfassign or array, 'copy-complete', '%s.%s' % (f.short, x['name']), f.loc(),
                              'copying does not transfer %s' % x['name'])


class ByType(sym.Exec):
    def should_inline(self, fr, fn, n):
        return fn.name not in ('createByType', 'isRegisteredType') and len(fn.nodes) < 150

    def on_call(self, fr, st, n, callee, obj, args):
        if effects.cname(n) == 'createByType':
            v = self.rvalue(fr, st, args[0])
            return [(st, ('product', n.get('cn', ''), v))]
        return None


def check_bytype(ctx, P):
    for f in sorted(P.fns.values(), key=lambda f: f.qname):
        if not f.name.endswith('ByType') or not f.name.startswith(('set', 'add')) or not f.file.startswith('diffpy'):
            continue
        if len(f.params) != 1:
            continue
        for c in ([f.cls] if not P.recs[f.cls].abstract else P.concrete(f.cls)[:1]):
            ex = ByType(P)
            outs, fr = ex.analyze(f, c)
            ctx.touched(f)
            rets = [o for o in outs if o.kind == 'return']
            good = bool(rets)
            key = ('i', ('A', 0, f.params[0]['name']))
            stored = set()
            for o in rets:
                if any(b and k[0] == 'eq' and any(isinstance(w, tuple) and w[:1] == ('product',) for w in k[1:]) for k, b in o.st.facts.items()):
                    continue        # a new object is none of those that exist
                prods = {v for p, v in o.st.store.items() if p[0] == 'T' and sym.mentions_any(v, lambda x: x[0] == 'product' and x[2] == key)}
                stored |= {x[1] for v in prods for x in [find(v)] if x}
                good &= bool(prods)
            ctx.check(good, 'bytype-uses-product', f.short, f.loc(), '%s does not install the object created for the name' % f.short)
            # the registry is the one of the member's type
    ctx.floor('bytype-uses-product', 6)


def find(v):
    if not isinstance(v, tuple):
        return None
    if v and v[0] == 'product':
        return v
    for x in v:
        r = find(x)
        if r:
            return r
    return None
