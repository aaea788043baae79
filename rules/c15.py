"""Symbolic execution of every virtual query of the structure wrappers.  A wrapper is a concrete structure class that owns
a handle to another structure.  Every query of the StructureAdapter interface, evaluated on the wrapper class, must on
every path return exactly the value of the same query of the wrapped structure for the same arguments, without effects on
the wrapper or on the wrapped structure.  The single removed aspect is specified per wrapper: NoMeta applies nothing to
the pair quantity, NoSymmetry gives a plain bond generator over itself, unit multiplicity and no number density.  The
constructor must store the source of a wrapper of the same kind instead of the wrapper, the given structure otherwise, and
never a null handle; the factory function returns a wrapper of its kind unchanged and wraps everything else once.
A wrapper class without an entry in the specification must forward every query."""
import sym, effects, model

ASSUMPTIONS = ['shared_from_this() is a handle to the object itself',
               'queries called on the wrapped structure through its base handle are those of the dynamic type of the structure']

SA = 'StructureAdapter'
SKIP = {'clone', 'diff'}        # type and completeness of clones: C05, differences: C06
# the aspect that a wrapper removes; everything else must be forwarded
REMOVED = {
    'NoMetaStructureAdapter': {'customPQConfig': 'nothing'},
    'NoSymmetryStructureAdapter': {'createBondGenerator': 'plain-generator', 'siteMultiplicity': 'one', 'numberDensity': 'zero'},
}


class Exec(sym.Exec):
    def __init__(self, P):
        super().__init__(P)
        self.calls = []
        self.news = {}

    def on_call(self, fr, st, n, callee, obj, args):
        if n.get('my'):
            st.data = dict(st.data)
            vals = tuple(self.rvalue(fr, st, a) for a in args)
            st.data[('calls',)] = st.data.get(('calls',), ()) + ((effects.cname(n), obj, vals, bool(n.get('fc')), n.get('fq', '')),)
        return None

    def on_write(self, fr, st, n, path, value, old, cond):
        if path[0] not in ('L',):
            st.data = dict(st.data)
            st.data[('writes',)] = st.data.get(('writes',), ()) + (path,)

    def on_element(self, fr, st, n):
        if n['k'] == 'New' and n.get('c'):
            self.news[(fr.tok, n['i'])] = st.vals.get(n['c'][0])


def wrapped_field(P, r):
    for f in r.fields:
        if 'shared_ptr<' in f['type'] and 'StructureAdapter>' in f['type'].replace('const ', '').replace('diffpy::srreal::', ''):
            return f
    return None


def lastname(fq):
    return fq.split('::')[-1]


def is_source(v, field):
    """the structure the handle refers to"""
    if v is None:
        return False
    if v[0] in ('at', 'i') and isinstance(v[1], tuple):
        v = v[1]
        if v and v[0] == 'i':
            v = v[1]
        return is_source_path(v, field)
    if v[0] in ('ref', 'ptr'):
        return is_source_path(v[1], field)
    return False


def is_source_path(p, field):
    return len(p) == 2 and p[0] == 'D' and p[1] == ('i', ('T', field))


def forwarded(v, name, field, nargs):
    if v is None or v[0] != 'call' or lastname(v[1]) != name:
        return 'the returned value is not the value of %s of the wrapped structure' % name
    args = v[2:]
    if not args or not is_source(args[0], field):
        return '%s is not asked from the wrapped structure' % name
    if len(args) - 1 != nargs:
        return '%s is asked with other arguments' % name
    for k, a in enumerate(args[1:]):
        if not (a[0] in ('p',) and a[1] == k or a[0] == 'i' and a[1][:2] == ('A', k) and len(a[1]) == 3):
            return '%s is asked for another site' % name
    return None


def run(ctx):
    P = ctx.P
    base = P.rec(SA)
    queries = []
    for m in base.methods:
        if m.get('virtual') and not m['name'].startswith('~') and m['name'] not in SKIP:
            queries.append((m['usr'], m))
    ctx.need(len(queries) >= 9, 'queries of StructureAdapter')
    wrappers = []
    for c in sorted(P.concrete(base.usr)):
        r = P.recs[c]
        f = wrapped_field(P, r)
        if f:
            wrappers.append((r, f))
    ctx.need(len(wrappers) >= 2, 'wrappers of structures')
    for r, f in wrappers:
        cls = r.name.split('::')[-1]
        spec = REMOVED.get(cls, {})
        for u, m in sorted(queries, key=lambda x: x[1]['name']):
            name = m['name']
            fu = P.final(r.usr, u)
            fn = P.fns.get(fu)
            label = '%s::%s' % (cls, name)
            if fn is None:
                ctx.bad('forward', label, r.d.get('file', '?'), '%s has no definition' % label)
                continue
            ctx.touched(fn)
            ex = Exec(P)
            outs, fr = ex.analyze(fn, r.usr)
            mode = spec.get(name, 'forward')
            where = fn.loc()
            msg = None
            for o in outs:
                ctx.npaths += 1
                if o.kind == 'throw':
                    msg = msg or '%s can fail although the wrapped structure answers' % name
                    continue
                calls = o.st.data.get(('calls',), ())
                writes = [p for p in o.st.data.get(('writes',), ()) if p[0] == 'T']
                if writes:
                    msg = msg or '%s changes the wrapper' % name
                mod = [c for c in calls if not c[3] and c[1] is not None and c[1][0] in ('ref', 'ptr', 'call', 'new', 'i')
                       and c[0] not in ('getSourceStructure',) and lastname(c[4]) != name and 'operator' not in c[0]]
                if mod:
                    msg = msg or '%s calls %s, which may change an object' % (name, mod[0][0])
                if mode == 'forward':
                    if fn.ret == 'void':
                        own = [c for c in calls if c[0] == name]
                        if len(own) != 1 or not (own[0][1] and own[0][1][0] == 'ref' and is_source_path(own[0][1][1], f['name'])):
                            msg = msg or '%s is not passed to the wrapped structure exactly once on every path' % name
                        elif [a for k, a in enumerate(own[0][2]) if not (a[0] == 'p' and a[1] == k)]:
                            msg = msg or '%s is passed on with another argument' % name
                    else:
                        msg = msg or forwarded(o.value, name, f['name'], len(fn.params))
                elif mode == 'nothing':
                    # queries of constant objects would be harmless, anything that receives the argument is not
                    bad = [c for c in calls if any(sym.mentions_any(a, lambda y: isinstance(y, tuple) and y[:2] == ('p', 0)) for a in c[2])
                           or c[1] is not None and sym.mentions_any(c[1], lambda y: isinstance(y, tuple) and y[:2] == ('p', 0))]
                    if bad or [p for p in o.st.data.get(('writes',), ())]:
                        msg = msg or '%s still has an effect' % name
                elif mode == 'one':
                    if o.value != sym.ONE:
                        msg = msg or '%s must be one without symmetry' % name
                elif mode == 'zero':
                    if o.value != sym.ZERO:
                        msg = msg or '%s must be zero without periodicity' % name
                elif mode == 'plain-generator':
                    msg = msg or plain_generator(o.value, ex)
            ctx.check(not msg, 'forward' if mode == 'forward' else 'removed-aspect', label, where, msg or '')
        constructor(ctx, P, r, f, cls)
        factory(ctx, P, r, cls)
    ctx.floor('forward', 14)
    ctx.floor('removed-aspect', 4)
    ctx.floor('wrap-once', 2)
    ctx.floor('factory', 2)


def self_handle(v):
    if v[0] == 'call' and lastname(v[1]) == 'shared_from_this' and len(v) >= 3:
        o = v[2]
        return o in (('i', ('T',)), ('at', ('i', ('T',)))) or o[0] == 'at' and o[1] == ('i', ('T',)) or o == ('ref', ('T',))
    return False


def plain_generator(v, ex):
    if v[0] == 'new':
        ob = ex.news.get(v[1:3])
        if v[3].split('::')[-1] != 'BaseBondGenerator':
            return 'the bond generator is not the plain one'
        if ob is None or ob[0] != 'obj' or len(ob) < 5 or not self_handle(ob[4]):
            return 'the bond generator does not work on the wrapper itself'
        return None
    if v[0] == 'call' and lastname(v[1]).split('<')[0] == 'make_shared':
        if not any(self_handle(a) for a in v[2:] if isinstance(a, tuple)):
            return 'the bond generator does not work on the wrapper itself'
        return None
    return 'the bond generator is not the plain one'


def same_kind_cast(v, cls, argp):
    if v[0] == 'call' and v[1] == 'dynamic_cast' and len(v) == 4 and argp(v[3]):
        return cls in str(v[2])
    return v[0] == 'call' and lastname(v[1]) == 'dynamic_pointer_cast' and argp(v[2]) and len(v) > 3 and \
        cls + '>' in v[3][1].replace('const ', '')


def constructor(ctx, P, r, f, cls):
    n = 0
    for fn in P.methods_of(r.usr):
        if fn.name != cls or len(fn.params) != 1 or not fn.blocks:
            continue
        if 'shared_ptr' not in fn.vars[fn.params[0]['v']]['type']:
            continue                # copy constructor
        n += 1
        ctx.touched(fn)
        ex = Exec(P)
        outs, fr = ex.analyze(fn, r.usr)
        label = '%s(%s)' % (cls, 'structure')
        isarg = lambda v: v[0] == 'p' and v[1] == 0 or v[0] == 'i' and v[1][:2] == ('A', 0) and len(v[1]) == 3
        msg = None
        unwrapped = False
        for o in outs:
            ctx.npaths += 1
            if o.kind == 'throw':
                continue            # rejecting an argument creates no wrapper
            v = o.st.store.get(('T', f['name']), ('i', ('T', f['name'])))
            v = sym.expand(v)
            facts = o.st.facts
            nul = sym.Facts.truth(facts, sym.mk_eq(v, sym.ZERO))
            if v == sym.ZERO or v[0] == 'undef' or v == ('i', ('T', f['name'])):
                msg = msg or 'the wrapper is left without a wrapped structure'
            elif isarg(v):
                casts = [w for w in values_in(facts) if same_kind_cast(w, cls, isarg)]
                known = [w for w in casts if sym.Facts.truth(facts, sym.mk_eq(w, sym.ZERO)) is True]
                if not known:
                    msg = msg or 'a wrapper of the same kind is wrapped again'
                if nul is not False:
                    msg = msg or 'a null handle can be wrapped'
            elif v[0] == 'i' and len(v[1]) == 3 and v[1][0] == 'D' and v[1][2] == f['name'] and same_kind_cast(v[1][1], cls, isarg):
                unwrapped = True
                if nul is not False:
                    msg = msg or 'a null handle can be wrapped'
            elif 'emptyStructureAdapter' in repr(v):
                # allowed only for a null argument or an empty source
                if not any(sym.Facts.truth(facts, sym.mk_eq(w, sym.ZERO)) is True for w in values_in(facts)
                           if isarg(w) or w[0] == 'i' and w[1][0] == 'D' or w[0] == 'phi'):
                    msg = msg or 'a valid structure is replaced by the empty structure'
            elif v[0] == 'phi' and nul is False and any(
                    same_kind_cast(w, cls, lambda y: y == v) and sym.Facts.truth(facts, sym.mk_eq(w, sym.ZERO)) is True or
                    w[0] == 'phi' and w[1:3] == v[1:3] and w != v and sym.Facts.truth(facts, sym.mk_eq(w, sym.ZERO)) is True
                    for w in values_in(facts)):
                unwrapped = True    # unwrapped in a loop until the handle is no wrapper
            else:
                msg = msg or 'the wrapper stores neither the given structure nor its source'
        if not unwrapped:
            msg = msg or 'a wrapper of the same kind is not unwrapped'
        ctx.check(not msg, 'wrap-once', label, fn.loc(), msg or '')
    ctx.need(n >= 1, 'wrapping constructor of ' + cls)


def values_in(facts):
    out = set()
    for k in facts:
        if isinstance(k, tuple):
            for x in k[1:]:
                if isinstance(x, tuple):
                    out.add(x)
    return out


def factory(ctx, P, r, cls):
    """functions that create a wrapper from a structure handle"""
    n = 0
    for fn in sorted(P.fns.values(), key=lambda x: (x.file, x.line)):
        if fn.cls or len(fn.params) != 1 or 'StructureAdapter' not in fn.ret or not fn.blocks or not fn.file.startswith('diffpy'):
            continue
        if not any(x['k'] == 'New' and x.get('nr') == r.usr or x['k'] == 'Call' and 'make_shared' in x.get('fq', '') and
                   cls in x.get('t', '') for x in fn.all('New', 'Call')):
            continue
        n += 1
        ctx.touched(fn)
        ex = Exec(P)
        outs, fr = ex.analyze(fn, None)
        isarg = lambda v: v[0] == 'p' and v[1] == 0 or v[0] == 'i' and v[1][:2] == ('A', 0) and len(v[1]) == 3
        msg = None
        for o in outs:
            ctx.npaths += 1
            if o.kind == 'throw':
                continue
            v = sym.expand(o.value)
            casts = [w for w in values_in(o.st.facts) if same_kind_cast(w, cls, isarg)]
            if v in casts:
                v = ('p', 0)
            if isarg(v) or v == ('p', 0):
                if not any(sym.Facts.truth(o.st.facts, sym.mk_eq(w, sym.ZERO)) is False for w in casts):
                    msg = msg or 'a structure is returned without being wrapped'
            elif v[0] == 'new':
                ob = ex.news.get(v[1:3])
                if not v[3].endswith(cls) or ob is None or ob[0] != 'obj' or len(ob) != 5 or not isarg(ob[4]):
                    msg = msg or 'the result is not a %s of the given structure' % cls
            elif v[0] == 'call' and 'make_shared' in v[1]:
                if not any(isarg(a) for a in v[2:] if isinstance(a, tuple) and a):
                    msg = msg or 'the result is not a %s of the given structure' % cls
            else:
                msg = msg or 'the result is not a %s of the given structure' % cls
        ctx.check(not msg, 'factory', fn.short.split('(')[0], fn.loc(), msg or '')
    ctx.need(n >= 1, 'factory function of ' + cls)
