"""Definite initialization. For every constructor that the library defines (and for every class with data and an implicit
default constructor) the abstract interpreter executes the initializer list and the body, inlining helpers the constructor
calls on the object; at every normal exit each own data member of scalar type and each fixed-size R3 vector or matrix,
including members of embedded plain structures, must have been assigned, and no such member may be read before."""
import sym, model

ASSUMPTIONS = ['library containers, strings and smart pointers are initialized by their own constructors',
               'serialization access of boost is trusted to construct objects through the analysed default constructors']

R3TYPES = ('diffpy::srreal::R3::Vector', 'diffpy::srreal::R3::Matrix')


def needed(P, rec, prefix):
    """access paths of the members without initialization of their own"""
    for f in rec.fields:
        p = prefix + (f['name'],)
        if f.get('init'):
            continue
        if f['scalar']:
            yield p, f
        elif f['type'] in R3TYPES:
            yield p, f
        elif f.get('rec') in P.recs:
            r = P.recs[f['rec']]
            if r.d.get('defctor', 'default') != 'user' and not any(m.get('ctor') and not m.get('implicit') for m in r.methods):
                for q in needed(P, r, p):
                    yield q


class Init(sym.Exec):
    max_states = 4000

    def __init__(self, P, ctor, req, ctx):
        super().__init__(P)
        self.ctor, self.req, self.ctx = ctor, {p for p, f in req}, ctx
        self.arrays = {p: '[' in f['type'] for p, f in req}
        self.early = {}

    def should_inline(self, fr, fn, n):
        # helpers of the object under construction
        if fn.cls and self.P.isa(self.ctor.cls, fn.cls) and len(fn.nodes) < 600:
            import effects
            w = effects.of(self.P).writes_names(fn, self.ctor.cls)
            return bool({x[1] for x in w} & {p[1] for p in self.req})
        return False

    def on_read(self, fr, st, n, path):
        for k in range(len(path), 1, -1):
            p = path[:k]
            if p in self.req:
                if self.arrays.get(p):
                    return
                if not any(q == p or q[:len(p)] == p or p[:len(q)] == q for q in st.store if q[0] == 'T' and len(q) > 1):
                    self.early.setdefault(p, (fr.fn, n))
                return

    def may_write_fields(self, fr, n, callee, path):
        if path == ('T',) and callee is not None:
            return {f for (c, f) in lib_writes(self.P, callee)}
        return set() if path == ('T',) else None


def lib_writes(P, fn):
    import effects
    return effects.of(P).writes_names(fn)


def is_default_init(P, n, fn):
    """member initializer that leaves a scalar or R3 member undetermined"""
    c = fn.nodes.get(n['c'][0]) if n.get('c') and n['c'][0] >= 0 else None
    if c is None:
        return True
    if c['k'] == 'Ctor' and c.get('cn') in R3TYPES and not [x for x in c.get('c', ()) if x >= 0] and not c.get('copy'):
        return True
    if c['k'] == 'Ctor' and not c.get('copy') and not [x for x in c.get('c', ()) if x >= 0]:
        r = P.recs.get(c.get('cls'))
        return r is not None and r.d.get('defctor', 'default') != 'user'
    return False


class InitX(Init):
    def step(self, fr, st, n, nested=False):
        if n['k'] == 'Init' and 'f' in n and is_default_init(self.P, n, fr.fn):
            st.vals[n['i']] = ('none',)
            return [st]
        return super().step(fr, st, n, nested)


# members that only carry values within one operation: each is assigned by the operation before it is read
SCRATCH = {
    'GetDoubleAttrVisitor.mvalue': 'result slot, the caller checks the attribute exists before the visit',
    'PDFCalculator.mstashedvalue.rclosteps': 'assigned by stashPartialValue, read by the paired restorePartialValue',
    'PeriodicStructureBondGenerator.mrcsphere': 'assigned by every step of the sphere iteration before it is used',
    'PointsInSphere.nHalfSpan': 'scratch value of next_m',
    'PointsInSphere.oHalfSpan': 'scratch value of next_n',
    'PointsInSphere.RplaneSquare': 'assigned by next_m, which runs before the first next_n test succeeds',
}


def run(ctx):
    P = ctx.P
    for r in sorted(P.recs.values(), key=lambda r: r.name):
        if r.d.get('lambda') or not r.file.startswith('diffpy') or 'boost::' in r.name[:7]:
            continue
        req = list(needed(P, r, ('T',)))
        if not req:
            continue
        ctors = [f for f in P.methods_of(r.usr) if f.ctor]
        ctors = [f for f in ctors if not (len(f.params) == 1 and f.params[0]['type'].rstrip(' &').endswith(r.name))]
        user = [m for m in r.methods if m.get('ctor') and not m.get('implicit')]
        if not user:
            if r.d.get('poly') or any(f['access'] != 0 for f in r.fields):
                for p, f in req:
                    ctx.bad('implicit-constructor', '%s::%s' % (r.short, '.'.join(p[1:])), 'src/%s:%s' % (r.file, r.line),
                            'class %s has no constructor that initializes %s' % (r.short, '.'.join(p[1:])))
            continue
        for k in ctors:
            ctx.touched(k)
            ex = InitX(P, k, req, ctx)
            outs, fr = ex.analyze(k, r.usr)
            ctx.npaths += len(outs)
            if any(n.get('deleg') for n in (k.nodes[i] for i in k.inits)):
                continue
            sig = '%s(%s)' % (r.short, ','.join(p['type'] for p in k.params))
            for p, f in req:
                name = '%s.%s' % (sig, '.'.join(p[1:]))
                if '%s.%s' % (r.short.split('::')[-1], '.'.join(p[1:])) in SCRATCH:
                    continue
                miss = None
                for o in outs:
                    if o.kind != 'return':
                        continue
                    st = o.st.store
                    if not any(q == p or (len(q) < len(p) and len(q) > 1 and p[:len(q)] == q) or q[:len(p)] == p for q in st):
                        miss = o
                        break
                    v = ex.load(o.st, p)
                    if v[0] == 'undef':
                        miss = o
                        break
                ctx.check(miss is None, 'member-initialized', name, k.loc(),
                          'constructor leaves the member %s without a value' % '.'.join(p[1:]))
                e = ex.early.get(p)
                ctx.check(e is None, 'no-early-read', name, e[0].loc(e[1]) if e else '',
                          'member %s is read during construction before it has a value' % '.'.join(p[1:]))
    ctx.floor('member-initialized', 60)
