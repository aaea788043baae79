"""Registration tables and symbolic summaries.  (1) The calls of registerDoubleAttribute are collected on every path of every
constructor together with the registered accessor functions; the effective table of a concrete class is built from its base
classes down.  (2) For every entry, an accessor of the class that is named after the attribute must be the registered one
(looked up by name in that class, so an accessor that hides the registered one without a new registration is found), getter
and setter must carry the same name, and the composition setter -> getter is evaluated on every path of the setter: the
getter must return exactly the value given to the setter.  Registered accessors which transform the value must be inverse to
each other.  (3) Every setting with a dedicated getter/setter pair is registered.  (4) Every class that owns models with
attributes (directly, in a container, or inherited) forwards the visitor to each of them and to its own table on every path
of both accept overloads; attribute names are unique among the models that can be owned together.  (5) The lookup machinery
is evaluated symbolically: name check, read, write, read-only rejection and the lists of names."""
import re
import effects, sym, model

ASSUMPTIONS = ['classes outside of the library register their attributes on their own responsibility',
               'getters that compute a value for reading only (no setter) are identified by their name']

# accessors that are published under an alias
ALIASES = {('DebyePDFCalculator', 'extendedrmin'): 'rcalclo', ('DebyePDFCalculator', 'extendedrmax'): 'rcalchi',
           ('PeakProfile', 'peakprecision'): 'precision'}


# settings of a base class that only the calculators derived from it publish as attributes
INTERNAL = {('BaseDebyeSum', 'qmin'), ('BaseDebyeSum', 'qmax'), ('BaseDebyeSum', 'qstep')}


def norm(s, pre=''):
    s = re.sub(r'[^a-z0-9]', '', s.lower())
    return s[len(pre):] if pre and s.startswith(pre) else s


class RegExec(sym.Exec):
    """collect registrations performed by a constructor"""
    def __init__(self, P, E):
        sym.Exec.__init__(self, P)
        self.E = E

    def should_inline(self, fr, fn, n):
        if fn.name in ('registerDoubleAttribute', 'registerBaseDoubleAttribute') or fn.name == fr.fn.name and fn.cls != fr.fn.cls:
            return False
        return registers(self.E, fn)

    def on_call(self, fr, st, n, callee, obj, args):
        if effects.cname(n) == 'registerDoubleAttribute':
            st.data['regs'] = st.data.get('regs', ()) + ((args[0], tuple(args[1:]), n.get('l')),)


def registers(E, fn):
    for f, par, cn in E.closure(fn).values():
        for n in f.all('Call'):
            if effects.cname(n) == 'registerDoubleAttribute':
                return True
    return False


def isctor(f, rec):
    return f.cls == rec.usr and f.name == rec.short.split('::')[-1].split('<')[0]


def iscopy(f, rec):
    return len(f.params) == 1 and rec.name in f.vars[f.params[0]['v']].get('type', f.vars[f.params[0]['v']].get('t', ''))


def pname(e):
    if e[0] == 'c' and isinstance(e[1], str) and e[1].startswith('"'):
        return e[1][1:]
    return None


def collect(ctx, rec):
    """ordered registrations of the class' own constructors {attr: (getter, setter, line)}, ctor"""
    P, E = ctx.P, effects.of(ctx.P)
    ctors = [f for f in P.methods_of(rec.usr) if isctor(f, rec) and not iscopy(f, rec)]
    sets = []
    for f in ctors:
        if not registers(E, f):
            sets.append((f, {}))
            continue
        ex = RegExec(P, E)
        outs, fr = ex.analyze(f, rec.usr)
        ctx.touched(f)
        ctx.npaths += len(outs)
        per = []
        for o in outs:
            if o.kind != 'return':
                continue
            d = {}
            for name, args, line in o.st.data.get('regs', ()):
                nm = pname(name)
                if nm is None:
                    ctx.bad('registered-name', '%s:%s' % (f.short, line), f.loc(), 'attribute is registered under a name that is not a constant: %r' % (name,))
                    continue
                fns = [a[1] for a in args if a[0] == 'fn']
                d[nm] = (fns[0] if fns else None, fns[1] if len(fns) > 1 else None, line)
            per.append(d)
        keys = set().union(*[set(d) for d in per]) if per else set()
        for k in sorted(keys):
            vals = {d.get(k, (None,) * 3)[:2] for d in per}
            ctx.check(len(vals) == 1, 'registered-on-all-paths', '%s:%s' % (f.short, k), f.loc(),
                      'attribute "%s" is registered differently on different paths' % k)
        sets.append((f, per[0] if per else {}))
    out = {}
    for f, d in sets:
        out.update(d)
    for f, d in sets:
        for k in out:
            ctx.check(k in d and d[k][:2] == out[k][:2], 'registered-by-every-constructor', '%s/%d:%s' % (rec.short, len(f.params), k), f.loc(),
                      'this constructor does not register attribute "%s" like the others do' % k)
    return out


def mono(v, facts, d=0):
    """product normal form (coef, {atom: exponent}) of a value, or None"""
    if d > 40:
        return None
    if v[0] == 'c' and isinstance(v[1], (int, float)):
        return (float(v[1]), {})
    k = v[0]
    if k == 'big':
        return mono(sym.expand(v), facts, d + 1)
    if k == '*' or (k == 'op' and v[1] == '*'):
        a, b = [mono(x, facts, d + 1) for x in v[-2:]]
        if a is None or b is None:
            return None
        e = dict(a[1])
        for x, y in b[1].items():
            e[x] = e.get(x, 0) + y
        return (a[0] * b[0], {x: y for x, y in e.items() if y})
    if k == '/' or (k == 'op' and v[1] == '/'):
        a, b = [mono(x, facts, d + 1) for x in v[-2:]]
        if a is None or b is None or b[0] == 0:
            return None
        e = dict(a[1])
        for x, y in b[1].items():
            e[x] = e.get(x, 0) - y
        return (a[0] / b[0], {x: y for x, y in e.items() if y})
    if k == 'neg' or (k == 'op' and v[1] in ('neg', 'u-') ):
        a = mono(v[-1], facts, d + 1)
        return a and (-a[0], a[1])
    if k == 'call' and v[1].split('::')[-1] in ('sqrt', 'sqrtf'):
        a = mono(v[-1], facts, d + 1)
        if a is None or a[0] < 0 or any(not nonneg(x) for x in a[1]):
            return None
        return (a[0] ** 0.5, {x: y / 2.0 for x, y in a[1].items()})
    if k == 'call' and len(v) == 3 and v[1].split('::')[-1] in ('fabs', 'abs'):
        a = mono(v[-1], facts, d + 1)
        if a is not None and all(nonneg(x) for x in a[1]):
            return (abs(a[0]), a[1])
    neg = facts and sym.Facts.truth(facts, sym.mk_lt(v, sym.ZERO))
    if facts and neg is None:
        for k, b in facts.items():
            if k[0] == 'lt' and k[2] == sym.ZERO and k[1][0] in ('op', 'big'):
                m = mono(k[1], None, d + 1)
                if m and m[1] == {v: 1} and m[0] > 0:
                    neg = b
    if neg is True:
        return (-1.0, {('abs', v, 'strict'): 1})
    if neg is False:
        return (1.0, {('abs', v): 1})
    return (1.0, {v: 1})


def nonneg(x):
    return x[0] == 'abs' or x[0] == 'i' and x[1][0] == 'G'


def infeasible(facts):
    """a comparison of a product with zero contradicts the signs of its factors (named constants are positive)"""
    for k, b in facts.items():
        if k[0] == 'lt' and k[2] == sym.ZERO and k[1][0] in ('op', 'big'):
            base = {x: y for x, y in facts.items() if x != k}
            m = mono(k[1], base)
            if m is None or not all(nonneg(x) for x in m[1]):
                continue
            if b and m[0] > 0 or not b and m[0] < 0 and all(len(x) == 3 or x[0] == 'i' for x in m[1]):
                return True
    return False


def same(a, b, facts):
    if a == b:
        return True
    x, y = mono(a, facts), mono(b, facts)
    return bool(x and y and abs(x[0] - y[0]) <= 1e-9 * max(1, abs(x[0])) and x[1] == y[1])


def show(v):
    s = repr(v)
    return s if len(s) < 160 else s[:157] + '...'


# settings that are adjusted on purpose after they were set: the getter returns the value in use
ADJUSTED = {('DebyePDFCalculator', 'qstep'): 'a step above the optimum is replaced by the optimum step'}


# settings that have a documented limit: the smallest usable precision, the limit of the grid
LIMITED = [('GaussianProfile', 'peakprecision'), ('CroppedGaussianProfile', 'peakprecision'), ('PDFCalculator', 'qmax')]


def unclip(v, facts, pi, limited):
    """value given to the setter possibly limited by a constant or by another setting"""
    if isparam(v, pi):
        return True
    if limited and v[0] == 'op' and v[1] in ('min', 'max'):
        return any(unclip(x, facts, pi, limited) for x in v[2:])
    return clipped(v, facts, pi)


def limit(v, facts, pi):
    """a limit that the value given is known to be beyond on this path"""
    return v[0] in ('c', 'i') and any(k[0] == 'lt' and len(k) == 3 and v in k[1:] and any(isparam(w, pi) for w in k[1:] if w != v) for k in facts)


def given_zero(facts, name):
    """the value given is known to be zero (which stands for "no limit")"""
    p = ('p', 0, name)
    if sym.Facts.truth(facts, sym.mk_eq(sym.ZERO, p)) is True:
        return True
    return sym.Facts.truth(facts, sym.mk_lt(sym.ZERO, p)) is False and sym.Facts.truth(facts, sym.mk_lt(p, sym.ZERO)) is False


class SetExec(sym.Exec):
    outcome_limit = 40

    def on_write(self, fr, st, n, path, value, old, cond):
        if isparam(value, 0) and path[0] == 'T':
            st.data['given'] = st.data.get('given', frozenset()) | {path}


def roundtrip(ctx, cls, g, s, what, where, P):
    """value returned by getter g after setter s was called on a fresh object"""
    byobj = s.cls is None           # free accessor functions take the object as their first argument
    ex = SetExec(P)
    outs, fr = ex.analyze(s, None if byobj else cls)
    ctx.touched(s, g)
    n = exact = 0
    off = None
    limited = tuple(what.split(':')) in LIMITED
    if tuple(what.split(':')) in ADJUSTED:
        src = {q.value[1] for q in sym.Exec(P).analyze(g, cls)[0] if q.value and q.value[0] == 'ref'}
        ok = len(src) == 1 and all(src <= o.st.data.get('given', frozenset()) for o in outs if o.kind == 'return')
        ctx.check(ok, 'round-trip', what, where, 'the setter %s does not store the given value where %s reads it' % (s.short, g.short))
        return
    pi = 1 if byobj else 0
    for o in outs:
        if o.kind != 'return':
            continue
        n += 1
        st = sym.State()
        st.store = {k: v for k, v in o.st.store.items() if k[0] != 'L'}
        st.facts = dict(o.st.facts)
        ex2 = sym.Exec(P)
        o2, _ = ex2.analyze(g, None if byobj else cls, init=st)
        for q in o2:
            if q.kind != 'return' or infeasible(q.st.facts):
                continue
            ctx.npaths += 1
            v = q.value
            if v and v[0] == 'ref':
                v = ex2.load(q.st, v[1])
            p = s.params[pi]
            pn = s.vars[p['v']]['name']
            good = bool(v) and (unclip(v, q.st.facts, pi, limited) or any(same(sym.expand(v), w, q.st.facts) for w in (('p', pi, pn), ('i', ('A', pi, pn)))))
            if good:
                exact += 1
            elif given_zero(q.st.facts, pn) or limited and v and limit(v, q.st.facts, pi):
                continue
            else:
                off = off or v
    if off is not None:
        ctx.bad('round-trip', what, where, 'after setting the value, the getter %s returns %s' % (g.short, show(off)))
        return
    ctx.check(n > 0 and exact > 0, 'round-trip', what, where, 'the setter %s never sets the value' % s.short)


def isparam(v, pi):
    if v[0] == 'p':
        return v[1] == pi
    if v[0] == 'i':
        return v[1][0] == 'A' and v[1][1] == pi and len(v[1]) == 3
    return False


def clipped(v, facts, pi):
    """equal to the parameter by what is known on the path"""
    for k, b in facts.items():
        if b and k[0] == 'eq':
            if k[1] == v and isparam(k[2], pi) or k[2] == v and isparam(k[1], pi):
                return True
    return False


def lookup_accessor(P, cls, pre, attr):
    """the public accessor that name lookup finds in class cls"""
    for u in P.mro(cls):
        r = P.recs.get(u)
        if not r:
            continue
        hits = [f for f in P.methods_of(u) if f.access == 0 and norm(f.name) == pre + norm(attr) and
                len(f.params) == (0 if pre == 'get' else 1)]
        if hits:
            return hits[0]
    return None


def run(ctx):
    P, E = ctx.P, effects.of(ctx.P)
    base = P.rec('attributes::Attributes').usr
    classes = [r for r in P.recs.values() if r.file.startswith('diffpy') and P.isa(r.usr, base) and r.usr != base]
    own = {r.usr: collect(ctx, r) for r in classes}
    table = {}
    for r in classes:
        t = {}
        for u in reversed(list(P.mro(r.usr))):
            for a, x in own.get(u, {}).items():
                t[a] = x + (u,)
        table[r.usr] = t

    def vfinal(cls, usr):
        f = P.fns.get(usr)
        if f is None:
            return None
        if f.cls and P.isa(cls, f.cls):
            u = P.final(cls, usr)
            u = getattr(u, 'usr', u)
            return P.fns.get(u, f) if u else f
        return f

    # (2) entries
    done = set()
    for r in sorted(classes, key=lambda r: r.name):
        if r.abstract:
            continue
        for a, (g, s, line, src) in sorted(table[r.usr].items()):
            what = '%s:%s' % (r.short, a)
            G, S = vfinal(r.usr, g) if g else None, vfinal(r.usr, s) if s else None
            where = '%s:%s' % (P.recs[src].file, line)
            src_fn = [f for f in P.methods_of(src) if isctor(f, P.recs[src])]
            if src_fn:
                where = 'src/%s:%s' % (src_fn[0].file, line)
            if not ctx.check(G is not None, 'getter-known', what, where, 'the registered getter cannot be resolved'):
                continue
            if s:
                ctx.check(S is not None, 'setter-known', what, where, 'the registered setter cannot be resolved')
            dg, ds = lookup_accessor(P, r.usr, 'get', a), lookup_accessor(P, r.usr, 'set', a)
            if dg:
                ctx.check(dg.usr == G.usr or vfinal(r.usr, dg.usr).usr == G.usr, 'dedicated-getter', what, where,
                          'attribute "%s" of %s reads %s, but the accessor named for it is %s' % (a, r.short, G.short, dg.short))
            else:
                nm = norm(G.name, 'get')
                al = next((v for (c, x), v in ALIASES.items() if x == a and c in [P.recs[u].short for u in P.mro(r.usr) if u in P.recs]), None)
                ctx.check(nm == norm(a) or nm == al, 'getter-name', what, where, 'attribute "%s" of %s reads %s' % (a, r.short, G.short))
            if ds:
                if ctx.check(S is not None, 'setter-registered', what, where,
                             'attribute "%s" is read-only although %s exists' % (a, ds.short)):
                    ctx.check(ds.usr == S.usr or vfinal(r.usr, ds.usr).usr == S.usr, 'dedicated-setter', what, where,
                              'attribute "%s" of %s writes with %s, but the accessor named for it is %s' % (a, r.short, S.short, ds.short))
            if S is None:
                continue
            ctx.check(norm(G.name, 'get') == norm(S.name, 'set'), 'accessor-pair', what, where,
                      'attribute "%s" reads with %s and writes with %s' % (a, G.short, S.short))
            roundtrip(ctx, r.usr, G, S, what, where, P)
    ctx.floor('round-trip', 40)

    # (3) dedicated accessor pairs
    for r in sorted(classes, key=lambda r: r.name):
        for f in P.methods_of(r.usr):
            if f.access != 0 or not f.name.startswith('set') or len(f.params) != 1 or f.static:
                continue
            if 'double' not in ptype(f) or 'vector' in ptype(f):
                continue
            a = norm(f.name, 'set')
            if not lookup_accessor(P, r.usr, 'get', a):
                continue
            if (r.short, a) in INTERNAL:
                continue
            regs = {vfinal(r.usr, x[1]).usr for x in table[r.usr].values() if x[1] and vfinal(r.usr, x[1])}
            names = {norm(x) for x in table[r.usr]}
            ctx.check(f.usr in regs or a in names, 'setting-registered', '%s:%s' % (r.short, a), f.loc(),
                      'no attribute of %s gives access to the setting of %s' % (r.short, f.short))
    ctx.floor('setting-registered', 20)

    forwarding(ctx, P, E, classes, base, table)
    machinery(ctx, P, E)


def ptype(f):
    v = f.vars[f.params[0]['v']]
    return v.get('type') or v.get('t') or ''


# (4) forwarding ------------------------------------------------------------

def handles(P, base, r):
    """fields that own models with attributes: [(field, pointee rec, iscontainer)]"""
    out = []
    for d, f in P.allfields(r.usr):
        m = re.findall(r'(?:shared_ptr|unique_ptr)<([\w:]+)', f['type'])
        for x in m:
            pr = next((q for q in P.recs.values() if q.name == x or q.name == x.replace('diffpy::attributes::', '')), None)
            if pr and P.isa(pr.usr, base):
                cont = bool(re.match(r'(const )?(std::|boost::)?(__\w+::)?(unordered_)?(map|vector|list|set|deque)', f['type']))
                out.append((d, f, pr, cont))
    return out


class AcceptExec(sym.Exec):
    def __init__(self, P, root):
        sym.Exec.__init__(self, P)
        self.root = root

    def on_call(self, fr, st, n, callee, obj, args):
        nm = effects.cname(n)
        if nm == 'accept' and obj is not None:
            st.data['acc'] = st.data.get('acc', frozenset()) | {obj}
            self.sites.append((fr.fn, n, obj, callee))
        elif nm == 'visit' and args:
            st.data['vis'] = st.data.get('vis', frozenset()) | {args[0]}
    sites = None


def strfields(v):
    """names of fields mentioned in a value"""
    out = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, str):
            out.add(x)
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)
    return out


def always_in_loop(fn, blocks, site_block, header):
    """every cycle through the loop header passes site_block"""
    bl = fn.blocks
    seen, stack = set(), [s for s in bl[header]['s'] if s in blocks and s != header]
    if site_block == header:
        return True
    while stack:
        b = stack.pop()
        if b == header:
            return False
        if b in seen or b == site_block or b not in blocks:
            continue
        seen.add(b)
        stack.extend(x for x in bl[b]['s'] if x is not None and x >= 0)
    return True


def forwarding(ctx, P, E, classes, base, table):
    acc = [m for m in P.recs[base].methods if m['name'] == 'accept']
    ctx.need(len(acc) == 2, 'Attributes::accept overloads')
    for r in sorted(classes, key=lambda r: r.name):
        if r.abstract:
            continue
        hs = handles(P, base, r)
        for m in acc:
            u = P.final(r.usr, m['usr'])
            f = P.fns.get(getattr(u, 'usr', u))
            if not ctx.need(f is not None, 'accept of ' + r.short) and f is None:
                continue
            tag = '%s%s' % (r.short, ' const' if f.const else '')
            if not hs:
                # own table only
                ex = AcceptExec(P, f)
                ex.sites = []
                outs, _ = ex.analyze(f, r.usr)
                for o in outs:
                    ctx.check(o.kind == 'return' and ('ref', ('T',)) in o.st.data.get('vis', ()), 'visits-own-table', tag, f.loc(),
                              'a path of accept does not visit the attributes of the object')
                continue
            ex = AcceptExec(P, f)
            ex.sites = []
            outs, fr = ex.analyze(f, r.usr)
            ctx.touched(f)
            ctx.npaths += len(outs)
            rets = [o for o in outs if o.kind == 'return']
            for d, fld, pr, cont in hs:
                what = '%s -> %s' % (tag, fld['name'])
                if not cont:
                    ok = bool(rets) and all(any(fld['name'] in strfields(v) for v in o.st.data.get('acc', ())) for o in rets)
                    ctx.check(ok, 'forwards-to-model', what, f.loc(),
                              'accept of %s does not pass the visitor to the owned %s (%s) on every path' % (r.short, pr.short, fld['name']))
                else:
                    ok, why = container_covered(ctx, P, E, f, r.usr, fld, ex.sites)
                    ctx.check(ok, 'forwards-to-models', what, f.loc(), 'accept of %s does not pass the visitor to every item of %s: %s' % (
                        r.short, fld['name'], why))
            for o in rets:
                ctx.check(('ref', ('T',)) in o.st.data.get('vis', ()), 'visits-own-table', tag, f.loc(),
                          'a path of accept does not visit the attributes of the object itself')
        # unique names
        slots = [('own', {r.short: set(table[r.usr])})]
        for d, fld, pr, cont in hs:
            opts = {}
            for u in P.subclasses(pr.usr):
                q = P.recs[u]
                if not q.abstract and u in table:
                    opts[q.short] = set(table[u])
            if cont:
                slots += [(fld['name'] + '/' + k, {k: v}) for k, v in opts.items()]
            else:
                slots.append((fld['name'], opts))
        for i, (na, oa) in enumerate(slots):
            for nb, ob in slots[i + 1:]:
                for ka, va in oa.items():
                    for kb, vb in ob.items():
                        ctx.check(not (va & vb), 'unique-names', '%s: %s %s / %s %s' % (r.short, na, ka, nb, kb), r.file,
                                  'attribute %s is registered by both %s and %s' % (sorted(va & vb), ka, kb))
    ctx.floor('forwards-to-model', 6)
    ctx.floor('forwards-to-models', 4)


def block_of(fn, i):
    """CFG block that evaluates the node or the expression around it"""
    blk = {e: b for b, x in fn.blocks.items() for e in x['e'] if isinstance(e, int)}
    par = fn.parents()
    while i in par and i not in blk:
        i = par[i]
    return blk.get(i)


def container_covered(ctx, P, E, f, cls, fld, sites):
    """some accept call on an item of the container is executed on each iteration of a complete traversal"""
    why = 'no call of accept on its items'
    for fn, n, obj, callee in sites:
        if fld['name'] not in strfields(obj):
            continue
        b = block_of(fn, n['i'])
        loops = [(h, bl) for h, bl in fn.loops().items() if b in bl]
        if not loops:
            # a call of a lambda in a std algorithm over the container
            why = 'the call is not in a loop'
            continue
        h, bl = min(loops, key=lambda x: len(x[1]))
        if not always_in_loop(fn, bl, b, h):
            why = 'an iteration can skip the call'
            continue
        # early exits: the loop may only be left at its header
        bmap = fn.blocks
        leaves = [x for x in bl if x != h and any(s is not None and s >= 0 and s not in bl for s in bmap[x]['s']) and not bmap[x].get('noret')]
        if leaves:
            why = 'the loop can end before the last item'
            continue
        return True, ''
    return False, why


# (5) machinery -------------------------------------------------------------

class MachExec(sym.Exec):
    def __init__(self, P):
        sym.Exec.__init__(self, P)
        self.events = []

    def on_call(self, fr, st, n, callee, obj, args):
        nm = effects.cname(n) if not (n.get('ptm') or n.get('indirect')) else '->*'
        if nm == '->*':
            fv = set()
            for x in set(n.get('c', ())) | {x for x in (n.get('indirect'), n.get('ptmfn')) if isinstance(x, int) and not isinstance(x, bool)}:
                for m in fr.fn.subtree(x):
                    if m['k'] in ('Var', 'Field', 'Cast', 'Bin'):
                        v = self.getr(fr, st, m['i'])
                        if v is not None:
                            fv.add(v)
            st.data['ptm'] = st.data.get('ptm', ()) + ((frozenset(fv), obj, tuple(args), (fr.fn.short, n.get('l'))),)
        else:
            st.data['ev'] = st.data.get('ev', ()) + ((nm, obj, tuple(args)),)


def machinery(ctx, P, E):
    A = 'attributes::Attributes'
    das = {}
    for f in P.fns.values():
        if 'attributes::DoubleAttribute<' in f.short and f.file.startswith('diffpy') and f.name in ('getValue', 'setValue', 'isreadonly'):
            das.setdefault(f.cls, {})[f.name] = f
    ctx.need(len(das) >= 10, 'instantiations of DoubleAttribute')
    for cls, d in sorted(das.items()):
        short = P.recs[cls].short if cls in P.recs else cls
        if 'isreadonly' in d:
            f = d['isreadonly']
            outs, _ = sym.Exec(P).analyze(f, cls)
            ctx.check(all(o.value == sym.mk_eq(sym.ZERO, ('i', ('T', 'msetter'))) for o in outs), 'readonly-iff-no-setter', short, f.loc(),
                      'isreadonly does not tell exactly whether a setter is missing')
        if 'getValue' in d:
            f = d['getValue']
            ex = MachExec(P)
            outs, _ = ex.analyze(f, cls)
            ctx.touched(f)
            for o in outs:
                calls = o.st.data.get('ptm', ())
                ok = o.kind == 'return' and len(calls) == 1 and ('i', ('T', 'mgetter')) in calls[0][0] | {a for a in calls[0][2]} | {calls[0][1]} \
                    and mentions_param(calls[0], 0) and o.value and o.value[0] in ('f', 'call') and not any(x in repr(o.value) for x in ("'*'", "'+'"))
                ctx.check(ok, 'read-calls-getter', short, f.loc(), 'getValue does not return the result of the registered getter of the object: %s' % show(o.value))
        if 'setValue' in d:
            f = d['setValue']
            ex = MachExec(P)
            outs, _ = ex.analyze(f, cls)
            ctx.touched(f)
            for o in outs:
                calls = o.st.data.get('ptm', ())
                null = o.st.facts.get(sym.mk_eq(sym.ZERO, ('i', ('T', 'msetter'))))
                if o.kind == 'throw':
                    ctx.check(null is True and not calls, 'readonly-rejects', short, f.loc(), 'setValue fails although a setter is registered')
                    continue
                ok = null is False and len(calls) == 1 and ('i', ('T', 'msetter')) in calls[0][0] | set(calls[0][2]) and mentions_param(calls[0], 0) \
                    and any(a in (('p', 1, 'value'),) or (a[0] in ('p',) and a[1] == 1) or vref(ex, o.st, a, 1) for a in calls[0][2])
                ctx.check(ok, 'write-calls-setter', short, f.loc(),
                          'a path of setValue does not pass the unchanged value to the registered setter of the object, or does not reject changes of a read-only attribute')
    # registration stores getter and setter under the name
    for f in P.fns.values():
        if f.name == 'registerDoubleAttribute' and f.file.startswith('diffpy'):
            outs, _ = sym.Exec(P).analyze(f, f.cls)
            for o in outs:
                hit = [v for k, v in o.st.store.items() if 'mdoubleattrs' in k and k[-1] == ('[]', ('i', ('A', 0, f.vars[f.params[0]['v']]['name'])))]
                ok = len(hit) == 1 and hit[0][0] == 'new' and 'DoubleAttribute<' in hit[0][3]
                ctx.check(ok, 'registration-stores', '%s/%d' % (f.short, len(f.params)), f.loc(), 'the accessors are not stored under the given name')
            for nd in f.all('New'):
                pass
            ctor = [n for n in f.all('Ctor') if 'DoubleAttribute' in (n.get('fq') or n.get('t') or '') and len([c for c in n.get('c', ()) if c >= 0]) == 2]
            for n in ctor:
                c = [x for x in n['c'] if x >= 0]
                def pv(i):
                    for m in f.subtree(i):
                        if m['k'] == 'Var':
                            return f.vars[m['v']]['param'] if isinstance(m.get('v'), int) else None
                    return 'null'
                a, b = pv(c[0]), pv(c[1])
                ctx.check(a == 2 and b == (3 if len(f.params) > 3 else 'null'), 'registration-accessors', '%s/%d' % (f.short, len(f.params)), f.loc(),
                          'the registered getter and setter are not the ones stored')
    # name check
    f = P.fq('diffpy::attributes::Attributes::checkAttributeName')
    f = f[0] if isinstance(f, list) else f
    for nm in ('getDoubleAttr', 'setDoubleAttr'):
        g = P.method('attributes::Attributes', nm)
        ex = MachExec(P)
        outs, _ = ex.analyze(g, g.cls)
        ctx.touched(g)
        ctx.npaths += len(outs)
        for o in outs:
            if o.kind != 'return':
                continue
            cnt = {x for k in o.st.facts for x in leaves(k) if x[0] == 'f' and x[-1] == 'mcount'}
            ok = any(sym.Facts.truth(o.st.facts, sym.mk_eq(sym.ZERO, x)) is False and sym.Facts.truth(o.st.facts, sym.mk_lt(sym.ONE, x)) is False for x in cnt)
            ctx.check(ok, 'name-checked', nm, g.loc(), 'the name is not verified to be registered exactly once before it is used')
        ok = all(o.kind != 'return' or (o.value and o.value[0] == 'f' and o.value[-1] == 'mvalue') for o in outs) if nm == 'getDoubleAttr' else True
        ctx.check(ok, 'read-returns-visited-value', nm, g.loc(), 'the value found by the visitor is not what is returned')
        ncheck = sum(1 for n in [e for o in outs for e in o.st.data.get('ev', ()) if e[0] == 'accept'])
        ctx.check(ncheck > 0, 'visits', nm, g.loc(), 'no visitor is sent')
    # visitors
    def visits(cls):
        return [f for f in P.methods_of(P.rec('attributes::Attributes::' + cls).usr) if f.name == 'visit']
    MN = ('i', ('T', 'mname'))
    for f in visits('CountDoubleAttrVisitor'):
        ex = MachExec(P)
        outs, _ = ex.analyze(f, f.cls)
        for o in outs:
            v = o.st.store.get(('T', 'mcount'))
            s = repr(v)
            inc = v is not None and "('i', ('T', 'mcount'))" in s and 'mdoubleattrs' in s and 'mname' in s
            if v is None or not inc:
                # find-based: not found means no change, found means one more
                fnd = [(k, b) for k, b in o.st.facts.items() if 'mdoubleattrs' in repr(k) and 'mname' in repr(k)]
                inc = (v is None and any(b for k, b in fnd)) or (v is not None and v[:2] == ('op', '+') and set(v[2:]) == {('i', ('T', 'mcount')), sym.ONE} and any(not b for k, b in fnd))
            ctx.check(inc, 'count-visitor', f.short, f.loc(), 'the visitor does not count the registrations of the name')
    for f in visits('GetDoubleAttrVisitor'):
        ex = MachExec(P)
        outs, _ = ex.analyze(f, f.cls)
        hit = 0
        for o in outs:
            v = o.st.store.get(('T', 'mvalue'))
            ev = [e for e in o.st.data.get('ev', ()) if e[0] == 'getValue']
            if v is None:
                ctx.check(not ev and notfound(o.st.facts), 'get-visitor', f.short, f.loc(), 'the value of a registered attribute is not taken')
            else:
                hit += 1
                ok = len(ev) == 1 and MN_in(ev[0][1]) and 'mdoubleattrs' in repr(ev[0][1]) and ev[0][2][:1] in ((('ptr', ('A', 0, 'a')),),) and v[0] == 'call' and v[1].endswith('::getValue')
                ctx.check(ok, 'get-visitor', f.short, f.loc(), 'the value is not read from the attribute of the given name')
        ctx.check(hit > 0, 'get-visitor', f.short, f.loc(), 'no value is ever read')
    for f in visits('SetDoubleAttrVisitor'):
        ex = MachExec(P)
        outs, _ = ex.analyze(f, f.cls)
        const = 'const' in ptype(f)
        if const:
            ctx.check(all(o.kind == 'throw' for o in outs), 'set-visitor-const', f.short, f.loc(), 'setting an attribute of a constant object is not rejected')
            continue
        hit = 0
        for o in outs:
            if o.kind == 'throw':
                continue
            ev = [e for e in o.st.data.get('ev', ()) if e[0] == 'setValue']
            if not ev:
                ctx.check(notfound(o.st.facts), 'set-visitor', f.short, f.loc(), 'the value of a registered attribute is not set')
            else:
                hit += 1
                ok = len(ev) == 1 and MN_in(ev[0][1]) and ev[0][2] == (('ptr', ('A', 0, 'a')), ('i', ('T', 'mvalue')))
                ctx.check(ok, 'set-visitor', f.short, f.loc(), 'the given value is not passed to the attribute of the given name')
        ctx.check(hit > 0, 'set-visitor', f.short, f.loc(), 'no value is ever set')
    for cls, nm in (('SetDoubleAttrVisitor', 'value'), ('GetDoubleAttrVisitor', None), ('CountDoubleAttrVisitor', None)):
        for f in P.methods_of(P.rec('attributes::Attributes::' + cls).usr):
            if f.name != cls or iscopy(f, P.recs[f.cls]):
                continue
            outs, _ = sym.Exec(P).analyze(f, f.cls)
            for o in outs:
                n = o.st.store.get(('T', 'mname'))
                ok = n is not None and refers(n, 0)
                if nm:
                    w = o.st.store.get(('T', 'mvalue'))
                    ok = ok and w is not None and refers(w, 1)
                if cls.startswith('Count'):
                    ok = ok and o.st.store.get(('T', 'mcount')) == sym.ZERO
                ctx.check(ok, 'visitor-setup', f.short, f.loc(), 'the visitor is not set up with the given name and value')
    for f in P.methods_of(P.rec('attributes::Attributes::NamesOfDoubleAttributesVisitor').usr):
        if f.name == 'NamesOfDoubleAttributesVisitor' and not iscopy(f, P.recs[f.cls]):
            outs, _ = sym.Exec(P).analyze(f, f.cls)
            ctx.check(all(refers(o.st.store.get(('T', 'mexcludereadonly'), ('?',)), 0) for o in outs), 'visitor-setup', f.short, f.loc(),
                      'the visitor does not take over the request to exclude read-only attributes')
    names_visitor(ctx, P, visits('NamesOfDoubleAttributesVisitor'))
    for nm, want in (('namesOfDoubleAttributes', 0), ('namesOfWritableDoubleAttributes', 1)):
        g = P.method('attributes::Attributes', nm)

        class NE(sym.Exec):
            def on_call(self, fr, st, n, callee, obj, args):
                if effects.cname(n) == 'accept' and args and args[0][0] == 'ref':
                    v = self.load(st, args[0][1])
                    st.data['ex'] = st.data.get('ex', ()) + ((v[4] if v[0] == 'obj' and len(v) == 5 else ('?',)),)
        outs, _ = NE(P).analyze(g, g.cls)
        ctx.touched(g)
        for o in outs:
            ex = o.st.data.get('ex', ())
            ctx.check(len(ex) == 1 and truthy(ex[0]) is bool(want), 'names-mode', nm, g.loc(),
                      'the list of names %s read-only attributes' % ('must exclude' if want else 'must include'))


def truthy(v):
    if v[0] == 'c':
        return bool(v[1])
    return None


def leaves(v):
    out, stack = [], [v]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                out.append(x)
            stack.extend(y for y in x if isinstance(y, (tuple, frozenset)))
        elif isinstance(x, frozenset):
            stack.extend(x)
    return out


def MN_in(v):
    return 'mname' in repr(v)


def notfound(facts):
    for k, b in facts.items():
        s = repr(k)
        if 'mdoubleattrs' in s and 'mname' in s:
            if k[0] == 'eq' and 'end' in s and b:
                return True
            if k[0] == 'eq' and k[1] == sym.ZERO and b:
                return True
    return False


def refers(v, pi):
    if v[0] == 'ref':
        v = ('i', v[1])
    return isparam(v, pi)


def vref(ex, st, a, pi):
    if a[0] == 'ref':
        v = st.store.get(a[1])
        if v is None:
            v = ('i', a[1])
        return isparam(v, pi)
    return isparam(a, pi)


def mentions_param(call, pi):
    return any(x and "('p', %d," % pi in repr(x) for x in (call[1],) + call[2])


def names_visitor(ctx, P, fns):
    """an attribute is listed unless read-only ones are excluded and it is read-only"""
    for f in fns:
        class NV(sym.Exec):
            def on_call(self, fr, st, n, callee, obj, args):
                nm = effects.cname(n)
                if nm == 'isreadonly':
                    st.data['item'] = obj[1] if obj and obj[0] == 'ref' else None
                elif nm in ('insert', 'emplace') and obj and 'mnames' in repr(obj):
                    excl, ro = flags(st)
                    NV.ins += 1
                    if not (excl is False or ro is False):
                        NV.badins += 1
                    st.data['ins'] = True
                elif nm == 'operator++':
                    excl, ro = flags(st)
                    if not st.data.get('ins') and not (excl is True and ro is True):
                        NV.badskip += 1
                    st.data['ins'] = False
                    st.data['item'] = None
                return None
            ins = badins = badskip = 0

        def flags(st):
            excl = st.facts.get(sym.mk_eq(sym.ZERO, ('i', ('T', 'mexcludereadonly'))))
            excl = None if excl is None else not excl
            ro = None
            for k, b in st.facts.items():
                if k[0] == 'eq' and k[1] == sym.ZERO and k[2][0] == 'call' and k[2][1].endswith('isreadonly') and \
                        st.data.get('item') and st.data['item'] in leaves(k[2]):
                    ro = not b
            return excl, ro
        outs, _ = NV(P).analyze(f, f.cls)
        ctx.touched(f)
        ctx.check(NV.ins > 0 and not NV.badins, 'names-visitor', f.short + ':listed', f.loc(), 'a read-only attribute can be listed as writable')
        ctx.check(not NV.badskip, 'names-visitor', f.short + ':complete', f.loc(), 'an attribute can be left out from the list')
