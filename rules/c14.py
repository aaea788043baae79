"""Degenerate operands.  Every floating-point or integer division, square root, logarithm, inverse sine or cosine in the library is
an obligation: on every path that reaches it the divisor is not zero and the operand is inside the domain.  Paths are executed
symbolically; a bound follows from the guards passed on the path, from the operands themselves (squares, absolute values,
exponentials, clamping by min and max), or from an invariant of a data member which every writer of that member maintains (the
writers are executed too).  When the operand depends on the arguments of an internal function the obligation is decided at its
callers.  'division', 'domain', 'positive-distance' (the bond search never yields a pair of zero distance)."""
import math
import os
import pickle
import sys
import traceback
import sym, effects
from sym import Facts, ZERO, ONE, mk_eq, mk_lt, mk_not, mk_truth
from c12 import deep

ASSUMPTIONS = [
    'products and squares of values that are not zero do not underflow',
    'lattices are not degenerate: edges, sines of angles and volume are positive (singular bases are rejected, see C12)',
]
INF = math.inf
# quantities that are positive by the assumptions: (class, member)
NONDEGENERATE = {
    ('Lattice', x) for x in 'ma mb mc msina msinb msing mar mbr mcr msinar msinbr msingr'.split()
} | {('LatticeParameters', x) for x in 'a b c sa sb sg ar br cr sar sbr sgr'.split()}


class Rng:
    __slots__ = ('lo', 'los', 'hi', 'his', 'nz')

    def __init__(self, lo=-INF, los=False, hi=INF, his=False, nz=False):
        self.lo, self.los, self.hi, self.his = lo, los, hi, his
        self.nz = nz or lo > 0 or hi < 0 or lo == 0 and los or hi == 0 and his

    def both(self, o):
        lo, los = max((self.lo, self.los), (o.lo, o.los))
        hi, his = min((self.hi, not self.his), (o.hi, not o.his))
        return Rng(lo, los, hi, not his, self.nz or o.nz)

    def either(self, o):
        lo, los = min((self.lo, self.los), (o.lo, o.los))
        hi, his = max((self.hi, not self.his), (o.hi, not o.his))
        return Rng(lo, los, hi, not his, self.nz and o.nz)

    @property
    def nonneg(self):
        return self.lo >= 0

    @property
    def pos(self):
        return self.lo > 0 or self.lo == 0 and (self.los or self.nz)

    @property
    def neg(self):
        return self.hi < 0 or self.hi == 0 and (self.his or self.nz)

    def __repr__(self):
        return '%s%g,%g%s%s' % ('(' if self.los else '[', self.lo, self.hi, ')' if self.his else ']', ' nz' if self.nz else '')


ANY, POS, NONNEG, NZ = Rng(), Rng(0, True), Rng(0), Rng(nz=True)


def exact(x):
    return Rng(x, False, x, False)


def neg(a):
    return Rng(-a.hi, a.his, -a.lo, a.los, a.nz)


def add(a, b):
    return Rng(a.lo + b.lo, a.los or b.los, a.hi + b.hi, a.his or b.his)


def mul(a, b):
    if a.lo < 0 and a.hi <= 0:
        return neg(mul(neg(a), b))
    if b.lo < 0 and b.hi <= 0:
        return neg(mul(a, neg(b)))
    nz = a.nz and b.nz
    if a.nonneg and b.nonneg:
        hi = 0 if 0 in (a.hi, b.hi) else a.hi * b.hi
        return Rng(a.lo * b.lo if INF not in (a.lo, b.lo) else 0, nz and 0 in (a.lo, b.lo), hi, a.his or b.his, nz)
    if abs(a.lo) < INF and abs(a.hi) < INF and abs(b.lo) < INF and abs(b.hi) < INF:
        ps = [x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
        return Rng(min(ps), False, max(ps), False, nz)
    return Rng(nz=nz)


def factors(v):
    """(numerator, denominator) factors of a product"""
    v = sym.expand(v)
    if v[0] == 'op' and len(v) == 4 and v[1] == '*':
        a, b = factors(v[2]), factors(v[3])
        return a[0] + b[0], a[1] + b[1]
    if v[0] == 'op' and len(v) == 4 and v[1] == '/':
        a, b = factors(v[2]), factors(v[3])
        return a[0] + b[1], a[1] + b[0]
    if v[0] == 'op' and v[1] == 'neg':
        return factors(v[2])
    return [v], []


class Prover:
    def __init__(self, facts, known):
        self.facts, self.known = facts, known
        self.memo = {}
        self.infeasible = False
        self.busy = set()
        self.products = [v for (k, t) in facts.items() if k[0] in ('eq', 'lt') for v in k[1:3]
                         if isinstance(v, tuple) and sym.expand(v)[0] == 'op' and sym.expand(v)[1] in ('*', '/', 'neg')]

    def __call__(self, v):
        if v in self.memo:
            return self.memo[v]
        if v in self.busy:
            return ANY
        self.busy.add(v)
        r = self.structure(v)
        for f, t in self.facts.items():
            if f[0] == 'lt' and v in f[1:3]:
                a, b = f[1:3]
                other = self(b if a == v else a)
                if a == v:
                    # v < b, or v >= b
                    r = r.both(Rng(hi=other.hi, his=True) if t else Rng(lo=other.lo, los=other.los))
                else:
                    r = r.both(Rng(lo=other.lo, los=True) if t else Rng(hi=other.hi, his=other.his))
            elif f[0] == 'eq' and v in f[1:3]:
                other = self(f[2] if f[1] == v else f[1])
                if t:
                    r = r.both(other)
                elif other.lo == other.hi == 0:
                    r = r.both(NZ)
                    if r.nonneg:
                        r = r.both(POS)
            elif f == v:
                r = r.both(NZ if t else exact(0))
            elif v[0] == 'call' and v[1] == 'size' and f[0] == 'call' and f[1] == 'empty' and f[2:] == v[2:] and t is False:
                r = r.both(Rng(1))
        if not r.nz:
            for p in self.products:
                if p != v and v in factors(p)[0] and self(p).nz:
                    r = r.both(NZ)
                    break
                if v in factors(p)[1] and self(p).nz:
                    r = r.both(NZ)
                    break
        r = Rng(r.lo, r.los or r.lo == 0 and r.nz, r.hi, r.his or r.hi == 0 and r.nz, r.nz)
        if r.lo > r.hi or r.lo == r.hi and (r.los or r.his):
            self.infeasible = True
        self.busy.discard(v)
        if not self.busy:
            self.memo[v] = r
        return r

    def structure(self, v):
        v = sym.expand(v)
        k = v[0]
        if k == 'c':
            if isinstance(v[1], bool) or isinstance(v[1], (int, float)):
                return exact(v[1])
            return ANY
        if k == 'op' and len(v) == 3 and v[1] == 'neg':
            return neg(self(v[2]))
        if k == 'op' and len(v) == 4:
            a, b = v[2], v[3]
            if v[1] == '+':
                return add(self(a), self(b))
            if v[1] == '-':
                return Rng(nz=True) if self.differ(a, b) else add(self(a), neg(self(b)))
            if v[1] == '*':
                if sorted(map(repr, self.flat(a))) == sorted(map(repr, self.flat(b))):
                    x = self.absolute(self(a))
                    return mul(x, x)
                # pairs of equal factors
                fs = self.flat(v)
                sq, rest = Rng(1, False, 1), []
                for f in fs:
                    if f in rest:
                        rest.remove(f)
                        x = self.absolute(self(f))
                        sq = mul(sq, mul(x, x))
                    else:
                        rest.append(f)
                r = sq
                for f in rest:
                    r = mul(r, self(f))
                return r
            if v[1] == '/':
                x, y = self(a), self(b)
                if y.pos:
                    return mul(x, Rng(0, True))
                if y.neg:
                    return neg(mul(x, Rng(0, True)))
                return Rng(nz=x.nz)
            if v[1] == '<<':
                x = self(a)
                return x if x.nonneg else ANY
            if v[1] == '%':
                return NONNEG if self(a).nonneg else ANY
        if k == 'cond':
            return self.choice(v)
        if k in ('and', 'or', 'not', 'eq', 'lt'):
            return Rng(0, False, 1)
        if k == 'call':
            return self.function(v)
        return self.known(v, self)

    def choice(self, v):
        out = None
        for val, x in ((True, v[2]), (False, v[3])):
            for fs in Facts.assume(self.facts, v[1], val):
                r = Prover(fs, self.known)(x) if len(fs) != len(self.facts) else self(x)
                out = r if out is None else out.either(r)
        return out or ANY

    def flat(self, v):
        v = sym.expand(v)
        return self.flat(v[2]) + self.flat(v[3]) if v[0] == 'op' and len(v) == 4 and v[1] == '*' else [v]

    def differ(self, a, b):
        return any(not t and f[0] == 'eq' and set(f[1:3]) == {a, b} or t and f[0] == 'lt' and set(f[1:3]) == {a, b}
                   for f, t in self.facts.items())

    def absolute(self, a):
        if a.nonneg:
            return a
        if a.hi <= 0:
            return neg(a)
        return Rng(0, a.nz, max(-a.lo, a.hi), False, a.nz)

    def function(self, v):
        name = v[1].split('::')[-1].split('(')[0]
        args = [x for x in v[2:] if isinstance(x, tuple)]
        R = [self(x) for x in args[:2]]
        if name in ('fabs', 'abs'):
            return self.absolute(R[0]) if R else NONNEG
        if name in ('exp', 'exp2'):
            return POS
        if name in ('cos', 'sin', 'cosd', 'sind', 'tanh', 'erf', 'gsl_sf_erf'):
            nz = name not in ('cos', 'sin', 'cosd', 'sind') and R and R[0].nz
            lo = 0 if name in ('tanh', 'erf', 'gsl_sf_erf') and R and R[0].nonneg else -1
            return Rng(lo, False, 1, False, nz)
        if name in ('acos',):
            return Rng(0, False, math.pi)
        if name == 'sqrt' and R:
            return Rng(0, R[0].nz, INF, False, R[0].nz)
        if name in ('log', 'log2', 'log10') and R:
            a = R[0]
            if a.hi < 1 or a.hi == 1 and a.his:
                return Rng(-INF, False, 0, True)
            if a.lo >= 1:
                return Rng(0, a.lo > 1 or a.los)
            return ANY
        if name == 'pow' and len(R) == 2:
            if args[1][0] == 'c' and isinstance(args[1][1], (int, float)) and args[1][1] % 2 == 0:
                x = self.absolute(R[0])
                return Rng(0, x.nz, INF, False, x.nz)
            if R[0].nonneg:
                return Rng(0, R[0].nz)
            return Rng(nz=R[0].nz)
        if name in ('max', 'fmax', 'min', 'fmin') and len(R) == 2:
            a, b = R
            if 'max' in name:
                lo, los = max((a.lo, a.los), (b.lo, b.los))
                hi, his = max((a.hi, not a.his), (b.hi, not b.his))
            else:
                lo, los = min((a.lo, a.los), (b.lo, b.los))
                hi, his = min((a.hi, not a.his), (b.hi, not b.his))
            return Rng(lo, los, hi, not his, a.nz and b.nz)
        if name == 'clamp' and len(args) == 3:
            a, b = self(args[1]), self(args[2])
            return Rng(a.lo, a.los, b.hi, b.his)
        if name in ('size', 'length', 'count', 'capacity', 'countSites', 'siteOccupancy'):
            return NONNEG
        if name == 'siteMultiplicity':
            return POS
        if name in ('ceil', 'floor', 'round', 'trunc', 'fmod', 'int', 'double') and R:
            a = R[0]
            if name == 'ceil':
                return Rng(math.ceil(a.lo) if a.lo > -INF else a.lo, a.lo == 0 and a.los, INF)
            return NONNEG if a.nonneg else ANY
        return self.known(v, self)


POSITIVE_GLOBALS = ('GAUSS_SIGMA_TO_FWHM', 'SQRT_DOUBLE_EPS', 'DOUBLE_EPS', 'DOUBLE_MAX', 'UtoB')
DOMAIN = ('sqrt', 'log', 'log2', 'log10', 'log1p', 'acos', 'asin', 'acosh', 'atanh', 'fmod', 'remainder', 'pow', 'acosd', 'asind')
EPS = ('eps_eq', 'eps_gt', 'eps_lt')


def obligations(f):
    """nodes of f whose operand has to be valid"""
    for n in f.nodes.values():
        if n['k'] == 'Bin' and n.get('op') in ('/', '%') or n['k'] == 'Assign' and n.get('op') in ('/=', '%='):
            yield n
        elif n['k'] == 'Call' and n.get('op') in ('/', '/='):
            yield n
        elif n['k'] == 'Call' and (n.get('fq') or '').split('::')[-1].split('<')[0] in DOMAIN:
            yield n


def operand_text(v, depth=0):
    v = sym.expand(v)
    if v[0] == 'c':
        return '%s' % (v[1],)
    if v[0] == 'i':
        return '.'.join(x if isinstance(x, str) else '[]' for x in v[1][1:]) or 'this'
    if v[0] == 'p':
        return v[2]
    if v[0] == 'op' and len(v) == 4 and depth < 3:
        return '(%s %s %s)' % (operand_text(v[2], depth + 1), v[1], operand_text(v[3], depth + 1))
    if v[0] == 'call':
        return '%s()' % v[1]
    return '...'


def covers(c, r):
    return not (c is POS and not r.pos or c is NONNEG and not r.nonneg or c is NZ and not r.nz)


class Num(sym.Exec):
    max_depth = 2
    max_inline_nodes = 140
    head_limit = 4
    outcome_limit = 4

    def __init__(self, P, an, want, force=()):
        super().__init__(P)
        self.an, self.want, self.force = an, want, set(force)
        self.max_depth = type(self).max_depth + max(0, len(force) - 1)
        self.results = {}
        self.watch = None
        self.writes = []

    def should_inline(self, fr, fn, n):
        if fn.usr in self.force:
            return True
        if fn.name in EPS or fn.name in DOMAIN or not fn.file.startswith('diffpy'):
            return False
        if fn.cls and fn.cls in self.an.contracts and fn.name in ('volume', 'volumeNormal', 'norm', 'dot'):
            return False
        if fn.short.startswith('R3::') or fn.ctor and not self.force:
            return False
        return len(fn.nodes) <= 60 or fn.name.startswith('ensure')

    def oblige(self, fr, st, n, kind, v):
        if fr.fn.usr not in self.want:
            return
        # the same value in the frames of the caller
        ok = self.an.valid(self, st, kind, v)
        r = self.results.setdefault((fr.fn.usr, n['i'], kind), [True, None, False])
        if not ok:
            r[0], r[1] = False, v
            r[2] = r[2] or deep(v, lambda x: x[0] in ('p', 'A'))

    def on_element(self, fr, st, n):
        if fr.fn.usr not in self.want:
            return
        k = n['k']
        if k == 'Bin' and n.get('op') in ('/', '%') or k == 'Assign' and n.get('op') in ('/=', '%='):
            v = self.getr(fr, st, n['c'][1])
            self.oblige(fr, st, n, 'division', v)

    def on_call(self, fr, st, n, callee, obj, args):
        name = effects.cname(n)
        R = lambda v: self.rvalue(fr, st, v)
        if n.get('op') in ('/', '/=') and fr.fn.usr in self.want:
            v = R(args[-1])
            self.oblige(fr, st, n, 'division', v)
        if callee is not None and callee.name in EPS and len(args) >= 2:
            a, b = R(args[0]), R(args[1])
            near = ('call', 'near', a, b)
            v = {'eps_eq': ('or', mk_eq(a, b), mk_truth(near)), 'eps_lt': sym.mk_op('&&', mk_lt(a, b), near),
                 'eps_gt': sym.mk_op('&&', mk_lt(b, a), near)}[callee.name]
            return [(st, v)]
        if callee is None or not callee.blocks or not callee.file.startswith('diffpy') or callee.name in DOMAIN:
            v = [R(a) for a in args]
            if name in DOMAIN and v:
                if name in ('fmod', 'remainder'):
                    self.oblige(fr, st, n, 'division', v[1])
                elif name == 'pow':
                    if not (v[1][0] == 'c' and v[1][1] == int(v[1][1]) and v[1][1] >= 0):
                        self.oblige(fr, st, n, 'pow', ('call', 'powargs', v[0], v[1]))
                else:
                    self.oblige(fr, st, n, name, v[0])
            if obj is None and name in DOMAIN + ('fabs', 'abs', 'exp', 'cos', 'sin', 'max', 'min', 'ceil', 'floor', 'round', 'fmax', 'fmin', 'gsl_sf_erf', 'erf', 'clamp', 'tanh', 'trunc'):
                return [(st, sym.cap(('call', name) + tuple(v)))]
        return None

    def complete(self, f, cls):
        """analyze until the assumed loop invariants hold"""
        for _ in range(4):
            self.spoiled = False
            self.results, self.writes = {}, []
            out = self.analyze(f, cls)
            if not self.spoiled:
                break
        return out

    def widen(self, fn, fr, head, body, st):
        old = dict(st.store)
        facts = st.facts
        ent = dict(st.data.get(('loop', fr.tok, head), ()))
        super().widen(fn, fr, head, body, st)
        for p, v in st.store.items():
            if v[0] in ('w', 'f', 'phi') and old.get(p) != v:
                self.contribute(v, old.get(p, ('i', p)), facts)
                self.contribute(v, ent.get(p, ('i', p)), facts)

    def join(self, fr, head, a, b):
        s = super().join(fr, head, a, b)
        for p, v in s.store.items():
            if v[0] == 'phi' and v[1] == fr.tok and v[2] == head:
                for x in (a, b):
                    self.contribute(v, self.load(x, p), x.facts)
        return s

    def contribute(self, phi, value, facts):
        """a value which phi may have"""
        if value == phi:
            return
        d = self.an.contrib.setdefault(phi, {})
        old = d.get(value)
        if old is not None:
            if len(old) <= len(facts) and all(facts.get(k) == t for k, t in old.items()):
                return
            d[value] = {k: t for k, t in old.items() if facts.get(k) == t}
        else:
            d[value] = dict(facts)
        c = self.an.loopinv.get(phi)
        if c is not None and c is not ANY and not covers(c, Prover(d[value], self.an.known)(value)):
            self.spoiled = True
            self.an.loopinv.clear()

    def on_write(self, fr, st, n, path, value, old, cond):
        if self.watch is not None and path[-1] == self.watch:
            self.writes.append(self.an.range(self, st, self.rvalue(fr, st, value)))


class Analysis:
    def __init__(self, P, ctx):
        self.P, self.ctx = P, ctx
        self.contracts = {P.rec('Lattice').usr}
        self.inv = {}
        self.loopinv = {}
        self.sums = {}
        self.contrib = {}
        self.generator = P.rec('BaseBondGenerator').usr
        self.owners = {}
        for u, r in P.recs.items():
            if r.file.startswith('diffpy') and '/tests/' not in r.file:
                for f in r.fields:
                    self.owners.setdefault(f['name'], []).append((u, f))
        self.users = {}
        self.byname = {}
        for f in P.fns.values():
            if not f.file.startswith('diffpy') or '/tests/' in f.file or not f.blocks:
                continue
            self.byname.setdefault(f.name if f.cls not in P.recs else P.recs[f.cls].name + '::' + f.name, []).append(f)
            self.byname.setdefault(f.short, []).append(f)
            for n in f.nodes.values():
                if n['k'] in ('Field', 'Init') and n.get('fu') or n['k'] == 'Init':
                    self.users.setdefault(n.get('f'), set()).add(f.usr)

    def range(self, ex, st, v):
        return Prover(st.facts, self.known)(v)

    def known(self, v, R):
        if v[0] == 'op' and len(v) == 3 and v[1] == 'int':
            return NONNEG if R(v[2]).nonneg else ANY
        if v[0] == 'call':
            name = v[1].split('::')[-1].split('(')[0]
            if name == 'norm' and v[-1][0] == 'i' and v[-1][1][-1] == 'mr01':
                return POS
            if name in ('norm', 'volume', 'volumeNormal', 'ucMaxDiagonalLength'):
                return POS if name != 'norm' else NONNEG
            if name == 'dot' and len(v) >= 4 and v[-1] == v[-2]:
                return NONNEG
            return self.summary(v[1])
        if v[0] in ('w', 'f', 'phi') and v in self.contrib:
            return self.loop(v)
        path = None
        if v[0] == 'i':
            path = v[1]
        elif v[0] == 'sel':
            path = ('?',) + tuple(v[2])
        elif v[0] == 'w':
            path = v[-1] if isinstance(v[-1], tuple) else None
        if not path:
            return ANY
        if path[0] == 'G':
            return POS if path[1].split('::')[-1] in POSITIVE_GLOBALS else ANY
        name = path[-1]
        if not isinstance(name, str) or name not in self.owners or v[0] == 'w':
            return ANY
        own = [(u, f) for u, f in self.owners[name] if '[' not in f['type']]
        if not own:
            return ANY
        if len(path) > 2 and isinstance(path[-2], str) and len(own) > 1:
            # members of an object held in a data member of known type
            types = [f['type'] for _, f in self.owners.get(path[-2], ())]
            part = [(u, f) for u, f in own if any(self.P.recs[u].name.split('::')[-1] in t for t in types)]
            own = part or own
        if all((self.P.recs[u].name.split('::')[-1], name) in NONDEGENERATE for u, _ in own):
            return POS
        if all(self.P.isa(u, self.generator) for u, _ in own) and name == 'mdistance' and path[0] != 'T':
            return POS
        r = None
        for u, f in own:
            x = self.invariant(u, f)
            r = x if r is None else r.either(x)
        return r

    def loop(self, phi):
        """range of a value at the head of a loop"""
        if phi in self.loopinv:
            return self.loopinv[phi]
        for c in (POS, NONNEG, NZ):
            saved = dict(self.loopinv)
            self.loopinv[phi] = c
            if all(covers(c, Prover(facts, self.known)(v)) for v, facts in list(self.contrib[phi].items())):
                return c
            self.loopinv = saved
        self.loopinv[phi] = ANY
        return ANY

    def summary(self, q):
        """range of the results of a function of the library"""
        if not q.startswith('diffpy::'):
            return ANY
        if q not in self.sums:
            self.sums[q] = ANY
            out = None
            base = q.split('(')[0]
            for f in self.byname.get(base, ()):
                if len(f.nodes) > 300:
                    return ANY
                ex = Num(self.P, self, ())
                outs, fr = ex.complete(f, f.cls)
                for o in outs:
                    if o.kind == 'return' and o.value is not None:
                        r = self.range(ex, o.st, ex.rvalue(fr, o.st, o.value))
                        out = r if out is None else out.either(r)
            out = out or ANY
            # keep only the sign
            self.sums[q] = POS if out.pos else NONNEG if out.nonneg else NZ if out.nz else ANY
        return self.sums[q]

    def invariant(self, u, f):
        key = (u, f['name'])
        if key in self.inv:
            return self.inv[key]
        if not any(t in f['type'] for t in ('double', 'int', 'float', 'long', 'size_t')) or '<' in f['type']:
            self.inv[key] = ANY
            return ANY
        cand = [POS, NONNEG, NZ]
        for c in cand:
            saved = dict(self.inv)
            self.inv[key] = c
            if self.maintained(u, f, c):
                return c
            self.inv = saved
        self.inv[key] = ANY
        return ANY

    def maintained(self, u, f, c):
        fns = [self.P.fns[x] for x in self.users.get(f['name'], ())]
        some = False
        for g in sorted(fns, key=lambda g: g.usr):
            if g.const or g.name in ('serialize', 'save', 'load') or g.name.startswith('operator'):
                continue
            ex = Num(self.P, self, ())
            ex.watch = f['name']
            ex.complete(g, g.cls)
            for r in ex.writes:
                some = True
                if not covers(c, r):
                    return False
        return some

    def valid(self, ex, st, kind, v):
        R = Prover(st.facts, self.known)
        r = R(v)
        if R.infeasible:
            return True
        if kind == 'division':
            return r.nz
        if kind == 'pow':
            base, e = R(v[2]), R(v[3])
            return base.pos or base.nonneg and e.nonneg or base.nz and v[3][0] == 'c' and v[3][1] == int(v[3][1])
        if kind == 'sqrt':
            return r.nonneg
        if kind.startswith('log'):
            return r.pos
        if kind in ('acos', 'asin', 'acosd', 'asind'):
            return r.lo >= -1 and r.hi <= 1
        return False

    def solve(self, f, cls=None, want=None, force=()):
        ex = Num(self.P, self, want or (f.usr,), force)
        ex.complete(f, cls or f.cls)
        return ex.results


def exempt(P, f):
    """members of classes of lattice parameters which define the lattice"""
    return f.cls in P.recs and P.recs[f.cls].name.split('::')[-1] in ('Lattice', 'LatticeParameters') and not (f.const and f.params)


def mentions(what):
    return lambda v: deep(v, lambda x: isinstance(x, tuple) and what in x)


# operands that cannot be bounded from the source: (class, kind, recognized operand, reason)
TRUSTED = [
    ('Lattice', 'division', lambda v: deep(v, lambda x: x[0] == 'call' and str(x[1]).endswith('::norm')),
     'the angle with a zero vector is not defined'),
    ('OverlapCalculator', 'division', mentions('mvalue'), 'stored distance of a pair, which the bond search keeps positive'),
    ('PointsInSphere', 'sqrt', mentions('latpar'), 'positive definite quadratic form of the lattice'),
    ('ReflectionsInQminQmax', 'division', lambda v: deep(v, lambda x: x[0] == 'call' and str(x[1]).endswith('::r')),
     'the plane spacing of the origin is infinite'),
    ('CrystalStructureAdapter', 'division', lambda v: v[0] == 'sel', 'number of merged positions, counted from the first of them'),
    ('ReflectionsInDmaxDmin', 'division', lambda v: deep(v, lambda x: x[0] == 'p'), 'requested spacing limits are positive'),
    ('DebyePDFCalculator', 'division', lambda v: deep(v, lambda x: x[:2] == ('call', 'size')),
     'size of the result of the Fourier transform, which is at least its input size'),
]


# operands that depend on the caller: (class of the caller, function called, recognized operand, reason)
TRUSTED_CALLS = [
    ('PDFCalculator', 'fftftog', lambda v: v == sym.ZERO or deep(v, lambda x: x == ('op', '/', sym.ZERO, sym.ZERO)),
     'the Q step is zero only if the grid is empty, and then the transform returns before it divides'),
]


def trusted_call(P, g, chain, v):
    names = {P.recs[u].name.split('::')[-1] for u in list(P.mro(g.cls)) if u in P.recs} if g.cls in P.recs else set()
    called = {P.fns[u].name for u in chain if u in P.fns}
    return v is not None and any(cls in names and fn in called and rec(v) for cls, fn, rec, why in TRUSTED_CALLS)


def trusted(P, f, kind, v):
    names = set()
    if f.cls in P.recs:
        names = {P.recs[u].name.split('::')[-1] for u in [f.cls] + list(P.mro(f.cls)) if u in P.recs}
    for cls, k, rec, why in TRUSTED:
        if cls in names and k == kind and v is not None and rec(v):
            return why
    return None


def at_callers(P, A, callers, f, i, kind, force=(), depth=0):
    """decide an operand that depends on the arguments of f at the calls of f"""
    fns = {}
    for g, n in callers.get(f.usr if not force else force[-1], ()):
        if g.cls and g.cls not in P.recs and g.usr not in lambdas(P):
            continue
        if g.file.startswith('diffpy') and '/tests/' not in g.file and g.usr != f.usr:
            fns[g.usr] = g
    if not fns:
        return False, None
    force = tuple(force) or (f.usr,)
    for g in sorted(fns.values(), key=lambda g: (g.file, g.line)):
        res = A.solve(g, None, (f.usr,), force)
        r = res.get((f.usr, i, kind))
        if r is None or r[0] or trusted_call(P, g, force, r[1]):
            continue
        # a lambda body uses the variables of the function around it
        if (r[2] or g.usr in lambdas(P)) and depth < 2:
            ok, where = at_callers(P, A, callers, f, i, kind, force + (g.usr,), depth + 1)
            if ok:
                continue
            return False, where or g
        return False, g
    return True, None


def lambdas(P):
    if not hasattr(P, '_lambdas'):
        P._lambdas = {n['fn'] for g in P.fns.values() for n in g.nodes.values() if n['k'] == 'Lambda' and n.get('fn')}
    return P._lambdas


def decide(P, A, callers, f):
    """[(node, kind, verdict, operand, where or reason)]"""
    out = []
    for (usr, i, kind), (ok, v, par) in sorted(A.solve(f).items()):
        n, where = f.nodes[i], None
        if not ok:
            why = trusted(P, f, kind, v)
            if why:
                out.append((i, kind, 'trusted', operand_text(v), why))
                continue
            if par:
                ok, g = at_callers(P, A, callers, f, i, kind)
                where = g.short if g else None
        out.append((i, kind, 'ok' if ok else 'bad', operand_text(v) if v else '', where))
    return out


def parallel(fs, work):
    """results of work(f) evaluated in forked processes"""
    n = max(1, min(8, os.cpu_count() or 1))
    out, jobs = {}, []
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            code = 1
            try:
                os.close(r)
                got = [(f.usr, work(f)) for f in fs[k::n]]
                with os.fdopen(w, 'wb') as fp:
                    pickle.dump(got, fp)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        jobs.append((pid, r))
    failed = False
    for pid, r in jobs:
        with os.fdopen(r, 'rb') as fp:
            data = fp.read()
        _, st = os.waitpid(pid, 0)
        if st:
            failed = True
        else:
            out.update(pickle.loads(data))
    if failed:
        raise RuntimeError('analysis of operands failed')
    return out


def check_operands(ctx):
    P = ctx.P
    callers = P.callers()
    callers = {u: list(x) for u, x in callers.items()}
    for g in P.fns.values():
        for n in g.nodes.values():
            if n['k'] == 'Lambda' and n.get('fn'):
                callers.setdefault(n['fn'], []).append((g, n))
    A = Analysis(P, ctx)
    fs = []
    for f in sorted(P.fns.values(), key=lambda f: (f.file, f.line, f.usr)):
        if not f.file.startswith('diffpy') or '/tests/' in f.file or not f.blocks:
            continue
        if not any(True for n in obligations(f)) or exempt(P, f) or f.name in DOMAIN:
            continue
        fs.append(f)
    weight = sorted(fs, key=lambda f: -len(f.nodes))
    res = parallel(weight, lambda f: decide(P, A, callers, f))
    for f in fs:
        ctx.touched(f)
        for i, kind, verdict, text, note in res[f.usr]:
            n = f.nodes[i]
            rule = 'division' if kind == 'division' else 'domain'
            if verdict == 'trusted':
                ctx.touched(f)
                continue
            what = 'divisor' if kind == 'division' else 'operand of ' + kind
            ctx.check(verdict == 'ok', rule, '%s %s' % (f.short, kind), f.loc(n),
                      'the %s %s is not guarded against %s%s' % (
                          what, text, 'zero' if kind == 'division' else 'values outside of the domain',
                          ' when called from ' + note if note else ''))


def check_distance(ctx):
    """no pair of zero distance is ever presented by a bond generator"""
    import c21
    c21.check_presented(ctx, 'positive-distance', range_too=False)


def run(ctx):
    check_operands(ctx)
    check_distance(ctx)
    ctx.floor('positive-distance', 4)
    ctx.floor('division', 40)
    ctx.floor('domain', 10)
