"""The summaries of cosd, sind, acosd and asind, i.e. the conditions and value of every path, are derived from the sources.  (1)
'discrete': a path that returns a constant is only taken on a grid of arguments, because its condition contains an exact equality of
the argument or of its remainder.  (2) 'special': at every point of the grids the path condition that holds selects one path; a
constant there is the correctly rounded value of the function, and at the arguments of exact results (multiples of 60 or 90 degrees;
0, 0.5 and 1) the path does return a constant.  (3) 'generic': every other path returns an expression whose normal form is the standard
function of the argument, with the factor of degrees to radians."""
import math
from fractions import Fraction
import model, sym
from sym import ZERO

ASSUMPTIONS = ['the standard cos, sin, acos, asin, fmod, remainder, round and fabs are correct',
               'agreement is up to the rounding of the argument in radians']

ANGLES = [Fraction(15 * k, 2) for k in range(-144, 145)]
VALUES = [Fraction(k, 8) for k in range(-8, 9)]
PI = Fraction(31415926535897932384626433832795028841971693993751, 10 ** 49)


def cosine(x):
    """cosine of degrees, to 40 digits"""
    y, t, out, n = PI * x / 180, Fraction(1), Fraction(1), 0
    while abs(t) > Fraction(1, 10 ** 45):
        n += 2
        t = Fraction(round(-t * y * y / (n * (n - 1)) * 10 ** 60), 10 ** 60)
        out += t
    return out


def right(f, x, v):
    """v is the double next to the exact value"""
    if f in ('cosd', 'sind'):
        v0 = cosine((x if f == 'cosd' else 90 - x) % 360)
        return float(v) == (0.0 if abs(v0) < Fraction(1, 10 ** 30) else float(v0))
    # the exact value is y degrees, when its cosine or sine is x
    lo, hi = (Fraction(v) + d * Fraction(math.ulp(float(v))) / 2 for d in (-1, 1))
    g = cosine if f == 'acosd' else (lambda y: cosine(90 - y))
    # a half turn ends at the extreme values
    if abs(x) == 1 or abs(g(Fraction(v)) - x) < Fraction(1, 10 ** 30):
        return abs(g(Fraction(v)) - x) < Fraction(1, 10 ** 30) and (0 <= v <= 180 if f == 'acosd' else -90 <= v <= 90)
    return (g(lo) - x) * (g(hi) - x) <= 0 and (0 <= v <= 180 if f == 'acosd' else -90 <= v <= 90)


def exact(f, x):
    if f == 'cosd':
        return x % 60 == 0 or x % 90 == 0
    if f == 'sind':
        return (90 - x) % 60 == 0 or x % 90 == 0
    return x % Fraction(1, 2) == 0


class Unknown(Exception):
    pass


def near_even(q):
    return Fraction(round(q))


def away(q):
    return Fraction(math.floor(abs(q) + Fraction(1, 2)) * (1 if q >= 0 else -1))


def ev(v, x):
    """value of an expression at the argument, as a fraction or bool"""
    v = sym.expand(v)
    k = v[0]
    if k == 'c':
        if isinstance(v[1], bool):
            return v[1]
        if isinstance(v[1], (int, float)) and math.isfinite(v[1]):
            return Fraction(v[1])
        raise Unknown(v)
    if k == 'p' and v[1] == 0:
        return x
    if k == 'eq':
        return ev(v[1], x) == ev(v[2], x)
    if k == 'lt':
        return ev(v[1], x) < ev(v[2], x)
    if k == 'not':
        return not ev(v[1], x)
    if k == 'or':
        return any(ev(y, x) for y in v[1:])
    if k == 'and':
        return all(ev(y, x) for y in v[1:])
    if k == 'truth':
        return ev(v[1], x) != 0
    if k == 'op':
        a = [ev(y, x) for y in v[2:]]
        op = v[1]
        if op == 'neg':
            return -a[0]
        if op == '+':
            return a[0] + a[1]
        if op == '-':
            return a[0] - a[1]
        if op == '*':
            return a[0] * a[1]
        if op == '/' and a[1]:
            return a[0] / a[1]
        if op in ('min', 'max'):
            return (min if op == 'min' else max)(a)
        if op in ('&&', '||'):
            return all(a) if op == '&&' else any(a)
    if k == 'call':
        name = str(v[1]).split('::')[-1]
        a = [ev(y, x) for y in v[2:]]
        if name in ('fabs', 'abs'):
            return abs(a[0])
        if name == 'fmod' and a[1]:
            return a[0] - a[1] * math.trunc(a[0] / a[1])
        if name == 'remainder' and a[1]:
            return a[0] - a[1] * near_even(a[0] / a[1])
        if name in ('round', 'lround'):
            return away(a[0])
        if name in ('rint', 'nearbyint', 'lrint'):
            return near_even(a[0])
        if name in ('floor', 'ceil', 'trunc'):
            return Fraction(getattr(math, name)(a[0]))
    raise Unknown(v)


def plain(v):
    """v is the argument, perhaps shifted, scaled, made positive or reduced by the period, but never rounded"""
    v = sym.expand(v)
    if v[0] in ('c', 'p'):
        return True
    if v[0] == 'op' and v[1] in ('+', '-', '*', '/'):
        return all(plain(y) for y in v[2:])
    return v[0] == 'call' and str(v[1]).split('::')[-1] in ('fabs', 'abs', 'fmod', 'remainder') and all(plain(y) for y in v[2:])


def varies(v):
    v = sym.expand(v)
    return v[0] == 'p' or v[0] in ('op', 'call') and any(varies(y) for y in v[2:] if isinstance(y, tuple))


def pins(facts):
    """a fact that holds on a grid only"""
    for k, t in facts.items():
        if t is True and k[0] == 'eq' and plain(k[1]) and plain(k[2]) and (varies(k[1]) != varies(k[2])):
            return True
    return False


def norm(v):
    """(coefficients of the atoms) of a sum, with constants folded"""
    v = sym.expand(v)
    if v[0] == 'c' and isinstance(v[1], (int, float)):
        return {(): Fraction(v[1])}
    if v[0] == 'op':
        a = [norm(y) for y in v[2:]]
        if v[1] in ('+', '-') and len(a) == 2 or v[1] == 'neg':
            out = dict(a[0]) if len(a) == 2 else {}
            for k, c in a[-1].items():
                out[k] = out.get(k, 0) + (c if v[1] == '+' else -c)
            return out
        if v[1] == '*':
            for i in (0, 1):
                if set(a[i]) <= {()}:
                    return {k: c * a[i].get((), 0) for k, c in a[1 - i].items()}
        if v[1] == '/' and set(a[1]) <= {()} and a[1].get((), 0):
            return {k: c / a[1][()] for k, c in a[0].items()}
    if v[0] == 'call':
        name = str(v[1]).split('::')[-1]
        return {(name,) + tuple(v[2:]): Fraction(1)}
    return {v: Fraction(1)}


def close(a, b):
    return abs(float(a) - float(b)) <= 8 * 2.0 ** -52 * max(abs(float(b)), 1e-300)


def base(v):
    """'x', 'even' (the sign is lost), or None; up to full turns"""
    v = sym.expand(v) if v and isinstance(v[0], str) and v[0] in ('big',) else v
    if v[0] == 'p':
        return 'x'
    if v[0] in ('call', 'fabs', 'abs', 'fmod', 'remainder', 'op'):
        w = v if v[0] != 'call' else (str(v[1]).split('::')[-1],) + tuple(v[2:])
        if w[0] in ('fabs', 'abs'):
            return 'even' if base(w[1]) else None
        if w[0] in ('fmod', 'remainder') and sym.expand(w[2]) == ('c', 360):
            return base(w[1])
    return None


def inside(v):
    """the argument, possibly limited to [-1, 1]"""
    v = sym.expand(v)
    if v[0] == 'p':
        return True
    if v[0] == 'op' and v[1] in ('min', 'max'):
        c = ('c', 1) if v[1] == 'min' else ('c', -1)
        rest = [y for y in v[2:] if sym.expand(y) != c]
        return len(rest) == 1 and inside(rest[0])
    return False


def generic(f, v):
    m = {k: c for k, c in norm(v).items() if c}
    shift = m.pop((), Fraction(0))
    if len(m) != 1:
        return False
    (atom, c), = m.items()
    if f in ('cosd', 'sind'):
        if shift or abs(c) != 1 or atom[0] not in ('cos', 'sin') or len(atom) != 2:
            return False
        a = {k: q for k, q in norm(atom[1]).items() if q}
        while len(a) == 1:
            (y, slope), = a.items()
            # full turns do not matter, nor does the sign to the cosine
            if y[0] in ('fmod', 'remainder') and sym.expand(y[2]) == ('c', 360) and close(abs(slope), math.pi / 180) or \
                    y[0] in ('fabs', 'abs') and atom[0] == 'cos':
                a = {k: slope * q for k, q in norm(y[1]).items() if q}
            else:
                break
        off = a.pop((), Fraction(0))
        if len(a) != 1:
            return False
        (x, slope), = a.items()
        b = base(x)
        if not b or not close(abs(slope), math.pi / 180):
            return False
        # in quarters of a turn: c * cos(off + slope x), sin(y) = cos(y - pi/2)
        q = float(off) / (math.pi / 2)
        if abs(q - round(q)) > 1e-14:
            return False
        q, s = round(q) - (atom[0] == 'sin'), 1 if slope > 0 else -1
        if c < 0:
            q += 2
        q %= 4
        # cos(q pi/2 + s y)
        if f == 'cosd':
            return q == 0
        return b == 'x' and (q == 3 and s > 0 or q == 1 and s < 0)
    if atom[0] not in ('acos', 'asin') or len(atom) != 2 or not inside(atom[1]) or not close(abs(c), 180 / math.pi):
        return False
    same = atom[0] == f[:4]
    if same:
        return c > 0 and not shift
    return c < 0 and close(shift, 90)


class Summary(sym.Exec):
    max_depth = 5
    outcome_limit = 5000
    head_limit = 40

    def should_inline(self, fr, fn, n):
        return fn.file.startswith('diffpy') and len(fn.nodes) < 200


def run(ctx):
    P = ctx.P
    for name in ('cosd', 'sind', 'acosd', 'asind'):
        fs = [f for f in P.fns.values() if f.name == name and f.qname.endswith('mathutils::' + name)]
        ctx.need(len(fs) == 1, 'function diffpy::mathutils::' + name)
        f = fs[0]
        ctx.touched(f)
        where = '%s:%d' % (f.file, f.line)
        ex = Summary(P)
        outs, fr = ex.analyze(f, None)
        outs = [(o, sym.expand(ex.rvalue(fr, o.st, o.value))) for o in outs if o.kind == 'return']
        ctx.need(outs, 'summary of ' + name)
        ctx.npaths += len(outs)
        for o, v in outs:
            if v[0] == 'c':
                ctx.check(pins(o.st.facts), 'discrete', '%s returns %s' % (name, v[1]), where,
                          '%s returns the constant %s on a range of arguments' % (name, v[1]))
        grid = ANGLES if name in ('cosd', 'sind') else VALUES
        special = set()
        for x in grid:
            sel = []
            for o, v in outs:
                try:
                    if all(ev(k, x) == t for k, t in o.st.facts.items()):
                        sel.append(v)
                except Unknown as e:
                    raise model.AnalysisBroken('condition in %s: %s' % (name, str(e)[:200]))
            what = '%s(%g)' % (name, float(x))
            vals = set(sel)
            ctx.need(vals, 'path taken by ' + what)
            if all(v[0] == 'c' for v in vals):
                ctx.check(all(right(name, x, v[1]) for v in vals), 'special', what, where,
                          '%s is %s, which is not the exactly rounded value' % (what, ', '.join(str(v[1]) for v in vals)))
            else:
                ctx.check(not exact(name, x), 'special', what, where, '%s is not given exactly' % what)
        for v in {v for o, v in outs if v[0] != 'c'}:
            ctx.check(generic(name, v), 'generic', name, where,
                      '%s differs from the standard function for other arguments' % name)
        ctx.check(any(v[0] != 'c' for o, v in outs), 'generic', name + ' covered', where, 'no value for other arguments')
    ctx.floor('discrete', 20)
    ctx.floor('special', 600)
    ctx.floor('generic', 8)
