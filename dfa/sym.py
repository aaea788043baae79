"""Path-sensitive value-numbering dataflow over the extracted control flow graphs.

Memory is a map from access paths to value numbers.  Branch conditions become equality, order and truth facts about
value numbers.  Loops are widened at their heads (values changed by the loop become phi numbers and facts about values
made in the loop are dropped), so that the analysis covers any number of iterations.  Calls to library functions are
inlined up to a depth, other calls get an effect model.  No solver is involved: a condition is decided by equality
classes and by looking up the facts or it is split.
"""
import sys
sys.setrecursionlimit(10000)

ZERO = ('c', 0)
ONE = ('c', 1)


class Budget(Exception):
    pass


SIZE_LIMIT = 60
_big, _bigval = {}, []


def size(v, lim=SIZE_LIMIT):
    """number of parts of a value, counting stops beyond lim"""
    n = 0
    stack = [v]
    while stack:
        x = stack.pop()
        n += 1
        if n > lim:
            return n
        if isinstance(x, (tuple, frozenset)):
            stack.extend(x)
    return n


def cap(v):
    """large values are replaced by a short name; equal values get equal names"""
    if v is None or v[0] not in CAPPED or size(v) <= SIZE_LIMIT:
        return v
    k = _big.get(v)
    if k is None:
        k = _big[v] = ('big', len(_bigval))
        _bigval.append(v)
    return k


def expand(v):
    return _bigval[v[1]] if v[0] == 'big' else v


CAPPED = {'op', 'call', 'cond', 'obj', 'sel', 'at', 'struct', 'list', 'w', 'i', 'phi'}


def const(v):
    return v[0] == 'c'


def mk_not(v):
    if v[0] == 'not':
        return v[1]
    if v[0] == 'c' and isinstance(v[1], (int, float)):
        return ('c', 0 if v[1] else 1)
    return ('not', v)


BOOLISH = ('not', 'and', 'or', 'eq', 'lt', 'b')


def mk_eq(a, b):
    if a == b and a[0] != 'nan':
        return ONE
    if const(a) and const(b):
        return ONE if a[1] == b[1] else ZERO
    if positions(a, b):
        return ZERO
    # boolean compared to a constant
    for x, y in ((a, b), (b, a)):
        if x == ZERO and y[0] in BOOLISH:
            return mk_not(y)
        if x == ONE and y[0] in BOOLISH:
            return y
    # objects just created are never null
    for x, y in ((a, b), (b, a)):
        if x == ZERO and y[0] in ('new', 'ptr', 'newobj'):
            return ZERO
    if hash(b) < hash(a):
        a, b = b, a
    return ('eq', a, b)


def mk_lt(a, b):
    if a == b:
        return ZERO
    if positions(a, b):
        a, b = a[2], b[2]
    if const(a) and const(b):
        try:
            return ONE if a[1] < b[1] else ZERO
        except TypeError:
            pass
    return ('lt', a, b)


def positions(a, b):
    """iterators at known positions of one container"""
    return a[0] == b[0] == 'it' and a[1] == b[1] and isinstance(a[2], tuple) and isinstance(b[2], tuple) and a[2][0] == b[2][0] == 'c'


def mk_truth(v):
    """boolean value of v in a condition"""
    if v[0] in BOOLISH:
        return v
    if const(v):
        return ONE if v[1] else ZERO
    return mk_not(mk_eq(v, ZERO))


def mk_op(op, a, b):
    if op == '==':
        return mk_eq(a, b)
    if op == '!=':
        return mk_not(mk_eq(a, b))
    if op == '<':
        return mk_lt(a, b)
    if op == '>':
        return mk_lt(b, a)
    if op == '<=':
        return mk_not(mk_lt(b, a))
    if op == '>=':
        return mk_not(mk_lt(a, b))
    if op == '&&':
        a, b = mk_truth(a), mk_truth(b)
        if a == ONE:
            return b
        if b == ONE:
            return a
        if ZERO in (a, b):
            return ZERO
        return ('and', a, b)
    if op == '||':
        a, b = mk_truth(a), mk_truth(b)
        if a == ZERO:
            return b
        if b == ZERO:
            return a
        if ONE in (a, b):
            return ONE
        return ('or', a, b)
    if op == ',':
        return b
    if const(a) and const(b):
        try:
            if op == '+':
                return ('c', a[1] + b[1])
            if op == '-':
                return ('c', a[1] - b[1])
            if op == '*':
                return ('c', a[1] * b[1])
        except TypeError:
            pass
    if op in ('+', '*') and hash(b) < hash(a):
        a, b = b, a
    return ('op', op, a, b)


class Facts:
    """truth of atoms; immutable interface through copies"""

    @staticmethod
    def classes(f):
        rep = {}

        def find(x):
            while x in rep:
                x = rep[x]
            return x
        for k, v in f.items():
            if v and k[0] == 'eq':
                a, b = find(k[1]), find(k[2])
                if a != b:
                    if const(a):
                        a, b = b, a
                    rep[a] = b
        return find

    @staticmethod
    def truth(f, v):
        k = v[0]
        if k == 'c':
            return bool(v[1])
        if k == 'not':
            t = Facts.truth(f, v[1])
            return None if t is None else not t
        if k == 'and':
            a, b = Facts.truth(f, v[1]), Facts.truth(f, v[2])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if k == 'or':
            a, b = Facts.truth(f, v[1]), Facts.truth(f, v[2])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        if k == 'cond':
            c = Facts.truth(f, v[1])
            if c is None:
                a, b = Facts.truth(f, v[2]), Facts.truth(f, v[3])
                return a if a == b else None
            return Facts.truth(f, v[2] if c else v[3])
        if v in f:
            return f[v]
        if k == 'eq':
            find = Facts.classes(f)
            a, b = find(v[1]), find(v[2])
            if a == b:
                return True
            if const(a) and const(b):
                return a[1] == b[1]
            e = mk_eq(a, b)
            if const(e):
                return bool(e[1])
            for q, t in f.items():
                if q[0] == 'eq' and not t and {find(q[1]), find(q[2])} == {a, b}:
                    return False
                if q[0] == 'lt' and t and {find(q[1]), find(q[2])} == {a, b}:
                    return False
                # constants on different sides of a bound
            # a number known above or below a constant differs from constants beyond
            for x, y in ((a, b), (b, a)):
                if const(y):
                    for q, t in f.items():
                        if q[0] == 'lt':
                            l, r = find(q[1]), find(q[2])
                            try:
                                if t and l == x and const(r) and y[1] >= r[1]:
                                    return False
                                if t and r == x and const(l) and y[1] <= l[1]:
                                    return False
                                if not t and l == x and const(r) and y[1] < r[1]:
                                    return False
                                if not t and r == x and const(l) and y[1] > l[1]:
                                    return False
                            except TypeError:
                                pass
            return None
        if k == 'lt':
            find = Facts.classes(f)
            a, b = find(v[1]), find(v[2])
            if a == b:
                return False
            if const(a) and const(b):
                try:
                    return a[1] < b[1]
                except TypeError:
                    return None
            for q, t in f.items():
                if q[0] == 'lt':
                    l, r = find(q[1]), find(q[2])
                    if (l, r) == (a, b):
                        return t
                    if t and (l, r) == (b, a):
                        return False
                    try:
                        # bounds by constants
                        if const(b) and l == a and const(r):        # a<r / a>=r
                            if t and r[1] <= b[1]:
                                return True
                            if not t and r[1] >= b[1]:
                                return False
                        if const(b) and r == a and const(l):        # l<a / l>=a
                            if t and l[1] >= b[1]:
                                return False
                            if not t and l[1] < b[1]:
                                return True
                        if const(a) and l == b and const(r):        # b<r
                            if t and r[1] <= a[1]:
                                return False
                            if not t and r[1] > a[1]:
                                return True
                        if const(a) and r == b and const(l):
                            if t and l[1] >= a[1]:
                                return True
                            if not t and l[1] <= a[1]:
                                return False
                    except TypeError:
                        pass
            return None
        # value in boolean context
        if k not in BOOLISH:
            t = Facts.truth(f, mk_eq(v, ZERO))
            return None if t is None else not t
        return None

    @staticmethod
    def assume(f, v, val):
        """list of fact maps in which v has the truth value val"""
        k = v[0]
        t = Facts.truth(f, v)
        if t is not None:
            return [f] if t == val else []
        if k == 'not':
            return Facts.assume(f, v[1], not val)
        if k == 'and':
            if val:
                return [h for g in Facts.assume(f, v[1], True) for h in Facts.assume(g, v[2], True)]
            return Facts.assume(f, v[1], False) + \
                [h for g in Facts.assume(f, v[1], True) for h in Facts.assume(g, v[2], False)]
        if k == 'or':
            return Facts.assume(f, ('and', mk_not(v[1]), mk_not(v[2])), not val)
        if k == 'cond':
            return [h for g in Facts.assume(f, v[1], True) for h in Facts.assume(g, v[2], val)] + \
                [h for g in Facts.assume(f, v[1], False) for h in Facts.assume(g, v[3], val)]
        if k in ('eq', 'lt', 'b'):
            g = dict(f)
            g[v] = val
            return [g]
        if k == 'c':
            return [f] if bool(v[1]) == val else []
        return Facts.assume(f, mk_eq(v, ZERO), not val)


def mentions(v, pred):
    if pred(v):
        return True
    for x in v[1:]:
        if isinstance(x, tuple) and mentions_any(x, pred):
            return True
    return False


def mentions_any(x, pred, memo=None):
    if not isinstance(x, (tuple, frozenset)) or not x:
        return False
    if memo is None:
        memo = {}
    if isinstance(x, tuple):
        if x[0] == 'big' and len(x) == 2:
            r = memo.get(x)
            if r is None:
                memo[x] = False
                r = memo[x] = mentions_any(_bigval[x[1]], pred, memo)
            return r
        if pred(x):
            return True
    for y in x:
        if isinstance(y, (tuple, frozenset)) and mentions_any(y, pred, memo):
            return True
    return False


class State:
    __slots__ = ('store', 'bind', 'facts', 'vals', 'ev', 'ret', 'data')

    def __init__(self):
        self.store, self.bind, self.facts, self.vals, self.ev, self.ret, self.data = {}, {}, {}, {}, frozenset(), None, {}

    def copy(self):
        s = State.__new__(State)
        s.store, s.bind, s.facts = dict(self.store), dict(self.bind), dict(self.facts)
        s.vals, s.ev, s.ret, s.data = dict(self.vals), self.ev, self.ret, dict(self.data)
        return s

    def key(self):
        return (frozenset(self.store.items()), frozenset(self.bind.items()), frozenset(self.facts.items()), self.ev,
                self.ret, frozenset(self.data.items()))


class Frame:
    __slots__ = ('fn', 'this', 'cls', 'depth', 'stack', 'tok', 'up', 'site')

    def __init__(self, fn, this, cls, depth, stack=(), up=None, site=None):
        self.fn, self.this, self.cls, self.depth, self.stack = fn, this, cls, depth, stack
        self.up, self.site = up, site
        self.tok = fn.short if up is None else '%s/%d/%s' % (up.tok, site['i'], fn.name)


class Outcome:
    __slots__ = ('kind', 'st', 'value', 'fn', 'node')

    def __init__(self, kind, st, value=None, fn=None, node=None):
        self.kind, self.st, self.value, self.fn, self.node = kind, st, value, fn, node


SMART = ('boost::shared_ptr<', 'std::shared_ptr<', 'std::unique_ptr<', 'boost::scoped_ptr<', 'boost::weak_ptr<',
         'std::__shared_ptr')
ITER_MAKERS = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'find', 'lower_bound', 'upper_bound', 'before_begin'}
ELEM = {'operator[]', 'at', 'front', 'back', 'operator()', 'top'}
ALGO_OUT = {'fill': (0,), 'fill_n': (0,), 'transform': (-2, -3), 'copy': (2,), 'sort': (0,), 'stable_sort': (0,), 'merge': (4,),
            'set_difference': (4,), 'set_union': (4,), 'set_intersection': (4,), 'reverse': (0,), 'unique': (0,),
            'remove': (0,), 'remove_if': (0,), 'generate': (0,), 'partial_sum': (2,), 'rotate': (0,), 'copy_if': (2,),
            'iter_swap': (0, 1), 'swap_ranges': (0, 2), 'copy_backward': (2,), 'inner_product': (), 'replace': (0,),
            'partial_sort': (0,), 'nth_element': (0,), 'iota': (0,)}


class Exec:
    max_states = 6000
    max_depth = 6
    max_inline_nodes = 400
    max_forced_nodes = 400      # of functions that are inlined in any case

    scale = 1                       # of the limits, raised in the thorough tier

    def __init__(self, P):
        self.head_limit = self.head_limit * self.scale
        self.outcome_limit = self.outcome_limit * self.scale
        self.max_states = self.max_states * self.scale
        self.bodynodes = {}
        self.bodyvars = {}
        self.P = P
        self.fieldnames = P.fieldnames()
        self.count = 0
        self.inlined = set()
        self.gconst = {}
        for g in P.gs:
            if g.get('const') and ('int' in g or 'num' in g) and '[' not in g['type']:
                x = g.get('int', g.get('num'))
                self.gconst[('G', g['name'])] = ('c', int(x) if x == int(x) and abs(x) < 2**53 else x)

    # ---- hooks ---------------------------------------------------------
    def should_inline(self, frame, fn, n):
        return True

    def on_call(self, fr, st, n, callee, obj, args):
        """return None or list of (state, value) or ('throw', state) to replace the default treatment"""
        return None

    def on_write(self, fr, st, n, path, value, old, cond):
        pass

    def on_read(self, fr, st, n, path):
        pass

    def on_branch(self, fr, st, blk, cond):
        pass

    def on_element(self, fr, st, n):
        pass

    def on_return(self, fr, st, callee, n):
        pass

    def alias(self, fr, usr):
        return None

    # ---- memory --------------------------------------------------------
    def load(self, st, path):
        if path in st.store:
            return st.store[path]
        if path[0] == 'G' and path in self.gconst:
            return self.gconst[path]
        for k in range(len(path) - 1, 0, -1):
            v = st.store.get(path[:k])
            if v is not None:
                return self.select(v, path[k:])
        return ('i', path)

    def select(self, v, rest):
        while rest:
            if v[0] == 'pair' and rest[0] in ('first', 'second'):
                v = v[1] if rest[0] == 'first' else v[2]
                rest = rest[1:]
                if rest and v[0] == 'ref':
                    return ('i', v[1] + rest)
            elif v[0] == 'i':
                return ('i', v[1] + rest)
            elif v[0] == 'sel':
                return ('sel', v[1], v[2] + rest)
            elif v[0] == 'struct':
                d = dict(v[1])
                if rest[0] in d:
                    v = d[rest[0]]
                    rest = rest[1:]
                else:
                    return ('sel', v, rest)
            else:
                return ('sel', v, rest)
        return v

    def write(self, fr, st, n, path, value, cond=ONE):
        old = self.load(st, path)
        self.on_write(fr, st, n, path, value, old, cond)
        for k in range(1, len(path)):
            if isinstance(path[k], tuple) and path[k] and path[k][0] == '[]':
                c = path[:k]
                self.setpath(st, c, ('w', fr.tok, n['i'] if n else -1, c))
                break
        self.setpath(st, path, value)

    def setpath(self, st, path, value):
        L = len(path)
        dead = [p for p in st.store if len(p) > L and p[:L] == path]
        for p in dead:
            del st.store[p]
        st.store[path] = value

    def fresh(self, fr, n, tag=''):
        return ('f', fr.tok, n['i'] if n else -1, tag)

    # ---- values --------------------------------------------------------
    def rvalue(self, fr, st, v, n=None):
        if v is not None and v[0] == 'ref':
            self.on_read(fr, st, n, v[1])
            return self.load(st, v[1])
        return v

    def deref(self, v):
        """path of the object that a pointer, smart pointer or iterator value refers to"""
        if v[0] == 'ptr':
            return v[1]
        if v[0] == 'it':
            return v[1] + (('[]', v[2]),)
        if v[0] == 'i':
            return ('D', v)
        return ('D', v)

    def varloc(self, fr, vid):
        v = fr.fn.vars[vid]
        if v['static']:
            return ('S', v['owner'], v['name'], v['line'])
        return ('L', v['owner'], v['name'], v['line'])

    def get(self, fr, st, i):
        if i is None or i < 0:
            return ('none',)
        v = st.vals.get(i)
        if v is None:
            n = fr.fn.nodes[i]
            r = self.step(fr, st, n, nested=True)
            v = st.vals.get(i, ('none',))
        return v

    def getr(self, fr, st, i):
        return self.rvalue(fr, st, self.get(fr, st, i), fr.fn.nodes.get(i))

    def literal(self, n):
        if 'str' in n:
            return ('c', '"' + n['str'])
        s = n.get('val', '0')
        if s in ('true',):
            return ONE
        if s in ('false', 'nullptr'):
            return ZERO
        try:
            return ('c', int(s))
        except ValueError:
            pass
        try:
            f = float(s)
            return ('c', int(f) if f == int(f) and abs(f) < 2**53 else f)
        except (ValueError, OverflowError):
            return ('c', s)

    # evaluates one element; returns list of (state or Outcome)
    def step(self, fr, st, n, nested=False):
        k = n['k']
        i = n['i']
        P = self.P
        c = n.get('c', [])
        self.on_element(fr, st, n)

        def done(v):
            if n.get('rv') and v is not None and v[0] == 'ref':
                self.on_read(fr, st, n, v[1])
                v = self.load(st, v[1])
            st.vals[i] = cap(v)
            return [st]

        if k in ('Method', 'Func'):
            return [st] if k == 'Method' else done(('fn', n.get('fn', '')))
        if k == 'Var':
            loc = self.varloc(fr, n['v'])
            loc = st.bind.get(loc, loc)
            return done(('ref', loc))
        if k == 'Global':
            return done(('ref', ('G', n['g'])))
        if k == 'This':
            return done(('ptr', fr.this))
        if k == 'Field':
            b = self.get(fr, st, c[0])
            if n.get('arrow'):
                b = self.rvalue(fr, st, b)
                b = ('ref', self.deref(b))
            if b[0] == 'ref':
                p = b[1] + (self.fieldnames.get(n.get('fu'), n['f']),)
                alias = st.store.get(p)
                if alias is not None and alias[0] == 'ref':
                    p = alias[1]                # member of reference type
                return done(('ref', p))
            return done(self.select(b, (self.fieldnames.get(n.get('fu'), n['f']),)))
        if k == 'Lit':
            return done(self.literal(n))
        if k == 'Bin':
            op = n['op']
            if op in ('.*', '->*'):
                return done(self.fresh(fr, n))
            a = self.getr(fr, st, c[0])
            if op in ('&&', '||') and Facts.truth(st.facts, mk_truth(a)) is (op == '||'):
                return done(ONE if op == '||' else ZERO)        # the other operand is not evaluated
            b = self.getr(fr, st, c[1])
            return done(mk_op(op, a, b))
        if k == 'Un':
            op = n['op']
            if op == '&':
                v = self.get(fr, st, c[0])
                return done(('ptr', v[1]) if v[0] == 'ref' else v)
            if op == '*':
                v = self.getr(fr, st, c[0])
                return done(('ref', self.deref(v)))
            if op in ('++', '--'):
                v = self.get(fr, st, c[0])
                if v[0] != 'ref':
                    return done(v)
                old = self.load(st, v[1])
                new = self.incr(fr, n, old, op)
                self.write(fr, st, n, v[1], new)
                return done(old if n.get('post') else v)
            v = self.getr(fr, st, c[0])
            if op == '!':
                return done(mk_not(mk_truth(v)))
            if op == '-':
                if const(v) and isinstance(v[1], (int, float)):
                    return done(('c', -v[1]))
                return done(('op', 'neg', v))
            if op == '+':
                return done(v)
            return done(('op', op, v))
        if k == 'Assign':
            lv = self.get(fr, st, c[0])
            rv = self.getr(fr, st, c[1])
            if lv[0] == 'ref':
                if n['op'] != '=':
                    rv = mk_op(n['op'][:-1], self.load(st, lv[1]), rv)
                self.write(fr, st, n, lv[1], rv)
            return done(lv)
        if k == 'Cond':
            t = Facts.truth(st.facts, mk_truth(self.getr(fr, st, c[0])))
            if t is None:
                a, b = st.vals.get(c[1]), st.vals.get(c[2])
                if a is not None and b is not None:
                    v = ('cond', mk_truth(self.getr(fr, st, c[0])), self.rvalue(fr, st, a), self.rvalue(fr, st, b))
                else:
                    v = self.fresh(fr, n)
            else:
                v = self.get(fr, st, c[1] if t else c[2])
            return done(v)
        if k == 'Cast':
            v = self.get(fr, st, c[0])
            ck = n.get('ck', '')
            if ck in ('FloatingToIntegral', 'IntegralCast', 'FloatingToBoolean', 'IntegralToBoolean', 'PointerToBoolean'):
                v = self.rvalue(fr, st, v)
                if ck.endswith('ToBoolean'):
                    return done(mk_truth(v))
                if ck == 'FloatingToIntegral' and not (const(v) and isinstance(v[1], int)):
                    return done(('op', 'int', v))
                return done(v)
            if n.get('cst') == 'dynamic':
                v = self.rvalue(fr, st, v)
                if v[0] == 'ptr':
                    return done(('call', 'dynamic_cast', n.get('t'), v))
            return done(v)
        if k == 'Decl':
            for vo in n['vars']:
                loc = self.varloc(fr, vo['v'])
                vi = fr.fn.vars[vo['v']]
                if vi['static']:
                    st.bind.pop(loc, None)
                    continue
                st.bind.pop(loc, None)
                if vo['init'] < 0:
                    self.setpath(st, loc, ('undef', loc))
                    continue
                v = self.get(fr, st, vo['init'])
                if vi['type'].endswith('&'):
                    if v[0] == 'ref':
                        st.bind[loc] = v[1]
                    else:
                        self.setpath(st, loc, v)
                else:
                    self.setpath(st, loc, self.rvalue(fr, st, v))
            return done(('none',))
        if k == 'Return':
            st.ret = self.get(fr, st, c[0]) if c else ('none',)
            return done(('none',))
        if k == 'Init':
            v = self.get(fr, st, c[0]) if c and c[0] >= 0 else ('none',)
            fo = P.fieldowner.get(n.get('fu'))
            if not (fo and fo[1]['type'].endswith('&')):
                v = self.rvalue(fr, st, v, n)
            if 'f' in n:
                self.write(fr, st, n, fr.this + (self.fieldnames.get(n.get('fu'), n['f']),), v)
            return done(('none',))
        if k == 'Throw':
            return [Outcome('throw', st, None, fr.fn, n)]
        if k == 'Ctor':
            return self.do_ctor(fr, st, n, done)
        if k == 'New':
            return done(('new', fr.tok, i, n.get('nt', '')))
        if k == 'Index':
            a, b = self.get(fr, st, c[0]), self.getr(fr, st, c[1])
            if a[0] == 'ref' and '[' in fr.fn.nodes[c[0]].get('t', ''):
                return done(('ref', a[1] + (('[]', b),)))
            a = self.rvalue(fr, st, a)
            if a[0] == 'it':
                return done(('ref', a[1] + (('[]', b),)))
            return done(('ref', self.deref(a) + (('[]', b),)))
        if k == 'DefArg':
            return done(self.get(fr, st, c[0]))
        if k == 'Lambda':
            return done(('lambda', n['fn'], fr.this))
        if k == 'InitList':
            return done(('list',) + tuple(self.getr(fr, st, x) for x in c))
        if k == 'Typeid':
            return done(('call', 'typeid') + tuple(self.getr(fr, st, x) for x in c if x >= 0) + (n.get('ty', ''),))
        if k == 'Call':
            return self.do_call(fr, st, n)
        if k == 'Ref':
            return done(('g', n.get('name', '')))
        return done(('none',))

    def incr(self, fr, n, old, op):
        if old[0] == 'it':
            return ('it', old[1], ('next', fr.tok, n['i']))
        if const(old) and isinstance(old[1], int):
            return ('c', old[1] + (1 if op == '++' else -1))
        return ('op', '+' if op == '++' else '-', old, ONE)

    # constructors: copies give the value of the source, others an object value
    def do_ctor(self, fr, st, n, done):
        c = n.get('c', [])
        if n.get('copy') and c:
            v = self.getr(fr, st, c[0])
            if n.get('fq', '').startswith('diffpy') and v[0] not in ('i', 'obj', 'sel', 'w', 'f', 'call', 'phi'):
                pass
            return done(v)
        cn = n.get('cn', '')
        if cn.startswith(SMART):
            if not c:
                return done(ZERO)
            return done(self.getr(fr, st, c[0]))
        args = tuple(self.getr(fr, st, x) for x in c if x >= 0)
        if cn.startswith('std::pair<') and len(args) == 2:
            return done(('pair', args[0], args[1]))
        if cn.startswith('std::pair<') and len(args) == 1 and args[0][0] == 'pair':
            return done(args[0])
        if cn.startswith(('std::basic_string', 'std::__cxx11::basic_string')) and args and args[0][0] == 'c':
            return done(args[0])
        if len(args) == 1 and cn.startswith(('__gnu_cxx::__normal_iterator', 'std::__detail::_Node', 'std::_Rb_tree',
                                             'std::_List', 'std::reverse_iterator', 'std::move_iterator')):
            return done(args[0])
        return done(('obj', n.get('fq', ''), fr.tok, n['i']) + args)

    def resolve(self, fr, n, objpath):
        """Fn or None of the callee"""
        u = n.get('fn')
        if not u:
            return None
        if n.get('dyn'):
            if objpath == fr.this and fr.cls:
                u = self.P.final(fr.cls, u)
            else:
                dyn = self.dyntype(fr, objpath)
                if dyn:
                    u = self.P.final(dyn, u)
                else:
                    t = self.P.targets(u, n.get('cls'))
                    if len(t) == 1:
                        u = next(iter(t))
                    else:
                        return None
        return self.P.fns.get(u)

    def dyntype(self, fr, path):
        return None

    def do_call(self, fr, st, n):
        c = n.get('c', [])
        i = n['i']
        # object and arguments
        obj = None
        ids = list(c)
        args = []
        if n.get('obj') and ids:
            ov = self.get(fr, st, ids[0])
            if n.get('arrow'):
                ov = self.rvalue(fr, st, ov)
                obj = ('ref', self.deref(ov))
            else:
                obj = ov
            ids = ids[1:]
        for x in ids:
            args.append(self.get(fr, st, x))
        # call through lambda object
        lam = None
        if n.get('op') == '()' and obj is not None:
            o = self.load(st, obj[1]) if obj[0] == 'ref' else obj
            if o and o[0] == 'lambda':
                lam = self.P.fns.get(o[1])
        objpath = obj[1] if obj is not None and obj[0] == 'ref' else None
        callee = lam or self.resolve(fr, n, objpath)
        r = self.on_call(fr, st, n, callee, obj, args)
        if r is None and n.get('op') == '=' and objpath is not None and len(args) == 1 and \
                n.get('cn', '').startswith('diffpy::srreal::R3::'):
            self.write(fr, st, n, objpath, self.rvalue(fr, st, args[0]))
            r = [(st, obj)]
        if r is None:
            if callee is not None and callee.blocks and fr.depth < self.max_depth and callee.usr not in fr.stack \
                    and (len(callee.nodes) <= self.max_inline_nodes or len(callee.nodes) <= self.max_forced_nodes and callee.usr in getattr(self, 'force', ())) and self.should_inline(fr, callee, n):
                r = self.inline(fr, st, n, callee, obj, args, lam is not None)
            else:
                r = self.external(fr, st, n, callee, obj, args)
        out = []
        for item in r:
            if isinstance(item, Outcome):
                out.append(item)
                continue
            s, v = item
            if n.get('rv') and v is not None and v[0] == 'ref':
                v = self.rvalue(fr, s, v, n)
            s.vals[i] = cap(v) if v is not None else ('none',)
            out.append(s)
        return out

    def inline(self, fr, st, n, callee, obj, args, islambda=False):
        self.inlined.add(callee.usr)
        if islambda:
            this, cls = fr.this, fr.cls
        elif obj is not None and callee.cls and not callee.static:
            if obj[0] == 'ref':
                this = obj[1]
            else:
                this = ('D', obj)
            if this == fr.this:
                cls = fr.cls
            else:
                cls = self.dyntype(fr, this)
        else:
            this, cls = ('T?',), None
        nf = Frame(callee, this, cls, fr.depth + 1, fr.stack + (callee.usr,), fr, n)
        saved, savedret = st.vals, st.ret
        st.vals = {}
        st.ret = None
        for p, a in zip(callee.params, args):
            loc = self.varloc(nf, p['v'])
            st.bind.pop(loc, None)
            if p['pm'] in 'rwm' and a[0] == 'ref':
                if a[1] != loc:
                    st.bind[loc] = a[1]
            else:
                self.setpath(st, loc, self.rvalue(fr, st, a))
        res = []
        for o in self.merge_outcomes(nf, self.run(callee, st, nf)):
            if o.kind == 'throw':
                res.append(o)
                continue
            s = o.st
            if any(k[0] == 'loop' and k[1] == nf.tok for k in s.data):
                s.data = {k: v for k, v in s.data.items() if not (k[0] == 'loop' and k[1] == nf.tok)}
            v = s.ret
            if v is None:
                v = ('none',)
            if v[0] == 'ref' and not callee.ret.endswith('&'):
                v = self.rvalue(nf, s, v, n)
            self.on_return(fr, s, callee, n)
            s.vals = dict(saved)
            s.ret = savedret
            # drop the locals of the callee
            if callee.usr not in fr.stack:
                for p in [p for p in s.store if p[0] == 'L' and p[1] == callee.usr]:
                    if not (v[0] in ('ref', 'ptr') and v[1][:len(p)] == p):
                        del s.store[p]
                for p in [p for p in s.bind if p[1] == callee.usr]:
                    del s.bind[p]
            res.append((s, v))
        return res

    outcome_limit = 12

    def merge_outcomes(self, fr, outs):
        """joins the normal outcomes of a callee that agree on the result and on the recorded data"""
        if len(outs) <= self.outcome_limit:
            return outs
        res, groups = [], {}
        for o in outs:
            if o.kind == 'throw':
                k = ('throw', frozenset((k, v) for k, v in o.st.data.items() if k[0] != 'may'))
            else:
                k = (o.st.ret, o.st.ev, frozenset((k, v) for k, v in o.st.data.items() if k[0] != 'may'))
            if k in groups:
                g = groups[k]
                ret = g.st.ret
                g.st = self.join(fr, -1, g.st, o.st)
                g.st.ret = ret
            else:
                groups[k] = o
                res.append(o)
        return res

    # ---- effects of calls that are not inlined ---------------------------
    def external(self, fr, st, n, callee, obj, args):
        fq = n.get('fq', '')
        name = fq.split('::')[-1] if '<' not in fq.split('::')[-1] else fq.split('::')[-1]
        if '::operator' in fq or fq.startswith('operator'):
            name = 'operator' + fq.rsplit('operator', 1)[1]
        cn = n.get('cn', '')
        pm = n.get('pm', '')
        R = lambda v: self.rvalue(fr, st, v)
        if n.get('noret'):
            return [Outcome('throw', st, None, fr.fn, n)]
        if callee is not None or n.get('my'):
            return self.external_my(fr, st, n, callee, obj, args)
        # smart pointers
        if cn.startswith(SMART):
            v = R(obj)
            if name in ('get', 'operator->'):
                return [(st, v)]
            if name == 'operator*':
                return [(st, ('ref', self.deref(v)))]
            if name == 'operator bool':
                return [(st, mk_truth(v))]
            if name == 'operator!':
                return [(st, mk_not(mk_truth(v)))]
            if name in ('reset', 'operator='):
                new = R(args[0]) if args else ZERO
                if obj[0] == 'ref':
                    self.write(fr, st, n, obj[1], new)
                return [(st, obj)]
            if name == 'swap' and obj[0] == 'ref' and args and args[0][0] == 'ref':
                a, b = self.load(st, obj[1]), self.load(st, args[0][1])
                self.write(fr, st, n, obj[1], b)
                self.write(fr, st, n, args[0][1], a)
                return [(st, ('none',))]
            return [(st, ('call', name, v))]
        if obj is None and len(args) == 1 and name.split('<')[0] in ('dynamic_pointer_cast', 'static_pointer_cast', 'const_pointer_cast'):
            v = R(args[0])
            if name.startswith('dynamic') and v != ZERO:
                v = ('call', 'dynamic_pointer_cast', v, ('type', n.get('t', '')))
            return [(st, v)]
        if n.get('op') in ('==', '!=', '<', '>', '<=', '>=') and len(args) + (obj is not None) == 2:
            ops = ([obj] if obj is not None else []) + args
            return [(st, mk_op(n['op'], R(ops[0]), R(ops[1])))]
        # iterators
        peek = None if obj is None else self.load(st, obj[1]) if obj[0] == 'ref' else obj
        if peek is not None and peek[0] == 'it':
            v = R(obj)
            if name in ('operator*',):
                return [(st, ('ref', self.deref(v)))]
            if name == 'operator->':
                return [(st, ('ptr', self.deref(v)))]
            if name in ('operator++', 'operator--', 'operator+=', 'operator-='):
                new = ('it', v[1], ('next', fr.tok, n['i']))
                if obj[0] == 'ref':
                    self.write(fr, st, n, obj[1], new)
                return [(st, v if args and name in ('operator++', 'operator--') else obj)]
            if name in ('operator+', 'operator-') and args:
                return [(st, ('it', v[1], ('off', v[2], name, R(args[0]))))]
            if name == 'operator[]' and args:
                return [(st, ('ref', v[1] + (('[]', R(args[0])),)))]
            if name == 'operator=' and args and obj[0] == 'ref':
                self.write(fr, st, n, obj[1], R(args[0]))
                return [(st, obj)]
            if name == 'base':
                return [(st, v)]
        isstd = fq.startswith(('std::', 'boost::', '__gnu_cxx::'))
        if obj is not None and obj[0] == 'ref' and name == 'operator=' and args:
            self.write(fr, st, n, obj[1], R(args[0]))
            return [(st, obj)]
        if obj is not None and isstd:
            path = obj[1] if obj[0] == 'ref' else ('D', obj)
            cv = self.load(st, path) if obj[0] == 'ref' else obj
            if name in ITER_MAKERS:
                if name in ('find', 'lower_bound', 'upper_bound'):
                    tag = ('key', name, R(args[0]) if args else None)
                elif name in ('end', 'cend', 'rend'):
                    tag = 'end'
                else:
                    tag = 'begin'
                return [(st, ('it', path, tag))]
            if name in ELEM:
                if name == 'operator[]' and 'map<' in cn and not n.get('fc'):
                    absent = mk_eq(('call', 'count', cv, R(args[0])), ZERO)
                    if Facts.truth(st.facts, absent) is not False:
                        self.write(fr, st, n, path, ('w', fr.tok, n['i'], path), cond=absent)
                idx = name if not args else R(args[0]) if len(args) == 1 else ('idx',) + tuple(R(a) for a in args)
                return [(st, ('ref', path + (('[]', idx),)))]
            if name in ('empty',):
                if cv[0] == 'c':
                    text = isinstance(cv[1], str) and cv[1] not in ('emptycontainer', '"', '""', '') or isinstance(cv[1], int) and cv[1] != 0
                    return [(st, ZERO if text else ONE)]
                return [(st, mk_eq(('call', 'size', cv), ZERO))]
            if name in ('size', 'length'):
                if cv[0] == 'c' and cv[1] == 'emptycontainer':
                    return [(st, ZERO)]
                return [(st, ('call', 'size', cv))]
            if name == 'clear':
                self.write(fr, st, n, path, ('c', 'emptycontainer'), cond=mk_not(mk_eq(('call', 'size', cv), ZERO)))
                return [(st, ('none',))]
            if name in ('insert', 'emplace', 'erase') and n.get('rt', 'v') == 'v' and not n.get('fc'):
                t = n.get('t', '')
                w = ('w', fr.tok, n['i'], path)
                if 'pair<' in t and 'bool' in t.split(',')[-1]:
                    flag = ('b', fr.tok, n['i'], 'inserted')
                    self.write(fr, st, n, path, w, cond=flag)
                    key = R(args[0]) if args else None
                    # an element inserted now holds the given value
                    return [(st, ('pair', ('it', path, ('key', 'find', key)), flag))]
                if name == 'erase' and t in ('unsigned long', 'int', 'bool', 'unsigned int', 'size_t'):
                    flag = ('b', fr.tok, n['i'], 'erased')
                    self.write(fr, st, n, path, w, cond=flag)
                    return [(st, flag)]
                self.write(fr, st, n, path, w)
                return [(st, ('it', path, ('next', fr.tok, n['i'])))]
            if name == 'assign' and len(args) == 2 and obj[0] == 'ref':
                # the whole range of another container
                b, e = R(args[0]), R(args[1])
                if b[0] == e[0] == 'it' and b[1:] == (e[1], 'begin') and e[2] == 'end':
                    self.write(fr, st, n, path, self.load(st, b[1]))
                    return [(st, ('none',))]
            if name == 'swap' and args and args[0][0] == 'ref' and obj[0] == 'ref':
                b = self.load(st, args[0][1])
                self.write(fr, st, n, path, b)
                self.write(fr, st, n, args[0][1], cv)
                return [(st, ('none',))]
            if n.get('fc') or n.get('fs'):
                return [(st, ('call', name, cv) + tuple(R(a) for a in args))]
            # unknown modifier
            for a, m in zip(args, pm):
                if m in 'wq' and a[0] in ('ref', 'ptr'):
                    self.write(fr, st, n, a[1], self.fresh(fr, n, 'out'))
            if obj[0] == 'ref':
                self.write(fr, st, n, path, ('w', fr.tok, n['i'], path))
            if n.get('rt') in ('w', 'r'):
                return [(st, obj)]
            return [(st, self.fresh(fr, n))]
        # free functions
        base = name.split('<')[0]
        if base in ('make_pair',) and len(args) == 2:
            return [(st, ('pair', R(args[0]), R(args[1])))]
        if base in ('move', 'forward', 'addressof') and len(args) == 1:
            return [(st, args[0] if base != 'addressof' else ('ptr', args[0][1]) if args[0][0] == 'ref' else args[0])]
        if base == 'swap' and len(args) == 2 and args[0][0] == args[1][0] == 'ref':
            a, b = self.load(st, args[0][1]), self.load(st, args[1][1])
            self.write(fr, st, n, args[0][1], b)
            self.write(fr, st, n, args[1][1], a)
            return [(st, ('none',))]
        if base in ('begin', 'end') and len(args) == 1 and args[0][0] == 'ref':
            return [(st, ('it', args[0][1], base))]
        if base in ALGO_OUT and isstd:
            pos = ALGO_OUT[base]
            if base == 'transform':
                pos = (2,) if len(args) == 4 else (3,)
            for k in pos:
                if k < len(args):
                    v = R(args[k])
                    if v and v[0] == 'it':
                        self.write(fr, st, n, v[1] + (('[]', ('any', fr.tok, n['i'])),), self.fresh(fr, n, 'algo'))
        for a, m in zip(args, pm):
            if m in 'wq' and a[0] in ('ref', 'ptr'):
                self.write(fr, st, n, a[1], self.fresh(fr, n, 'out'))
        # lambdas run zero or one time with unknown arguments
        states = [st]
        for k, a in enumerate(args):
            v = R(a)
            if v and v[0] == 'lambda':
                lam = self.P.fns.get(v[1])
                if lam is not None and lam.blocks and fr.depth < self.max_depth:
                    new = []
                    for s in states:
                        new.append(s)
                        s2 = s.copy()
                        first = R(args[0]) if args else None
                        la = []
                        for p in lam.params:
                            if first is not None and first[0] == 'it':
                                la.append(('ref', self.deref(('it', first[1], ('any', n['i'])))))
                            else:
                                la.append(self.fresh(fr, n, 'larg'))
                        for r in self.inline(fr, s2, n, lam, None, la, True):
                            if isinstance(r, Outcome):
                                new.append(r)
                            else:
                                new.append(r[0])
                    states = new
        out = []
        for s in states:
            if isinstance(s, Outcome):
                out.append(s)
                continue
            rt = n.get('rt', 'v')
            vals = tuple(self.rvalue(fr, s, a) for a in args)
            if obj is not None:
                vals = (self.rvalue(fr, s, obj),) + vals
            if rt in ('w',) and args and args[0][0] == 'ref':
                out.append((s, args[0]))
            elif not isstd and not fq.startswith(('f', 's', 'c', 'a', 'l', 'p', 'e', 't', 'i', 'm', 'g', 'r', 'w', '__builtin')):
                out.append((s, self.fresh(fr, n)))
            elif base in ('min', 'max') and len(vals) == 2:
                out.append((s, ('op', base) + tuple(sorted(vals, key=hash))))
            else:
                out.append((s, ('call', base) + vals))
        return out

    def written_members(self, callees, rec, frcls=None):
        """names of the members of class rec (and its relatives) that the callees may write; None if unknown"""
        import effects
        E = effects.of(self.P)
        rel = set(self.P.mro(rec)) | set(self.P.subclasses(rec))
        out = set()
        for f in callees:
            for owner, name in E.writes_names(f, frcls):
                if owner in rel:
                    out.add(name)
        return out

    def external_my(self, fr, st, n, callee, obj, args):
        """library function that is not inlined: uses the flow-insensitive effect summary"""
        import effects
        fq = n.get('fq', '')
        R = lambda v: self.rvalue(fr, st, v)
        pm = n.get('pm', '')
        if callee is not None:
            callees = [callee]
        else:
            callees = effects.of(self.P).callees(fr.fn, n, None)
        objpath = obj[1] if obj is not None and obj[0] == 'ref' else None
        if n.get('op') == '=' and objpath is not None and len(args) == 1:
            self.write(fr, st, n, objpath, R(args[0]))
            return [(st, obj)]
        havoc = {}
        for k, (a, m) in enumerate(zip(args, pm)):
            a = R(a) if a[0] == 'ref' and m == 'q' else a
            if m in 'wq' and a[0] in ('ref', 'ptr'):
                names = None
                if callees and all(k < len(f.params) for f in callees):
                    recs = {self.param_rec(f.params[k]) for f in callees}
                    if None not in recs:
                        names = set()
                        for r in recs:
                            names |= self.written_members(callees, r)
                havoc[a[1]] = names
        if objpath is not None and not n.get('fc') and not n.get('fs'):
            names = None
            if callees and n.get('cls') in self.P.recs:
                names = self.written_members(callees, fr.cls if objpath == fr.this and fr.cls else n['cls'],
                                             fr.cls if objpath == fr.this else None)
            old = havoc.get(objpath, set())
            havoc[objpath] = None if names is None or old is None else names | old
        elif objpath is not None and n.get('fc') and callees:
            # mutable members
            names = self.written_members(callees, fr.cls if objpath == fr.this and fr.cls else n['cls'],
                                         fr.cls if objpath == fr.this else None)
            if names and objpath not in havoc:
                havoc[objpath] = names
        for path, names in havoc.items():
            if names is None:
                self.write(fr, st, n, path, ('w', fr.tok, n['i'], path))
            else:
                for f in sorted(names):
                    self.write(fr, st, n, path + (f,), self.fresh(fr, n, f))
        if n.get('fc') and obj is not None or (obj is None and 'w' not in pm and 'q' not in pm):
            vals = tuple(R(a) for a in args)
            if obj is not None:
                vals = (self.objvalue(st, obj),) + vals
            return [(st, ('call', fq) + vals)]
        return [(st, self.fresh(fr, n))]

    def objvalue(self, st, obj):
        """value that stands for the current contents of an object"""
        if obj[0] != 'ref':
            return obj
        p = obj[1]
        inner = frozenset((q[len(p):], v) for q, v in st.store.items() if len(q) > len(p) and q[:len(p)] == p)
        return ('at', self.load(st, p), inner) if inner else ('at', self.load(st, p))

    def param_rec(self, p):
        t = p['type'].replace('const ', '').rstrip(' &*')
        r = self.P.recname.get(t)
        return r.usr if r else None

    def may_write_fields(self, fr, n, callee, path):
        return None

    # ---- control flow ----------------------------------------------------
    def run(self, fn, st, fr):
        loops = fn.loops()
        back = fn._back
        outs = []
        work = [(fn.entry, st)]
        seen = set()
        heads = {}
        while work:
            b, st = work.pop()
            key = (b, st.key())
            if key in seen:
                continue
            seen.add(key)
            self.count += 1
            if b in loops:
                st = self.limit(fr, b, st, heads)
                if st is None:
                    continue
            if len(seen) > self.max_states:
                raise Budget(fn.qname)
            if b == fn.exit:
                outs.append(Outcome('return', st, st.ret, fn))
                continue
            blk = fn.blocks[b]
            states = [st]
            for el in blk['e']:
                n = fn.nodes[el]
                new = []
                for s in states:
                    for r in self.step(fr, s, n):
                        if isinstance(r, Outcome):
                            outs.append(r)
                        else:
                            new.append(r)
                states = new
                if not states:
                    break
            for s in states:
                self.branch(fn, fr, blk, s, work, loops, back, outs)
        return outs

    head_limit = 16

    def limit(self, fr, head, st, heads):
        """joins the states at a loop head when there are too many of them"""
        h = heads.setdefault(head, [0, None])
        h[0] += 1
        if h[0] <= self.head_limit:
            return st
        if h[1] is None:
            h[1] = st
            return st
        j = self.join(fr, head, h[1], st)
        if j.key() == h[1].key():
            return None
        h[1] = j
        return j.copy()

    def join(self, fr, head, a, b):
        s = State()
        for p in set(a.store) | set(b.store):
            va, vb = self.load(a, p), self.load(b, p)
            if va == vb:
                s.store[p] = va
            elif va[0] == 'it' and vb[0] == 'it' and va[1] == vb[1]:
                s.store[p] = ('it', va[1], ('phi', fr.tok, head, p))
            else:
                s.store[p] = ('phi', fr.tok, head, p)
        s.bind = {k: v for k, v in a.bind.items() if b.bind.get(k) == v}
        s.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
        s.vals = {k: v for k, v in a.vals.items() if b.vals.get(k) == v}
        s.ev, s.ret = a.ev & b.ev, a.ret if a.ret == b.ret else None
        for k in set(a.data) | set(b.data):
            x, y = a.data.get(k), b.data.get(k)
            if k[0] == 'may':
                s.data[k] = (x or frozenset()) | (y or frozenset())
            elif k[0] == 'loop':
                s.data[k] = x or y
            elif x == y:
                s.data[k] = x
        return s

    def isbool(self, path):
        if path[0] == 'L' and len(path) == 4:
            f = self.P.fns.get(path[1])
            if f:
                for v in f.vars.values():
                    if v['name'] == path[2] and v['line'] == path[3]:
                        return v['type'].replace('const ', '') == 'bool'
        return False

    def on_widen(self, fr, st, head):
        pass

    def edge(self, fn, fr, frm, to, st, loops, back, work):
        # forget the entry states of the loops that are left
        gone = [k for k in st.data if k[0] == 'loop' and k[1] == fr.tok and to not in loops[k[2]]]
        if gone:
            st.data = {k: v for k, v in st.data.items() if k not in gone}
        if to in loops:
            body = loops[to]
            if (frm, to) in back:
                self.widen(fn, fr, to, body, st)
            else:
                # remember the state on entry for widening
                st.data = dict(st.data)
                st.data[('loop', fr.tok, to)] = frozenset(st.store.items())
        work.append((to, st))

    def widen(self, fn, fr, head, body, st):
        ent = dict(st.data.get(('loop', fr.tok, head), ()))
        nodeset = set()
        for b in body:
            for e in fn.blocks[b]['e']:
                nodeset.add(e)
        phi = ('phi', fr.tok, head)
        # values of expressions in the body belong to the finished iteration
        inner = self.bodynodes.get((fn.usr, head))
        if inner is None:
            inner = set()
            for b in body:
                for e in list(fn.blocks[b]['e']) + [fn.blocks[b].get('c', -1)]:
                    if e is not None and e >= 0 and e not in inner:
                        inner |= {m['i'] for m in fn.subtree(e)}
            self.bodynodes[(fn.usr, head)] = inner
        for i in inner:
            st.vals.pop(i, None)
        self.on_widen(fr, st, head)
        # variables declared in the body end with it
        dead = self.bodyvars.get((fn.usr, head))
        if dead is None:
            dead = self.bodyvars[(fn.usr, head)] = {self.varloc(fr, vo['v']) for e in nodeset if fn.nodes[e]['k'] == 'Decl'
                                                    for vo in fn.nodes[e]['vars'] if not fn.vars[vo['v']]['static']}
        if dead:
            st.store = {p: v for p, v in st.store.items() if p[:4] not in dead}
            st.bind = {p: v for p, v in st.bind.items() if p[:4] not in dead}
        for p in list(st.store):
            v = st.store[p]
            old = ent.get(p)
            if p not in ent:
                # location first written inside of the loop
                old = ('i', p)
                if any(isinstance(x, tuple) and x and x[0] == '[]' and x[1][0] != 'c' for x in p[1:]):
                    # an item of a container: the container itself has been written
                    del st.store[p]
                    continue
            if v == old:
                continue
            if v in (ZERO, ONE) and self.isbool(p):
                continue
            if v[0] == 'it' and old[0] == 'it' and v[1] == old[1]:
                st.store[p] = ('it', v[1], phi + (p,))
            elif v[0] == 'it' and old[0] in ('undef', 'i'):
                st.store[p] = ('it', v[1], phi + (p,))
            else:
                st.store[p] = phi + (p,)
        prefixes = tuple('%s/%d/' % (fr.tok, x) for x in nodeset)

        def made_here(x):
            if len(x) < 3 or x[0] not in ('phi', 'w', 'b', 'next', 'any', 'f', 'new', 'obj'):
                return False
            t = x[2] if x[0] == 'obj' else x[1]
            if not isinstance(t, str):
                return False
            if t == fr.tok:
                if x[0] == 'phi':
                    return x[2] == head
                return (x[3] if x[0] == 'obj' else x[2]) in nodeset
            return t.startswith(prefixes)
        # facts about values of this iteration are dropped
        st.facts = {k: v for k, v in st.facts.items() if not mentions_any(k, made_here)}
        st.vals = {k: v for k, v in st.vals.items() if k not in nodeset}

    def branch(self, fn, fr, blk, st, work, loops, back, outs):
        succ = blk['s']
        if blk.get('noret'):
            outs.append(Outcome('throw', st, None, fn, None))
            return
        live = [s for s in succ if s >= 0]
        t = blk.get('t')
        if not succ or not live:
            return
        if t == 'SwitchStmt' and 'c' in blk:
            v = self.getr(fr, st, blk['c'])
            cases = []
            for s in live:
                tb = fn.blocks[s]
                if 'case' in tb:
                    cases.append(tb['case'])
            for s in live:
                tb = fn.blocks[s]
                if 'case' in tb:
                    for f in Facts.assume(st.facts, mk_eq(v, ('c', tb['case'])), True):
                        s2 = st.copy()
                        s2.facts = f
                        self.edge(fn, fr, blk['b'], s, s2, loops, back, work)
                else:
                    fs = [st.facts]
                    for cv in cases:
                        fs = [g for f in fs for g in Facts.assume(f, mk_eq(v, ('c', cv)), False)]
                    for f in fs:
                        s2 = st.copy()
                        s2.facts = f
                        self.edge(fn, fr, blk['b'], s, s2, loops, back, work)
            return
        if len(succ) == 2 and 'c' in blk:
            v = mk_truth(self.getr(fr, st, blk['c']))
            self.on_branch(fr, st, blk, v)
            for s, val in ((succ[0], True), (succ[1], False)):
                if s < 0:
                    continue
                for f in Facts.assume(st.facts, v, val):
                    s2 = st.copy()
                    s2.facts = f
                    self.edge(fn, fr, blk['b'], s, s2, loops, back, work)
            return
        for k, s in enumerate(live):
            self.edge(fn, fr, blk['b'], s, st.copy() if k + 1 < len(live) else st, loops, back, work)

    # entry point
    def analyze(self, fn, cls=None, this=('T',), init=None):
        st = init or State()
        fr = Frame(fn, this, cls or fn.cls, 0, (fn.usr,))
        for k, p in enumerate(fn.params):
            loc = self.varloc(fr, p['v'])
            if p['pm'] in 'rwm':
                st.bind.setdefault(loc, ('A', k, p['name']))
            else:
                st.store.setdefault(loc, ('p', k, p['name']))
        return self.run(fn, st, fr), fr
