"""Abstract execution of the evaluators: what is known at every call that adds or removes a pair contribution."""
import sym, effects
from sym import Facts, mk_eq, mk_lt, mk_op, mk_not, ZERO, ONE

SUMS = 'addPairContribution'


class Event:
    __slots__ = ('st', 'fr', 'node', 'bnds', 'scale', 'pq', 'chain')

    def __init__(self, st, fr, node, pq, bnds, scale):
        self.st, self.fr, self.node, self.pq, self.bnds, self.scale = st, fr, node, pq, bnds, scale
        c, f = [], fr
        while f is not None:
            c.append(f.fn.short)
            f = f.up
        self.chain = c


class Eval(sym.Exec):
    """follows updateValue of one evaluator class; `full` decides whether evaluations of the base class are followed too"""
    max_depth = 5
    max_inline_nodes = 1500
    max_states = 60000
    head_limit = 400

    def __init__(self, P, cls, root, follow=True):
        super().__init__(P)
        self.rootcls, self.root, self.follow = cls, root, follow
        self.pqcls = P.rec('PairQuantity').usr
        self.evcls = P.rec('PQEvaluatorBasic').usr
        self.bgcls = P.rec('BaseBondGenerator').usr
        self.strucls = P.rec('StructureAdapter').usr
        self.events = []
        self.before = None
        self.selections = []        # (structure, facts, anchor, selected sites, frame, node)
        self.intwrites = {}         # local path -> {(kind)}
        self.partial = []           # (what, state, frame, node): other accesses to partial sums
        self.lastnames = set()
        self.fixedflag, self.sidebyside = 2, 1      # FIXEDSITEINDEX, SIDEBYSIDE

    def should_inline(self, fr, fn, n):
        if fn.cls and self.P.isa(fn.cls, self.evcls):
            if not self.follow and fn.name == 'updateValue' and fn.cls != self.root.cls:
                return False
            return True
        if fn.qname.startswith('diffpy::eventticker::EventTicker'):
            return fn.name != 'click'
        if fn.cls:
            return False
        return len(fn.nodes) < 80 and not fn.loops()

    def data(self, st, k, v):
        st.data = dict(st.data)
        st.data[k] = v

    def on_write(self, fr, st, n, path, value, old, cond):
        if path[0] == 'L' and len(path) == 4:
            w = self.intwrites.setdefault(path, set())
            if value == ('i', ('T', 'mcpuindex')):
                w.add('cpu')
            elif value[0] == 'op' and value[1] == '+' and set(value[2:]) == {old, ONE}:
                w.add('inc')
            elif value == mk_op('+', old, ONE):
                w.add('inc')
            else:
                w.add(('other', fr.fn.usr, n['i'] if n else -1))

    def gen(self, st):
        return st.data.get(('gen',), 0)

    def handle(self, fr, st, v):
        return self.rvalue(fr, st, v) if v is not None and v[0] == 'ref' and v[1][0] == 'L' and len(v[1]) == 4 else v

    def key(self, fr, st, obj):
        """identity of the object a call is made on"""
        if obj is None:
            return None
        p = obj[1] if obj[0] in ('ref', 'ptr') else ('D', obj)
        return p

    def indexsafe(self, st):
        """masks and indices cannot refer to shifted sites: sites of both structures correspond one to one, or there are no
        masks by index and no user of fixed indices"""
        if st.data.get(('indexsafe',)):
            return True
        side = fixed = None
        for k, v in st.facts.items():
            if k[0] != 'eq':
                continue
            for x in k[1:]:
                if x[0] == 'sel' and x[2][-1:] == ('diffmethod',):
                    if ('c', self.sidebyside) in k[1:]:
                        side = v
                if x[0] == 'op' and x[1] == '&' and ('i', ('T', 'mconfigflags')) in x and ('c', self.fixedflag) in x and ZERO in k[1:]:
                    fixed = not v
        F = lambda v: Facts.truth(st.facts, sym.mk_truth(v))
        nomask = F(('pqflag', 'hasPairMask', 0)) is False or F(('pqflag', 'hasMask', 0)) is False
        if side is True or nomask and fixed is False:
            self.data(st, ('indexsafe',), True)
            return True
        return False

    def join(self, fr, head, a, b):
        self.indexsafe(a), self.indexsafe(b)
        return super().join(fr, head, a, b)

    def turns(self, st):
        """known outcomes of the test whether an item belongs to this process"""
        m = ('i', ('T', 'mncpu'))
        return {x for k, v in st.facts.items() if v is True and k[0] == 'eq' and ZERO in k[1:]
                for x in k[1:] if x[0] == 'op' and x[1] == '%' and x[3] == m}

    def on_branch(self, fr, st, blk, cond):
        self.before = self.turns(st)

    def edge(self, fn, fr, frm, to, st, *rest):
        blk = fn.blocks[frm]
        if len(blk['s']) == 2 and 'c' in blk and self.turns(st) - self.before:
            self.data(st, ('fresh',), True)
            for k in list(st.data):
                if k[0] == 'pos':
                    self.data(st, ('turnB' if st.data[k] else 'turnA', k[1]), True)
        return super().edge(fn, fr, frm, to, st, *rest)

    def on_call(self, fr, st, n, callee, obj, args):
        P = self.P
        self.indexsafe(st)
        rec, nm = P.recname.get(n.get('cn', '')), effects.cname(n)
        cu = rec.usr if rec else None
        fq = n.get('fq', '')
        if fq.endswith('EventTicker::click') and obj is not None and obj[0] == 'ref':
            self.data(st, ('click', obj[1]), True)
            self.write(fr, st, n, obj[1], ('f', fr.tok, n['i'], 'click'))
            return [(st, ('none',))]
        if cu and nm == 'updateValue' and P.isa(cu, self.evcls) and not self.follow and callee is not None \
                and callee.cls != self.root.cls:
            # examined on its own: ends with a complete value of the given structure
            self.data(st, ('gen',), min(self.gen(st) + 1, 5))
            self.data(st, ('stru',), self.rvalue(fr, st, args[1]))
            self.data(st, ('restored',), False)
            self.data(st, ('stash',), None)
            self.data(st, ('summed',), True)
            self.data(st, ('click', ('T', 'mvalue_ticker')), True)
            for nm2 in self.lastnames:
                plain = not any(f['name'] == nm2 for rec, f in P.allfields(callee.cls))
                self.write(fr, st, n, ('T', nm2), ZERO if plain else ('clone', ('pqstru', self.gen(st))))
            return [(st, ('none',))]
        if cu and nm == 'clone' and P.isa(cu, self.strucls):
            return [(st, ('clone', self.key(fr, st, obj)[1]))]
        if cu and P.isa(cu, self.pqcls):
            pq = self.key(fr, st, obj)
            R = [self.rvalue(fr, st, a) for a in args]
            if nm == 'ticker':
                return [(st, ('ref', ('TK', self.gen(st))))]
            if nm == 'setStructure':
                self.data(st, ('gen',), min(self.gen(st) + 1, 5))
                self.data(st, ('stru',), R[0] if R else ('none',))
                if obj is not None and obj[0] == 'ref':
                    self.write(fr, st, n, obj[1] + ('mstructure',), ('pqstru', self.gen(st)))
                for k in [k for k in st.data if k[0] == 'click']:
                    self.data(st, k, False)
                self.partial.append(('setStructure', st.copy(), fr, n))
                # the calculator tells its evaluator to invalidate itself
                for nm2 in self.lastnames:
                    self.write(fr, st, n, ('T', nm2), ZERO)
                self.data(st, ('stash',), 'reset' if st.data.get(('stash',)) == 'stashed' else st.data.get(('stash',)))
                self.data(st, ('summed',), False)
                self.data(st, ('restored',), False)
                return [(st, ('none',))]
            if nm == SUMS:
                b = self.key(fr, st, args[0])
                s2 = st.copy()
                self.events.append(Event(s2, fr, n, pq, b, R[1]))
                self.data(st, ('summed',), True)
                return [(st, ('none',))]
            if nm == 'getPairMask':
                return [(st, ('mask',) + tuple(R))]
            if nm in ('hasMask', 'hasPairMask', 'hasTypeMask'):
                return [(st, ('pqflag', nm, self.gen(st)))]
            if nm == 'getStructure':
                return [(st, ('pqstru', self.gen(st)))]
            if nm == 'stashPartialValue':
                self.partial.append((nm, st.copy(), fr, n))
                self.data(st, ('stash',), 'stashed')
                return [(st, ('none',))]
            if nm == 'restorePartialValue':
                self.partial.append((nm, st.copy(), fr, n))
                self.data(st, ('stash',), None)
                self.data(st, ('restored',), True)
                return [(st, ('none',))]
            if nm == 'configureBondGenerator':
                self.data(st, ('conf', self.key(fr, st, args[0])), self.gen(st))
                return [(st, ('none',))]
        if cu and P.isa(cu, self.bgcls):
            b = self.key(fr, st, obj)
            R = [self.rvalue(fr, st, a) for a in args]
            if nm in ('next', 'rewind', 'selectAnchorSite', 'selectSites', 'selectSiteRange'):
                # what was known about the previous bond is no longer valid
                sel = nm == 'selectAnchorSite'
                old = lambda x: x[0] in ('site1', 'call') and b in x or sel and x == ('anc', b)
                st.facts = {k: v for k, v in st.facts.items() if not sym.mentions_any(k, old)}
                for p, v in list(st.store.items()):
                    if isinstance(v, tuple) and sym.mentions_any(v, old):
                        st.store[p] = ('stale', fr.tok, n['i'])
                if sel:
                    # the anchor gets a name of its own
                    self.data(st, ('anchor', b), True)
                    self.data(st, ('ancval', b), R[0])
                    for p, v in list(st.store.items()):
                        if v == R[0] and not sym.const(v):
                            st.store[p] = ('anc', b)
                    # references to the item that holds the anchor
                    bind = {}
                    for loc, pth in st.bind.items():
                        if pth[0] == 'L' and not sym.const(R[0]) and self.load(st, pth) == R[0] and loc[0] == 'L':
                            pth = ('N', 'anchor', b)
                            st.store[pth] = ('anc', b)
                        bind[loc] = pth
                    st.bind = bind
                    self.data(st, ('pos', b), False)
                    self.data(st, ('turnA', b), bool(st.data.get(('fresh',))))
                    self.data(st, ('fresh',), False)
                elif nm in ('next', 'rewind'):
                    self.data(st, ('pos', b), True)
                    self.data(st, ('turnB', b), False)
                    self.data(st, ('fresh',), False)
                else:
                    self.data(st, ('sel', b), (nm,) + tuple(R))
                    self.selections.append((self.gen(st), dict(st.facts), st.data.get(('ancval', b)), (nm,) + tuple(R), fr, n))
                return [(st, ('none',))]
            if nm == 'site1':
                return [(st, ('site1', b))]
            if nm == 'site0':
                return [(st, ('anc', b) if st.data.get(('anchor', b)) else ('site0', b))]
            if nm == 'finished':
                return [(st, ('call', 'finished', b))]
            if n.get('fc'):
                return [(st, ('call', nm, b))]
        if nm == 'createBondGenerator':
            o = self.rvalue(fr, st, obj) if obj is not None else ('none',)
            return [(st, ('bgen', o[1][1] if o[0] == 'i' and o[1][0] == 'D' else o, self.gen(st), fr.tok, n['i']))]
        return None


def run_eval(P, cls, follow=True, lastnames=()):
    f = P.fns[P.final(cls, P.method('PQEvaluatorBasic', 'updateValue').usr)]
    ex = Eval(P, cls, f, follow)
    ex.lastnames = set(lastnames)
    outs, fr = ex.analyze(f, cls)
    return ex, f, outs


def evaluators(P):
    ev = P.rec('PQEvaluatorBasic')
    return [u for u in P.subclasses(ev.usr) if P.concrete(u)]


def incremental(st):
    """the sum goes on from an earlier evaluation"""
    return st.data.get(('gen',), 0) == 0 or bool(st.data.get(('restored',)))


def ticker_older(ex, st):
    """it is known that the calculator mark is older than the value mark"""
    tk = ex.load(st, ('TK', ex.gen(st), 'mtick'))
    vt = ex.load(st, ('T', 'mvalue_ticker', 'mtick'))
    return Facts.truth(st.facts, mk_lt(tk, vt)) is True
