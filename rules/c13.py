"""Reference data.  Functions that keep data in variables of static storage and may fail (throw, or read files) are executed
symbolically.  (1) retry: a second execution is started from the static variables as left by each path that ends with an
exception; it must not return without changing any of them, that is, nothing of the failed attempt is taken for a complete
result.  (2) complete: on each path that publishes data or returns them, every file opened for reading was read to its end,
established by a test.  (3) final: data are not changed after they were published, and nothing that may throw is done
between publication and return.  (4) found: iterators from searches in tables are dereferenced only where the search is known
to have succeeded.  (5) kept: no handler swallows an exception.  (6) plausible: the table of electron numbers, whose file
has no other consistency mark, is published only when its size was compared with the required number."""
import sym, effects
from sym import Facts, Outcome, ZERO, ONE, mk_eq
from streams import Streams, extraction, isstream, THROWING
from c12 import deep, may_throw

ASSUMPTIONS = ['resources of the process (memory) do not run out', 'the environment and files do not change during one call',
               'a data file that is well-formed and was read to its end is complete']


class Load(Streams):
    outcome_limit = 40

    def __init__(self, P, may, root):
        super().__init__(P, may)
        self.root = root
        self.nopen = 0

    def should_inline(self, fr, fn, n):
        if fn.usr == self.root.usr:
            return True
        if 'EventTicker' in fn.short or fn.name in ('format_error',):
            return False
        if fn.usr in self.statics:
            return False
        return len(fn.nodes) < 60 or self.streaming(fn) or fn.usr in self.may and len(fn.nodes) < 200

    def extracted(self, fr, st, n, S, ops):
        if st.data.get(('failed', S)) and 'ifstream' in self.vartype(fr, S):
            self.report('exhausted', fr.fn, n, 'reading goes on after the file is known to have ended or failed')
        return super().extracted(fr, st, n, S, ops)

    def split(self, fr, st, S, positive):
        # an operator>> of this library may test the stream to leave its target blank
        s = super().split(fr, st, S, positive)
        if s is not None and not (fr.fn.name == 'operator>>' and not positive):
            s.data[('failed', S)] = not positive
        return s

    def isstatic(self, path):
        if path[0] == 'D' and len(path) > 1 and isinstance(path[1], tuple) and path[1][0] in ('i', 'w', 'new'):
            return False
        return path[0] == 'S' and path[1] == self.root.usr

    def on_write(self, fr, st, n, path, value, old, cond):
        super().on_write(fr, st, n, path, value, old, cond)
        if self.isstatic(path) and path in self.marks and value not in (ZERO,) and Facts.truth(st.facts, sym.mk_truth(value)) is not False \
                and Facts.truth(st.facts, mk_eq(value, old)) is not True:
            st.data = dict(st.data)
            st.data[('published',)] = (path, value)
            self.published.append((fr.fn, n))
            for k in list(st.data):
                if k[:2] == ('may', 'st'):
                    self.wholefile(fr, st, k[2], fr.fn, n)
            self.at_publish(fr, st, n)
        elif st.data.get(('published',)):
            p, v = st.data[('published',)]
            if path[:2] == ('D', v) or path[:1] == ('D',) and path[1:2] == (('i', p),):
                self.report('final', fr.fn, n, 'data are changed after they were published')

    def at_publish(self, fr, st, n):
        if fr.fn.name == 'getElectronNumberTable':
            sized = any(deep(k, lambda x: x[:2] == ('call', 'size')) and k[0] in ('lt', 'op', 'le') for k in st.facts)
            self.plausible.append((sized, fr.fn, n))

    def wholefile(self, fr, st, S, fn, n):
        t = self.vartype(fr, S)
        if 'ifstream' not in t:
            return
        self.files.add(S)
        for good, eof, num, last, opened in self.status(st, S):
            if good != 'new' and eof is not True:
                self.report('complete', fn, n, 'data are published although the file may not have been read to its end')
            if good == 'new':
                self.report('complete', fn, n, 'data are published before the file is read')

    def on_element(self, fr, st, n):
        if n['k'] == 'Decl' and any('ifstream' in fr.fn.vars[v['v']]['type'] for v in n['vars']):
            self.nopen += 1
            if st.data.get(('published',)):
                self.report('complete', fr.fn, n, 'data are published before the file is read')
        if n['k'] == 'Decl':
            for v in n['vars']:
                vi = fr.fn.vars[v['v']]
                if vi['static'] and v['init'] >= 0 and self.loads(fr.fn, v['init']):
                    pass
        return super().on_element(fr, st, n)

    def loads(self, fn, i):
        return False

    def risky(self, fr, st, n, callee, obj, args):
        name = effects.cname(n)
        own = callee is not None and callee.blocks and callee.usr in self.may
        if own:
            own = not (fr.depth < self.max_depth and callee.usr not in fr.stack and len(callee.nodes) <= self.max_inline_nodes
                       and self.should_inline(fr, callee, n))
        std = str(n.get('fq', '')).startswith('std::') and name in THROWING and obj is not None or name in THROWING[1:-1]
        if (own or std) and fr.tok:
            if st.data.get(('published',)):
                self.report('final', fr.fn, n, '%s() may fail after the data were published' % name)
            s = st.copy()
            r = self.external(fr, st, n, callee, obj, args)
            return [Outcome('throw', s, None, fr.fn, n)] + list(r)
        if extraction(n) and st.data.get(('published',)) and not (callee is not None and callee.blocks):
            self.report('final', fr.fn, n, 'reading continues after the data were published')
        return None


def statics(P):
    for f in P.fns.values():
        if not f.file.startswith('diffpy') or '/tests/' in f.file or not f.blocks:
            continue
        sv = [v for v in f.vars.values() if v.get('static') and not str(v['type']).startswith('const ')]
        if sv:
            yield f, sv


def loader(P, E, f, may):
    if any(isstream(v['type']) and 'ifstream' in v['type'] for v in f.vars.values()):
        return True
    if any(True for _ in f.all('Throw')):
        return True
    return any(g.usr in may for n, g, gc in E.calls(f) if g.file.startswith('diffpy') and g.cls is None)


def check_static(ctx, P, E, may):
    loaders = [(f, sv) for f, sv in statics(P) if loader(P, E, f, may)]
    su = {f.usr for f, _ in statics(P)}
    files = 0
    for f, sv in sorted(loaders, key=lambda x: x[0].short):
        def mk():
            ex = Load(P, may, f)
            ex.statics = su - {f.usr}
            ex.published, ex.files, ex.plausible = [], set(), []
            ex.marks = {('S', f.usr, v['name'], v['line']) for v in sv if v['type'] == 'bool' or '_ptr<' in v['type'] or v['type'].endswith('*')}
            return ex
        ex = mk()
        outs, fr = ex.analyze(f, f.cls)
        ctx.touched(f)
        ctx.npaths += len(outs)
        files += ex.nopen > 0
        sp = {('S', f.usr, v['name'], v['line']) for v in sv}
        direct = any(v['type'].startswith('std::') and '_ptr<' not in v['type'] for v in sv)
        for rule, g, n, text in ex.found:
            if rule in ('complete', 'final', 'exhausted'):
                ctx.bad(rule, f.short, g.loc(n) if n else g.loc(), text)
        for good, g, n in ex.plausible:
            ctx.check(good, 'plausible', g.short, g.loc(n), 'the table is published without a test of its size')
        for o in outs:
            if o.kind == 'return':
                for k in list(o.st.data):
                    if k[:2] == ('may', 'st'):
                        before = len(ex.found)
                        ex.wholefile(fr, o.st, k[2], f, None)
                        for rule, g, n, text in ex.found[before:]:
                            ctx.bad('complete', f.short, f.loc(), 'data are returned although the file may not have been read to its end')
        ctx.ok('complete', f.short)
        ctx.ok('final', f.short)
        ctx.ok('exhausted', f.short)
        seen = set()
        for o in outs:
            if o.kind != 'throw':
                continue
            init = sym.State()
            for p, v in o.st.store.items():
                if p[:4] in sp:
                    init.store[p] = v
            init.facts = {k: v for k, v in o.st.facts.items() if deep(k, lambda x: x[0] in ('S', 'w', 'phi') or x[:1] == ('i',) and x[1][0] == 'S'
                                                                       or x[0] == 'call' and 'env' in str(x[1]))}
            key = (str(sorted(init.store.items(), key=str)), str(sorted(init.facts.items(), key=str)))
            if key in seen:
                continue
            seen.add(key)
            start = dict(init.store)
            ex2 = mk()
            outs2, fr2 = ex2.analyze(f, f.cls, init=init)
            ctx.npaths += len(outs2)
            for o2 in outs2:
                if o2.kind != 'return':
                    continue
                same = not any(Facts.truth(o2.st.facts, mk_eq(v, start.get(p, ('i', p)))) is not True
                               for p, v in o2.st.store.items() if p[:4] in sp)
                def filled(p):
                    v = start.get(p, ('i', p))
                    if v[0] == 'c' and str(v[1]).startswith('"'):
                        return len(v[1]) > 1
                    if p in ex2.marks:
                        return Facts.truth(o2.st.facts, sym.mk_truth(v)) is True
                    return Facts.truth(o2.st.facts, mk_eq(('call', 'size', v), ZERO)) is False
                quick = same and any(filled(p) for p in sp)
                ctx.check(not quick, 'retry', f.short, (o.fn or f).loc(o.node) if o.node else f.loc(),
                          'data remain in static variables after this failure and are taken for complete by a later call')
    ctx.need(len(loaders) >= 5, 'functions with static data that may fail')
    return files


# ---- search results
class Found(sym.Exec):
    max_depth = 2
    max_inline_nodes = 60

    def __init__(self, P):
        super().__init__(P)
        self.uses = []

    def should_inline(self, fr, fn, n):
        return len(fn.nodes) < 60 and len(fn.blocks) < 8

    def on_read(self, fr, st, n, path):
        self.deref_at(fr, st, n, path)

    def on_call(self, fr, st, n, callee, obj, args):
        self.cur = n
        if effects.cname(n) in ('insert', 'emplace', 'try_emplace') and not (callee is not None and callee.blocks):
            r = self.external(fr, st, n, callee, obj, args)
            its = set()
            for s, v in r:
                deep(v, lambda x: its.add(x) if x[0] == 'it' and len(x) == 3 and x[2][:2] == ('key', 'find') else False)
                for x in its:
                    s.facts[mk_eq(x, ('it', x[1], 'end'))] = False
            return r
        return None

    cur = None

    def deref_at(self, fr, st, n, path):
        for i, x in enumerate(path):
            if isinstance(x, tuple) and len(x) == 2 and x[0] == '[]' and isinstance(x[1], tuple) and x[1][:2] in (('key', 'find'),):
                it, end = ('it', path[:i], x[1]), ('it', path[:i], 'end')
                good = Facts.truth(st.facts, mk_eq(it, end)) is False
                self.uses.append((good, fr.fn, n or self.cur))


def check_found(ctx, P, E):
    total = 0
    for f in sorted(P.fns.values(), key=lambda f: f.short):
        if not f.file.startswith('diffpy') or '/tests/' in f.file or not f.blocks:
            continue
        if not any(effects.cname(n) in ('find',) and ('set<' in str(n.get('cn')) or 'map<' in str(n.get('cn'))) for n in f.all('Call')):
            continue
        ex = Found(P)
        outs, fr = ex.analyze(f, f.cls)
        ctx.touched(f)
        ctx.npaths += len(outs)
        for o in outs:
            if o.kind == 'return' and o.value is not None and o.value[0] == 'ref':
                ex.deref_at(fr, o.st, None, o.value[1])
            elif o.kind == 'return' and o.value is not None and o.value[0] == 'it' and o.value[2][:2] == ('key', 'find') and o.value[1][0] != 'T':
                # the caller dereferences what it is given
                if not any(effects.cname(n) in ('operator==', 'operator!=') for g in P.fns.values() for c in ()):
                    ex.uses.append((Facts.truth(o.st.facts, mk_eq(o.value, ('it', o.value[1], 'end'))) is False, f, None))
        for good, g, n in ex.uses:
            total += 1
            ctx.check(good, 'found', '%s@%s' % (g.short, f.short), g.loc(n) if n else g.loc(), 'the result of a search is used although nothing may have been found')
    return total


def check_kept(ctx, P, E, may):
    n = 0
    for f in P.fns.values():
        if not f.file.startswith('diffpy') or '/tests/' in f.file or not f.blocks:
            continue
        for c in f.all('CXXCatchStmt'):
            n += 1
            ctx.check(any(x['k'] == 'Throw' for x in f.subtree(c['i'])), 'kept', f.short, f.loc(c), 'an exception is caught and not passed on')
    return n


def run(ctx):
    P = ctx.P
    E = effects.of(P)
    may = may_throw(P, E)
    files = check_static(ctx, P, E, may)
    total = check_found(ctx, P, E)
    check_kept(ctx, P, E, may)
    ctx.need(files >= 4, 'functions that load files')
    ctx.need(total >= 8, 'uses of search results')
    ctx.floor('retry', 5)
    ctx.floor('plausible', 1)
