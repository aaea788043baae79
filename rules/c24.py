"""Parsed text.  Every function that extracts values from an input stream is executed symbolically together with the stream
state: values extracted since the last successful test of the stream are tentative.  (1) verified: no tentative value is
read.  (2) ignored: when a number could not be extracted, the function throws (a loop that reads numbers until none is left
establishes that the end was reached).  (3) trailing: a number taken from text given by the user is accepted only when
nothing follows it.  (4) position: positions returned by searches in strings are used only where the search is known to have
succeeded.  (5) column: a column of a data line is used only where the line is known to have it.  (6) convert: no conversion
functions that cannot report errors; getenv results are tested before use."""
import sym, effects
from sym import Facts, ZERO, mk_eq, mk_lt
from streams import Streams, extractors
from c12 import deep, may_throw

ASSUMPTIONS = ['numbers in files distributed with the library may be followed by an uncertainty in parentheses',
               'a text stream over a string fails only at its end or at text that cannot be interpreted']
NPOS = ('i', ('G', 'std::basic_string<char>::npos'))
NOCHECK = ('atoi', 'atol', 'atoll', 'atof', 'sscanf')
SEARCH = ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of')


class Parse(Streams):
    def end(self, fr, st, S, kind, status, fn, n):
        good, eof, num, last, opened = status
        if last and good in ('ok', 'unk') and eof is not True and kind == 'text' and not self.infile(fr):
            self.report('trailing', fn, n, 'a number is accepted although other text follows it')

    def infile(self, fr):
        return any('ifstream' in v['type'] for f in self.frames(fr) for v in f.vars.values())

    def risky(self, fr, st, n, callee, obj, args):
        name = effects.cname(n)
        cn = str(n.get('cn', ''))
        if cn.startswith('std::basic_string<') and name in SEARCH and obj is not None:
            self.nsearch += 1
            a, b = st.copy(), st.copy()
            v = ('w', fr.tok, n['i'], ('position',))
            b.facts = {k: x for k, x in b.facts.items() if not deep(k, lambda y: y == v)}
            b.facts[mk_eq(v, NPOS)] = False
            if self.known(st, obj, args):
                return [(b, v)]
            return [(a, NPOS), (b, v)]
        if cn.startswith('std::basic_string<') and name in ('substr', 'erase', 'operator[]', 'at', 'replace', 'insert'):
            for x in args:
                v = self.rvalue(fr, st, x)
                if v == NPOS and x is args[0] or v[0] == 'op' and deep(v, lambda y: y == NPOS, cut=lambda y: y[0] not in ('op', 'i', 'neg', 'big')):
                    self.found.append(('position', fr.fn, n, 'the result of a search is used although nothing may have been found'))
        if obj is not None and obj[0] == 'ref' and cn.startswith('std::vector<std::basic_string') and name in ('operator[]', 'front', 'back') \
                and len(obj[1]) > 1 and obj[1][-1] == 'words':
            k = self.rvalue(fr, st, args[0]) if args else ZERO
            if sym.const(k):
                self.ncolumn += 1
                vals = [self.load(st, obj[1])]
                size = ('call', 'size', vals[0])
                good = Facts.truth(st.facts, mk_lt(k, size)) is True or Facts.truth(st.facts, sym.mk_op('<', k, size)) is True or \
                    any(Facts.truth(st.facts, mk_eq(size, ('c', m))) is True for m in range(k[1] + 1, k[1] + 40)) or \
                    k[1] == 0 and (Facts.truth(st.facts, mk_eq(size, ZERO)) is False or
                                   Facts.truth(st.facts, sym.mk_truth(('call', 'empty', vals[0]))) is False)
                if not good:
                    self.found.append(('column', fr.fn, n, 'column %s is used although the line may not have it' % k[1]))
        if name == 'getenv':
            v = ('w', fr.tok, n['i'], ('getenv',))
            a, b = st.copy(), st.copy()
            b.facts[mk_eq(v, ZERO)] = False
            return [(a, ZERO), (b, ('ptr', ('D', v)))]
        return None

    def known(self, st, obj, args):
        """search in a string literal of something that it contains"""
        v = self.load(st, obj[1]) if obj[0] == 'ref' else obj
        lits = []
        deep(v, lambda y: lits.append(y[1]) if y[0] == 'c' and isinstance(y[1], str) else False,
             cut=lambda y: y[0] in ('sel', 'ite', 'cond', 'phi'))
        a = args[0] if args else None
        if a is None or not sym.const(a):
            return False
        c = a[1] if isinstance(a[1], str) else chr(a[1]) if isinstance(a[1], int) and 0 < a[1] < 256 else None
        return c is not None and any(c.strip('"') in s for s in lits)

    nsearch = ncolumn = 0

    def on_read(self, fr, st, n, path):
        if path[:1] == ('D',) and path[1:2] == (ZERO,):
            self.found.append(('environment', fr.fn, n or self.cur, 'a variable of the environment is used although it may not be set'))
        super().on_read(fr, st, n, path)


def run(ctx):
    P = ctx.P
    E = effects.of(P)
    may = may_throw(P, E)
    roots = {f.usr: f for f in extractors(P)}
    for f in P.fns.values():
        if f.file.startswith('diffpy') and '/tests/' not in f.file and f.blocks:
            for n in f.all('Call'):
                nm = effects.cname(n)
                if str(n.get('cn', '')).startswith('std::basic_string<') and nm in SEARCH or nm in ('getenv', 'realpath'):
                    roots[f.usr] = f
                ctx.check(nm not in NOCHECK or bool(n.get('my')), 'convert', f.short, f.loc(n), '%s() does not report text that is not a number' % nm)
    ntests = nsearch = ncol = 0
    nstreams = set()
    for f in sorted(roots.values(), key=lambda f: f.short):
        ex = Parse(P, may)
        outs, fr = ex.analyze(f, f.cls)
        ctx.touched(f)
        ctx.npaths += len(outs)
        for o in outs:
            if o.kind == 'return':
                for k in list(o.st.data):
                    if k[:2] == ('may', 'st'):
                        ex.finish(fr, o.st, k[2], f, None)
        ntests += ex.ntests
        nsearch += ex.nsearch
        ncol += ex.ncolumn
        nstreams |= ex.seen
        for rule, g, n, text in ex.found:
            ctx.bad(rule, '%s@%s' % (g.short, f.short), g.loc(n) if n else g.loc(), text)
        for rule in ('verified', 'ignored', 'trailing', 'position', 'column'):
            if not any(x[0] == rule for x in ex.found):
                ctx.ok(rule, f.short)
    ctx.need(len(roots) >= 8 and ntests >= 8 and nsearch >= 6 and ncol >= 4 and len(nstreams) >= 5, 'parsed text')
