"""Symbolic execution that keeps track of the state of input streams and of the values extracted from them (used by C13, C24).
For every stream the possible (result of the last tests, end reached, numbers extracted, opened) combinations are kept; a
value extracted from a stream is tentative until a test of the stream succeeded."""
import sym, effects
from sym import Outcome, ZERO, ONE

REFILL = ('clear', 'assign', 'operator=', 'swap', 'erase')
THROWING = ('at', 'stoi', 'stol', 'stoll', 'stoul', 'stod', 'stof', 'stold', 'lexical_cast', 'value')
NEW = ('new', None, False, False, False)       # good, eof, numeric (any of the chain), numeric (last), opened


def isstream(t):
    t = str(t)
    return any(x in t for x in ('istream', 'ifstream', 'istringstream', 'basic_iostream', 'fstream', 'stringstream')) and \
        'ostream' not in t and 'ostringstream' not in t and 'ofstream' not in t and 'shared_ptr' not in t


def extraction(n):
    """operands (stream, target) of a library extraction given as indices into [obj] + args"""
    fq = str(n.get('fq', ''))
    if n.get('op') == '>>' and 'archive' not in fq + str(n.get('cn', '')):
        return isstream(n.get('t', '')) or isstream(n.get('cn', ''))
    return fq.split('<')[0] in ('std::getline',)


class Streams(sym.Exec):
    max_depth = 6
    max_inline_nodes = 900

    def __init__(self, P, may=()):
        super().__init__(P)
        self.may = may
        self.found = []             # (rule, fn, node, text)
        self.seen = set()
        self.ntests = 0

    def should_inline(self, fr, fn, n):
        if fn.name == 'datapath' or 'EventTicker' in fn.short:
            return False
        return fn.usr in self.may or len(fn.nodes) < 60 or self.streaming(fn)

    def streaming(self, fn):
        return any(isstream(p['type']) for p in fn.params)

    # ---- state of the streams
    def status(self, st, S):
        return st.data.get(('may', 'st', S), frozenset([NEW]))

    def put(self, st, S, v):
        st.data = dict(st.data)
        st.data[('may', 'st', S)] = frozenset(v)

    def tent(self, st):
        return st.data.get(('may', 'tent'), frozenset())

    def settent(self, st, v):
        st.data = dict(st.data)
        st.data[('may', 'tent')] = frozenset(v)

    def forget(self, st, path):
        t = self.tent(st)
        k = [x for x in t if x[0][:len(path)] != path]
        if len(k) != len(t):
            self.settent(st, k)

    def vartype(self, fr, path):
        if path[0] == 'L':
            for f in (fr.fn,) + tuple(self.frames(fr)):
                if f.usr == path[1]:
                    for v in f.vars.values():
                        if v['name'] == path[2] and v['line'] == path[3]:
                            return v['type']
        return ''

    def frames(self, fr):
        while fr is not None:
            yield fr.fn
            fr = fr.up

    def finish(self, fr, st, S, fn, n):
        t = self.vartype(fr, S)
        kind = 'file' if 'ifstream' in t or 'fstream' in t and 'string' not in t else 'text'
        for good, eof, num, last, opened in self.status(st, S):
            self.seen.add((fn.usr, S))
            if good == 'bad' and eof is not True and num:
                self.report('ignored', fn, n, 'text that cannot be interpreted is skipped')
            self.end(fr, st, S, kind, (good, eof, num, last, opened), fn, n)

    def end(self, fr, st, S, kind, status, fn, n):
        pass

    def report(self, rule, fn, n, text):
        self.found.append((rule, fn, n, text))

    def on_element(self, fr, st, n):
        if n['k'] == 'Decl':
            for vo in n['vars']:
                vi = fr.fn.vars[vo['v']]
                loc = self.varloc(fr, vo['v'])
                if isstream(vi['type']) and not vi['type'].endswith(('&', '*')):
                    if ('may', 'st', loc) in st.data:
                        self.finish(fr, st, loc, fr.fn, n)
                    self.put(st, loc, [NEW])
                    c = fr.fn.nodes[vo['init']] if vo['init'] >= 0 else None
                    st.data[('source', loc)] = self.source(fr, st, c)
                else:
                    self.forget(st, loc)
        return None

    def source(self, fr, st, c):
        return None

    def on_write(self, fr, st, n, path, value, old, cond):
        self.forget(st, path)

    def on_read(self, fr, st, n, path):
        if getattr(self, 'mute', False):
            return
        for p, S, num in self.tent(st):
            m = min(len(p), len(path))
            if p[:m] == path[:m]:
                self.report('verified', fr.fn, n or self.cur, 'a value is used although its extraction may have failed')

    cur = None

    def on_return(self, fr, st, callee, n):
        for k in [k for k in st.data if k[:2] == ('may', 'st') and k[2][0] == 'L' and k[2][1] == callee.usr]:
            S = k[2]
            if any(isstream(p['type']) and p['name'] == S[2] for p in callee.params):
                continue
            nf = sym.Frame(callee, fr.this, fr.cls, fr.depth + 1, fr.stack, fr, n)
            self.finish(nf, st, S, callee, None)
            st.data = {a: b for a, b in st.data.items() if a != k}
            self.settent(st, [x for x in self.tent(st) if x[1] != S])

    def on_call(self, fr, st, n, callee, obj, args):
        if n['k'] != 'Call':
            return None
        self.cur = n
        name = effects.cname(n)
        ops = ([obj] if obj is not None else []) + list(args)
        if extraction(n) and not (callee is not None and callee.blocks and callee.usr in self.P.fns and callee.file.startswith('diffpy')):
            if len(ops) < 2 or ops[0][0] != 'ref':
                return None
            S = ops[0][1]
            r = self.extracted(fr, st, n, S, ops)
            if r is not None:
                return r
        if obj is not None and obj[0] == 'ref' and (isstream(n.get('cn', '')) or ('may', 'st', obj[1]) in st.data):
            r = self.test(fr, st, n, obj[1], name)
            if r is not None:
                return r
        if obj is not None and obj[0] == 'ref' and name in REFILL:
            self.forget(st, obj[1])
        if obj is not None and obj[0] == 'ref' and name in ('c_str', 'empty', 'size', 'find', 'at', 'begin', 'operator[]', 'substr'):
            self.on_read(fr, st, n, obj[1])
        return self.risky(fr, st, n, callee, obj, args)

    def risky(self, fr, st, n, callee, obj, args):
        return None

    def extracted(self, fr, st, n, S, ops):
        tgt = ops[1]
        if tgt[0] != 'ref':
            if 'ws' in str(tgt):
                return [(st, ops[0])]
            return [(st, ops[0])]
        T = tgt[1]
        kind = str(n.get('fn', ''))
        num = not ('basic_string' in kind.split('>>')[-1] or str(n.get('fq', '')).startswith('std::getline'))
        if str(n.get('fq', '')) == 'std::operator>>':
            num = False
        new = set()
        for good, eof, anynum, last, opened in self.status(st, S):
            chain = anynum if good == 'unk' else False
            new.add(('unk', None, chain or num, num, opened))
        self.put(st, S, new)
        self.mute = True
        self.setpath(st, T, ('w', fr.tok, n['i'], T))
        self.mute = False
        self.forget(st, T)
        self.settent(st, set(self.tent(st)) | {(T, S, num)})
        # facts about the earlier value do not hold any longer
        tok = ('w', fr.tok, n['i'], T)
        st.facts = {k: v for k, v in st.facts.items() if not mentions(k, tok)}
        self.onextract(fr, st, n, S, T, num)
        return [(st, ops[0])]

    def onextract(self, fr, st, n, S, T, num):
        pass

    def split(self, fr, st, S, positive):
        """state after a test of the stream"""
        s = st.copy()
        new = set()
        for good, eof, num, last, opened in self.status(st, S):
            if positive and good != 'bad':
                new.add(('ok', eof, num, last, True))
            if not positive and good not in ('ok',):
                new.add(('bad', eof, num, last, opened))
        if not new:
            return None
        self.put(s, S, new)
        if positive:
            self.settent(s, [x for x in self.tent(s) if x[1] != S])
        return s

    def ended(self, st, S, positive, soft=False):
        s = st.copy()
        new = set()
        for good, eof, num, last, opened in self.status(st, S):
            if positive and eof is not False:
                new.add((good, True, num, last, opened))
            if not positive and eof is not True:
                new.add((good, False, num, last, opened))
        if not new:
            return None
        self.put(s, S, new)
        return s

    def test(self, fr, st, n, S, name):
        yes = no = None
        if name in ('operator bool', 'good', 'operator void *', 'is_open', 'operator!', 'fail'):
            self.ntests += 1
            neg = name in ('operator!', 'fail')
            a, b = self.split(fr, st, S, True), self.split(fr, st, S, False)
            if name == 'is_open':
                new = {(g, e, x, y, True) for g, e, x, y, o in self.status(st, S)}
                a = st.copy()
                self.put(a, S, new)
            out = []
            if a is not None:
                out.append((a, ZERO if neg else ONE))
            if b is not None:
                out.append((b, ONE if neg else ZERO))
            return out
        if name == 'eof':
            self.ntests += 1
            out = []
            for p, v in ((True, ONE), (False, ZERO)):
                s = self.ended(st, S, p)
                if s is not None:
                    out.append((s, v))
            return out
        if name == 'bad':
            self.ntests += 1
            a = st.copy()
            b = st.copy()
            self.put(b, S, {(g, True if g == 'bad' and o and not x else e, x, y, o) for g, e, x, y, o in self.status(st, S)})
            bads = {t for t in self.status(st, S) if t[0] in ('unk', 'bad')}
            out = [(b, ZERO)]
            if bads:
                self.put(a, S, {('bad',) + t[1:] for t in bads})
                out.append((a, ONE))
            return out
        if name == 'peek':
            out = []
            for p, v in ((True, ('c', -1)), (False, ('w', fr.tok, n['i'], ('peek',)))):
                s = self.ended(st, S, p)
                if s is not None:
                    if not p:
                        s.facts[sym.mk_eq(v, ('c', -1))] = False
                    out.append((s, v))
            return out
        return None


def mentions(k, tok):
    if k == tok:
        return True
    return isinstance(k, tuple) and any(mentions(x, tok) for x in k if isinstance(x, tuple))


def extractors(P):
    return [f for f in P.fns.values() if f.file.startswith('diffpy') and '/tests/' not in f.file and f.blocks and
            any(extraction(n) for n in f.all('Call'))]
