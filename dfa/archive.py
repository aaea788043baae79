"""Ordered list of the items that a serialize, save or load function exchanges with an archive, for every path."""
import sym


def is_archive(t):
    return 'archive::' in t


class Trace(sym.Exec):
    def __init__(self, P, cls, saving):
        super().__init__(P)
        self.root, self.saving = cls, saving
        self.fieldnames = {}        # an archive function sees the members of one class only

    def record(self, st, item):
        seq = st.data.get(('items',), ())
        if item not in seq:
            seq = seq + (item,)
        st.data = dict(st.data)
        st.data[('items',)] = seq

    def item(self, fr, st, v, node, fn):
        if v is not None and v[0] == 'ref':
            p = v[1]
            if p[:1] == ('T',):
                if len(p) == 1:
                    return ('this',)
                return ('field',) + tuple(x for x in p[1:] if isinstance(x, str))
            if p[0] == 'L':
                # a local on the saving side stands for the value it holds
                val = self.load(st, p)
                if val[0] == 'i' and val[1][:1] == ('T',):
                    return ('field',) + tuple(x for x in val[1][1:] if isinstance(x, str))
                return ('local', fn.nodes[node].get('t', ''))
            if p[0] == 'G':
                return ('global', p[1])
            return ('other',) + p[1:2]
        if v is not None and v[0] == 'call' and v[1] == 'base_object':
            return ('base', v[2])
        if v is not None and v[0] == 'i' and v[1][:1] == ('T',):
            return ('field',) + tuple(x for x in v[1][1:] if isinstance(x, str))
        if v is not None and v[0] == 'call' and len(v) > 2 and isinstance(v[-1], tuple):
            return ('value', v[1])
        return ('value', str(v)[:60])

    def on_call(self, fr, st, n, callee, obj, args):
        fq = n.get('fq', '')
        if fq == 'boost::serialization::base_object':
            return [(st, ('call', 'base_object', n.get('t', '').replace('const ', '').rstrip(' &')))]
        if fq.startswith('boost::serialization::make_') and args:
            if fq.endswith('make_nvp') and len(args) == 2:
                return [(st, args[1])]
            if fq.endswith(('make_array', 'make_binary_object')):
                a = self.rvalue(fr, st, args[0])
                return [(st, ('ref', a[1]) if a[0] in ('ptr', 'it') else args[0])]
        if fq == 'boost::serialization::split_member' and args:
            want = 'save' if self.saving else 'load'
            for f in self.P.fns.values():
                if f.cls and f.name == want and self.P.isa(self.root, f.cls) and f.cls == fr.fn.cls and f.targs and \
                        ('oarchive' in f.targs[0]) == self.saving:
                    return self.inline(fr, st, n, f, ('ref', fr.this), [args[0], args[2] if len(args) > 2 else ('c', 0)])
            return None
        if n.get('op') in ('&', '<<', '>>') and len(args) + (obj is not None) == 2:
            ops = ([obj] if obj is not None else []) + list(args)
            ids = n['c']
            if is_archive(fr.fn.nodes[ids[0]].get('t', '') + n.get('cn', '')):
                self.record(st, self.item(fr, st, ops[1], ids[1], fr.fn))
                # whatever is loaded is new
                if not self.saving and ops[1] is not None and ops[1][0] == 'ref':
                    self.write(fr, st, n, ops[1][1], ('loaded', fr.tok, n['i']))
                return [(st, ops[0])]
        return None


def serializers(P, usr):
    """(saving Fn, loading Fn) of the serialize function defined in the class itself"""
    out = [None, None]
    for f in P.methods_of(usr):
        if f.name == 'serialize' and f.targs:
            if 'oarchive' in f.targs[0]:
                out[0] = f
            elif 'iarchive' in f.targs[0]:
                out[1] = f
    return out


def traces(P, fn, cls, saving, version):
    """[(items, Outcome)] for the normal outcomes"""
    ex = Trace(P, cls, saving)
    st = sym.State()
    fr = sym.Frame(fn, ('T',), cls, 0, (fn.usr,))
    if len(fn.params) > 1 and version is not None:
        st.store[ex.varloc(fr, fn.params[1]['v'])] = ('c', version)
    outs, fr = ex.analyze(fn, cls, init=st)
    return ex, [(o.st.data.get(('items',), ()), o) for o in outs if o.kind == 'return'], outs
