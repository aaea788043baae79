"""Program model of libdiffpy built from the AST extractor output."""
import json, os, sys, subprocess, hashlib, glob, pickle, tempfile, shutil, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('DFA_REPO', '/repo')


class AnalysisBroken(Exception):
    """An anchor of the analysis vanished or the sources cannot be analyzed."""


class Fn:
    def __init__(self, d):
        self.d = d
        self.usr = d['usr']
        self.name = d['name']
        self.qname = d['qname']
        self.file = d['file']
        self.line = d['line']
        self.end = d.get('end', 0)
        self.cls = d.get('cls')
        self.cn = d.get('cn')
        self.const = d.get('const', False)
        self.static = d.get('static', False)
        self.virtual = d.get('virtual', False)
        self.ctor = d.get('ctor', False)
        self.dtor = d.get('dtor', False)
        self.access = d.get('access', 0)
        self.params = d['params']
        self.ret = d['ret']
        self.targs = d.get('targs', [])
        self.nodes = {n['i']: n for n in d['nodes']}
        self.vars = {v['v']: v for v in d['vars']}
        self.blocks = {b['b']: b for b in d['blocks']}
        self.entry = d.get('entry')
        self.exit = d.get('exit')
        self.body = d['body']
        self.inits = d.get('inits', [])
        self._parents = None
        self._loops = None

    @property
    def short(self):
        return self.qname.replace('diffpy::srreal::', '').replace('diffpy::', '').replace('(anonymous namespace)::', '')

    def parents(self):
        if self._parents is None:
            p = {}
            for i, n in self.nodes.items():
                if n['k'] in ('Method', 'Func'):
                    continue
                for c in n.get('c', ()):
                    if c >= 0 and c not in p:
                        p[c] = i
            self._parents = p
        return self._parents

    def subtree(self, i):
        stack, seen = [i], set()
        while stack:
            x = stack.pop()
            if x < 0 or x in seen or x not in self.nodes:
                continue
            seen.add(x)
            n = self.nodes[x]
            yield n
            stack.extend(n.get('c', ()))

    def all(self, *kinds):
        """nodes of the body and initializers in id order (excludes callee references)"""
        roots = [self.body] + list(self.inits)
        seen = set()
        for r in roots:
            for n in self.subtree(r):
                if n['i'] in seen:
                    continue
                seen.add(n['i'])
                if not kinds or n['k'] in kinds:
                    yield n

    def loc(self, n=None):
        ln = n['l'] if n else self.line
        return 'src/%s:%s' % (self.file, ln)

    # natural loops: {head: set(blocks)}
    def loops(self):
        if self._loops is not None:
            return self._loops
        succ = {b: [s for s in blk['s'] if s >= 0] for b, blk in self.blocks.items()}
        color, back, order = {}, [], []
        stack = [(self.entry, iter(succ.get(self.entry, ())))]
        color[self.entry] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if color.get(s, 0) == 0:
                    color[s] = 1
                    stack.append((s, iter(succ.get(s, ()))))
                    break
                if color[s] == 1:
                    back.append((b, s))
            else:
                color[b] = 2
                stack.pop()
        pred = {}
        for b, ss in succ.items():
            for s in ss:
                pred.setdefault(s, set()).add(b)
        loops = {}
        for t, h in back:
            body = loops.setdefault(h, {h})
            work = [t]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(pred.get(x, ()))
        self._loops = loops
        self._back = set(back)
        return loops


class Rec:
    def __init__(self, d):
        self.d = d
        self.usr = d['usr']
        self.name = d['name']
        self.short = self.name.replace('diffpy::srreal::', '').replace('diffpy::', '')
        self.file = d['file']
        self.line = d['line']
        self.abstract = d['abstract']
        self.poly = d['poly']
        self.bases = [b['usr'] for b in d['bases'] if 'usr' in b]
        self.basenames = [b.get('name', '') for b in d['bases']]
        self.fields = d['fields']
        self.methods = d['methods']
        self.template = d.get('template')
        self.targs = d.get('targs', [])

    def field(self, name):
        for f in self.fields:
            if f['name'] == name:
                return f
        return None


class Program:
    def __init__(self, fns, recs, xs, gs):
        self.fns = fns          # usr -> Fn
        self.recs = recs        # usr -> Rec
        self.xs = xs
        self.gs = gs            # name -> global
        self.recname = {}
        for r in recs.values():
            self.recname.setdefault(r.name, r)
        self.methodinfo = {}
        self.overriders = {}
        for r in recs.values():
            for m in r.methods:
                self.methodinfo[m['usr']] = (r, m)
                for o in m.get('over', ()):
                    self.overriders.setdefault(o, []).append(m['usr'])
        self.derived = {}
        for r in recs.values():
            for b in r.bases:
                self.derived.setdefault(b, []).append(r.usr)
        self._mro = {}
        self.fieldowner = {}
        for r in recs.values():
            for f in r.fields:
                self.fieldowner[f['usr']] = (r, f)
        self.byqname = {}
        for f in fns.values():
            self.byqname.setdefault(f.qname, []).append(f)
        self.lambdas_of = {}

    def fieldnames(self):
        """field usr -> unique name, for fields that share their name with another field of the same objects"""
        if not hasattr(self, '_fieldnames'):
            d = {}
            for u in self.recs:
                by = {}
                for r, f in self.allfields(u):
                    by.setdefault(f['name'], {})[f['usr']] = r
                for name, x in by.items():
                    if len(x) > 1:
                        for fu, r in x.items():
                            d[fu] = name + '@' + r.short
            self._fieldnames = d
        return self._fieldnames

    # -- classes
    def rec(self, short):
        """record by name relative to diffpy:: or diffpy::srreal::"""
        for pre in ('diffpy::srreal::', 'diffpy::', ''):
            r = self.recname.get(pre + short)
            if r:
                return r
        raise AnalysisBroken('class %s not found' % short)

    def mro(self, usr):
        """the class and all its bases, derived first"""
        if usr in self._mro:
            return self._mro[usr]
        out = [usr]
        r = self.recs.get(usr)
        if r:
            for b in r.bases:
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
        self._mro[usr] = out
        return out

    def isa(self, usr, base):
        return base in self.mro(usr)

    def subclasses(self, usr, proper=False):
        out, work = [], [usr]
        while work:
            x = work.pop()
            if x in out:
                continue
            out.append(x)
            work.extend(self.derived.get(x, ()))
        return [x for x in out if not proper or x != usr]

    def concrete(self, usr):
        return [x for x in self.subclasses(usr) if x in self.recs and not self.recs[x].abstract]

    def root_methods(self, musr):
        """the base-most methods which musr overrides"""
        info = self.methodinfo.get(musr)
        if not info or not info[1].get('over'):
            return {musr}
        out = set()
        for o in info[1]['over']:
            out |= self.root_methods(o)
        return out

    def final(self, clsusr, musr):
        """method that a virtual call of musr executes on an object of class clsusr"""
        roots = self.root_methods(musr)
        for c in self.mro(clsusr):
            r = self.recs.get(c)
            if not r:
                continue
            for m in r.methods:
                if m['usr'] == musr or (m.get('virtual') and self.root_methods(m['usr']) & roots):
                    return m['usr']
        return musr

    def targets(self, musr, static_cls=None):
        """all possible targets of a virtual call with the given static class"""
        base = static_cls or self.methodinfo.get(musr, (None,))[0]
        if base is None:
            return {musr}
        if not isinstance(base, str):
            base = base.usr
        out = set()
        for c in self.subclasses(base):
            r = self.recs.get(c)
            if r is None or r.abstract:
                continue
            out.add(self.final(c, musr))
        return out or {musr}

    def method(self, cls, name, nparams=None, const=None):
        """Fn of the method visible under the name in class cls (short name)"""
        r = self.rec(cls) if not cls.startswith('c:') else self.recs[cls]
        for c in self.mro(r.usr):
            rr = self.recs.get(c)
            if not rr:
                continue
            for m in rr.methods:
                if m['name'] != name:
                    continue
                f = self.fns.get(m['usr'])
                if f is None:
                    continue
                if nparams is not None and len(f.params) != nparams:
                    continue
                if const is not None and f.const != const:
                    continue
                return f
        raise AnalysisBroken('method %s::%s not found' % (cls, name))

    def trymethod(self, *a, **k):
        try:
            return self.method(*a, **k)
        except AnalysisBroken:
            return None

    def methods_of(self, usr):
        """Fn objects of all methods with body defined directly in class usr, template instantiations included"""
        return [f for f in self.fns.values() if f.cls == usr]

    def fq(self, qname):
        for pre in ('diffpy::srreal::', 'diffpy::', '', 'diffpy::srreal::(anonymous namespace)::', 'diffpy::mathutils::',
                    'diffpy::validators::'):
            l = self.byqname.get(pre + qname)
            if l:
                return l
        raise AnalysisBroken('function %s not found' % qname)

    def allfields(self, usr):
        """(rec, field) of the class and its bases"""
        for c in self.mro(usr):
            r = self.recs.get(c)
            if r:
                for f in r.fields:
                    yield r, f

    def callers(self):
        if not hasattr(self, '_callers'):
            self._callers = {}
            for f in self.fns.values():
                for n in f.all('Call', 'Ctor'):
                    if 'fn' in n:
                        self._callers.setdefault(n['fn'], []).append((f, n))
        return self._callers


# ---- extraction ------------------------------------------------------------

def _flags(inc, ndebug):
    fl = ['-std=c++11', '-I' + inc, '-I' + os.path.join(REPO, 'src'), '-w',
          '-resource-dir', '/usr/lib/llvm-18/lib/clang/18',
          '-DDIFFPYRUNTIMERELPATH="../share/diffpy"', '-DBOOST_ERROR_CODE_HEADER_ONLY']
    if ndebug:
        fl.append('-DNDEBUG')
    return fl


def sources():
    s = os.path.join(REPO, 'src', 'diffpy')
    return sorted(glob.glob(s + '/*.cpp') + glob.glob(s + '/srreal/*.cpp'))


def _tree_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, names in os.walk(os.path.join(REPO, 'src')):
        for n in names:
            if n.endswith(('.cpp', '.hpp', '.ipp', '.tpl', '.h')):
                files.append(os.path.join(root, n))
    files.append(os.path.join(VERIF, 'tool', 'dfx.cpp'))
    files.append(os.path.join(VERIF, 'tool', 'instances.cpp'))
    files.append(os.path.abspath(__file__))
    for f in sorted(files):
        h.update(f.encode())
        with open(f, 'rb') as fp:
            h.update(fp.read())
    return h.hexdigest()


def build_tool():
    p = subprocess.run(['bash', os.path.join(VERIF, 'setup.sh')], capture_output=True, text=True)
    if p.returncode:
        raise AnalysisBroken('cannot build the extractor: ' + p.stderr[-2000:])
    return os.path.join(VERIF, 'build', 'dfx')


def _version_header(inc):
    """version.hpp is generated by the build; provide a stand-in when it is missing"""
    real = os.path.join(REPO, 'src', 'diffpy', 'version.hpp')
    if os.path.exists(real):
        return
    os.makedirs(os.path.join(inc, 'diffpy'), exist_ok=True)
    tpl = open(os.path.join(REPO, 'src', 'diffpy', 'version.tpl')).read()
    import re
    def sub(m):
        k = m.group(1) or m.group(2)
        if k in ('VERSION', 'DATE', 'COMMIT') or 'date' in k.lower() or 'sha' in k.lower():
            return '0'
        return '0'
    txt = re.sub(r'\$\{(\w+)\}|\$(\w+)', sub, tpl)
    with open(os.path.join(inc, 'diffpy', 'version.hpp'), 'w') as fp:
        fp.write(txt)


def extract(ndebug=True):
    tool = build_tool()
    tmp = tempfile.mkdtemp(prefix='dfx')
    try:
        inc = os.path.join(tmp, 'inc')
        os.makedirs(inc)
        _version_header(inc)
        src = sources() + [os.path.join(VERIF, 'tool', 'instances.cpp')]
        if len(src) < 40:
            raise AnalysisBroken('only %d source files found' % len(src))
        # balance the units over the processors
        njobs = min(8, os.cpu_count() or 4)
        chunks = [src[i::njobs * 2] for i in range(njobs * 2)]
        procs, pending = [], [c for c in chunks if c]
        outs, errs = [], []
        k = 0
        active = []
        while pending or active:
            while pending and len(active) < njobs:
                c = pending.pop(0)
                out = os.path.join(tmp, 'o%d.jsonl' % k)
                k += 1
                err = open(out + '.err', 'w+')
                p = subprocess.Popen([tool, '--root=' + os.path.join(REPO, 'src'), '--out=' + out] + c +
                                     ['--'] + _flags(inc, ndebug), stdout=subprocess.DEVNULL, stderr=err)
                active.append((p, out, err))
            for t in list(active):
                if t[0].poll() is not None:
                    active.remove(t)
                    if t[0].returncode:
                        t[2].seek(0)
                        raise AnalysisBroken('sources do not compile: ' + t[2].read()[-3000:])
                    outs.append(t[1])
                    t[2].close()
            time.sleep(0.01)
        fns, recs, xs, gs = {}, {}, [], {}
        seenx = set()
        for o in sorted(outs):
            with open(o) as fp:
                for line in fp:
                    d = json.loads(line)
                    (tag, v), = d.items()
                    if tag == 'F':
                        fns.setdefault(v['usr'], v)
                    elif tag == 'R':
                        recs.setdefault(v['usr'], v)
                    elif tag == 'X':
                        key = json.dumps(v, sort_keys=True)
                        if key not in seenx:
                            seenx.add(key)
                            xs.append(v)
                    elif tag == 'G':
                        gs.setdefault((v['name'], v['file'], v['line']), v)
        return fns, recs, xs, list(gs.values()), len(src)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


_cache = {}


def load(ndebug=True):
    if ndebug in _cache:
        return _cache[ndebug]
    key = _tree_hash() + ('n' if ndebug else 'd')
    cdir = os.path.join(VERIF, 'build', 'cache')
    cfile = os.path.join(cdir, key + '.pickle')
    data = None
    if os.path.exists(cfile):
        try:
            with open(cfile, 'rb') as fp:
                data = pickle.load(fp)
        except Exception:
            data = None
    if data is None:
        data = extract(ndebug)
        try:
            os.makedirs(cdir, exist_ok=True)
            old = sorted(glob.glob(cdir + '/*.pickle'), key=os.path.getmtime)
            for o in old[:-3]:
                os.remove(o)
            tmpf = cfile + '.%d' % os.getpid()
            with open(tmpf, 'wb') as fp:
                pickle.dump(data, fp, protocol=4)
            os.replace(tmpf, cfile)
        except OSError:
            pass
    fns, recs, xs, gs, nsrc = data
    P = Program({u: Fn(d) for u, d in fns.items()}, {u: Rec(d) for u, d in recs.items()}, xs, gs)
    P.nsources = nsrc
    if len(P.fns) < 600 or len(P.recs) < 60:
        raise AnalysisBroken('model is too small: %d functions' % len(P.fns))
    _cache[ndebug] = P
    return P
