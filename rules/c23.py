"""Places are found where a value is computed for the first item with a certain key and kept for later items: a branch tests a keyed
container (or an array item, or the key seen last), and one side of it stores into a container or variable that outlives the item.
(1) 'memo': the stored value, as a symbolic expression, contains nothing of the item beyond the tested key: after the key is removed
from the expression no loop position of the item remains and, when the storage outlives the call, no argument of the function
either.  (2) 'equality': the container compares keys with their own equality or order.  (3) 'static': a value that a function keeps
in a static variable from one call to another does not depend on the arguments or the object of the call, except for a part that is
compared with a remembered copy of it on every use.  (4) 'static-init': neither does the initial value of a static variable.  (5) 'stale': when
values are kept in a member of an object and depend on its other members, every function that changes those clears the kept ones."""
import re
import sym, effects
from sym import Facts
from c14 import parallel

ASSUMPTIONS = ['member functions that are not analysed in place depend only on their object and arguments']

KEYED = re.compile(r'^(?:std|boost)::(?:__\w+::|unordered::|container::)*((?:unordered_|flat_)?(?:multi)?(?:map|set))<')
LOOK = ('count', 'find', 'insert', 'emplace', 'try_emplace', 'at', 'operator[]', 'contains', 'lower_bound', 'upper_bound', 'equal_range')
FILL = ('insert', 'emplace', 'try_emplace', 'emplace_hint', 'insert_or_assign')


def keyed(n):
    return n['k'] == 'Call' and KEYED.match(n.get('fq') or '') is not None


def root(fn, i):
    """variable or member below an expression"""
    seen = set()
    while i is not None and i >= 0 and i not in seen:
        seen.add(i)
        n = fn.nodes[i]
        if n['k'] == 'Var':
            v = fn.vars.get(n.get('v'))
            return ('S' if v and v['static'] else 'V', n.get('v'))
        if n['k'] == 'Global':
            return ('G', n.get('g'))
        if n['k'] == 'Field':
            return ('F', n.get('fu'))
        if n['k'] == 'Call':
            i = n['c'][0] if n.get('c') else -1
            continue
        i = n['c'][0] if n.get('c') else -1
    return None


class Site:
    """a branch that tests whether an item is known"""

    def __init__(self, fn, cond):
        self.fn, self.cond = fn, cond
        self.keys = set()           # expression nodes
        self.maps = []              # lookup calls
        self.region = set()         # nodes that depend on the branch
        self.sides = []
        self.heads = set()


def scan(fn):
    """Sites of the function"""
    if not fn.blocks:
        return []
    defs = {}
    for n in fn.nodes.values():
        if n['k'] == 'Decl':
            for vo in n['vars']:
                if vo['init'] >= 0:
                    defs.setdefault(vo['v'], []).append(vo['init'])
        elif n['k'] == 'Assign' and fn.nodes[n['c'][0]]['k'] == 'Var':
            defs.setdefault(fn.nodes[n['c'][0]]['v'], []).append(n['c'][1])
        elif n['k'] == 'Call' and (n.get('fq') or '').endswith('::operator=') and n.get('obj') and fn.nodes[n['c'][0]]['k'] == 'Var':
            defs.setdefault(fn.nodes[n['c'][0]]['v'], []).extend(c for c in n['c'][1:] if c >= 0)

    def used(i):
        out, seen, todo = [], set(), [i]
        while todo:
            for m in fn.subtree(todo.pop()):
                out.append(m)
                if m['k'] == 'Var' and m.get('v') not in seen:
                    seen.add(m.get('v'))
                    v = fn.vars.get(m.get('v'))
                    if v is not None and not v.get('static'):
                        todo += defs.get(m.get('v'), [])
        return out

    blockof = {}
    for b, blk in fn.blocks.items():
        for e in blk['e']:
            for m in fn.subtree(e):
                blockof.setdefault(m['i'], b)
        for e in blk['e']:
            blockof[e] = b
    dead = deadends(fn)
    pd = postdom(fn, dead)
    loops = fn.loops()
    out = []
    for b, blk in fn.blocks.items():
        succ = [s for s in blk['s'] if s >= 0]
        if blk.get('c') is None or len(set(succ)) < 2 or dead & set(succ):
            continue
        if any(b in body and len(set(succ) & body) < 2 for h, body in loops.items()):
            continue                # condition of a loop
        sides = []
        for s in succ:
            stop = pd.get(b)
            seen, todo = set(), [s]
            while todo:
                x = todo.pop()
                if x in seen or x == stop or x == b:
                    continue
                seen.add(x)
                todo += [y for y in fn.blocks[x]['s'] if y >= 0]
            sides.append({m['i'] for x in seen for e in fn.blocks[x]['e'] for m in fn.subtree(e)})
        region = set().union(*sides)
        if not region:
            continue
        written = {}
        for i in region:
            n = fn.nodes[i]
            r = target(fn, n)
            if r:
                written.setdefault(r, []).append(n)
        s = Site(fn, blk['c'])
        s.sides, s.region = sides, region
        for m in used(blk['c']):
            if m['i'] in region:
                continue
            if keyed(m) and effects.cname(m) in LOOK:
                k = [c for c in args(fn, m)]
                if k:
                    s.keys.add((m['i'], k[0], effects.cname(m)))
                    s.maps.append(m)
            elif subscript(m) and root(fn, m['i']) in written and not keyed(m):
                k = args(fn, m)
                if k:
                    s.keys.add((m['i'], k[0], 'index'))
            elif m['k'] == 'Bin' and m.get('op') in ('==', '!=') or m['k'] == 'Call' and effects.cname(m) in ('operator==', 'operator!='):
                if m['i'] not in {x['i'] for x in fn.subtree(blk['c'])}:
                    continue
                cs = [c for c in (m['c'] if m['k'] == 'Bin' else operands(fn, m)) if c >= 0]
                if len(cs) == 2:
                    for x, y in (cs, cs[::-1]):
                        r = root(fn, x)
                        if r in written and fn.nodes[strip(fn, x)]['k'] in ('Var', 'Field', 'Global') and lasting(fn, r):
                            s.keys.add((m['i'] if y == cs[0] else -m['i'] - 2, y, 'last'))
        for m in used(blk['c']):
            if m['k'] in ('Var', 'Global', 'Field'):
                r = root(fn, m['i'])
                if r in written and (r[0] in 'SG' or r[0] == 'F' and m.get('mut')):
                    s.keys.add((m['i'], None, 'flag'))
        if s.keys:
            bs = {blockof.get(k[0], b) for k in s.keys} | {b}
            s.heads = {h for h, body in loops.items() if b in body}
            out.append(s)
    return out


def strip(fn, i):
    while fn.nodes[i]['k'] in ('Cast', 'Paren') and fn.nodes[i].get('c'):
        i = fn.nodes[i]['c'][0]
    return i


def lasting(fn, r):
    return True


def args(fn, n):
    cs = n.get('c', [])
    return [c for c in (cs[1:] if n.get('obj') or n['k'] == 'Index' else cs) if c >= 0]


def operands(fn, n):
    return [c for c in n.get('c', []) if c >= 0]


def subscript(n):
    return n['k'] == 'Index' or n['k'] == 'Call' and effects.cname(n) == 'operator[]'


def target(fn, n):
    """root of the location that a node changes"""
    if n['k'] == 'Assign' or n['k'] == 'Un' and n.get('op') in ('++', '--'):
        return root(fn, n['c'][0])
    if n['k'] == 'Call' and effects.cname(n) in FILL + ('push_back', 'emplace_back', 'operator=', 'assign', 'resize', 'erase', 'clear',
                                                      'operator+=', 'reset', 'swap', 'push_front'):
        return root(fn, n['c'][0] if n.get('c') else -1)
    return None


def deadends(fn):
    """blocks from which the function does not return"""
    def throws(b):
        return any(m['k'] == 'Throw' or m.get('noret') for e in fn.blocks[b]['e'] for m in fn.subtree(e))
    alive = {b for b in fn.blocks if not [s for s in fn.blocks[b]['s'] if s >= 0] and not throws(b)}
    change = True
    while change:
        change = False
        for b in fn.blocks:
            if b not in alive and not throws(b) and any(s in alive for s in fn.blocks[b]['s']):
                alive.add(b)
                change = True
    return set(fn.blocks) - alive


def postdom(fn, dead=()):
    """immediate postdominators"""
    nodes = [b for b in fn.blocks if b not in dead]
    succ = {b: [s for s in fn.blocks[b]['s'] if s >= 0 and s not in dead] for b in nodes}
    full = set(nodes)
    pd = {b: (set(full) if succ[b] else {b}) for b in nodes}
    change = True
    while change:
        change = False
        for b in nodes:
            if succ[b]:
                new = set.intersection(*(pd[s] for s in succ[b])) | {b}
                if new != pd[b]:
                    pd[b], change = new, True
    out = {}
    for b in nodes:
        strict = pd[b] - {b}
        for d in strict:
            if strict == pd[d]:
                out[b] = d
    return out


class Memo(sym.Exec):
    max_depth = 5

    def __init__(self, P, fn, sites):
        super().__init__(P)
        self.fn0, self.sites = fn, sites
        self.keyvals = {}
        self.assigned = {}          # values given to a local variable
        self.items = moved(fn, {h for s in sites for h in s.heads})
        self.found = []             # (site, node, storage, value, keys)

    def should_inline(self, fr, fn, n):
        return fn.file.startswith('diffpy') and not fn.ctor and len(fn.nodes) < 60

    def outer(self, fr, n):
        while fr.up is not None:
            n, fr = fr.site, fr.up
        return fr, n

    def on_element(self, fr, st, n):
        if fr.up is not None:
            return
        for s in self.sites:
            for k, a, kind in s.keys:
                if kind == 'last' and n['i'] in (s.cond, k, -k - 2):
                    self.key(fr, st, k, self.rvalue(fr, st, self.get(fr, st, a)))

    def on_branch(self, fr, st, blk, cond):
        if fr.up is None:
            for s in self.sites:
                if blk.get('c') == s.cond:
                    for k, a, kind in s.keys:
                        if a is None or kind != 'last' and ('key', k) in st.data:
                            continue
                        try:
                            self.key(fr, st, k, self.rvalue(fr, st, self.get(fr, st, a)))
                        except Exception:
                            pass

    def key(self, fr, st, k, v):
        v = self.relative(st, v)
        st.data = dict(st.data)
        st.data[('key', k)] = v
        self.keyvals.setdefault(k, set()).add(v)

    def relative(self, st, v):
        """a value in terms of the present values of the loop variables"""
        sub = {}
        for p, x in st.store.items():
            if p[0] == 'L' and len(p) == 4 and p[1:3] in self.items:
                x = x[0] if isinstance(x, list) else x
                if isinstance(x, tuple) and x and x[0] != 'c':
                    sub[x] = ('item', p[2])
        return norm(v, sub, {}) if sub else v

    def on_call(self, fr, st, n, callee, obj, args):
        if fr.up is None:
            for s in self.sites:
                for k, a, kind in s.keys:
                    if k == n['i'] and args:
                        v = self.rvalue(fr, st, args[0])
                        if kind in FILL and v[0] == 'pair' and (len(args) == 1 or kind == 'insert'):
                            v = v[1]
                        self.key(fr, st, k, v)
        f0, n0 = self.outer(fr, n)
        if keyed(n) and effects.cname(n) in FILL and args:
            v = self.rvalue(fr, st, args[0])
            if len(args) > 1 and effects.cname(n) != 'insert':
                v = self.rvalue(fr, st, args[2 if effects.cname(n) == 'emplace_hint' and len(args) > 2 else 1])
            else:
                v = v[2] if v[0] == 'pair' else None
            if v is not None and obj is not None and obj[0] == 'ref':
                self.store(fr, st, n0, n, obj[1], v)
        elif effects.cname(n) in ('push_back', 'emplace_back', 'push_front') and obj is not None and obj[0] == 'ref' and args:
            v = self.rvalue(fr, st, args[0])
            if args[0][0] == 'ref':
                v = ('copy', v, args[0][1])
            self.store(fr, st, n0, n, obj[1], v)
        return None

    def on_write(self, fr, st, n, path, value, old, cond):
        if n is None:
            return
        f0, n0 = self.outer(fr, n)
        v = self.rvalue(fr, st, value)
        self.assigned.setdefault(path[:4] if path[0] == 'L' else path, set()).add(self.relative(st, v))
        self.store(fr, st, n0, n, path, v)

    def store(self, fr, st, n0, n, path, v):
        if v[0] == 'w' or v == ('c', 'emptycontainer'):
            return
        for s in self.sites:
            if n0['i'] not in s.region and not any(n0['i'] == m['i'] for m in s.maps):
                continue
            keys = tuple(st.data[('key', k)] for k, a, kind in s.keys if ('key', k) in st.data)
            self.found.append((s, n0, self.relative(st, path), self.relative(st, v), keys))


def parts(k):
    k = sym.expand(k)
    yield k
    if k[0] == 'pair' or k[0] == 'call' and str(k[1]).split('::')[-1].split('<')[0] in ('make_pair', 'make_tuple', 'pair', 'tuple'):
        for x in k[1 if k[0] == 'pair' else 2:]:
            if isinstance(x, tuple):
                yield from parts(x)


def same(a, b):
    return a == b


def rest(v, keys, leaf, memo=None, assigned=None):
    """a leaf of the item in v outside of the key, or None"""
    memo = {} if memo is None else memo
    if not isinstance(v, (tuple, frozenset)) or not v:
        return None
    if isinstance(v, tuple) and isinstance(v[0], str) and v[0] == 'big':
        v = sym.expand(v)
    if v in memo:
        return memo[v]
    memo[v] = None
    r = None
    if isinstance(v, tuple) and v in keys:
        return None
    if isinstance(v, tuple) and v[:2] == ('call', 'size'):
        return None
    if isinstance(v, tuple) and isinstance(v[0], str):
        if leaf(v):
            r = v
        elif v[0] in ('phi', 'copy') and assigned:
            p = v[-1]
            if isinstance(p, tuple) and p[:1] == ('L',):
                for x in assigned(p[:4]):
                    r = r or rest(x, keys, leaf, memo, assigned)
            if v[0] == 'copy':
                r = r or rest(v[1], keys, leaf, memo, assigned)
        elif v[0] in ('phi', 'w', 'f', 'c'):
            r = None
        else:
            for x in v[1:]:
                r = r or rest(x, keys, leaf, memo, assigned)
    else:
        for x in v:
            r = r or rest(x, keys, leaf, memo, assigned)
    memo[v] = r
    return r


def persistent(path):
    return path[0] in ('T', 'S', 'G', 'D')


def describe(x):
    if x[0] == 'item':
        return x[1]
    if x[0] == 'phi':
        return str(x[3][-1] if not (isinstance(x[3], tuple) and x[3][0] == 'L') else x[3][2])
    return str(x[2]) if x[0] in ('p', 'A') else str(x[0])


def analyse(P, fn):
    """(rule, what, where, message or None) of the sites of a function"""
    sites = scan(fn)
    if not sites:
        return []
    classes = [None]
    if fn.cls in P.recs:
        classes = [c for c in P.concrete(fn.cls)] or [fn.cls]
        m = P.methodinfo.get(fn.usr)
        if m and m[1].get('virtual'):
            classes = [c for c in classes if P.final(c, fn.usr) == fn.usr] or [fn.cls]
    out, seen = [], set()
    for c in classes:
        ex = Memo(P, fn, sites)
        try:
            ex.analyze(fn, c)
        except sym.Budget:
            pass
        for s, n0, path, v, keys in ex.found:
            judge(P, fn, ex, s, n0, path, v, keys, out, seen)
    return out


def judge(P, fn, ex, s, n0, path, v, keys, out, seen):
    declared = declared_in(fn, s.heads)
    if path[0] == 'L':
        # gone with the item
        if path[1] != fn.usr or path[:4] in declared or not s.heads:
            return
    elif path[0] == 'S' and path[1] != fn.usr:
        return
    elif path[0] == 'A' and not s.heads and not nonvoid(fn):
        return
    elif not persistent(path) and path[0] != 'A':
        return
    kk = {p for k in keys for p in parts(k)}
    for o in ex.sites:
        if o is s or n0['i'] in o.region:
            kk |= {p for k in o.keys for v1 in ex.keyvals.get(k[0], ()) for p in parts(v1)}
    long = persistent(path) and path[0] != 'D' or path[0] == 'A'
    maps = {root(fn, m['i']) for m in s.maps}
    heads = s.heads
    items = moved(fn, heads)

    def leaf(x):
        if x[0] == 'item':
            return (fn.usr, x[1]) in items and path[2:3] != x[1:]
        if x[0] == 'phi':
            p = x[3]
            if p == path:
                return False
            if isinstance(p, tuple) and p[0] == 'L' and p[1] == fn.usr and len(p) == 4:
                return p[1:3] in items
            return x[1] == fn.short and x[2] in heads
        if x[0] in ('p', 'A') and len(x) > 2 and isinstance(x[1], int):
            return long and nonvoid(fn)
        if x[0] in ('i', 'ref', 'obj') and len(x) > 1 and isinstance(x[1], tuple) and x[1] and x[1][0] == 'T':
            return path[0] in 'SG'
        return False
    # a place of its own for each item
    for q in path[1:]:
        if isinstance(q, tuple) and q and q[0] == '[]' and isinstance(q[1], tuple) and rest(q[1], kk, leaf):
            return
    # stored on both sides
    t = target(fn, n0) if n0['i'] in fn.nodes else None
    if t is not None and not (n0['i'] in {m['i'] for m in s.maps}):
        sides = [sum(1 for i in side if target(fn, fn.nodes[i]) == t) for side in s.sides]
        if sum(1 for x in sides if x) > 1 or any(target(fn, n) == t and n['i'] not in s.region and inloop(fn, n, s.heads) and writes(n)
                                                   for n in fn.nodes.values()):
            return
    x = rest(v, kk, leaf, None, lambda w: sorted(ex.assigned.get(w, ()), key=repr))
    what = '%s:%s' % (fn.short, path[2] if path[0] == 'L' else path[-1] if isinstance(path[-1], str) else path[1])
    if path[0] == 'T' and len(path) > 2 and fn.const and any(keyed(m) for m in s.maps):
        state = set()
        members(v, kk, state)
        state.discard(path[1])
        for name in sorted(state):
            stale(P, fn, path[1], name, out)
    k = (what, x is None, n0['l'])
    if k in seen:
        return
    seen.add(k)
    for m in s.maps:
        t = KEYED.match(m.get('fq') or '') if keyed(m) else None
        if t and not t.group(1).endswith('set') and t.group(1) and root(fn, m['i']) in {target(fn, fn.nodes[i]) for i in s.region | {m['i']}}:
            a = template_args(m['fq'])
            custom = a[3:] if t.group(1).startswith('unordered') else [x for x in a[2:] if not re.match(r'(std|boost)::(less|greater)<', x)]
            e = ('equality', what, fn.loc(m), None if not custom else 'keys are compared with ' + custom[0])
            if e not in out:
                out.append(e)
    out.append(('memo', what, fn.loc(n0), None if x is None else
                'the value kept for equal keys depends on %s, which is not part of the key' % describe(x)))


def members(v, keys, out, seen=None):
    """members of the object in a value"""
    seen = set() if seen is None else seen
    if not isinstance(v, (tuple, frozenset)) or v in seen or isinstance(v, tuple) and v in keys:
        return
    seen.add(v)
    if isinstance(v, tuple) and v[:1] == ('big',):
        v = sym.expand(v)
    if isinstance(v, tuple) and len(v) > 1 and v[0] in ('i', 'ref') and isinstance(v[1], tuple) and v[1][:1] == ('T',) \
            and len(v[1]) > 1 and isinstance(v[1][1], str):
        out.add(v[1][1])
    for x in v:
        members(x, keys, out, seen)


def stale(P, fn, cache, name, out):
    """functions that change a member and leave the values kept in another member"""
    E = effects.of(P)
    owners = {(r.usr, f['name']) for r, f in P.allfields(fn.cls) if f['name'] in (cache, name)}
    for c in {fn.cls} | set(P.subclasses(fn.cls)):
        for m in P.methods_of(c):
            if m.ctor or m.dtor or not m.blocks or m.const:
                continue
            w = {n for o, n in E.writes_names(m, c) if (o, n) in owners}
            if name in w:
                what = '%s:%s' % (m.short, cache)
                e = ('stale', what, m.loc(m.nodes[min(m.nodes)]), None if cache in w else
                     'changes %s, on which the values kept in %s depend' % (name, cache))
                if e not in out:
                    out.append(e)


def template_args(fq):
    """template arguments of the class of a member function"""
    i = fq.index('<') + 1
    out, depth, cur = [], 0, ''
    for ch in fq[i:]:
        if ch == '>' and depth == 0:
            break
        depth += ch in '<('
        depth -= ch in '>)'
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out + [cur.strip()]


def writes(n):
    return effects.cname(n) not in ('resize', 'clear', 'reserve') if n['k'] == 'Call' else True


def inloop(fn, n, heads):
    loops = fn.loops()
    for h in heads:
        for b in loops[h]:
            for e in fn.blocks[b]['e']:
                if any(m['i'] == n['i'] for m in fn.subtree(e)):
                    return True
    return False


def norm(v, sub, memo):
    """replace parts of a value"""
    if not isinstance(v, (tuple, frozenset)):
        return v
    if v in memo:
        return memo[v]
    if v in sub:
        return sub[v]
    w = sym.expand(v) if isinstance(v, tuple) and v[:1] == ('big',) else v
    if w in sub:
        r = sub[w]
    elif isinstance(w, tuple):
        r = tuple(norm(x, sub, memo) for x in w)
    else:
        r = frozenset(norm(x, sub, memo) for x in w)
    memo[v] = r
    return r


def moved(fn, heads):
    """local variables that change from one item of a loop to the next"""
    out, inside, loops = set(), set(), fn.loops()
    for h in heads:
        for b in loops[h]:
            nested = any(o != h and o in loops[h] and b in loops[o] for o in loops)
            for e in fn.blocks[b]['e']:
                for m in fn.subtree(e):
                    if m['k'] == 'Decl':
                        inside.update((fn.usr, fn.vars[vo['v']]['name']) for vo in m['vars'] if not fn.vars[vo['v']]['static'])
                    r = target(fn, m) or mutated(fn, m)
                    if not nested and r and r[0] in 'VS' and fn.vars.get(r[1]):
                        out.add((fn.usr, fn.vars[r[1]]['name']))
    return out - inside


def mutated(fn, m):
    """root of the object of a call that may change it"""
    if m['k'] == 'Call' and m.get('obj') and not m.get('fc'):
        return root(fn, m['c'][0])
    return None


def nonvoid(fn):
    return (fn.ret or 'void').strip() != 'void'


def declared_in(fn, heads):
    out, loops = set(), fn.loops()
    for h in heads:
        for b in loops[h]:
            for e in fn.blocks[b]['e']:
                n = fn.nodes[e]
                if n['k'] == 'Decl':
                    for vo in n['vars']:
                        v = fn.vars[vo['v']]
                        out.add(('S' if v['static'] else 'L', v['owner'], v['name'], v['line']))
    return out


def check_memo(ctx):
    P = ctx.P
    fs = [f for f in P.fns.values() if f.blocks and f.file.startswith('diffpy')]
    fs.sort(key=lambda f: f.usr)
    res = parallel(fs, lambda f: analyse(P, f))
    for f in fs:
        if res[f.usr]:
            ctx.touched(f)
        for rule, what, where, msg in res[f.usr]:
            ctx.check(msg is None, rule, what, where, msg or '')


def check_init(ctx):
    """initial values of static variables"""
    P = ctx.P
    for f in sorted((f for f in P.fns.values() if f.file.startswith('diffpy')), key=lambda f: f.usr):
        names = {p['v'] for p in f.params if 'v' in p}
        for n in f.all('Decl'):
            for vo in n['vars']:
                v = f.vars.get(vo['v'])
                if v is None or not v['static'] or vo['init'] < 0:
                    continue
                used = dependencies(f, vo['init'])
                what = '%s:%s' % (f.short, v['name'])
                ctx.check(used is None, 'static-init', what, f.loc(n),
                          'the value kept from the first call depends on %s' % used)


def dependencies(f, i):
    """a parameter or the object of the call in an expression"""
    params = {p['v'] for p in f.params if p.get('v') is not None}
    seen, todo = set(), [i]
    lambdas = {x['i'] for m in f.subtree(i) if m['k'] == 'Lambda' for x in f.subtree(m['i'])}
    while todo:
        for m in f.subtree(todo.pop()):
            if m['i'] in lambdas:
                continue
            if m['k'] == 'This':
                return 'the object'
            if m['k'] == 'Var' and m.get('v') not in seen:
                seen.add(m.get('v'))
                if m['v'] in params:
                    return f.vars[m['v']]['name'] if m['v'] in f.vars else 'an argument'
                for d in f.all('Decl'):
                    todo += [vo['init'] for vo in d['vars'] if vo['v'] == m['v'] and vo['init'] >= 0]
    return None


def run(ctx):
    check_memo(ctx)
    check_init(ctx)
    ctx.floor('memo', 10)
    ctx.floor('static-init', 20)
