"""Export audit over the resolved program.  For every concrete polymorphic class that the library archives (itself or through
a base class): (1) guid_defined<C> and (2) init_guid<C> are specialized, that is the class is exported and its export is
implemented in the library; (3) its export key is a string no other class uses; (4) its archive function exists for both
archive types in the implementation; (5) that function archives each archived base class as a base object (this registers
the cast that boost needs to move between base and derived handles), so that a chain of base objects connects it with every
archived polymorphic ancestor."""
import archive, c03, model

ASSUMPTIONS = ['boost finds exported types by their key in the archives instantiated in the same translation unit',
               'helper classes that are never held through archived handles (bond generators, attribute visitors) have no archive function']


def run(ctx):
    P = ctx.P
    defined, init = set(), set()
    for x in P.xs:
        if x['tmpl'].endswith('::guid_defined'):
            defined.add(x['targs'][0])
        elif x['tmpl'].endswith('::init_guid'):
            init.add(x['targs'][0])
    keys = {}
    for f in P.fns.values():
        if f.qname == 'boost::serialization::guid' and f.targs:
            for n in f.all('Lit'):
                if 'str' in n:
                    keys[f.targs[0]] = n['str']
    ver = c03.versions(P)
    memo = {}

    def bases(usr):
        """archived base objects of a class: intersection over the paths"""
        if usr not in memo:
            memo[usr] = set()
            s, l = archive.serializers(P, usr)
            res = None
            for fn, sv in ((s, True), (l, False)):
                if fn is None:
                    continue
                ctx.touched(fn)
                ex, ts, _ = archive.traces(P, fn, usr, sv, ver.get(P.recs[usr].name, 0))
                ctx.npaths += len(ts)
                for t, o in ts:
                    b = {it[1] for it in t if it[0] == 'base'}
                    res = b if res is None else res & b
            memo[usr] = res or set()
        return memo[usr]

    def archived(usr):
        r = P.recs.get(usr)
        return r is not None and r.file.startswith('diffpy') and any(m['name'] == 'serialize' for m in r.methods)
    n = 0
    for r in sorted(P.recs.values(), key=lambda r: r.name):
        if r.abstract or not r.poly or not r.file.startswith('diffpy'):
            continue
        anc = [c for c in P.mro(r.usr) if archived(c) and P.recs[c].poly]
        if not anc:
            continue
        n += 1
        where = 'src/%s:%s' % (r.file, r.line)
        ctx.check(r.name in defined, 'export-key', r.short, where, 'concrete class %s has no export key' % r.short)
        ctx.check(r.name in init, 'export-implemented', r.short, where, 'export of class %s is not implemented in the library' % r.short)
        k = keys.get(r.name)
        twin = [c for c, kk in keys.items() if kk == k and c != r.name]
        if k is not None:
            ctx.check(not twin, 'unique-key', r.short, where, 'export key "%s" is shared with %s' % (k, twin))
        own = [c for c in anc if c == r.usr]
        if not ctx.check(bool(own), 'own-archive-function', r.short, where,
                         'class %s inherits its archive function, the cast to its base is never registered' % r.short):
            continue
        s, l = archive.serializers(P, r.usr)
        ctx.check(bool(s) and bool(l), 'instantiated', r.short, where,
                  'archive function of class %s is not instantiated for both archive types' % r.short)
        # reachability over base objects
        reach, work = set(), [r.usr]
        while work:
            c = work.pop()
            if c in reach:
                continue
            reach.add(c)
            for b in bases(c):
                br = P.recname.get(b)
                if br:
                    work.append(br.usr)
        for c in anc[1:]:
            ctx.check(c in reach, 'cast-registered', '%s:%s' % (r.short, P.recs[c].short), where,
                      'archiving %s through a handle to %s fails: no chain of base objects connects them' % (r.short, P.recs[c].short))
    ctx.need(n >= 33, 'only %d concrete archived classes found' % n)
