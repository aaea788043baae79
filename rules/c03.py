"""Archive completeness.  The abstract interpreter executes the saving and the loading instantiation of every serialize (or
save/load) function of the library, with the class version that the library declares, inlining helpers, and records for
every path the ordered list of items exchanged with the archive.  Required: (1) both directions exist; (2) all paths of
saving and loading exchange the same sequence of data, in the same order; (3) every data member of the class (leaves of
embedded anonymous structures included) is among them and still holds the loaded value when loading ends, or loading sets it
to a constant (invalidated cache), or it is a buffer that only the summation phase of one evaluation uses; (4) every base
class with data is archived too; (5) a class with data that is archived through an inherited function is an error."""
import archive, effects, sym

ASSUMPTIONS = ['boost::serialization saves and restores the standard containers, numbers and shared pointers faithfully',
               'attribute registries (Attributes::mdoubleattrs) are rebuilt by the constructors, class registries are static',
               'objects are not archived in the middle of an evaluation']

PHASE = ('resetValue', 'addPairContribution', 'stashPartialValue', 'restorePartialValue', 'finishValue', 'configureBondGenerator',
         'executeParallelMerge')
SKIP_BASES = ('diffpy::attributes::Attributes', 'diffpy::HasClassRegistry<')


def leaves(P, rec, prefix=()):
    for f in rec.fields:
        r = P.recs.get(f.get('rec'))
        if r is not None and '(unnamed' in r.name and f['type'].startswith(rec.name.split('(')[0]):
            for x in leaves(P, r, prefix + (f['name'],)):
                yield x
        elif r is not None and '(unnamed' in r.name:
            for x in leaves(P, r, prefix + (f['name'],)):
                yield x
        else:
            yield prefix + (f['name'],), f


def stateful(P, usr):
    r = P.recs.get(usr)
    if r is None or r.name.startswith(SKIP_BASES):
        return False
    return bool(r.fields) or any(stateful(P, b) for b in r.bases)


def versions(P):
    return {x['targs'][0]: x.get('value', 0) for x in P.xs if x['tmpl'] == 'boost::serialization::version'}


def summation_buffer(P, rec, fname):
    """only the functions of the summation phase and helpers that only they call use the member, and one of them sets it"""
    us = [f['usr'] for f in rec.fields if f['name'] == fname]
    if not us:
        return False
    users = set()
    for f in P.fns.values():
        if f.ctor or f.name in ('serialize', 'save', 'load'):
            continue
        if any(n.get('fu') == us[0] for n in f.all('Field')):
            users.add(f.usr)
    E = effects.of(P)
    callers = P.callers()

    def phase(f, seen):
        if f.name in PHASE:
            return True
        if f.usr in seen or f.access == 0:
            return False
        cs = callers.get(f.usr, [])
        return bool(cs) and all(phase(c, seen | {f.usr}) for c, n in cs)
    if not users or not all(phase(P.fns[u], set()) for u in users):
        return False
    return any(r[0] == 'F' and r[1] == us[0] for u in users for r in E.direct(P.fns[u])[1])


def run(ctx):
    P = ctx.P
    ver = versions(P)
    for r in sorted(P.recs.values(), key=lambda r: r.name):
        if not r.file.startswith('diffpy') or r.d.get('lambda'):
            continue
        own = any(m['name'] == 'serialize' for m in r.methods)
        if not own:
            inherited = [c for c in P.mro(r.usr)[1:] if c in P.recs and any(m['name'] == 'serialize' for m in P.recs[c].methods)]
            if inherited and r.poly:
                ctx.check(not r.fields, 'inherited-archive-has-no-own-data', r.short, 'src/%s:%s' % (r.file, r.line),
                          'class %s adds data but inherits its archive function from %s' % (r.short, P.recs[inherited[0]].short))
            continue
        s, l = archive.serializers(P, r.usr)
        where = 'src/%s:%s' % (r.file, r.line)
        if not ctx.check(bool(s) and bool(l), 'both-directions', r.short, where,
                         'archive function is not instantiated for saving and loading'):
            continue
        ctx.touched(s, l)
        v = ver.get(r.name, 0)
        exs, ts, os_ = archive.traces(P, s, r.usr, True, v)
        exl, tl, ol_ = archive.traces(P, l, r.usr, False, v)
        ctx.npaths += len(ts) + len(tl)
        ctx.need(ts and tl, 'no normal path through serialize of ' + r.short)

        def types(items, fn):
            return items
        # loads into locals that end in a member count for the member
        def resolved(items, o, ex):
            out = []
            for it in items:
                if it[0] == 'local':
                    out.append(('any', it[1]))
                else:
                    out.append(it)
            return tuple(out)
        seq_s = {resolved(t, o, exs) for t, o in ts}
        seq_l = {resolved(t, o, exl) for t, o in tl}

        def match(a, b):
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if x == y or x[0] in ('any', 'value', 'global') and y[0] in ('any', 'field', 'value') or y[0] == 'any':
                    continue
                return False
            return True
        bad = [(a, b) for a in seq_s for b in seq_l if not match(a, b)]
        if len(seq_s) > 1 and seq_s == seq_l:
            bad = []
        msg = ''
        if bad:
            a, b = bad[0]
            k = next((k for k, (x, y) in enumerate(zip(a, b)) if not match((x,), (y,))), min(len(a), len(b)))
            msg = 'saving and loading differ at item %d: %s / %s' % (k + 1, show(a, k), show(b, k))
        ctx.check(not bad, 'same-sequence', r.short, l.loc(), msg)
        # data members
        for p, f in leaves(P, r):
            name = '%s.%s' % (r.short, '.'.join(p))
            path = ('T',) + p
            loose = any(it[0] in ('any', 'value') for t, o in tl for it in resolved(t, o, exl))
            where = l.loc()
            saved = all(covers(t, p) for t, o in ts)
            back = all(covers(t, p) or assigned_from_archive(o.st, path) for t, o in tl)
            if saved and back:
                lost = [o for t, o in tl if covers(t, p) and not loaded(exl.load(o.st, path)) and
                        r.short != 'eventticker::EventTicker' and not (constant(exl.load(o.st, path)) and flag_reset(exl, o, r))]
                ctx.check(not lost, 'loaded-value-kept', name, where, 'the loaded value of %s is replaced before loading ends' % '.'.join(p))
                ctx.ok('member-archived', name)
                continue
            reset = all(constant(exl.load(o.st, path)) for t, o in tl)
            if reset and not any(covers(t, p) for t, o in ts):
                ctx.ok('cache-invalidated-on-load', name)
            elif not any(covers(t, p) for t, o in ts + tl) and summation_buffer(P, r, p[0]):
                ctx.ok('summation-buffer', name)
            else:
                ctx.bad('member-archived', name, where, 'data member %s is not %s on every path' % (
                    '.'.join(p), 'saved' if not saved else 'restored'))
        # bases
        for b in r.bases:
            br = P.recs.get(b)
            if br is None or not stateful(P, b):
                continue
            okb = all(any(it[0] == 'base' and it[1] == br.name for it in t) for t, o in ts + tl)
            ctx.check(okb, 'base-archived', '%s:%s' % (r.short, br.short), l.loc(), 'state of the base class %s is not archived' % br.short)
    ctx.floor('same-sequence', 40)
    ctx.floor('member-archived', 90)


def flag_reset(ex, o, rec):
    """loading sets a validity mark to false, so that the data next to it are rebuilt"""
    return any(f['type'] == 'bool' and ex.load(o.st, ('T', f['name'])) == sym.ZERO for f in rec.fields)


def covers(items, p):
    return any(it[0] == 'field' and it[1:] == p[:len(it) - 1] for it in items)


def assigned_from_archive(st, path):
    return loaded(st.store.get(path, ('none',)))


def loaded(v):
    return sym.mentions_any(v, lambda x: x[0] == 'loaded')


def constant(v):
    return v[0] == 'c' or (v[0] == 'obj' and len(v) <= 4)


def show(seq, k):
    return ' '.join(map(str, seq[k])) if k < len(seq) else 'nothing'
