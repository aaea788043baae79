"""Collects obligations and violations of one property and writes the evidence file."""
import json, os, sys, time
import model

VERIF = model.VERIF


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self._P = None
        self._Pd = None
        self.viol = []          # (key, where, msg)
        self.oblig = {}         # rule -> [what]
        self.fnset = set()
        self.notes = []
        self.npaths = 0

    @property
    def thorough(self):
        return self.tier == 'thorough'

    @property
    def P(self):
        if self._P is None:
            self._P = model.load(True)
        return self._P

    @property
    def Pd(self):
        """the model of the debug build (assertions enabled)"""
        if self._Pd is None:
            self._Pd = model.load(False)
        return self._Pd

    def ok(self, rule, what):
        self.oblig.setdefault(rule, []).append(what)

    def bad(self, rule, what, where, msg):
        """violated obligation; `what` is a stable name of the construct without line numbers"""
        key = rule + ':' + what
        self.oblig.setdefault(rule, []).append(what)
        if key not in [v[0] for v in self.viol]:
            self.viol.append((key, where, msg))

    def check(self, cond, rule, what, where, msg):
        if cond:
            self.ok(rule, what)
        else:
            self.bad(rule, what, where, msg)
        return cond

    def touched(self, *fns):
        for f in fns:
            self.fnset.add(f.short if hasattr(f, 'short') else f)

    def floor(self, rule, least):
        """the rule must have found at least this many instances"""
        n = len(self.oblig.get(rule, ()))
        if n < least:
            raise model.AnalysisBroken('rule %s found %d instances, at least %d expected' % (rule, n, least))

    def need(self, cond, what):
        if not cond:
            raise model.AnalysisBroken(what)


def load_known():
    """entries of known_findings.txt: {property: {key: text}}"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                f = dict(x.split('=', 1) for x in line[7:].split(' | ') if '=' in x)
                out.setdefault(f['property'], {})[f['key']] = f.get('what', '')
    return out


def finish(ctx, explanation, assumptions):
    known = load_known().get(ctx.pid, {})
    new = [v for v in ctx.viol if v[0] not in known]
    old = [v for v in ctx.viol if v[0] in known]
    nob = sum(len(v) for v in ctx.oblig.values())
    P = ctx.P
    cov = {
        'explanation': explanation,
        'analysed_units': P.nsources,
        'analysed_functions_in_model': len(P.fns),
        'analysed_classes_in_model': len(P.recs),
        'functions_examined_by_this_rule': len(ctx.fnset),
        'obligations_total': nob,
        'obligations_violated': len(ctx.viol),
        'obligations_by_rule': {k: len(v) for k, v in sorted(ctx.oblig.items())},
        'paths_analysed': ctx.npaths,
        'samples': [{'rule': k, 'instances': sorted(set(map(str, v)))[:12]} for k, v in sorted(ctx.oblig.items())],
        'known_findings_seen': [v[0] for v in old],
    }
    if ctx.notes:
        cov['notes'] = ctx.notes
    ev = {'property': ctx.pid, 'tier': ctx.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': cov, 'assumptions': assumptions, 'wall_s': round(time.time() - ctx.t0, 3), 'violations': len(new)}
    edir = os.path.join(VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, ctx.pid + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1)
    rdir = os.path.join(VERIF, 'build', 'replay')
    for key, where, msg in old:
        print('KNOWN-FINDING: property=%s %s %s: %s' % (ctx.pid, key, where, known[key] or msg))
    rc = 0
    if new:
        rc = 1
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, ctx.pid + '.txt')
        with open(rp, 'w') as fp:
            for key, where, msg in new:
                fp.write('%s\n  at %s\n  %s\n' % (key, where, msg))
        for key, where, msg in new:
            print('%s: %s: %s' % (where, key, msg))
        print('VIOLATION property=%s replay=%s' % (ctx.pid, rp))
    print('%s %s: %d obligations, %d violated (%d known), %d functions, %.1fs' % (
        ctx.pid, ctx.tier, nob, len(ctx.viol), len(old), len(ctx.fnset), time.time() - ctx.t0))
    return rc
