#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property from the current sources of the library."""
import importlib, os, sys, traceback

if os.environ.get('PYTHONHASHSEED') != '0':
    # one run is exactly like another
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'dfa'), os.path.join(HERE, 'rules')]
sys.dont_write_bytecode = True
import model, report


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier == 'thorough':
        import sym
        sym.Exec.scale = 2
    ctx = report.Ctx(pid, tier)
    try:
        rule = importlib.import_module(pid.lower())
        rule.run(ctx)
    except Exception as e:
        if not isinstance(e, model.AnalysisBroken):
            traceback.print_exc()
        # what was found before stands
        if ctx.viol and report.finish(ctx, rule.__doc__.strip(), getattr(rule, 'ASSUMPTIONS', [])):
            return 1
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e if isinstance(e, model.AnalysisBroken) else 'internal error'))
        return 2
    return report.finish(ctx, rule.__doc__.strip(), getattr(rule, 'ASSUMPTIONS', []))


sys.exit(main())
