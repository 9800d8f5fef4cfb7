#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  -- runs the check of one property (VERIF_TIER, VERIF_SEED)
check.py --replay FILE -- validates the trace of a reported violation again"""
import importlib, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True


def main():
    if sys.argv[1] == '--replay':
        import tlc
        v = json.load(open(sys.argv[2]))
        r, bad = tlc.validate(v['module'], [v['trace']], constants=v['constants'])
        print('rejected: %s' % r.state.get('why') if bad is not None else 'accepted')
        return
    if sys.argv[1] == '--setup':
        import build
        build.build('driver')
        return
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    import checks
    from build import die
    try:
        getattr(checks, sys.argv[1])()
    except Exception:  # the check itself failed: that says nothing about the property
        import traceback
        die(traceback.format_exc())


main()
