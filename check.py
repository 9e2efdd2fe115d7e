#!/usr/bin/env python3
"""check.py ID            decide property ID (tier from VERIF_TIER, default quick)
   check.py --setup       build every driver
   check.py --replay FILE re-run a recorded violation
   check.py --stage NAME  run one stage for debugging, all clauses"""
import json
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
sys.dont_write_bytecode = True
import build    # noqa: E402
import drive    # noqa: E402
import runner   # noqa: E402
import stages   # noqa: E402
import tlc      # noqa: E402


def main():
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    args = sys.argv[1:]
    if args[0] == '--thorough':
        tier = 'thorough'
        args = args[1:]
    if args[0] == '--setup':
        for st in stages.STAGES.values():
            print(runner.build_driver(st))
        return 0
    if args[0] == '--replay':
        f = json.load(open(args[1]))
        st = stages.STAGES[f['stage']]
        tr, _ = drive.execute(runner.build_driver(st), [f['script']], jobs=1,
                              per_trace_timeout=st.timeout, env=st.env)
        if st.post:
            tr = [st.post(t) for t in tr]
        bad, _ = tlc.validate(st.trace[0], st.trace[1], tr)
        print('\n'.join(tr[0]))
        print(bad)
        return 1 if bad else 0
    if args[0] == '--stage':
        st = stages.STAGES[args[1]]
        st.clauses = {'ALL': '.*'}
        for m in st.models:
            m.props = None
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        return runner.check('ALL', [st], {'level': 'other'}, tier, seed)
    prop = args[0]
    sts = [s for s in stages.STAGES.values() if prop in s.clauses]
    try:
        return runner.check(prop, sts, stages.META.get(prop, {'level': 'model_checking'}), tier, seed)
    except (build.BuildError, tlc.TLCError, drive.DriverError) as e:
        print('# ERROR (no verdict): %s' % e)
        return 3
    except Exception:
        traceback.print_exc()
        return 3


sys.exit(main())
