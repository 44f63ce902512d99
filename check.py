#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] | check.py --replay FILE"""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import harness  # noqa: E402

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--replay':
        sys.exit(harness.replay_main(a[1]))
    prop = a[0]
    if '--shard' in a:
        s = json.loads(a[a.index('--shard') + 1])
        harness.shard_main(prop, s['variant'], s['groups'], s['k'], s['n'], s['seed'], s['tier'], s['deadline'], s['out'])
        sys.exit(0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    try:
        rc = harness.main(prop, int(os.environ.get('VERIF_SEED', '1')), tier)
    except Exception as e:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
