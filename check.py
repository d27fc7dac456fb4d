#!/opt/venv/bin/python
"""Decide one property by seeded simulation of curvepy.

  check.py PROP [--tier quick|thorough] [--seed N] [--runs N] [--workers N]
  check.py --replay FILE            run one recorded history again

Exit 0: no run broke the property.  Exit 1 with `VIOLATION property=.. replay=..`: one did.
Exit 2: the machinery itself failed."""
import argparse
import os
import resource
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.environ.get('CURVEPY_ROOT', '/repo')
os.environ['OPENBLAS_NUM_THREADS'] = '1'
sys.path[:0] = [HERE, ROOT]

from sim import runner  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1))
    ap.add_argument('--replay')
    ap.add_argument('--digests', help='internal: print the event log digests of these runs (prop:seed,...)')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
    if a.digests:
        return runner.print_digests(a.digests)
    if a.replay:
        return runner.replay(a.replay)
    return runner.check(a.prop, 'thorough' if a.tier == 'thorough' else 'quick', a.seed, a.runs, a.workers, not a.no_evidence, HERE, ROOT)


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
