"""Fresh interpreter: executes scenarios read from stdin (JSON list), each in a forked child,
and writes their histories.  Used for C12 (other interpreter flags and environments) and to
confirm replays outside the searching process."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import execute  # noqa: E402


def main():
  out = os.fdopen(os.dup(1), 'w')
  scs = json.load(sys.stdin)
  execute.kernel.IMPORT_NOW = float(os.environ.pop('SIM_IMPORT_CLOCK', 1.6e9))
  execute.load()
  try:
    res = [execute.fork_run(sc, wall=60) for sc in scs]
  finally:
    execute.cleanup()
  out.write(json.dumps(res))
  out.flush()


main()
