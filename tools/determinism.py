"""Prove that one seed is one execution: run the same seeds in several fresh interpreters (other
hash seeds, other process layouts, loaded machine) and compare the complete histories.

  python tools/determinism.py [seeds per property] [interpreters]"""
import hashlib
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CHILD = r'''
import sys, json, hashlib
sys.path[:0] = [sys.argv[1], sys.argv[1] + '/sim']
import check, execute
lab = check.Lab()
out = {}
order = json.loads(sys.argv[2])
for p, i in order:
  sc = lab.profiles.scenario(p, check.seed_of(7, p, i), stratum=i)
  h = lab.execute(sc)
  h.pop('env_reads', None)
  out[f'{p}/{i}'] = hashlib.sha256(json.dumps(h, sort_keys=True).encode()).hexdigest()
execute.cleanup()
print(json.dumps(out), file=check.kernel._real_out)
'''


def main():
  n = int(sys.argv[1]) if len(sys.argv) > 1 else 20
  k = int(sys.argv[2]) if len(sys.argv) > 2 else 16
  todo = [[f'C{p:02d}', i] for p in range(1, 16) for i in range(n)]
  ps = []
  for j in range(k):
    order = todo[::-1] if j % 2 else todo
    env = dict(os.environ, PYTHONHASHSEED=str(j * 7919 % 1000), PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1')
    ps.append(subprocess.Popen(['/opt/venv/bin/python', '-c', CHILD, HERE, json.dumps(order)], stdout=subprocess.PIPE,
                               env=env))
  res = [json.loads(p.communicate()[0]) for p in ps]
  bad = [key for key in res[0] if len({r[key] for r in res}) > 1]
  print(f'{len(res[0])} seeds x {k} interpreters: {len(bad)} differ', bad[:10])
  return 1 if bad else 0


sys.exit(main())
