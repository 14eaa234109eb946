#!/usr/bin/env python
"""check.py <property> [--tier quick|thorough] [--runs N] [--seconds S] [--workers N]
   check.py --replay FILE
   check.py --determinism [--runs N]

Exit 0: the property held on every simulated run.  Exit 1: VIOLATION (with replay file).
Exit 2: the check itself failed."""
import argparse
import copy
import hashlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sim'))

monotonic = time.monotonic          # before the simulator takes the clock over

import execute  # noqa: E402
import kernel   # noqa: E402

# property -> (quick runs, thorough runs, wall limits)
RUNS = {'C01': (6000, 90000), 'C02': (8000, 120000), 'C03': (8000, 120000), 'C04': (5000, 80000), 'C05': (3000, 40000),
        'C06': (8000, 120000), 'C07': (5000, 60000), 'C08': (6000, 80000), 'C09': (4000, 60000), 'C10': (5000, 80000),
        'C11': (12000, 200000), 'C12': (3200, 40000), 'C13': (3000, 50000), 'C14': (4000, 60000), 'C15': (5000, 80000),
        'C21': (5000, 80000), 'C22': (5000, 80000), 'C23': (900, 14000), 'C24': (6000, 80000)}
LIMIT = {'quick': 240, 'thorough': 3000}


def seed_of(base, prop, i):
  return int.from_bytes(hashlib.sha256(f'{base}/{prop}/{i}'.encode()).digest()[:6], 'big')


def caps(sc):
  """Step budget per operation: proportional to the input."""
  import profiles
  out = {}
  f = {'none': 1, 'line': 1, 'op': 12}[sc.get('trace', 'line')]
  for t, ops in enumerate(sc['clients']):
    for i, op in enumerate(ops):
      n = profiles.ops_lines(sc, op) + len(op.get('steps', ()))
      size = sum(len(s) for s in sc['files'].get(op.get('path'), ()) if isinstance(s, str)) if 'path' in op else 0
      if op['op'] == 'read_folder':
        size = sum(len(s) for v in sc['files'].values() for s in v)
      out[f'{t}:{i}'] = 4000 + f * 2500 * n + 4 * size
  return out


class Lab:
  """Executes and judges scenarios; keeps the cache of solo runs."""

  def __init__(self):
    import oracle
    import profiles
    self.oracle, self.profiles = oracle, profiles
    self.cache = {}
    self.solos = 0
    execute.load()

  def solo(self, op, sc, trace):
    files = {}
    if 'path' in op:
      files = {k: v for k, v in sc['files'].items() if k == op['path'] or k.startswith(op['path'] + '/')
               or isinstance(v, str)}
      for v in list(files.values()):
        if isinstance(v, str):
          files[v] = sc['files'][v]
    if sc['prop'] == 'C12' and op.get('form') == 'rel':
      op = dict(op, form='abs')                 # how a file is named is not part of the data
    key = json.dumps([op, files, trace], sort_keys=True)
    if key not in self.cache:
      if len(self.cache) > 4000:
        self.cache.clear()
      self.solos += 1
      dirs = [d for d in sc.get('dirs', ()) if 'path' in op and (d == op['path'] or d.startswith(op['path'] + '/'))]
      dirs += [f.rsplit('/', 1)[0] for f in files if '/' in f]
      h = execute.fork_run({'prop': sc['prop'], 'files': files, 'dirs': dirs, 'clients': [[op]], 'trace': trace})
      if 'harness' in h:
        raise RuntimeError(h['harness'])
      self.cache[key] = h
    return self.cache[key]

  def execute(self, sc, wall=25, retry=True):
    sc = dict(sc)
    sc.setdefault('caps', caps(sc))
    if sc.get('interp'):
      return fresh_run([sc], sc['interp'])[0]
    h = execute.fork_run(sc, wall)
    if 'hang' in h and retry:           # slow machine or real hang?
      h = execute.fork_run(sc, wall * 3)
    return h

  def judge(self, sc, h):
    j = self.oracle.Judge(sc, h, self.solo)
    v = j.judge()
    return v, j.facts


def fresh_run(scs, interp):
  """Run scenarios in a fresh interpreter with the given flags and environment."""
  env = {k: v for k, v in os.environ.items()}
  for k, v in interp.get('env', {}).items():
    if v is None:
      env.pop(k, None)
    else:
      env[k] = v
  env['SIM_IMPORT_CLOCK'] = str(interp.get('clock', 1.6e9))
  cwd = interp.get('cwd', HERE)
  if interp.get('probes'):
    cwd = tempfile.mkdtemp(prefix='arincsim-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    for n, text in interp['probes'].items():
      p = os.path.normpath(os.path.join(cwd, n))
      if p.startswith(cwd + os.sep):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
          f.write(text)
  try:
    return fresh_run_in(scs, interp, env, cwd)
  finally:
    if interp.get('probes'):
      shutil.rmtree(cwd, ignore_errors=True)


def fresh_run_in(scs, interp, env, cwd):
  p = subprocess.run([sys.executable, *interp.get('flags', ()), os.path.join(HERE, 'sim', 'runner.py')],
                     input=json.dumps(scs).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                     cwd=cwd, timeout=600)
  if p.returncode:
    if p.returncode == 1 and b'File "' + kernel.LIB.encode() in p.stderr:
      return [{'died': 'import failed: ' + p.stderr.decode()[-300:]}] * len(scs)
    raise RuntimeError(f'runner failed ({p.returncode}): {p.stderr.decode()[-2000:]}')
  return json.loads(p.stdout)


CONTENT = ['', '1\n', '{}\n', '[arinc424]\ndebug=1\n', '{"debug": true}\n']


def interp_of(rng, env_keys, probes=()):
  import profiles
  env = {'PYTHONHASHSEED': str(rng.choice([0, 1, 2, 3, rng.randrange(1 << 31)])),
         'TZ': rng.choice([None, 'UTC', 'Asia/Tokyo', 'America/Anchorage']),
         'LANG': rng.choice([None, 'C', 'C.UTF-8', 'POSIX', 'de_DE.UTF-8', 'tr_TR.UTF-8']),
         'LC_ALL': rng.choice([None, None, 'C', 'C.UTF-8']),
         'PYTHONUTF8': rng.choice([None, '1', '0']),
         'COLUMNS': rng.choice([None, '10', '250']), 'NO_COLOR': rng.choice([None, '1']),
         'FORCE_COLOR': rng.choice([None, '1']), 'HOME': rng.choice(['/root', '/nonexistent']),
         'PYTHONWARNINGS': rng.choice([None, 'error', 'ignore']), 'PYTHONDEVMODE': rng.choice([None, None, '1'])}
  for k in env_keys:
    if rng.random() < .6:
      env[k] = rng.choice([None, '', '0', '1', 'true', 'false', 'xyz', '7', 'NONE'])
  return {'flags': rng.choice([[], [], ['-O'], ['-OO'], ['-b'], ['-X', 'int_max_str_digits=640']]), 'env': env,
          'cwd': rng.choice([HERE, '/', '/dev/shm']), 'clock': rng.choice(profiles.YEARS),
          'probes': {k[4:]: rng.choice(CONTENT) for k in probes if k.startswith('cwd:')}}


# ----------------------------------------------------------------------------
# worker

def digest(h):
  return hashlib.sha256(json.dumps(h, sort_keys=True).encode()).hexdigest()[:16]


class Stats:
  def __init__(self):
    self.d = {'runs': 0, 'ops': 0, 'steps': 0, 'simtime': 0.0, 'switches': 0, 'multi': 0, 'solos': 0, 'interp': 0,
              'fault_runs': 0}
    self.fired, self.probe, self.facts, self.kinds, self.damage, self.exc = {}, {}, {}, {}, {}, {}
    self.shapes, self.inter, self.samples = set(), set(), []

  def add(self, sc, h, facts):
    d = self.d
    d['runs'] += 1
    d['steps'] += h.get('steps', 0)
    d['simtime'] += min(h.get('simtime', 0), 1e9)
    d['switches'] += len(h.get('switches', ()))
    d['multi'] += len(sc['clients']) > 1
    d['fault_runs'] += bool(set(h.get('fired', {})) - {'read_short', 'list_reordered'})
    for name, src in (('fired', h.get('fired', {})), ('probe', h.get('probe', {})), ('facts', facts)):
      t = getattr(self, name)
      for k, v in src.items():
        t[k] = t.get(k, 0) + v
    for k in sc.get('damage', ()):
      self.damage[k] = self.damage.get(k, 0) + 1
    sig = []
    for ops, outs in zip(sc['clients'], h.get('ops', ())):
      for op, o in zip(ops, outs):
        if o is None:
          continue
        d['ops'] += 1
        self.kinds[op['op']] = self.kinds.get(op['op'], 0) + 1
        e = o['exc']['t'] if o['exc'] else 'return'
        self.exc[e] = self.exc.get(e, 0) + 1
        sig.append((op['op'], e, tuple(o['fired']), hash(o['out']), str(o['ret'])[:20]))
    if len(sc['clients']) > 1:
      self.inter.add(hash(json.dumps(h.get('switches', ()))))
    if any(s[3] != hash('') or s[2] for s in sig):
      self.shapes.add(hash((tuple(sig), json.dumps(h.get('switches', ())), json.dumps(sc.get('io', {})))))
    if len(self.samples) < 2:
      self.samples.append({'seed': sc['seed'], 'clients': [[{k: (str(v)[:60]) for k, v in op.items()} for op in ops][:4]
                                                           for ops in sc['clients']],
                           'io': sc.get('io'), 'sched': str(sc.get('sched'))[:120], 'fired': h.get('fired'),
                           'outcomes': [str(s[:3]) for s in sig[:6]]})

  def dump(self):
    return {**self.d, 'fired': self.fired, 'probe': self.probe, 'facts': self.facts, 'kinds': self.kinds,
            'damage': self.damage, 'exc': self.exc, 'shapes': list(self.shapes), 'inter': list(self.inter),
            'samples': self.samples}


def worker(w, nworkers, prop, base, runs, limit, deep, stop, q):
  try:
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    lab = Lab()
    st = Stats()
    t_end = monotonic() + limit
    found = None
    env_keys, strata, probes = set(), [], set()
    batch = []
    for i in range(w, runs, nworkers):
      if stop.value <= i or monotonic() > t_end:
        break
      seed = seed_of(base, prop, i)
      k = i
      if strata and seed % 5 < 2:               # more of what reached code that changes shared state
        k = strata[seed // 5 % len(strata)]
      sc = lab.profiles.scenario(prop, seed, deep, sorted(env_keys), k)
      todo = [(i, sc, None)]
      if prop == 'C12':
        rng = random.Random(seed + 1)
        if probes and rng.random() < .5:
          sc['probes'] = {p: rng.choice(CONTENT) for p in sorted(probes)}
          sc['cwd'] = 'wd'
          sc['dirs'].append('wd')
        if i // nworkers % 2:
          batch.append((i, sc))
          if len(batch) < 12:
            continue
          interp = interp_of(rng, sorted(env_keys), sorted(probes))
          for _, s in batch:
            s['interp'] = interp
            s['caps'] = caps(s)
          hs = fresh_run([s for _, s in batch], interp)
          st.d['interp'] += 1
          todo = [(k, s, h) for (k, s), h in zip(batch, hs)]
          batch = []
      for k, s, h in todo:
        if h is None:
          h = lab.execute(s)
        env_keys.update(h.get('env_reads', ()))
        probes.update(h.get('file_probes', ()))
        if h.get('touch') and len(strata) < 200:
          strata.append(i)
        v, facts = lab.judge(s, h)
        st.add(s, h, facts)
        if v:
          found = (k, s, h.get('switches', []), v)
          with stop.get_lock():
            stop.value = min(stop.value, k)
          break
      if found:
        break
    st.d['solos'] = lab.solos
    q.put(('done', w, st.dump(), found))
  except BaseException:
    q.put(('error', w, traceback.format_exc(), None))
  finally:
    execute.cleanup()


# ----------------------------------------------------------------------------
# minimisation

def explicit(sc, switches):
  s = copy.deepcopy(sc)
  if switches:
    s['sched'] = {'mode': 'explicit', 'switches': switches}
  return s


def ddmin(items, test, budget):
  """Smallest sublist (roughly) for which test(sublist) holds."""
  n = 2
  while len(items) >= 1 and budget():
    size = max(1, len(items) // n)
    cut = False
    for i in range(0, len(items), size):
      cand = items[:i] + items[i + size:]
      if not budget():
        break
      if test(cand):
        items, cut = cand, True
        n = max(2, n - 1)
        break
    if not cut:
      if size == 1:
        break
      n = min(len(items), n * 2)
  return items


def minimise(lab, sc, switches, v, seconds=40, runs=600):
  end = monotonic() + seconds
  left = [runs]

  def budget():
    return monotonic() < end and left[0] > 0

  hang = v[0] == 'no progress'          # every try then costs its full wall time

  def fails(s):
    left[0] -= 1
    try:
      w, _ = lab.judge(s, lab.execute(s, wall=3 if hang else 20, retry=not hang))
    except (KeyError, IndexError):
      return False
    return bool(w) and w[0] == v[0]

  best = explicit(sc, switches)
  if not fails(best):
    best = copy.deepcopy(sc)
    if not fails(best):
      return None
  # operations
  allops = [(t, i) for t, ops in enumerate(best['clients']) for i, op in enumerate(ops) if op['op'] != 'nop']

  def with_ops(keep):
    s = copy.deepcopy(best)
    ks = set(keep)
    for t, ops in enumerate(s['clients']):
      for i in range(len(ops)):
        if (t, i) not in ks:
          ops[i] = {'op': 'nop'}
    return s
  keep = ddmin(allops, lambda k: fails(with_ops(k)), budget)
  best = with_ops(keep)
  # faults
  fl = [(t, i, j) for t, ops in enumerate(best['clients']) for i, op in enumerate(ops)
        for j in range(len(op.get('faults', ())))]

  def with_faults(keep):
    s = copy.deepcopy(best)
    ks = set(keep)
    for t, ops in enumerate(s['clients']):
      for i, op in enumerate(ops):
        if 'faults' in op:
          op['faults'] = [f for j, f in enumerate(op['faults']) if (t, i, j) in ks]
    return s
  best = with_faults(ddmin(fl, lambda k: fails(with_faults(k)), budget))
  # switches
  if best.get('sched', {}).get('mode') == 'explicit':
    def with_sw(keep):
      return dict(copy.deepcopy(best), sched={'mode': 'explicit', 'switches': keep})
    best = with_sw(ddmin(best['sched']['switches'], lambda k: fails(with_sw(k)), budget))
  # file contents
  for f in list(best['files']):
    if isinstance(best['files'][f], list):
      def with_file(keep, f=f):
        s = copy.deepcopy(best)
        s['files'][f] = keep
        return s
      best = with_file(ddmin(best['files'][f], lambda k: fails(with_file(k)), budget))
  # knobs
  for k in ('io', 'clock', 'env', 'tty', 'random', 'damage', 'interp', 'probes'):
    if best.get(k):
      s = {a: b for a, b in best.items() if a != k}
      if budget() and fails(s):
        best = s
  # observation steps
  for t, ops in enumerate(best['clients']):
    for i, op in enumerate(ops):
      if len(op.get('steps', ())) > 1:
        def with_steps(keep, t=t, i=i):
          s = copy.deepcopy(best)
          s['clients'][t][i]['steps'] = keep
          return s
        best = with_steps(ddmin(op['steps'], lambda k: fails(with_steps(k)), budget))
  # trailing nothing
  s = copy.deepcopy(best)
  for ops in s['clients']:
    while ops and ops[-1]['op'] == 'nop':
      ops.pop()
  if fails(s):
    best = s
  best.pop('caps', None)
  return best


# ----------------------------------------------------------------------------
# replay

def replay(path, quiet=False):
  with open(path) as f:
    r = json.load(f)
  sc = r['scenario']
  lab = Lab()
  try:
    v, _ = lab.judge(sc, lab.execute(sc))
  finally:
    execute.cleanup()
  if v:
    print(f'{v[0]}: {v[1]}')
    print(f'VIOLATION property={sc["prop"]} replay={path}')
    return 1
  print(f'no violation of {sc["prop"]}')
  return 0


def report(lab, prop, base, found):
  """Minimise, store, confirm in a fresh interpreter; returns the replay path or None."""
  k, sc, switches, v = found
  small = minimise(lab, sc, switches, v)
  minimised = small is not None
  if small is None:
    small = sc
  d = os.path.join(HERE, 'replays')
  os.makedirs(d, exist_ok=True)
  v2, _ = lab.judge(small, lab.execute(small))
  path = os.path.join(d, f'{prop}-seed{base}-run{k}.json')
  with open(path, 'w') as f:
    json.dump({'property': prop, 'verif_seed': base, 'run': k, 'run_seed': sc['seed'], 'violation': (v2 or v)[0],
               'message': (v2 or v)[1], 'minimised': minimised,
               'faults': [fl for ops in small['clients'] for op in ops for fl in op.get('faults', ())],
               'scenario': small}, f, indent=1)
  p = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), '--replay', path], stdout=subprocess.PIPE,
                     stderr=subprocess.STDOUT, timeout=300)
  return path, p.returncode == 1, (v2 or v), p.stdout.decode()[-1500:]


# ----------------------------------------------------------------------------
# evidence

REAL = ['arinc424 (all of /repo/src/arinc424, unmodified)', 'prettytable', 'termcolor', 'json',
        'CPython io.TextIOWrapper / io.BufferedReader over the simulated file']
STUB = ['raw file reads (SimRaw over real bytes in a scratch folder)', 'directory listing order and errors',
        'console (sys.stdout)', 'clocks', 'thread scheduling (baton)',
        'locks, threads and queues created by library code (none on the unchanged tree)']


def merge(dumps):
  out = {}
  for d in dumps:
    for k, v in d.items():
      if isinstance(v, dict):
        t = out.setdefault(k, {})
        for a, b in v.items():
          t[a] = t.get(a, 0) + b
      elif k in ('shapes', 'inter'):
        out.setdefault(k, set()).update(v)
      elif isinstance(v, list):
        out.setdefault(k, []).extend(v)
      else:
        out[k] = out.get(k, 0) + v
  return out


RULE = ('One evaluation is one simulated run: a scenario (workload, file bytes, storage delivery, faults, schedule) drawn '
        'from its own seed and executed from pristine state in a forked process. Non-trivial: some operation printed '
        'something or a fault fired in it. Distinct: differs in operations, outcomes, printed text, faults fired, '
        'baton switches or delivery knobs.')


def evidence(prop, tier, base, m, wall, violations, nworkers, extra=None):
  n = m.get('runs', 0)
  cov = {
      'evaluations': n, 'distinct_nontrivial': len(m.get('shapes', ())), 'rule': RULE, 'samples': m.get('samples', [])[:3],
      'operations': m.get('ops', 0), 'operations_by_kind': m.get('kinds', {}), 'endings': m.get('exc', {}),
      'runs_per_hour': round(n / wall * 3600) if wall else 0, 'seeds_per_hour': round(n / wall * 3600) if wall else 0,
      'simulated_seconds': round(m.get('simtime', 0.0), 6), 'yield_points': m.get('steps', 0),
      'baton_switches': m.get('switches', 0), 'multi_client_runs': m.get('multi', 0),
      'distinct_interleavings': len(m.get('inter', ())),
      'interleaving_measure': 'distinct sequences of (client, operation, local step, next client) among multi-client runs',
      'faults_fired': m.get('fired', {}), 'stored_damage_applied': m.get('damage', {}),
      'runs_with_a_fault': m.get('fault_runs', 0), 'probes': m.get('probe', {}), 'checked': m.get('facts', {}),
      'solo_runs': m.get('solos', 0), 'fresh_interpreters': m.get('interp', 0), 'workers': nworkers,
      'real_components': REAL, 'stubbed_components': STUB,
  }
  cov.update(extra or {})
  os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
  with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
    json.dump({'property': prop, 'tier': tier, 'seed': base, 'level': 'exploration', 'coverage': cov,
               'assumptions': ['CPython 3.12 with the pinned prettytable and termcolor',
                               'interleavings are explored at line or bytecode boundaries of library code and at every '
                               'file, directory, console, lock and sleep call',
                               'sampled, not exhaustive: a pass means no seed explored violated the property'],
               'wall_s': round(wall, 2), 'violations': violations}, f, indent=1, sort_keys=True)


def run_check(prop, tier, base, runs, limit, nworkers):
  t0 = monotonic()
  ctx = mp.get_context('fork')
  stop = ctx.Value('q', 1 << 60)
  q = ctx.SimpleQueue()
  ps = [ctx.Process(target=worker, args=(w, nworkers, prop, base, runs, limit, tier == 'thorough', stop, q))
        for w in range(nworkers)]
  for p in ps:
    p.start()
  res = []
  dead = 0
  while len(res) + dead < nworkers:
    if q._reader.poll(1):
      res.append(q.get())
    else:
      dead = sum(1 for p in ps if p.exitcode not in (None, 0))
  for p in ps:
    p.join()
  errors = [r[2] for r in res if r[0] == 'error']
  if errors or dead:
    print(errors[0] if errors else 'a worker died', file=sys.stderr)
    return 2
  m = merge([r[2] for r in res])
  found = sorted((r[3] for r in res if r[3]), key=lambda f: f[0])
  code = 0
  if found:
    lab = Lab()
    try:
      path, confirmed, v, text = report(lab, prop, base, found[0])
    finally:
      execute.cleanup()
    if not confirmed and found[0][3][0] in ('no progress', 'process ended'):    # an overloaded machine
      print(f'not repeatable, not counted: {found[0][3]}\n{text}', file=sys.stderr)
    else:
      if not confirmed:
        print('the run recorded in the replay file does not repeat: the library depends on something that is not in the simulation')

      print(f'{v[0]}: {v[1]}')
      print(f'VIOLATION property={prop} replay={path}')
      code = 1
  wall = monotonic() - t0
  evidence(prop, tier, base, m, wall, 1 if code == 1 else 0, nworkers)
  print(f'{prop} {tier} seed={base}: {m.get("runs", 0)} runs, {m.get("ops", 0)} operations, '
        f'{sum(m.get("fired", {}).values())} faults fired, {len(m.get("inter", ()))} distinct interleavings, {wall:.1f} s')
  return code


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop', nargs='?')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
  ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
  ap.add_argument('--runs', type=int)
  ap.add_argument('--seconds', type=float)
  ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
  ap.add_argument('--replay')
  a = ap.parse_args()
  if a.replay:
    return replay(a.replay)
  tier = 'thorough' if a.tier == 'thorough' else 'quick'
  runs = a.runs or RUNS[a.prop][tier == 'thorough']
  return run_check(a.prop, tier, a.seed, runs, a.seconds or LIMIT[tier], a.workers)


if __name__ == '__main__':
  try:
    code = main()
  except BaseException:
    traceback.print_exc()
    code = 2
  sys.stdout.flush()
  os._exit(code)
