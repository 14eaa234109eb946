"""Runs one scenario (plain data) on the real library inside the simulator and returns its
history (plain data).  Always called in a forked child of a process that has imported the
library but never used it, so every scenario starts from the same pristine state."""
import decimal
import gc
import json
import locale
import logging
import os
import pathlib
import random
import resource
import select
import shutil
import signal
import socket
import stat
import sys
import tempfile
import time
import threading
import warnings

import kernel

SCRATCH = None
arinc424 = None
Record = None


def load():
  """Install the seams, then import the code under test from the working tree."""
  global arinc424, Record
  if arinc424 is None:
    kernel.install()
    kernel.LOADING = True
    import arinc424 as lib
    from arinc424.record import Record as R
    kernel.LOADING = False
    if not os.path.realpath(lib.__file__).startswith(kernel.LIB):
      raise RuntimeError(f'wrong library: {lib.__file__}')
    arinc424, Record = lib, R
    for d, _, fs in os.walk(kernel.LIB):
      for f in fs:
        if f.endswith('.py'):
          kernel.touching_lines(os.path.join(d, f))


# ----------------------------------------------------------------------------
# scratch folder of one scenario

def seg_bytes(segs):
  return ''.join(segs).encode('latin-1')


def materialise(sc, root):
  for d in sc.get('dirs', ()):
    os.makedirs(os.path.join(root, d), exist_ok=True)
  for name, segs in sc.get('files', {}).items():
    p = os.path.join(root, name)
    if isinstance(segs, str):           # a symbolic link
      os.symlink(os.path.relpath(os.path.join(root, segs), os.path.dirname(p)), p)
      continue
    with kernel._open(p, 'wb') as f:
      f.write(seg_bytes(segs))


def tree(root):
  out = {}
  for d, ds, fs in os.walk(root):
    for n in ds + fs:
      p = os.path.join(d, n)
      st = os.lstat(p)
      data = ''
      if stat.S_ISREG(st.st_mode):
        with kernel._open(p, 'rb') as f:
          data = f.read().decode('latin-1')
      out[os.path.relpath(p, root)] = (st.st_mode, st.st_mtime_ns, data)
  return out


# ----------------------------------------------------------------------------
# process-wide state that other code sees

_SIGS = [s for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGALRM, signal.SIGHUP, signal.SIGUSR1)]


def shared_modules():
  """Identity of everything in modules and classes that the host shares with the library."""
  import builtins, collections, io, prettytable, string, termcolor
  out = {}
  for m in (builtins, json, json.encoder, prettytable, prettytable.PrettyTable, termcolor, os, io, time, string,
            collections, decimal, locale, random):
    for k, v in list(vars(m).items()):
      if k not in ('_', '__warningregistry__'):
        out[f'{m.__name__}.{k}'] = id(v) if not isinstance(v, (str, int, float, bool, type(None))) else repr(v)
  return out


def ambient():
  c = decimal.getcontext()
  mask = os.umask(0)
  os.umask(mask)
  root = logging.getLogger()
  return {
      'cwd': os.getcwd(),
      'environ': dict(os.environ),
      'streams': [id(sys.stdout), id(sys.stderr), id(sys.stdin), id(sys.__stdout__)],
      'hooks': [id(sys.excepthook), id(sys.displayhook), id(__builtins__['print'] if isinstance(__builtins__, dict)
                                                              else __builtins__.print)],
      'signals': [str(signal.getsignal(s)) for s in _SIGS],
      'itimer': list(signal.getitimer(signal.ITIMER_REAL)),
      'warnings': [str(f) for f in warnings.filters] + [id(warnings.showwarning)],
      'locale': locale.setlocale(locale.LC_ALL),
      'recursion': sys.getrecursionlimit(),
      'switchinterval': sys.getswitchinterval(),
      'intdigits': sys.get_int_max_str_digits(),
      'decimal': repr(c),
      'gc': [gc.isenabled(), list(gc.get_threshold())],
      'logging': [root.level, len(root.handlers), root.manager.disable],
      'random': hash(random.getstate()),
      'umask': mask,
      'modules': shared_modules(),
      'misc': [getattr(sys, 'tracebacklimit', None), id(threading.excepthook), sys.dont_write_bytecode,
               socket.getdefaulttimeout() if socket else None, sys.getdefaultencoding()],
      'tz': list(time.tzname) + [time.timezone],
      'path': list(sys.path),
      'limits': [resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_CORE, resource.RLIMIT_STACK,
                                                 resource.RLIMIT_AS, resource.RLIMIT_CPU)],
      'priority': [os.getpriority(os.PRIO_PROCESS, 0), threading.stack_size()],
      'threads': len(sys._current_frames()),
  }


def glance():
  """The part of ambient() that is cheap enough to look at after every single step."""
  return (os.getcwd(), len(os.environ), hash(frozenset(os.environ._data.items())), id(sys.stdout), id(sys.stderr), id(sys.stdin),
          id(sys.excepthook), sys.getrecursionlimit(), sys.getswitchinterval(), id(warnings.filters), len(warnings.filters),
          str(warnings.filters[:1]), id(warnings.showwarning), gc.isenabled(), logging.root.level, logging.root.manager.disable,
          len(logging.root.handlers), signal.getsignal(signal.SIGINT), signal.getsignal(signal.SIGPIPE),
          locale.setlocale(locale.LC_ALL), socket.getdefaulttimeout(), id(print), id(open), time.tzname)


GLANCE = ('working directory', 'environment', 'environment', 'sys.stdout', 'sys.stderr', 'sys.stdin', 'sys.excepthook',
          'recursion limit', 'switch interval', 'warning filters', 'warning filters', 'warning filters', 'warnings.showwarning',
          'gc', 'logging', 'logging', 'logging', 'SIGINT handler', 'SIGPIPE handler', 'locale', 'socket timeout', 'print', 'open',
          'time zone')


def monitor_of(first):
  def look():
    g = glance()
    if g != first:
      return ', '.join(sorted({n for n, a, b in zip(GLANCE, first, g) if a != b}))
    return None
  return look


def amb_diff(a, b):
  out = []
  for k in a:
    if a[k] != b[k]:
      if k == 'modules':
        ks = sorted(x for x in a[k] if a[k][x] != b[k].get(x))
        if ks:
          out.append(f'module attributes {ks[:6]}')
      elif k == 'environ':
        ks = sorted(x for x in set(a[k]) | set(b[k]) if a[k].get(x) != b[k].get(x))
        out.append(f'environ {ks}')
      else:
        out.append(f'{k}: {str(a[k])[:80]} -> {str(b[k])[:80]}')
  return out


# ----------------------------------------------------------------------------
# one operation

def chain_injected(e):
  seen, todo = set(), [e]
  while todo:
    x = todo.pop()
    if x is None or id(x) in seen:
      continue
    seen.add(id(x))
    if getattr(x, '_sim_fault', None):
      return True
    todo += [x.__cause__, x.__context__]
    if isinstance(x, BaseExceptionGroup):
      todo += list(x.exceptions)
  return False


def exc_info(e, root):
  return {'t': type(e).__name__, 'value': isinstance(e, ValueError), 'os': isinstance(e, OSError),
          'msg': str(e).replace(root, '<scratch>'), 'inj': chain_injected(e)}


def run_steps(r, steps, root, res):
  """Observe a record; each result is appended to `res` as it arrives."""
  for s in steps:
    try:
      if s[0] == 'decode':
        v = r.decode(s[1])
      elif s[0] == 'json':
        v = r.json(s[1], s[2])
      elif s[0] == 'primary':
        v = r.primary()
      elif s[0] == 'hasCont':
        v = r.hasCont()
      elif s[0] == 'raw':
        v = r.raw
      else:
        raise RuntimeError(s)
      res.append(['ok', v])
    except Exception as e:
      if chain_injected(e):
        raise
      res.append(['exc', type(e).__name__, str(e)])
  return None


def mutate_record(r, how):
  """What a caller may do to a record it owns."""
  try:
    if how == 'clear':
      r.fields.clear()
    elif how == 'pop':
      r.fields.pop()
    elif how == 'reverse':
      r.fields.reverse()
    elif how == 'dup':
      r.fields.append(r.fields[0])
    elif how == 'value':
      for f in r.fields:
        f.value = 'MUTATED'
    elif how == 'name':
      for f in r.fields[::2]:
        f.name = 'MUTATED'
    elif how == 'attrs':
      r.raw, r.continuation, r.ident = 'X' * 132, '7', 'ZZ'
  except (AttributeError, TypeError, IndexError):
    pass


class Body:
  def __init__(self, sc, root):
    self.sc, self.root = sc, root
    self.out = [[None] * len(c) for c in sc['clients']]
    self.shared = {}
    self.amb0 = None
    self.inner = []
    self.versions = sc.get('versions')
    self.want_amb = sc.get('ambient')

  def prelude(self, sim):
    for k, line in self.sc.get('shared', {}).items():
      r = Record()
      r.read(line)
      self.shared[k] = r
    if self.want_amb:
      self.amb0 = ambient()
      if sim.multi:
        sim.monitor = monitor_of(glance())

  def path(self, op):
    p = op['path']
    form = op.get('form', 'abs')
    if form == 'rel':
      here = os.path.relpath(os.getcwd(), self.root)
      return p if here == '.' else os.path.relpath(p, here)
    p = os.path.join(self.root, p)
    return pathlib.Path(p) if form == 'path' else p + os.sep if form == 'slash' else p

  def call(self, cl, op, o):
    k = op['op']
    if k == 'parse':
      return arinc424.parse(op['line']) if op.get('out') is None else arinc424.parse(op['line'], op['out'])
    if k == 'read_file':
      p = self.path(op)
      return arinc424.read_file(p) if op.get('out') is None else arinc424.read_file(p, op['out'])
    if k == 'search':
      return arinc424.search(self.path(op), o['_arg'])
    if k == 'read_folder':
      return arinc424.read_folder(self.path(op))
    if k == 'rec':
      r = Record()
      if 'slot' in op:
        cl.slots[op['slot']] = r
      ret = r.read(op['line'])
      if ret:
        run_steps(r, op['steps'], self.root, o['steps'])
      return ret
    if k == 'fresh':                    # an object that never read anything
      r = Record()
      run_steps(r, op['steps'], self.root, o['steps'])
      return None
    if k == 'sread':
      r = cl.slots.get(op['slot'])
      if r is None:
        r = cl.slots[op['slot']] = Record()
      return r.read(op['line'])
    if k == 'look':
      r = cl.slots.get(op['slot'])
      if r is not None:
        run_steps(r, op['steps'], self.root, o['steps'])
      return r is not None
    if k == 'obs':
      run_steps(self.shared[op['slot']], op['steps'], self.root, o['steps'])
      return None
    if k == 'mut':
      r = cl.slots.get(op['slot'])
      if r is not None:
        mutate_record(r, op['how'])
      return None
    if k == 'write':                    # the caller replaces a file
      cl.in_lib = False
      p = os.path.join(self.root, op['path'])
      st = os.stat(p)
      with kernel._open(p, 'wb') as f:
        f.write(seg_bytes(op['segs']))
      if op.get('same_time'):
        os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
      return None
    if k in ('replace', 'append'):      # another program puts a new file in place of this one, or adds to it
      cl.in_lib = False
      p = os.path.join(self.root, op['path'])
      data = seg_bytes(op['segs'])
      if k == 'replace':
        tmp = os.path.join(self.root, '.new')
        with kernel._open(tmp, 'wb') as f:
          f.write(data)
        os.replace(tmp, p)
      else:
        with kernel._open(p, 'ab', 0) as f:
          f.write(data)
      kernel.CUR.iolog.append((k, cl.tid, cl.opidx, op['path']))
      kernel.CUR.count('file_' + {'replace': 'replaced', 'append': 'appended'}[k])
      return None
    if k == 'chdir':                    # the caller changes the working directory
      cl.in_lib = False
      os.chdir(os.path.join(self.root, op['path']))
      return None
    if k == 'console':                  # the caller replaces sys.stdout
      cl.in_lib = False
      kernel.new_console()
      return None
    if k == 'probe':
      return None
    raise RuntimeError(f'unknown operation {k}')

  def __call__(self, sim, cl, i, op, tr):
    if self.versions:
      sim.iolog.append(('begin', cl.tid, i))
    self.out[cl.tid][i] = self.one(sim, cl, i, op, tr)
    if self.versions:
      sim.iolog.append(('end', cl.tid, i))

  def nested(self, sim, cl, op, fork=False):
    """A whole call while another one of the same thread is under way."""
    was = dict(cl.__dict__)
    k = len(self.inner)
    self.inner.append(None)
    cl.opidx = 1000 * (k + 1) + cl.opidx % 1000
    cl.begin(op)
    try:
      o = (self.forked if fork else self.one)(sim, cl, None, op, None, True)
    finally:
      cl.__dict__.update(was)
    self.inner[k] = [cl.tid, cl.opidx, op, o]

  def forked(self, sim, cl, *a):
    """The same, in a process forked at this point: the other threads are not there, what they had taken still is."""
    cl.in_lib = False
    r, w = os.pipe()
    with warnings.catch_warnings():
      warnings.simplefilter('ignore')
      pid = os.fork()
    if pid == 0:
      try:
        sys.settrace(None)
        sim.alone(cl)
        data = json.dumps(self.one(sim, cl, *a)).encode()
        while data:
          data = data[os.write(w, data):]
      finally:
        os._exit(0)
    os.close(w)
    buf = b''
    while select.select([r], [], [], 30)[0]:
      b = os.read(r, 1 << 20)
      if not b:
        break
      buf += b
    else:
      os.kill(pid, signal.SIGKILL)
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(buf) if buf else {'exc': {'t': 'Deadlock', 'value': False, 'os': False, 'msg': '', 'inj': False}, 'fired': []}

  def one(self, sim, cl, i, op, tr, inner=False):
    o = {'steps': [], 'ret': None, 'exc': None}
    arg = None
    if op['op'] == 'search':
      arg = o['_arg'] = list(op['filters']) if isinstance(op['filters'], list) else op['filters']
    if cl.cap is None:
      cl.cap = self.sc.get('caps', {}).get(f'{cl.tid}:{i}') if not inner else 300000
    pre = ambient() if self.want_amb and not sim.multi else None
    cl.in_lib = True
    if tr is not None:
      sys.settrace(tr)
    try:
      ret = self.call(cl, op, o)
      if not inner:
        sys.settrace(None)
      cl.in_lib = False
      o['ret'] = ret if isinstance(ret, (bool, str, int, type(None))) else repr(type(ret))
    except BaseException as e:
      if not inner:
        sys.settrace(None)
      cl.in_lib = False
      o['exc'] = exc_info(kernel.Deadlock() if inner and sim.deadlocked else e, self.root)
      o['leak'] = sum(not f['closed'] for f in cl.files)
      del e
    if o['exc'] is not None and o['leak']:
      gc.collect()
    o['leak2'] = sum(not f['closed'] for f in cl.files)
    o.pop('_arg', None)
    if arg is not None and arg != op['filters']:
      o['arg'] = f'filters changed to {arg!r}'
    o['out'] = ''.join(cl.out)
    o['nwrite'] = cl.nwrite
    o['opened'] = [os.path.relpath(f['path'], self.root) for f in cl.files]
    o['fired'] = [f for f in cl.fired if isinstance(f, str)]
    o['steps_taken'] = cl.lstep
    o['ieligible'] = cl.istep
    o['nread'] = cl.nread
    if cl.limited:
      o['limited'] = True
    if pre is not None:
      d = amb_diff(pre, ambient())
      if d:
        o['amb'] = d
    if self.want_amb and sim.multi and op['op'] == 'probe':
      d = amb_diff(self.amb0, ambient())
      d = [x for x in d if not x.startswith(('threads', 'decimal'))]
      if d:
        o['amb'] = d
    return o


def execute(sc, root):
  """Run in the child."""
  gc.disable()
  materialise(sc, root)
  env = dict(sc.get('env') or {})
  for k, text in sc.get('probes', {}).items():   # files the library was seen to look for
    d, _, p = k.partition(':')
    d = os.path.join(root, sc.get('cwd', '')) if d == 'cwd' else os.path.join(root, '.home')
    p = os.path.normpath(os.path.join(d, p))
    if d.endswith('.home'):
      env['HOME'] = d
    if p.startswith(root + os.sep) and not os.path.lexists(p):
      os.makedirs(os.path.dirname(p), exist_ok=True)
      with kernel._open(p, 'w') as f:
        f.write(text)
  for k, v in env.items():
    if v is None:
      os.environ.pop(k, None)
    else:
      os.environ[k] = v
  if 'TZ' in env:
    time.tzset()
  os.chdir(os.path.join(root, sc.get('cwd', '')))
  random.seed(sc.get('random', 0))
  before = tree(root) if sc.get('ambient') else None
  sim = kernel.Sim(sc, root)
  body = Body(sc, root)
  fd0 = len(kernel._listdir('/proc/self/fd')) if sc.get('ambient') else 0
  bad = sim.run(body, body.prelude, wall=sc.get('wall', 60))
  h = {'ops': body.out, 'log': sim.log, 'switches': sim.switches, 'fired': sim.fired, 'probe': sim.probe,
       'steps': sim.step, 'simtime': abs(sim.now - sim.t0 - 0) , 'iolog': sim.iolog, 'mutations': sim.mutations,
       'seen': sim.seen, 'touch': sorted(sim.touched), 'deadlock': sim.deadlocked, 'lost': len(sim.lost), 'nested': body.inner, 'levels': sim.levels, 'env_reads': sorted(kernel.ENV_READS), 'file_probes': sorted(kernel.FILE_PROBES)}
  if bad:
    h.update(bad)
    return h
  if sc.get('ambient'):
    after = tree(root)
    h['tree'] = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
    if sim.multi:
      d = amb_diff(body.amb0, ambient())
      h['amb'] = [x for x in d if not x.startswith('threads')]
    h['fds'] = len(kernel._listdir('/proc/self/fd')) - fd0
  return h


def scratch():
  global SCRATCH
  if SCRATCH is None:
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    SCRATCH = tempfile.mkdtemp(prefix='arincsim-', dir=base)
  return SCRATCH


def cleanup():
  global SCRATCH
  if SCRATCH is not None:
    shutil.rmtree(SCRATCH, ignore_errors=True)
    SCRATCH = None


_n = 0


def fork_run(sc, wall=60):
  """Execute `sc` in a forked child; returns its history."""
  global _n
  _n += 1
  root = os.path.join(scratch(), f'r{_n}')
  os.mkdir(root)
  r, w = os.pipe()
  sys.stderr.flush()
  pid = os.fork()
  if pid == 0:
    code = 0
    try:
      os.close(r)
      try:
        h = execute(dict(sc, wall=wall), root)
      except BaseException:
        import traceback
        h = {'harness': traceback.format_exc()}
      data = json.dumps(h).encode()
      while data:
        data = data[os.write(w, data):]
    except BaseException:
      code = 3
    finally:
      os._exit(code)
  os.close(w)
  buf, end = [], kernel._monotonic() + wall + 20
  hung = False
  while True:
    left = end - kernel._monotonic()
    if left <= 0 or not select.select([r], [], [], left)[0]:
      hung = True
      os.kill(pid, signal.SIGKILL)
      break
    b = os.read(r, 1 << 20)
    if not b:
      break
    buf.append(b)
  os.close(r)
  _, st = os.waitpid(pid, 0)
  shutil.rmtree(root, ignore_errors=True)
  if hung:
    return {'hang': ['process stuck']}
  data = b''.join(buf)
  if not data:
    return {'died': f'exit status {os.waitstatus_to_exitcode(st)}'}
  return json.loads(data)
