"""The simulator: one process, one baton, one clock, one disk, one console.

Import this module before arinc424.  `install()` puts every seam in place
(open / io.open, scandir / listdir, sys.stdout, lock factories, clocks, the
audit hook); they pass straight through until `Sim(...).run()` makes a
simulation current.  Client threads are real threads, but only the one that
holds the baton runs; who gets it next is decided at yield points by the
scenario's schedule (a seeded generator, or an explicit list when replaying).
"""
import _thread
import ast
import builtins
import datetime
import errno
import gc
import hashlib
import io
import os
import random
import signal
import sys
import threading
import time
import tracemalloc

SRC = os.environ.get('ARINC_SRC', '/repo/src')
LIB = os.path.join(os.path.realpath(SRC), 'arinc424') + os.sep

HERE = os.path.dirname(os.path.abspath(__file__))
CUR = None                      # the current simulation, if any

_open = builtins.open
_scandir, _listdir, _unlink = os.scandir, os.listdir, os.unlink
_os_open, _os_read, _os_close = os.open, os.read, os.close
_Lock, _RLock = threading.Lock, threading.RLock
_alloc = _thread.allocate_lock
_ident = _thread.get_ident
_real_out = sys.stdout
_monotonic = time.monotonic
_datetime, _date = datetime.datetime, datetime.date
_time = {n: getattr(time, n) for n in ('time', 'time_ns', 'monotonic', 'monotonic_ns', 'perf_counter',
                                        'perf_counter_ns', 'process_time', 'thread_time', 'sleep',
                                        'localtime', 'gmtime', 'strftime', 'ctime', 'asctime')}


class Deadlock(BaseException):
  pass


class StepLimit(BaseException):
  pass


class Cancelled(BaseException):
  """Stands for task cancellation: an asynchronous BaseException."""


ASYNC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'Cancelled': Cancelled}


# ----------------------------------------------------------------------------
# where state that outlives a call may be changed: a hint for schedules, never a verdict

_touch = {}
_MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'popitem', 'popleft', 'appendleft', 'clear', 'update', 'setdefault', 'add',
             'discard', 'sort', 'reverse', 'write', 'writelines', 'truncate', 'seek', 'put', 'get_nowait', 'add_row', 'add_rows',
             'clear_rows', 'send', 'set', 'move_to_end', '__setitem__', '__setattr__', '__dict__'}


def _root(n):
  while isinstance(n, (ast.Attribute, ast.Subscript)):
    n = n.value
  return n.id if isinstance(n, ast.Name) else None


def _own(n):
  """The nodes of a function, without those of the functions defined in it."""
  todo = list(ast.iter_child_nodes(n))
  while todo:
    x = todo.pop()
    yield x
    if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
      todo += ast.iter_child_nodes(x)


def touching_lines(filename):
  """line -> names of the variables through which it stores ('' if unknown), for the lines inside functions (constructors
  aside) that store into an object, a container or a global, other than into what the function itself has just made."""
  got = _touch.get(filename)
  if got is not None:
    return got
  got = _touch[filename] = {}
  try:
    with _open(filename, encoding='utf-8') as f:
      tree = ast.parse(f.read())
  except (OSError, SyntaxError, ValueError):
    return got
  for fn in ast.walk(tree):
    if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)) or fn.name == '__init__':
      continue
    fresh, known, globs = set(), set(), set()
    for n in _own(fn):
      if isinstance(n, (ast.Global, ast.Nonlocal)):
        globs.update(n.names)
      elif isinstance(n, ast.Assign):
        for t in n.targets:
          if isinstance(t, ast.Name):
            made = isinstance(n.value, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Constant)) or \
                isinstance(n.value, ast.Call) and (isinstance(n.value.func, ast.Name) and n.value.func.id not in ('getattr', 'vars') or
                                                   isinstance(n.value.func, ast.Attribute) and n.value.func.attr[:1].isupper())
            (fresh if made else known).add(t.id)
    fresh -= known | globs
    for n in _own(fn):
      names = set()
      if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
        ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
        for t in [e for t in ts for e in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])]:
          if isinstance(t, ast.Name) and t.id in globs:
            names.add('')
          elif isinstance(t, (ast.Attribute, ast.Subscript)):
            names.add(_root(t) or '')
      elif isinstance(n, ast.Call):
        if isinstance(n.func, ast.Attribute) and n.func.attr in _MUTATORS:
          names.add(_root(n.func) or '')
        elif isinstance(n.func, ast.Name) and n.func.id == 'setattr':
          names.add(_root(n.args[0]) or '' if n.args else '')
      names -= fresh
      if names:
        for k in range(n.lineno, n.end_lineno + 1):
          got.setdefault(k, set()).update(names)
  return got


# ----------------------------------------------------------------------------
# where an asynchronous exception may be delivered

_excluded = {}


def excluded_lines(filename):
  """Lines at which no program can be expected to survive an asynchronous exception: the
  header of a with/try statement, cleanup (finally, except) code, and context-manager and
  finaliser bodies.  Everything else is fair game."""
  if filename in _excluded:
    return _excluded[filename]
  out = set()
  try:
    with _open(filename, encoding='utf-8') as f:
      tree = ast.parse(f.read())
  except (OSError, SyntaxError):
    tree = ast.Module([], [])

  def span(nodes):
    for n in nodes:
      out.update(range(n.lineno, n.end_lineno + 1))

  for n in ast.walk(tree):
    if isinstance(n, (ast.With, ast.AsyncWith)):
      out.update(range(n.lineno, n.body[0].lineno if n.body[0].lineno > n.lineno else n.lineno + 1))
    elif isinstance(n, (ast.Try, ast.TryStar)):
      out.add(n.lineno)
      span(n.finalbody)
      span(n.handlers)
    elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
      if n.name in ('__enter__', '__exit__', '__del__', '__aenter__', '__aexit__'):
        span([n])
  _excluded[filename] = out
  return out


# ----------------------------------------------------------------------------
# locks made by library code

class SimLock:
  """threading.Lock / RLock whose blocking is decided by the simulator."""

  def __init__(self, reentrant):
    self._r, self._owner, self._count = reentrant, None, 0

  def _free(self, me):
    return self._owner is None or (self._r and self._owner == me)

  def acquire(self, blocking=True, timeout=-1):
    sim, me = CUR, _ident()
    cl = sim.clients_by_ident.get(me) if sim else None
    if cl is not None:
      sim.seam(cl, 'lock')
    timed = timeout is not None and timeout >= 0
    while not self._free(me):
      if not blocking:
        return False
      if cl is None and not timed:
        raise Deadlock('lock held for ever')
      if timed:                 # others run first; if that did not free it, the time is up
        if cl is not None:
          sim.step_aside(cl)
        if not self._free(me):
          if sim:
            sim.now += timeout
          return False
        break
      sim.block(cl, self)
    self._owner = me
    self._count += 1
    return True

  def release(self):
    if self._owner is None or (self._r and self._owner != _ident()):
      raise RuntimeError('release unlocked lock')
    self._count -= 1
    if self._count <= 0:
      self._owner, self._count = None, 0
    sim = CUR
    cl = sim.clients_by_ident.get(_ident()) if sim else None
    if cl is not None:
      sim.seam(cl, 'unlock')

  def locked(self):
    return self._owner is not None

  __enter__ = acquire

  def __exit__(self, *a):
    self.release()

  # what threading.Condition needs
  def _is_owned(self):
    return self._owner == _ident()

  def _release_save(self):
    s, self._owner, self._count = (self._owner, self._count), None, 0
    return s

  def _acquire_restore(self, s):
    self.acquire()
    self._owner, self._count = s

  def _at_fork_reinit(self):
    self._owner, self._count = None, 0


_STD = ('threading.py', 'queue.py', 'functools.py', 'contextlib.py', 'concurrent/futures/thread.py',
        'concurrent/futures/_base.py')


def _from_lib():
  cl = CUR.me() if CUR else None
  if cl is not None and (isinstance(cl, Child) or cl.in_lib):
    return True
  f = sys._getframe(2)
  while f is not None:
    n = f.f_code.co_filename
    if n.startswith(LIB):
      return True
    if not n.endswith(_STD):
      return False
    f = f.f_back
  return False


def _mk_lock():
  return SimLock(False) if _from_lib() else _Lock()


def _mk_rlock():
  return SimLock(True) if _from_lib() else _RLock()


# ----------------------------------------------------------------------------
# threads started by library code: they become clients of the scheduler and act for
# the operation that started them

def _spawn(function, args, kwargs={}):
  sim = CUR
  cl = sim.me() if sim else None
  if cl is None:
    return _start_new_thread(function, args, kwargs)
  return sim.spawn(cl, function, args, kwargs)


class _Ended:
  def __init__(self, child):
    self.child = child

  def _free(self, me):
    return self.child.done


def _wait_thread(self, block=True, timeout=-1):
  sim = CUR
  cl = sim.me() if sim else None
  child = sim.clients_by_ident.get(self._ident) if sim and self._ident is not None else None
  if cl is None or child is None or self._tstate_lock is None:
    return _wait_tstate(self, block, timeout)
  if not child.done:
    if not block:
      return
    if timeout is not None and timeout >= 0:
      sim.step_aside(cl)
      if not child.done:
        sim.now += timeout
        return
    while not child.done:
      sim.block(cl, _Ended(child))
  _wait_tstate(self, True, -1)


_start_new_thread = _thread.start_new_thread
_wait_tstate = threading.Thread._wait_for_tstate_lock


def _simple_queue():
  import queue
  return queue._PySimpleQueue() if _from_lib() else _SimpleQueue()


# ----------------------------------------------------------------------------
# console

class Console(io.TextIOBase):
  """sys.stdout for the whole life of the process."""
  errors = 'strict'
  name = '<stdout>'
  mode = 'w'

  def writable(self):
    return True

  def readable(self):
    return False

  @property
  def encoding(self):
    return CUR.enc if CUR else 'utf-8'

  def isatty(self):
    return bool(CUR and CUR.tty)

  def fileno(self):
    if CUR:
      raise io.UnsupportedOperation('fileno')
    return _real_out.fileno()

  def flush(self):
    if CUR is None:
      _real_out.flush()

  def close(self):
    pass

  def write(self, s):
    if CUR is None:
      return _real_out.write(s)
    if self is not CONSOLE:                     # the host has replaced this stream by another one
      CUR.count('write_to_replaced_console')
      return len(s)
    return CUR.write(s)

  def writelines(self, lines):
    for l in lines:
      self.write(l)


CONSOLE = Console()


def new_console():
  """The host replaces sys.stdout; what is written to the old stream from now on reaches nobody."""
  global CONSOLE
  CONSOLE = sys.stdout = Console()


# ----------------------------------------------------------------------------
# disk

class SimRaw(io.RawIOBase):
  """A file on the simulated disk: real bytes, delivered as the scenario says."""

  def __init__(self, sim, cl, path, rec):
    self._sim, self._cl, self._rec = sim, cl, rec
    self._f = io.FileIO(path)
    self.name = path
    self.mode = 'rb'
    self.buffered = True        # an interrupted system call never reaches unbuffered callers (PEP 475)

  def readable(self):
    return True

  def seekable(self):
    return True

  def fileno(self):
    return self._f.fileno()

  def seek(self, *a):
    return self._f.seek(*a)

  def tell(self):
    return self._f.tell()

  def readinto(self, b):
    return self._sim.read(self, b)

  def close(self):
    if self.closed:
      return
    super().close()
    self._f.close()
    self._rec['closed'] = True
    self._sim.closed_file(self._rec)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
  sim = CUR
  if LOADING:
    _probe(file)
  if sim is not None and isinstance(file, int) and file in FDS and not set(mode) - set('rbt'):
    raw = FDS[file]
    raw.buffered = True
    if closefd:
      del FDS[file]
    return wrap(sim, raw, mode, buffering, encoding, errors, newline)
  if sim is None or isinstance(file, int) or opener is not None:
    return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
  cl = sim.me()
  _probe(file)
  try:
    path = os.path.abspath(os.fsdecode(file))
  except TypeError:
    path = None
  if cl is None or path is None or set(mode) - set('rbt') or not path.startswith(sim.root + os.sep):
    return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
  if 'b' in mode and (encoding is not None or errors is not None or newline is not None):
    raise ValueError("binary mode doesn't take an encoding, errors or newline argument")
  rec = sim.opening(cl, path, file)
  raw = SimRaw(sim, cl, path if os.path.exists(path) else os.fspath(file), rec)
  raw.name = file
  rec['opened'] = True
  return wrap(sim, raw, mode, buffering, encoding, errors, newline)


def wrap(sim, raw, mode, buffering, encoding, errors, newline):
  if buffering == 0 and 'b' in mode:
    raw.buffered = False
    return raw
  buf = io.BufferedReader(raw, sim.io['buf'] if buffering in (-1, 1) else buffering)
  if 'b' in mode:
    return buf
  text = io.TextIOWrapper(buf, encoding, errors, newline)
  text._CHUNK_SIZE = sim.io['chunk']
  text.mode = mode
  return text


FDS = {}         # file descriptors of files on the simulated disk


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
  sim = CUR
  cl = sim.me() if sim else None
  if cl is None or not cl.in_lib or dir_fd is not None or flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_PATH):
    return _os_open(path, flags, mode, dir_fd=dir_fd)
  p = os.path.abspath(os.fsdecode(path))
  if not p.startswith(sim.root + os.sep) or os.path.isdir(p):
    return _os_open(path, flags, mode, dir_fd=dir_fd)
  rec = sim.opening(cl, p, path)
  raw = SimRaw(sim, cl, p if os.path.exists(p) else os.fspath(path), rec)
  raw.buffered, raw.name = False, path
  rec['opened'] = True
  FDS[raw.fileno()] = raw
  return raw.fileno()


def sim_os_read(fd, n):
  raw = FDS.get(fd)
  if raw is None or CUR is None:
    return _os_read(fd, n)
  b = bytearray(n)
  return bytes(b[:CUR.read(raw, b)])


def sim_os_close(fd):
  raw = FDS.pop(fd, None)
  if raw is None:
    return _os_close(fd)
  raw.close()


class SimScandir:
  def __init__(self, sim, cl, path):
    self._e = sim.listing(cl, path, list(_scandir(path)), lambda e: e.name)
    self._sim, self._cl, self._p, self._i = sim, cl, path, 0

  def __iter__(self):
    return self

  def __next__(self):
    if self._e is None:
      raise StopIteration
    self._sim.list_step(self._cl, self._i)
    if self._i >= len(self._e):
      self._e = None
      raise StopIteration
    e = self._e[self._i]
    self._i += 1
    self._sim.listed(self._cl, self._p, e.name)
    return e

  def close(self):
    self._e = None

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.close()


def sim_scandir(path='.'):
  sim = CUR
  cl = sim.me() if sim else None
  if cl is None or isinstance(path, int) or not os.path.abspath(os.fsdecode(path)).startswith(sim.root):
    return _scandir(path)
  return SimScandir(sim, cl, path)


def sim_listdir(path='.'):
  sim = CUR
  cl = sim.me() if sim else None
  if cl is None or isinstance(path, int) or not os.path.abspath(os.fsdecode(path)).startswith(sim.root):
    return _listdir(path)
  out = sim.listing(cl, path, _listdir(path), lambda e: e)
  for i, n in enumerate(out):
    sim.list_step(cl, i)
    sim.listed(cl, path, n)
  sim.list_step(cl, len(out))
  return out


# ----------------------------------------------------------------------------
# clocks

IMPORT_NOW = 1.6e9       # the clock while the library is imported


def _ticked():
  global IMPORT_NOW
  if CUR:
    CUR.now += 1e-4
    return CUR.now
  if LOADING:
    IMPORT_NOW += 1e-4
    return IMPORT_NOW
  return _time['time']()


LOADING = False


class _DTMeta(type):
  def __instancecheck__(cls, o):
    return isinstance(o, _datetime)


class SimDatetime(_datetime, metaclass=_DTMeta):
  @classmethod
  def now(cls, tz=None):
    return _datetime.fromtimestamp(_ticked(), tz)

  @classmethod
  def utcnow(cls):
    return _datetime.fromtimestamp(_ticked(), datetime.timezone.utc).replace(tzinfo=None)

  @classmethod
  def today(cls):
    return _datetime.fromtimestamp(_ticked())


class _DMeta(type):
  def __instancecheck__(cls, o):
    return isinstance(o, _date)


class SimDate(_date, metaclass=_DMeta):
  @classmethod
  def today(cls):
    return _date.fromtimestamp(_ticked())


def _sleep(s):
  if CUR is None:
    return _time['sleep'](s)
  CUR.now += max(0, s)
  cl = CUR.me()
  if cl is not None:
    CUR.seam(cl, 'sleep')
    CUR.step_aside(cl)


def _with_now(name, pos):
  real = _time[name]

  def f(*a):
    if (CUR or LOADING) and len(a) <= pos:
      if name in ('strftime', 'asctime'):
        return real(*a, _time['localtime'](_ticked()))
      return real(_ticked())
    return real(*a)
  return f


# ----------------------------------------------------------------------------
# audit: what the process does to the outside world

MUTATING = {'os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.chmod', 'os.chown', 'os.truncate', 'os.utime',
            'os.link', 'os.symlink', 'os.setxattr', 'os.removexattr', 'os.system', 'os.exec', 'os.fork',
            'os.posix_spawn', 'os.spawn', 'subprocess.Popen', 'shutil.rmtree', 'shutil.move', 'shutil.copyfile',
            'tempfile.mkstemp', 'tempfile.mkdtemp', 'socket.connect', 'socket.bind', 'os.kill', 'os.killpg',
            'signal.pthread_kill', 'os.chflags', 'os.lockf', 'os.chroot', 'webbrowser.open'}
_WR = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _audit(event, args):
  sim = CUR
  if sim is None:
    return
  if event == 'open':
    mode, flags = args[1], args[2]
    if not ((isinstance(mode, str) and set(mode) & set('wax+')) or (isinstance(flags, int) and flags & _WR)):
      return
  elif event not in MUTATING:
    return
  cl = sim.clients_by_ident.get(_ident())
  if cl is None or not cl.in_lib:
    return
  what = f'{event}{tuple(str(a)[:120] for a in args)}'
  sim.mutations.append((cl.tid, cl.opidx, what.replace(sim.root, '<scratch>')))
  target = args[0] if args else ''
  try:
    p = os.path.abspath(os.fsdecode(target))
  except (TypeError, ValueError):
    p = ''
  if not p.startswith(sim.root):        # contain it: nothing outside the scratch folder is ever touched
    raise PermissionError(errno.EACCES, 'simulator: outside the scratch folder', str(target))


# environment variables that library code looks up (C12 then varies exactly these)
ENV_READS = set()


def _env_spy():
  cls = type(os.environ)
  get, has = cls.__getitem__, cls.__contains__

  def note(key):
    f = sys._getframe(2)
    for _ in range(12):
      if f is None:
        return
      if f.f_code.co_filename.startswith(LIB):
        if isinstance(key, str):
          ENV_READS.add(key)
        return
      f = f.f_back

  def __getitem__(self, key):
    note(key)
    return get(self, key)

  def __contains__(self, key):
    note(key)
    return has(self, key)
  cls.__getitem__, cls.__contains__ = __getitem__, __contains__


# files that library code looks for although no caller named them (C12 then puts them there)
FILE_PROBES = set()
_stat, _access = os.stat, os.access


def _probe(path):
  if CUR is None and not LOADING or not isinstance(path, (str, bytes, os.PathLike)):
    return
  f = sys._getframe(2)
  for _ in range(8):
    if f is None:
      return
    if f.f_code.co_filename.startswith(LIB):
      break
    f = f.f_back
  else:
    return
  p = os.path.abspath(os.fsdecode(path))
  try:
    _stat(p)
  except OSError:
    for k, d in (('cwd', os.getcwd()), ('home', os.path.expanduser('~'))):
      if p.startswith(d.rstrip('/') + '/') and len(FILE_PROBES) < 8:
        FILE_PROBES.add(f'{k}:{os.path.relpath(p, d)}')
        return


def _sim_stat(path, *a, **k):
  _probe(path)
  return _stat(path, *a, **k)


def _sim_access(path, *a, **k):
  _probe(path)
  return _access(path, *a, **k)


# signal handlers: clients do not run in the main thread, where alone they can be set, so they are set in a table
HANDLERS = {}
_signal, _getsignal = signal.signal, signal.getsignal


def _sim_signal(sig, handler):
  cl = CUR.me() if CUR else None
  if cl is None:
    return _signal(sig, handler)
  if not callable(handler) and handler not in (signal.SIG_DFL, signal.SIG_IGN):
    raise TypeError('signal handler must be signal.SIG_IGN, signal.SIG_DFL, or a callable object')
  old = _sim_getsignal(sig)
  HANDLERS[int(sig)] = handler
  return old


def _sim_getsignal(sig):
  return HANDLERS[int(sig)] if int(sig) in HANDLERS else _getsignal(sig)


_termsize = os.get_terminal_size


def _sim_termsize(*a):
  if CUR and CUR.term:
    return os.terminal_size(CUR.term)
  return _termsize(*a)


def install():
  os.get_terminal_size = _sim_termsize
  os.stat, os.access = _sim_stat, _sim_access
  signal.signal, signal.getsignal = _sim_signal, _sim_getsignal
  builtins.open = io.open = sim_open
  os.scandir, os.listdir = sim_scandir, sim_listdir
  os.open, os.read, os.close = sim_os_open, sim_os_read, sim_os_close
  sys.stdout = CONSOLE
  threading.Lock, threading.RLock = _mk_lock, _mk_rlock
  _thread.allocate_lock = threading._allocate_lock = _mk_lock
  _thread.start_new_thread = threading._start_new_thread = _spawn
  threading.Thread._wait_for_tstate_lock = _wait_thread
  global _SimpleQueue, _pools
  import queue
  import concurrent.futures.thread as pools
  _SimpleQueue = queue.SimpleQueue
  queue.SimpleQueue = _simple_queue
  pools._global_shutdown_lock = SimLock(False)
  _pools = pools
  time.time, time.monotonic, time.perf_counter = _ticked, _ticked, _ticked
  time.process_time = time.thread_time = _ticked
  time.time_ns = time.monotonic_ns = time.perf_counter_ns = lambda: int(_ticked() * 1e9)
  time.sleep = _sleep
  for n, p in (('localtime', 0), ('gmtime', 0), ('ctime', 0), ('strftime', 1), ('asctime', 0)):
    setattr(time, n, _with_now(n, p))
  datetime.datetime, datetime.date = SimDatetime, SimDate
  sys.addaudithook(_audit)
  _env_spy()
  sys.path.insert(0, SRC)


# ----------------------------------------------------------------------------
# the simulation

class Client:
  def __init__(self, tid, ops):
    self.tid = self.sid = tid
    self.ops = ops
    self.baton = _alloc()
    self.baton.acquire()
    self.done = False
    self.waiting = None
    self.opidx = -1
    self.in_lib = False
    self.slots = {}
    self.begin({})

  def begin(self, op):
    self.op = op
    self.lstep = self.istep = 0
    self.nread = self.nopen = self.nclose = self.nlist = self.nwrite = 0
    self.faults = [dict(f) for f in op.get('faults', ())]
    self.fired = []
    self.parks = 0
    self.broken = None
    self.files = []
    self.out = []
    self.int = next((f for f in self.faults if f['k'] == 'int' and f['at'] == 'code'), None)
    self.cap = op.get('cap')
    self.limited = False
    self.cstep = self.tstep = 0
    self.nest = [f for f in self.faults if f['k'] in ('nest', 'fork')]
    self.touchy = any(f['at'] == 'touch' for f in self.nest)


class Child:
  """A thread that library code started.  What it does counts for the operation that started
  it (its output, files, faults and steps); only its place in the schedule is its own."""
  OWN = ('sid', 'baton', 'done', 'waiting', 'ident', 'owner', 'born')

  def __init__(self, sid, owner):
    d = self.__dict__
    d['owner'], d['born'] = owner, owner.opidx
    d['sid'], d['baton'], d['done'], d['waiting'], d['ident'] = sid, _alloc(), False, None, None
    self.baton.acquire()

  def __getattr__(self, k):
    if k == 'in_lib' and self.owner.opidx != self.born:
      return True
    return getattr(self.owner, k)

  def __setattr__(self, k, v):
    if k in Child.OWN:
      self.__dict__[k] = v
    else:
      setattr(self.owner, k, v)


def stamp(exc, n):
  exc._sim_fault = n
  return exc


class Sim:
  def __init__(self, sc, root):
    self.sc, self.root = sc, root
    self.io = dict({'buf': 8192, 'chunk': 8192, 'sizes': [1 << 16], 'eintr': []}, **sc.get('io', {}))
    self.tty = bool(sc.get('tty'))
    self.enc = sc.get('enc', 'utf-8')
    self.term = sc.get('term')
    self.now = float(sc.get('clock', {}).get('start', 1.6e9))
    self.t0 = self.now
    self.tick = float(sc.get('clock', {}).get('tick', 1e-6))
    self.jumps = {int(k): v for k, v in sc.get('clock', {}).get('jumps', ())}
    self.moved = 0.0
    self.step = 0
    self.switches = []          # what was actually decided: [tid, op, local step, target]
    self.log = []               # console: (tid, op, text)
    self.iolog = []
    self.mutations = []
    self.fired = {}
    self.probe = {}
    self.clients = []
    self.clients_by_ident = {}
    self.deadlocked = False
    self.over = _alloc()
    self.over.acquire()
    self.started = False
    self.trace = sc.get('trace', 'line')
    s = sc.get('sched', {'mode': 'none'})
    self.mode = s['mode']
    self.rng = random.Random(s.get('seed', 0))
    self.p = s.get('p', 0.1)
    self.hot = s.get('seed', 0) & 0xffffffff
    self.hot_mod = s.get('mod', 4)
    self.park = s.get('park', 0)        # how often one client may be held back
    self.files_mod = s.get('files', 1)
    self.parked = set()
    self.chosen = {}
    self.touched = set()        # statements that changed something not private to their client
    self.explicit = {}
    if self.mode == 'explicit':
      for tid, op, ls, to in s['switches']:
        self.explicit[(tid, op, ls)] = to
    self.points = set(s.get('points', ()))
    self.multi = False
    self.monitor = None         # invariant checked at every step: None, or what is wrong
    self.seen = []
    self.levels = []            # [rounds, bytes, files, threads]
    self.nested = None          # runs a call from within a call

  # -- bookkeeping
  def me(self):
    return self.clients_by_ident.get(_ident())

  def count(self, kind, n=1):
    self.fired[kind] = self.fired.get(kind, 0) + n

  def hit(self, probe):
    self.probe[probe] = self.probe.get(probe, 0) + 1

  # -- scheduling
  def runnable(self, but=None):
    return [c for c in self.clients if not c.done and c is not but
            and (c.waiting is None or c.waiting._free(c.ident))]

  def hand(self, cl, to):
    """Pass the baton from cl to `to` and wait to get it back."""
    to.baton.release()
    cl.baton.acquire()

  def active(self, name, mod):
    """Is this place one of those this run switches at?"""
    if mod == 1:
      return True
    r = self.chosen.get(name)
    if r is None:
      r = self.chosen[name] = int.from_bytes(hashlib.blake2b(f'{self.hot}/{name}'.encode(), digest_size=6).digest(), 'big') % mod == 0
    return r

  def decide(self, cl, where):
    """Which client runs next at this point (None: carry on)."""
    key = (cl.sid, cl.opidx, cl.lstep)
    if self.mode == 'explicit':
      to = self.explicit.get(key)
      if to is None:
        return None
      c = self.clients[to] if to < len(self.clients) else None
      return c if c is not None and c is not cl and c in self.runnable(cl) else None
    m = self.mode
    if m == 'none':
      return None
    if m == 'rand':
      go = self.rng.random() < self.p
    elif m == 'pct':
      go = self.step in self.points
    elif m == 'race':
      if where in ('seam', 'op'):
        go = not self.park and self.rng.random() < .1
      else:
        go = where is not None and self.active(where, self.hot_mod) and self.rng.random() < self.p
    elif m == 'hot':
      go = where is not None and self.active(where, self.hot_mod) and self.rng.random() < .6
    elif m == 'seam':
      go = where in ('seam', 'op') and self.rng.random() < self.p
    else:
      go = False
    if not go:
      return None
    r = self.runnable(cl)
    if self.park and r:                 # stays where it is until the others are through or stuck in such a place too
      awake = [c for c in r if c not in self.parked]
      if awake and cl.parks < self.park:
        cl.parks += 1
        self.parked.add(cl)
        r = awake
      else:
        return None
    return self.rng.choice(r) if r else None

  def point(self, cl, where):
    self.step += 1
    cl.lstep += 1
    self.now += self.tick
    if self.jumps:
      j = self.jumps.pop(self.step, None)
      if j is not None:
        self.now += j
        self.moved += abs(j)
        self.count('clock_jump')
    if cl.cap is not None and cl.lstep > cl.cap and cl.in_lib:
      cl.limited = True
      raise StepLimit(f'{cl.lstep} steps')
    if self.multi:
      to = self.decide(cl, where)
      if to is not None:
        self.switches.append([cl.sid, cl.opidx, cl.lstep, to.sid])
        self.hand(cl, to)
    if self.monitor is not None and cl.in_lib:
      d = self.monitor()
      if d is not None:
        self.seen.append([cl.tid, cl.opidx, d])
        self.monitor = None
    if self.deadlocked and cl.in_lib:
      raise Deadlock()

  def seam(self, cl, what):
    self.point(cl, 'seam')

  def block(self, cl, lock):
    """cl cannot go on before `lock` is free."""
    self.hit('lock_contended')
    cl.waiting = lock
    r = self.runnable(cl)
    if not r:
      self.deadlocked = True
      cl.waiting = None
      raise Deadlock('every client waits for a lock')
    key = (cl.sid, cl.opidx, cl.lstep, 'b')
    if self.mode == 'explicit':
      to = self.explicit.get(key[:2] + (-cl.lstep,))
      to = self.clients[to] if to is not None and to < len(self.clients) and self.clients[to] in r else r[0]
    else:
      to = self.rng.choice(r)
    self.switches.append([cl.sid, cl.opidx, -cl.lstep, to.sid])
    self.hand(cl, to)
    cl.waiting = None
    if self.deadlocked:
      raise Deadlock()

  def step_aside(self, cl):
    """cl waits for a time: somebody else runs, if anybody can."""
    r = self.runnable(cl)
    if not r:
      return
    if self.mode == 'explicit':
      to = self.explicit.get((cl.sid, cl.opidx, -cl.lstep))
      to = self.clients[to] if to is not None and to < len(self.clients) and self.clients[to] in r else r[0]
    else:
      to = self.rng.choice(r)
    self.switches.append([cl.sid, cl.opidx, -cl.lstep, to.sid])
    self.hand(cl, to)
    if self.deadlocked and cl.in_lib:
      raise Deadlock()

  def spawn(self, cl, function, args, kwargs):
    child = Child(len(self.clients), cl.owner if isinstance(cl, Child) else cl)
    self.hit('library_threads')
    ready = _alloc()
    ready.acquire()

    def main():
      child.ident = _ident()
      self.clients_by_ident[child.ident] = child
      ready.release()
      child.baton.acquire()
      try:
        if self.trace != 'none':
          sys.settrace(self.tracer(child))
        function(*args, **kwargs)
      except SystemExit:
        pass
      except BaseException as e:
        if not isinstance(e, (Deadlock, StepLimit)):
          self.hit('library_thread_died')
      finally:
        sys.settrace(None)
        self.finish(child)
    _start_new_thread(main, ())
    ready.acquire()
    self.clients.append(child)
    if self.mode == 'none':
      self.mode, self.p = 'rand', .2
      self.rng = random.Random(self.sc.get('seed', 0))
    self.multi = True
    return child.ident

  def finish(self, cl):
    cl.done = True
    r = self.runnable(cl)
    if not r:
      rest = [c for c in self.clients if not c.done and not isinstance(c, Child)]
      if rest:                  # all others wait for a lock that nobody will release
        self.deadlocked = True
        rest[0].waiting = None
        rest[0].baton.release()
      else:
        self.over.release()
      return
    key = (cl.sid, 'end', 0)
    if self.mode == 'explicit':
      to = self.explicit.get(key)
      to = self.clients[to] if to is not None and to < len(self.clients) and self.clients[to] in r else r[0]
    elif self.mode == 'none':
      to = r[0]
    else:
      to = self.rng.choice(r)
    self.switches.append([cl.sid, 'end', 0, to.sid])
    to.baton.release()

  # -- tracing
  def tracer(self, cl):
    ops = self.trace == 'op'
    point, hot, race = self.point, self.mode == 'hot', self.mode == 'race'
    after = [None]              # the statement just executed stored something

    made = set()                # what this client made during the run is its own

    def private(frame, names):
      loc = frame.f_locals
      return all(n in loc and id(loc[n]) in made for n in names)

    def where(frame):
      name, line = frame.f_code.co_name, frame.f_lineno
      if hot:
        return f'{name}:{line}'
      file = frame.f_code.co_filename
      names = touching_lines(file).get(line)
      if names and not private(frame, names):
        self.touched.add(f'{file[len(LIB):]}:{name}:{line}')
      else:
        names = None
      if names and self.active(file[len(LIB):], self.files_mod):
        w, after[0] = after[0], f'{name}:{line}+'
        return w if self.park else f'{name}:{line}'
      w, after[0] = after[0], None
      return w

    def fire_int(frame, ev):
      f = cl.int
      if f is None or ev == 'opcode' or isinstance(cl, Child):
        return
      code = frame.f_code
      if frame.f_lineno in excluded_lines(code.co_filename) or code.co_name in ('__enter__', '__exit__', '__del__'):
        return
      cl.istep += 1
      if cl.istep == f['n']:
        cl.int = None
        cl.fired.append('int:' + f['exc'])
        self.count('interrupt_code_' + f['exc'])
        raise stamp(ASYNC[f['exc']](), 1)

    stored = [False]

    def nest(frame):
      cl.cstep += 1
      self.enter(cl, 'code', cl.cstep)
      if cl.touchy:             # just after a statement that stores something shared
        if stored[0]:
          stored[0] = False
          cl.tstep += 1
          self.enter(cl, 'touch', cl.tstep)
        names = touching_lines(frame.f_code.co_filename).get(frame.f_lineno)
        stored[0] = bool(names) and not private(frame, names)

    def local(frame, event, arg):
      if event == 'line' or event == 'opcode':
        point(cl, where(frame) if hot or race else None)
        if cl.int is not None:
          fire_int(frame, event)
        if cl.nest:
          nest(frame)
      return local

    def glob(frame, event, arg):
      if not frame.f_code.co_filename.startswith(LIB):
        return None
      if ops:
        frame.f_trace_opcodes = True
      if (race or cl.nest) and frame.f_code.co_name == '__init__':
        made.add(id(frame.f_locals.get('self')))
      point(cl, f'{frame.f_code.co_name}:call' if hot else after[0] if race else None)
      if cl.int is not None:
        fire_int(frame, 'call')
      return local
    return glob

  # -- calls from within a call: a signal handler, or a stream that itself uses the library
  def enter(self, cl, at, n):
    for f in cl.nest:
      if f['at'] == at and f['n'] == n and not isinstance(cl, Child):
        cl.nest = [g for g in cl.nest if g is not f]
        cl.fired.append(f['k'])
        self.count({'nest': 'nested_call_', 'fork': 'process_forked_'}[f['k']] + at)
        self.nested(self, cl, f['op'], f['k'] == 'fork')
        if self.deadlocked:
          raise Deadlock()

  def alone(self, cl):
    """In a forked process: no other thread is left."""
    self.clients, self.clients_by_ident = [cl], {cl.ident: cl}
    cl.sid, cl.waiting = 0, None
    _pools._global_shutdown_lock._at_fork_reinit()      # as CPython does for the real one
    self.multi, self.mode, self.monitor, self.jumps, self.deadlocked = False, 'none', None, {}, False

  # -- console
  def write(self, s):
    if not isinstance(s, str):
      raise TypeError(f'write() argument must be str, not {type(s).__name__}')
    cl = self.me()
    if cl is None:
      self.log.append((-1, -1, s))
      return len(s)
    if not cl.in_lib:
      return len(s)
    self.seam(cl, 'write')
    cl.nwrite += 1
    n = cl.nwrite - 1
    if cl.nest:
      self.enter(cl, 'sink', n)
    if cl.broken is not None:
      self.raise_sink(cl, cl.broken, s)
    for f in cl.faults:
      if f['k'] == 'sink' and f['n'] == n:
        if f.get('sticky', True):
          cl.broken = f
        self.raise_sink(cl, f, s)
      if f['k'] == 'int' and f['at'] == 'sink' and f['n'] == n and not isinstance(cl, Child):
        if f.get('after'):
          self.put(cl, s)
        cl.fired.append('int:' + f['exc'])
        self.count('interrupt_write_' + f['exc'])
        raise stamp(ASYNC[f['exc']](), 1)
    self.put(cl, s)
    self.seam(cl, 'written')
    return len(s)

  def put(self, cl, s):
    if s:
      self.log.append((cl.tid, cl.opidx, s))
      cl.out.append(s)

  def raise_sink(self, cl, f, s):
    k = int(len(s) * f.get('part', 0))
    if k and 'sink' not in cl.fired:
      self.put(cl, s[:k])
      self.count('console_torn_write')
    if 'sink' not in cl.fired:
      cl.fired.append('sink')
    self.count('console_' + f['err'])
    if f['err'] == 'CLOSED':
      raise stamp(ValueError('I/O operation on closed file.'), 1)
    if f['err'] == 'ENCODE':
      raise stamp(UnicodeEncodeError('ascii', s or '?', 0, 1, 'ordinal not in range(128)'), 1)
    e = getattr(errno, f['err'])
    raise stamp(OSError(e, os.strerror(e)), 1)

  # -- disk
  def opening(self, cl, path, file):
    self.seam(cl, 'open')
    n = cl.nopen
    cl.nopen += 1
    if cl.nest:
      self.enter(cl, 'open', n)
    rec = {'path': path, 'closed': False, 'opened': False, 'op': cl.opidx, 'tid': cl.tid}
    cl.files.append(rec)
    self.iolog.append(('open', cl.tid, cl.opidx, os.path.relpath(path, self.root)))
    for f in cl.faults:
      if f['k'] == 'open' and (f['n'] == n or f.get('sticky') and n > f['n']):
        rec['closed'] = True
        cl.fired.append('open')
        self.count('open_' + f['err'])
        e = getattr(errno, f['err'])
        raise stamp(OSError(e, os.strerror(e), file), 1)
    if not os.path.isfile(path):
      rec['closed'] = True
    return rec

  def read(self, raw, b):
    cl = self.me() or raw._cl
    if not cl.in_lib:
      return raw._f.readinto(b)
    self.seam(cl, 'read')
    n = cl.nread
    cl.nread += 1
    if cl.nest:
      self.enter(cl, 'read', n)
    if raw.buffered and n in self.io['eintr'] and (n, 'eintr') not in cl.fired:
      cl.fired.append((n, 'eintr'))
      cl.nread -= 1
      self.count('read_EINTR')
      raise InterruptedError(errno.EINTR, os.strerror(errno.EINTR))
    for f in cl.faults:
      if f['k'] == 'read' and (f['n'] == n or f.get('sticky') and n > f['n']):
        cl.fired.append('read')
        self.count('read_' + f['err'])
        e = getattr(errno, f['err'])
        raise stamp(OSError(e, os.strerror(e)), 1)
      if f['k'] == 'int' and f['at'] == 'read' and f['n'] == n and not isinstance(cl, Child):
        cl.fired.append('int:' + f['exc'])
        self.count('interrupt_read_' + f['exc'])
        raise stamp(ASYNC[f['exc']](), 1)
    k = max(1, self.io['sizes'][n % len(self.io['sizes'])])
    if k < len(b):
      k = raw._f.readinto(memoryview(b)[:k])
      if k:
        self.count('read_short')
    else:
      k = raw._f.readinto(b)
    self.now += k * 1e-8
    self.iolog.append(('read', cl.tid, cl.opidx, k))
    return k

  def closed_file(self, rec):
    cl = self.clients[rec['tid']] if rec['tid'] < len(self.clients) else None
    if cl is None or cl.opidx != rec['op'] or not cl.in_lib or not rec['opened']:
      return
    self.iolog.append(('close', rec['tid'], rec['op']))
    n = cl.nclose
    cl.nclose += 1
    for f in cl.faults:
      if f['k'] == 'close' and f['n'] == n:
        cl.fired.append('close')
        self.count('close_' + f['err'])
        e = getattr(errno, f['err'])
        raise stamp(OSError(e, os.strerror(e)), 1)

  def listing(self, cl, path, entries, name):
    self.seam(cl, 'list')
    f = next((f for f in cl.faults if f['k'] == 'list' and f['n'] == 0), None)
    if f:
      cl.fired.append('list')
      self.count('list_' + f['err'])
      e = getattr(errno, f['err'])
      raise stamp(OSError(e, os.strerror(e), path), 1)
    entries.sort(key=name)
    random.Random(cl.op.get('order', 0)).shuffle(entries)
    self.count('list_reordered')
    self.iolog.append(('list', cl.tid, cl.opidx, [name(e) for e in entries]))
    return entries

  def list_step(self, cl, i):
    self.seam(cl, 'list')
    for f in cl.faults:
      if f['k'] == 'list' and f['n'] == i + 1:
        cl.fired.append('list')
        self.count('list_' + f['err'])
        e = getattr(errno, f['err'])
        raise stamp(OSError(e, os.strerror(e)), 1)

  def listed(self, cl, path, name):
    for f in cl.faults:
      if f['k'] == 'vanish' and f['name'] == name:
        cl.fired.append('vanish')
        self.count('entry_vanished')
        was, cl.in_lib = cl.in_lib, False
        try:
          _unlink(os.path.join(self.root, os.path.relpath(os.path.abspath(path), self.root), name))
        except FileNotFoundError:
          pass
        finally:
          cl.in_lib = was

  # -- the same operations again and again: what does the process hold on to?
  def rounds(self):
    marks = list(self.sc.get('rounds', ()))
    if not marks:
      yield 0
      return
    tracemalloc.start(1)
    n = 0
    while marks and not self.deadlocked:
      yield n
      n += 1
      if n == marks[0]:
        marks.pop(0)
        for x in (self.log, self.iolog, self.switches, self.lost):
          x.clear()
        for c in self.clients:
          c.begin({})
        gc.collect()
        gc.collect()
        held = tracemalloc.take_snapshot().filter_traces([tracemalloc.Filter(False, HERE + '/*'),
                                                          tracemalloc.Filter(False, tracemalloc.__file__)])
        self.levels.append([n, sum(t.size for t in held.traces), len(_listdir('/proc/self/fd')), len(sys._current_frames())])
        del held
        if not marks and n < 100 and self.growing():
          marks += [n * 2, n * 4, n * 8, n * 16]
      elif n % 8 == 0:
        for x in (self.log, self.iolog, self.switches, self.lost):
          x.clear()
    tracemalloc.stop()

  def growing(self):
    l = self.levels
    return any(all(b[k] > a[k] for a, b in zip(l, l[1:])) for k in (1, 2, 3))

  # -- running
  def run(self, body, prelude=None, wall=60):
    """body(sim, client, op index, op) executes one operation on the client's thread."""
    global CUR
    self.nested = body.nested
    self.clients = [Client(i, ops) for i, ops in enumerate(self.sc['clients'])]
    self.multi = len(self.clients) > 1
    errors = []
    lost = []
    hook, sys.unraisablehook = sys.unraisablehook, lambda u: lost.append(getattr(u.exc_value, '_sim_fault', None))
    self.lost = lost

    def main(cl):
      cl.ident = _ident()
      self.clients_by_ident[cl.ident] = cl
      self.over.release()
      cl.baton.acquire()
      try:
        tr = self.tracer(cl) if self.trace != 'none' else None
        for _ in self.rounds():
          for i, op in enumerate(cl.ops):
            cl.opidx = i
            cl.begin(op)
            if op.get('op') == 'nop':
              continue
            self.point(cl, 'op')
            body(self, cl, i, op, tr)
            if self.deadlocked:
              break
      except BaseException as e:        # a defect of the harness, not of the code under test
        import traceback
        errors.append(traceback.format_exc())
      finally:
        sys.settrace(None)
        self.finish(cl)

    CUR = self
    try:
      if prelude:
        prelude(self)
      for cl in self.clients:
        _thread.start_new_thread(main, (cl,))
        self.over.acquire()
      first = self.clients[0]
      if self.multi:
        if self.mode == 'explicit':
          first = self.clients[self.explicit.get((-1, 'start', 0), 0) % len(self.clients)]
        elif self.mode != 'none':
          first = self.rng.choice(self.clients)
        self.switches.append([-1, 'start', 0, first.sid])
      first.baton.release()
      if not self.over.acquire(timeout=wall):
        frames = sys._current_frames()
        where = []
        for cl in self.clients:
          f = frames.get(cl.ident) if cl.ident is not None else None
          while f is not None and not f.f_code.co_filename.startswith(LIB):
            f = f.f_back
          if f is not None and not cl.done:
            where.append(f'client {cl.tid} op {cl.opidx} at {os.path.basename(f.f_code.co_filename)}:{f.f_lineno}')
        return {'hang': where or ['outside library code']}
    finally:
      CUR = None
      sys.unraisablehook = hook
    if errors:
      raise RuntimeError('harness failure\n' + errors[0])
    return None
