"""Judges one history against the property it was run for.

Two kinds of expectation:
  * the reference model (model.py): what the bytes mean.  Used where the property says what must be
    delivered (C01, C07, C08, C11).
  * the same operation alone in a fresh, fault-free process of the same tree ("solo").  Used where
    the property says that something must not make a difference (schedule, history, fault, clock ...).
    As a shortcut an outcome equal to the model's is accepted without running the solo; a seeded
    sample of those runs it anyway.
"""
import io
import itertools
import os
import re
import zlib

import model
from execute import seg_bytes

ANSI = re.compile(r'\x1b\[[0-9;]*m')


class Violation(Exception):
  pass


_spec = {}


def spec(line):
  s = _spec.get(line)
  if s is None:
    if len(_spec) > 20000:
      _spec.clear()
    s = _spec[line] = model.spec(line)
  return s


def lines_of(data):
  return io.TextIOWrapper(io.BytesIO(data), 'utf-8').readlines()


def whole_lines(text):
  return [x for x in re.split(r'(?<=\n)', text) if x]


def decodable(data):
  try:
    data.decode('utf-8')
    return True
  except UnicodeDecodeError:
    return False


def good_prefix(data):
  """The whole lines before the first byte that is not UTF-8."""
  try:
    data.decode('utf-8')
    return data
  except UnicodeDecodeError as e:
    ok = data[:e.start]
    k = max(ok.rfind(b'\n'), ok.rfind(b'\r'))
    return ok[:k + 1]


class Exp:
  """pieces: what is printed, record by record; err: ends with a ValueError; ret; steps."""

  def __init__(self, pieces, err=False, ret=None, steps=(), total=None, hits=()):
    self.pieces, self.err, self.ret, self.steps, self.total, self.hits = pieces, err, ret, list(steps), total, hits

  @property
  def out(self):
    return ''.join(self.pieces)


def exp_parse(line, out):
  s = spec(line)
  if s.read != 'ok':
    return Exp([s.rdiag], s.read == 'err', False)
  if s.dec == 'err':
    return Exp([s.rdiag + s.ddiag], True)
  return Exp([s.rdiag + s.ddiag + (s.table + '\n' if out is not False else '')], False, True)


def exp_read_file(data, out):
  pieces = []
  for l in lines_of(data):
    e = exp_parse(l, out)
    pieces += e.pieces
    if e.err:
      return Exp(pieces, True)
  return Exp(pieces)


def exp_search(data, filters):
  pieces, n, hits = [], 0, []
  fl = [filters] if isinstance(filters, str) else filters
  for l in lines_of(data):
    s = spec(l)
    if s.read == 'err':
      return Exp(pieces + [s.rdiag], True)
    if s.read == 'rej':
      pieces.append(s.rdiag)
    elif all(f in s.raw for f in fl):
      pieces.append(s.rdiag + s.raw + '\n')
      hits.append(s.raw)
      n += 1
  return Exp(pieces, total=n, hits=hits)


def exp_steps(s, steps):
  """s: Spec of the line held, or None for a record that holds nothing."""
  out, res = '', []
  for st in steps:
    if st[0] == 'decode':
      if s is None:
        t, d, bad = model.render([]), '', False
      else:
        t, d, bad = s.table, s.ddiag, s.dec == 'err'
      out += d
      if bad:
        res.append(['exc', 'ValueError', None])
      else:
        out += t + '\n' if st[1] else ''
        res.append(['ok', t])
    elif st[0] == 'json':
      t = '{}' if s is None else s.json1 if st[2] else s.jsonn
      out += t + '\n' if st[1] else ''
      res.append(['ok', t])
    elif st[0] == 'primary':
      res.append(['ok', bool(s and s.primary)])
    elif st[0] == 'hasCont':
      res.append(['ok', bool(s and s.hascont)])
    else:
      res.append(['ok', s.raw if s else ''])
  return out, res


def exp_rec(line, steps):
  s = spec(line)
  if s.read != 'ok':
    return Exp([s.rdiag], s.read == 'err', False)
  out, res = exp_steps(s, steps)
  return Exp([s.rdiag + out], False, True, res)


def steps_match(a, b):
  return len(a) == len(b) and all(x[:2] == y[:2] for x, y in zip(a, b))


def clip(s, n=160):
  s = str(s)
  return s if len(s) <= n else s[:n // 2] + ' ... ' + s[-n // 2:]


def first_diff(a, b):
  i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
  return f'at character {i}: got {clip(repr(a[max(0, i - 30):i + 50]))}, expected {clip(repr(b[max(0, i - 30):i + 50]))}'


class Judge:
  def __init__(self, sc, h, solo):
    """solo(op, trace) -> outcome of that operation alone."""
    self.sc, self.h, self._solo, self.prop = sc, h, solo, sc['prop']
    self.facts = {}
    self.n = 0

  # -- data (files as they are when the operation under judgement runs)
  def data(self, path):
    v = self.sc['files'][path]
    return self.data(v) if isinstance(v, str) else seg_bytes(v)

  def folder(self, d):
    return {f: self.data(f) for f in self.sc['files'] if f.rsplit('/', 1)[0] == d and '/' in f}

  def fact(self, k):
    self.facts[k] = self.facts.get(k, 0) + 1

  # -- expectations
  def expect(self, op):
    k = op['op']
    if op.get('missing'):
      return None
    if k == 'parse':
      return exp_parse(op['line'], op.get('out'))
    if k == 'rec':
      return exp_rec(op['line'], op['steps'])
    if k == 'read_file':
      d = self.data(op['path'])
      return exp_read_file(d, op.get('out')) if decodable(d) else None
    if k == 'search':
      d = self.data(op['path'])
      return exp_search(d, op['filters']) if decodable(d) else None
    return None

  def match_model(self, op, o, e):
    """None if o is what the model expects, else what differs."""
    if e.err:
      if o['exc'] is None:
        return 'returned normally where the data must be reported as an error'
      if not o['exc']['value']:
        return f'raised {o["exc"]["t"]} ({clip(o["exc"]["msg"], 80)}) instead of ValueError'
    elif o['exc'] is not None:
      return f'raised {o["exc"]["t"]}: {clip(o["exc"]["msg"], 100)}'
    out = o['out']
    if op['op'] == 'search':
      if not e.err:
        return self.match_search(op, o, e)
      got, want = self.hits(op, out), self.hits(op, e.out)
      if got != want and not (self.prop in ('C07', 'C11') and got in itertools.accumulate(whole_lines(want), initial='')):
        return 'hits differ ' + first_diff(self.hits(op, out), self.hits(op, e.out))
    elif out != e.out:
      return 'printed text differs ' + first_diff(out, e.out)
    if op['op'] in ('parse', 'rec') and not e.err and bool(o['ret']) != bool(e.ret):
      return f'returned {o["ret"]!r}'
    if op['op'] == 'rec' and not steps_match(o['steps'], e.steps):
      for st, a, b in itertools.zip_longest(op['steps'], o['steps'], e.steps):
        if a is None or b is None or a[:2] != b[:2]:
          return f'{st} gave {clip(a)}, expected {clip(b)}'
    return None

  def hits(self, op, out):
    """What a search printed without the remarks about lines it rejects: those may come before or after the hits."""
    remarks = set()
    for l in lines_of(good_prefix(self.data(op['path']))):
      remarks.update(spec(l).rdiag.split('\n'))
    remarks.discard('')
    out = ANSI.sub('', out)
    return ''.join(l for l in whole_lines(out) if l.rstrip('\n') not in remarks) if remarks else out

  def match_search(self, op, o, e):
    out = self.hits(op, o['out'])
    body = self.hits(op, e.out)
    if not out.startswith(body):
      return 'hits differ ' + first_diff(out, body)
    rest = out[len(body):]
    m = re.match(r'^\D*?(\d+)\b[^\n]*\n?', rest)
    if not m or int(m.group(1)) != e.total:
      return f'{e.total} records printed but the total reads {clip(rest, 80)!r}'
    tail = rest.split('records that contain')[0]
    if tail.count('\n') or rest.count('\n') > 1 + repr(op['filters']).count('\n') + str(op['filters']).count('\n'):
      return f'more is printed than the hits and one total: {clip(rest)!r}'
    return None

  def solo(self, op, trace='none'):
    return self._solo({k: v for k, v in op.items() if k not in ('faults', 'slot', 'order', 'cap')}, self.sc, trace)

  def same(self, op, o, s):
    """None if o equals the solo outcome s."""
    if 'died' in s or 'hang' in s:
      raise RuntimeError(f'solo run failed: {s}')
    if s.get('ops') is not None:
      s = s['ops'][0][0]
    ea, eb = o['exc'], s['exc']
    if (ea is None) != (eb is None) or (ea and (ea['t'], ea['msg']) != (eb['t'], eb['msg'])):
      return f'ended with {fmt_exc(ea)}, alone it ends with {fmt_exc(eb)}'
    if o['out'] != s['out']:
      return 'printed text differs from the run alone ' + first_diff(o['out'], s['out'])
    if o['ret'] != s['ret']:
      return f'returned {o["ret"]!r}, alone {s["ret"]!r}'
    if o['steps'] != s['steps']:
      for st, a, b in itertools.zip_longest(op.get('steps', ()), o['steps'], s['steps']):
        if a != b:
          return f'{st} gave {clip(a)}, alone {clip(b)}'
    return None

  def sampled(self):
    self.n += 1
    return zlib.crc32(f'{self.sc.get("seed")}/{self.n}'.encode()) % 12 == 0

  def undisturbed(self, op, o, what):
    """The operation must have had the effect it has alone."""
    self.fact('compared')
    if op['op'] == 'read_folder' and not op.get('missing'):
      return self.folder_ok(op, o, what)
    if op['op'] in ('nop', 'probe', 'mut', 'look', 'sread', 'obs', 'replace', 'append'):
      return
    e = self.expect(op)
    if e is not None and self.match_model(op, o, e) is None and not self.sampled():
      return
    self.fact('solo')
    d = self.same(op, o, self.solo(op))
    if d:
      raise Violation(what, f'{op["op"]}: {d}')

  # -- driver
  def judge(self):
    """None, or (kind, message, tid, op index)."""
    h = self.h
    if 'harness' in h:
      raise RuntimeError(h['harness'])
    if 'died' in h:
      return ('process ended', f'the host process ended: {h["died"]}', None, None)
    if 'hang' in h:
      return ('no progress', f'the call does not end: {h["hang"]}', None, None)
    at = [None, None]
    try:
      for t, ops in enumerate(h['ops']):
        for i, o in enumerate(ops):
          if o and (o['exc'] or {}).get('t') == 'Deadlock':
            return ('deadlock', f'client {t} operation {i} ({self.sc["clients"][t][i]["op"]}) waits for ever for a lock',
                    t, i)
          if o and o.get('limited'):
            return ('no progress', f'client {t} operation {i} ({self.sc["clients"][t][i]["op"]}) was still running after '
                    f'{o["steps_taken"]} steps', t, i)
      for e in h.get('nested', ()):
        if e is not None and (e[3]['exc'] or {}).get('t') == 'Deadlock':
          return ('deadlock', f'a {e[2]["op"]} made {"in a process forked during" if self.prop == "C24" else "from within"} client {e[0]} operation {e[1] % 1000} waits for ever for a lock', e[0], e[1] % 1000)
        if e is not None and e[3].get('limited'):
          return ('no progress', f'a {e[2]["op"]} made during client {e[0]} operation {e[1] % 1000} does not end', e[0], e[1] % 1000)
      getattr(self, self.prop.lower())(at)
    except Violation as v:
      return (v.args[0], v.args[1], at[0], at[1])
    return None

  def each(self, at):
    for t, ops in enumerate(self.sc['clients']):
      for i, op in enumerate(ops):
        o = self.h['ops'][t][i]
        if op['op'] == 'nop' or o is None:
          continue
        if op['op'] in ('chdir', 'console'):
          self.fact(op['op'])
          continue
        if op['op'] == 'write':
          self.sc = dict(self.sc, files=dict(self.sc['files'], **{op['path']: op['segs']}))
          continue
        at[:] = [t, i]
        yield t, i, op, o

  # -- C01
  def c01(self, at):
    for t, i, op, o in self.each(at):
      d = self.match_model(op, o, self.expect(op))
      self.fact('files_delivered')
      if d:
        raise Violation('delivery', f'reading {op["path"]}: {d}')

  # -- read and console faults
  def prefix(self, op, o, whole, what):
    """What was printed is the beginning of the fault-free output (in whole records)."""
    if op['op'] == 'read_folder':
      return self.folder_prefix(op, o, whole, what)
    d = self.data(op['path']) if 'path' in op else None
    text = d is None or decodable(d)
    if text:
      e = self.expect(op)
    else:
      g = good_prefix(d)
      e = exp_read_file(g, op.get('out')) if op['op'] == 'read_file' else exp_search(g, op['filters'])
    out, full = o['out'], None
    if op['op'] == 'search' and whole:
      out, want = self.hits(op, out), self.hits(op, e.out)
      total = self.hits(op, self.solo(op)['ops'][0][0]['out']) if text and not want.startswith(out) else None
      if out == total:
        return                                  # it failed when all was printed
      lines = list(itertools.accumulate(whole_lines(want), initial=''))
      if out not in lines:
        raise Violation(what, f'search: what was printed before the failure is not the beginning of the fault-free output in '
                        f'whole records, {first_diff(out, want)}')
      return
    if op['op'] == 'search' and whole is None or not e.out.startswith(out):
      full = self.solo(op)['ops'][0][0]['out'] if text else e.out
      if not full.startswith(out):
        raise Violation(what, f'{op["op"]}: what was printed before the failure is not the beginning of the '
                        f'fault-free output, {first_diff(out, full)}')
      if not full.startswith(e.out):
        return                                  # record boundaries unknown
    if whole:
      ends = list(itertools.accumulate([0] + [len(p) for p in e.pieces]))
      if len(out) not in ends and len(out) <= len(e.out):
        raise Violation(what, f'{op["op"]}: a record was printed only in part before the failure, ends with '
                        f'{clip(repr(out[-80:]))}')

  def folder_prefix(self, op, o, whole, what):
    exp = {}
    for f, d in self.folder(op['path']).items():
      exp[f] = exp_read_file(d if decodable(d) else good_prefix(d), True)
    self.in_files(o['out'], exp, whole, what)

  def tiled(self, out, exp, first):
    """out is the output of each of the files once, in some order (the order in which they were opened is tried first)."""
    left = {}
    for f in [*dict.fromkeys(f for f in first if f in exp), *exp]:
      left.setdefault(exp[f].out, set()).add(f)
    left = {x: len(fs) for x, fs in left.items() if x}
    tries = [20000]

    def walk(pos):
      if pos == len(out):
        return not any(left.values())
      tries[0] -= 1
      for x in left:
        if left[x] and out.startswith(x, pos) and tries[0] > 0:
          left[x] -= 1
          if walk(pos + len(x)):
            return True
          left[x] += 1
      return False
    return walk(0)

  def in_files(self, out, exp, whole, what):
    """out is the output of some of the files, each complete, in any order, and then the beginning of one more."""
    best = [0, None]

    def part(rest, e):
      if not e.out.startswith(rest):
        return False
      return not whole or len(rest) in itertools.accumulate([len(x) for x in e.pieces], initial=0)

    def walk(pos, left):
      rest = out[pos:]
      if not rest or any(part(rest, exp[f]) for f in left):
        return True
      if pos >= best[0]:
        best[:] = [pos, left]
      outs = set()
      for f in left:
        x = exp[f].out
        if x and x not in outs and rest.startswith(x):
          outs.add(x)
          if walk(pos + len(x), [g for g in left if g != f]):
            return True
      return False

    if not walk(0, sorted(exp)):
      rest = out[best[0]:]
      near = max((exp[f].out for f in best[1]), key=lambda x: len(os.path.commonprefix([x, rest])), default='')
      raise Violation(what, 'read_folder: what was printed before the failure is not that of complete files and the beginning of '
                      f'one more, {first_diff(rest, near)}')

  def surfaced(self, op, o, what, kind):
    if o['exc'] is None:
      raise Violation(kind, f'{op["op"]}: {what} was injected but the call returned normally ({o["ret"]!r})')
    if not o['exc']['inj'] and set(o['fired']) != {'close'}:
      raise Violation(kind, f'{op["op"]}: {what} was injected but the caller got {fmt_exc(o["exc"])}, '
                      'in which it does not appear')

  def bad_text(self, op):
    if op['op'] == 'read_folder':
      return any(not decodable(d) for d in self.folder(op['path']).values())
    return 'path' in op and not decodable(self.data(op['path']))

  def missing(self, op, o, kind):
    """There is nothing at that path, or not a file."""
    self.fact('missing')
    if o['exc'] is None:
      raise Violation(kind, f'{op["op"]}: {op["path"]} does not exist or is not a {"folder" if op["op"] == "read_folder" else "file"}, '
                      f'but the call returned normally ({o["ret"]!r})')
    if ANSI.sub('', o['out']):
      raise Violation('not a prefix', f'{op["op"]}: {op["path"]} cannot be opened but something was printed: {clip(repr(o["out"]))}')
    if o['leak']:
      raise Violation('file left open', f'{op["op"]}: {op["path"]} cannot be opened; {o["leak"]} file(s) left open')

  def c02(self, at):
    for t, i, op, o in self.each(at):
      if op.get('missing'):
        self.missing(op, o, 'swallowed failure')
        continue
      hard = [f for f in o['fired'] if f in ('open', 'read', 'close', 'list')]
      if hard:
        self.fact('faulted')
        if not (self.bad_text(op) and o['exc'] is not None):
          self.surfaced(op, o, f'a failing {hard[0]}', 'swallowed failure')
        self.prefix(op, o, True, 'not a prefix')
      elif self.bad_text(op):
        self.fact('faulted')
        if o['exc'] is None:
          raise Violation('swallowed failure', f'{op["op"]}: bytes that are not text were read without any failure')
        self.prefix(op, o, True, 'not a prefix')
      else:
        self.undisturbed(op, o, 'differs without a fault')
      if o['exc'] is not None and o['leak']:
        raise Violation('file left open', f'{op["op"]}: the call failed with {fmt_exc(o["exc"])} and left '
                        f'{o["leak"]} file(s) open')

  def c03(self, at):
    for t, i, op, o in self.each(at):
      if 'sink' in o['fired']:
        self.fact('faulted')
        self.surfaced(op, o, 'a failing console write', 'swallowed failure')
        self.prefix(op, o, None if op['op'] == 'search' else False, 'not a prefix')
        if o['leak']:
          raise Violation('file left open', f'{op["op"]}: a console failure left {o["leak"]} file(s) open')
      else:
        self.undisturbed(op, o, 'differs without a fault')
      quiet = op.get('out') is False or (op['op'] == 'rec' and all(len(s) < 2 or s[1] is False for s in op['steps']))
      if quiet:
        e = self.expect(op)
        self.fact('output_off')
        if e is not None and not e.out and o['nwrite']:
          raise Violation('output not off', f'{op["op"]} with output turned off wrote to the console: '
                          f'{clip(repr(o["out"]))}')

  # -- isolation
  def c04(self, at):
    self.slots(at, 'affected by another thread', True)

  def c05(self, at):
    self.slots(at, 'depends on history', False)

  def slots(self, at, what, multi):
    held = {}
    for t, i, op, o in self.each(at):
      k = op['op']
      if k == 'rec':
        if 'slot' in op:
          held[t, op['slot']] = op['line'] if o['ret'] else None
      elif k == 'mut':
        held[t, op['slot']] = None
        continue
      elif k == 'sread':
        held[t, op['slot']] = op['line'] if o['ret'] else None
        e = spec(op['line'])
        if (e.read == 'ok') == bool(o['ret']) and (e.read == 'err') == bool(o['exc']) and o['out'] == e.rdiag:
          continue
        d = self.same(op, o, self.solo(dict(op, op='rec', steps=[])))
        if d:
          raise Violation(what, f'reading a record: {d}')
        continue
      elif k == 'look':
        line = held.get((t, op['slot']))
        if line is None:
          continue
        fake = {'op': 'rec', 'line': line, 'steps': op['steps']}
        self.undisturbed(fake, done(o), what)
        continue
      elif k == 'read_folder':
        self.folder_ok(op, o, what)
        continue
      self.undisturbed(op, o, what)

  # -- C06
  def c06(self, at):
    cand = {}
    for t, i, op, o in self.each(at):
      k = (t, op['slot'])
      cur = cand.get(k, [None])
      if op['op'] == 'sread':
        self.fact('reads')
        e = spec(op['line'])
        ok = (e.read == 'ok') == bool(o['ret']) and (e.read == 'err') == bool(o['exc']) and o['out'] == e.rdiag
        if not ok or self.sampled():
          s = self.solo(dict(op, op='rec', steps=[]))
          d = self.same(op, o, s)
          if d:
            raise Violation('reuse', f'read into a used object: {d}')
        if o['ret']:
          cand[k] = [op['line']]
        else:
          self.fact('failed_reads')
          cand[k] = cur + ([None] if None not in cur else [])
      elif op['op'] == 'look' and o['ret']:
        left, why = [], None
        for c in cur:
          out, res = exp_steps(spec(c) if c is not None else None, op['steps'])
          if not (c is None or spec(c).read == 'ok') or o['out'] != out or not steps_match(o['steps'], res):
            s = self.solo({'op': 'fresh', 'steps': op['steps']} if c is None else
                          {'op': 'rec', 'line': c, 'steps': op['steps']})
            d = self.same({'steps': op['steps']}, dict(o, ret=s['ops'][0][0]['ret']), s)
            bad = next((x for x in o['steps'] if x[0] == 'exc' and x[1] != 'ValueError'), None) if c is None else None
            if d or bad:
              why = d or f'{bad[1]}: {bad[2]}'
              continue
          left.append(c)
        if not left:
          raise Violation('mixed record', f'after {self.read_story(t, i, op["slot"])} the object reports neither the '
                          f'line it should hold nor nothing: {why}')
        cand[k] = left

  def read_story(self, t, i, slot):
    out = []
    for op, o in zip(self.sc['clients'][t][:i], self.h['ops'][t][:i]):
      if op['op'] == 'sread' and op['slot'] == slot:
        out.append('a failed read' if o['exc'] else 'a successful read' if o['ret'] else 'a rejected read')
    return ', '.join(out[-3:]) or 'no read'

  # -- C07
  def c07(self, at):
    for t, i, op, o in self.each(at):
      if op['op'] != 'search':
        self.undisturbed(op, o, 'affected by a search')
        continue
      self.fact('searches')
      if [f for f in o['fired'] if f in ('open', 'read', 'close')]:
        self.surfaced(op, o, 'a failing read', 'swallowed failure')
        out, want = self.hits(op, o['out']), self.hits(op, self.expect(op).out)
        if not want.startswith(out) and 'close' not in o['fired']:
          raise Violation('search', f'after a failed read: {first_diff(out, want)}')
        continue
      d = self.match_model(op, o, self.expect(op))
      if d:
        raise Violation('search', f'search for {op["filters"]!r}: {d}')

  # -- C08
  def folder_exp(self, op):
    return {f: exp_read_file(d, True) if decodable(d) else None for f, d in self.folder(op['path']).items()}

  def folder_ok(self, op, o, what):
    """Fault-free folder run: every file exactly once, unmixed, in some order."""
    exp = self.folder_exp(op)
    subs = [d for d in self.sc['dirs'] if d.rsplit('/', 1)[0] == op['path'] and '/' in d]
    err = subs or any(e is None or e.err for e in exp.values())
    out = o['out']
    if not err:
      if o['exc'] is not None:
        raise Violation(what, f'read_folder raised {fmt_exc(o["exc"])}')
      if not self.tiled(out, exp, o['opened']):
        missing = [f for f in exp if exp[f].out and exp[f].out not in out]
        raise Violation(what, f'read_folder of {sorted(exp)}: the output is not that of each file once'
                        + (f'; missing or mixed: {missing}' if missing else f'; {first_diff(out, "".join(e.out for e in exp.values()))}'))
      return
    if o['exc'] is None:
      raise Violation('skipped entry', f'read_folder returned normally although '
                      f'{"it contains a subfolder" if subs else "a file in it cannot be read"}')
    self.folder_partial(op, o, what)

  def folder_partial(self, op, o, what):
    """After a failure: complete files, then the beginning of at most one more."""
    exp = self.folder_exp(op)
    for f, d in self.folder(op['path']).items():
      if exp[f] is None:
        exp[f] = exp_read_file(good_prefix(d), True)
        exp[f].err = True
    self.in_files(o['out'], exp, False, what)

  def c08(self, at):
    for t, i, op, o in self.each(at):
      self.fact('folders')
      if op.get('missing'):
        self.missing(op, o, 'skipped entry')
        continue
      f = [f for f in o['fired'] if f in ('open', 'read', 'close', 'list')]
      if f:
        if not self.bad_text(op) and not any(d.startswith(op['path'] + '/') for d in self.sc['dirs']):
          if o['exc'] is None or not o['exc']['inj']:
            e = self.folder_exp(op)
            if o['exc'] is None or not any(x is None or x.err for x in e.values()):
              self.surfaced(op, o, f'a failing {f[0]}', 'skipped entry')
        elif o['exc'] is None:
          raise Violation('skipped entry', 'read_folder returned normally after a failure')
        self.folder_partial(op, o, 'folder')
      elif 'vanish' in o['fired']:
        name = next(x['name'] for x in op['faults'] if x['k'] == 'vanish')
        self.fact('vanished')
        if o['exc'] is None:
          raise Violation('skipped entry', f'{name} vanished after it was listed and was skipped silently')
        self.folder_partial(op, o, 'folder')
      else:
        self.folder_ok(op, o, 'folder')

  # -- C09
  def c09(self, at):
    text = ''.join(e[2] for e in self.h['log'])
    want = {}
    for t, i, op, o in self.each(at):
      if o['exc'] is not None:
        continue
      blocks = []
      e = self.expect(op)
      if op['op'] == 'rec' and o['ret']:
        blocks = [r[1] for st, r in zip(op['steps'], o['steps']) if len(st) > 1 and st[1] and r[0] == 'ok']
      elif op['op'] == 'search':
        blocks = list(e.hits)
      elif op['op'] in ('parse', 'read_file') and op.get('out') is not False:
        ls = [op['line']] if op['op'] == 'parse' else lines_of(self.data(op['path']))
        blocks = [spec(l).table for l in ls if spec(l).dec == 'ok']
      for b in blocks:
        if len(b) > 3:
          want.setdefault(b, [0, t, i])[0] += 1
          self.fact('blocks')
    for b, (n, t, i) in want.items():
      if text.count(b) < n:
        at[:] = [t, i]
        op = self.sc['clients'][t][i]
        s = self.solo(op)['ops'][0][0]
        if s['out'].count(b) < 1:
          continue                              # the tree prints something else altogether
        raise Violation('broken block', f'{op["op"]}: a block that begins {clip(repr(b[:60]))} was printed {n} times but '
                        f'appears unbroken {text.count(b)} times')

  # -- C10
  def c10(self, at):
    held = {}
    lost = self.h['lost']
    for t, i, op, o in self.each(at):
      ints = [f for f in o['fired'] if f.startswith('int')]
      if 'slot' in op and op['op'] in ('sread', 'rec'):
        held[t, op['slot']] = op['line'] if o['ret'] and not ints else None
      if ints:
        self.fact('interrupted')
        if o['exc'] is None or not o['exc']['inj']:
          if lost:
            continue
          self.surfaced(op, o, ints[0].replace('int:', ''), 'swallowed interrupt')
        if o['leak2']:
          raise Violation('file left open', f'{op["op"]}: interrupted by {ints[0]}, left {o["leak2"]} file(s) open')
        continue
      what = 'disturbed by an interrupt'
      if op['op'] == 'look':
        line = held.get((t, op['slot']))
        if line is not None:
          self.undisturbed({'op': 'rec', 'line': line, 'steps': op['steps']}, done(o), what)
      elif op['op'] == 'sread':
        e = spec(op['line'])
        if not ((e.read == 'ok') == bool(o['ret']) and (e.read == 'err') == bool(o['exc']) and o['out'] == e.rdiag):
          d = self.same(op, o, self.solo(dict(op, op='rec', steps=[])))
          if d:
            raise Violation(what, f'reading a record: {d}')
      elif op['op'] == 'read_folder':
        self.folder_ok(op, o, what)
      else:
        self.undisturbed(op, o, what)

  # -- C11
  def c11(self, at):
    for t, i, op, o in self.each(at):
      self.fact('damaged_reads')
      e = self.expect(op)
      if e is None:
        if o['exc'] is None or not o['exc']['value']:
          raise Violation('damage', f'{op["op"]} of bytes that are not text: {fmt_exc(o["exc"])}')
        self.prefix(op, o, True, 'damage')
        continue
      d = self.match_model(op, o, e)
      if d:
        raise Violation('damage', f'{op["op"]}: {d}')

  # -- C12
  def c12(self, at):
    for t, i, op, o in self.each(at):
      self.fact('compared')
      if op['op'] == 'read_folder':
        self.folder_ok(op, o, 'depends on the environment')
        continue
      e = self.expect(op)
      if self.match_model(op, o, e) is None and not self.sampled():
        continue
      self.fact('solo')
      s = self.solo(op)['ops'][0][0]
      d = self.same(op, dict(o, out=ANSI.sub('', o['out'])), dict(s, out=ANSI.sub('', s['out'])))
      if d:
        raise Violation('depends on the environment', f'{op["op"]}: {d}')

  # -- C13
  def c13(self, at):
    held = {}
    for t, i, op, o in self.each(at):
      if o['fired']:
        self.fact('faulted')
        continue
      what = 'no recovery'
      self.fact('recovered')
      if op['op'] == 'read_folder':
        self.folder_ok(op, o, what)
      elif op['op'] == 'sread':
        e = spec(op['line'])
        if not ((e.read == 'ok') == bool(o['ret']) and (e.read == 'err') == bool(o['exc']) and o['out'] == e.rdiag):
          d = self.same(op, o, self.solo(dict(op, op='rec', steps=[])))
          if d:
            raise Violation(what, f'reading a record: {d}')
      else:
        self.undisturbed(op, o, what)
    for a, b in self.sc.get('scale', ()):
      x, y = self.h['ops'][0][a], self.h['ops'][0][b]
      if x and y:
        at[:] = [0, b]
        self.fact('scaled')
        n, m = x['steps_taken'], y['steps_taken']
        if m > 6 * n * 1.5 + 300:
          raise Violation('cost', f'{self.sc["clients"][0][b]["op"]}: a file 6 times as long takes {m} steps instead of {n}')

  # -- C14
  def c14(self, at):
    h = self.h
    if h['mutations']:
      t, i, m = h['mutations'][0]
      at[:] = [t, i]
      raise Violation('not read-only', f'{self.sc["clients"][t][i]["op"]}: {m}')
    for t, i, op, o in self.each(at):
      self.fact('observed')
      if o.get('amb'):
        w = 'another thread saw' if op['op'] == 'probe' else f'{op["op"]} left behind'
        raise Violation('process state', f'{w} a change of {"; ".join(o["amb"])}')
      if o.get('arg'):
        raise Violation('argument changed', f'{op["op"]}: {o["arg"]}')
      if o['leak2']:
        raise Violation('file left open', f'{op["op"]}: {o["leak2"]} file(s) still open after the call')
    if h.get('seen'):
      t, i, d = h['seen'][0]
      at[:] = [t, i]
      raise Violation('process state', f'{self.sc["clients"][t][i]["op"]}: while it runs, other threads see a change of {d}')
    at[:] = [None, None]
    if h.get('amb'):
      raise Violation('process state', f'left behind: {"; ".join(h["amb"])}')
    if h.get('tree'):
      raise Violation('not read-only', f'files changed: {h["tree"]}')
    if h.get('fds'):
      raise Violation('file left open', f'{h["fds"]} more file descriptors open than before')

  # -- C15
  def c15(self, at):
    for t, i, op, o in self.each(at):
      if op['op'] != 'obs':
        self.undisturbed(op, o, 'changed by looking')
        continue
      line = self.sc['shared'][op['slot']]
      if 'sink' in o['fired']:
        self.fact('faulted')
        out, res = exp_steps(spec(line), op['steps'])
        k = len(o['steps'])
        if k and not steps_match(o['steps'], res[:k]):
          s = self.solo({'op': 'rec', 'line': line, 'steps': op['steps']})['ops'][0][0]
          if o['steps'] != s['steps'][:k]:
            raise Violation('changed by looking', f'results before a console failure differ: {clip(o["steps"])}')
        continue
      self.fact('observations')
      self.undisturbed({'op': 'rec', 'line': line, 'steps': op['steps']}, done(o), 'changed by looking')

  # -- C21
  def c21(self, at):
    log, base, ver = self.h['iolog'], self.sc, {}
    for f in self.sc['files']:
      ver[f] = [[0, self.sc['files'][f]]]
    span = {}
    for n, e in enumerate(log, 1):
      if e[0] in ('replace', 'append'):
        segs = self.sc['clients'][e[1]][e[2]]['segs']
        ver[e[3]].append([n, segs if e[0] == 'replace' else ver[e[3]][-1][1] + segs])
      elif e[0] in ('begin', 'end'):
        span.setdefault((e[1], e[2]), []).append(n)
    for t, i, op, o in self.each(at):
      if op['op'] in ('replace', 'append'):
        continue
      a, z = span[t, i]
      names = [f for f in ver if f == op['path'] or f.startswith(op['path'] + '/')]
      choice = []
      for f in names:
        vs = ver[f]
        choice.append([v for k, (n, v) in enumerate(vs) if n < z and (k + 1 == len(vs) or vs[k + 1][0] > a)])
      many = [len(c) for c in choice]
      self.fact('changed_meanwhile' if max(many, default=1) > 1 else 'unchanged_meanwhile')
      why = None
      for combo in itertools.islice(itertools.product(*choice), 3000):
        self.sc = dict(base, files=dict(base['files'], **dict(zip(names, combo))))
        try:
          self.undisturbed(op, o, 'mixed editions')
          why = None
          break
        except Violation as v:
          why = why or v
      self.sc = base
      if why is not None:
        raise Violation('mixed editions', f'{op["op"]}: the result is that of no edition of the file that existed during the call '
                        f'({max(many)} did); against the first: {why.args[1]}')

  # -- C22
  def c22(self, at):
    for t, i, op, o in self.each(at):
      self.fact('outer' if 'nest' in o['fired'] else 'plain')
      self.undisturbed(op, o, 'disturbed by a call made from within it')
    for e in self.h['nested']:
      if e is None:
        continue
      t, i, op, o = e
      at[:] = [t, i % 1000]
      if set(o['fired']) - {'nest'}:
        self.fact('nested_faulted')
        continue
      self.fact('nested')
      self.undisturbed(op, o, 'disturbed by the call it was made from')

  # -- C24
  def c24(self, at):
    for t, i, op, o in self.each(at):
      self.fact('parent' if 'fork' in o['fired'] else 'plain')
      self.undisturbed(op, o, 'disturbed by a fork')
    for e in self.h['nested']:
      if e is None:
        continue
      t, i, op, o = e
      at[:] = [t, i % 1000]
      if o['fired']:
        self.fact('child_faulted')
        continue
      self.fact('child')
      self.undisturbed(op, o, 'broken in a forked process')

  # -- C23
  def c23(self, at):
    l = self.h['levels']
    if len(l) < 3:
      return
    self.fact('measured')
    for k, what, least in ((2, 'open files', .9), (3, 'threads', .9), (1, 'bytes of memory', 6.5)):
      if all(y[k] - x[k] >= least * (y[0] - x[0]) for x, y in zip(l[1:], l[2:])):
        x, y = l[-2], l[-1]
        if y[0] < 200:
          continue                              # not followed far enough to tell a leak from a cache that fills up
        raise Violation('accumulates', f'after {x[0]} and {y[0]} rounds of the same {len(self.sc["clients"][0])} calls the process '
                        f'holds {x[k]} and {y[k]} {what}: {(y[k] - x[k]) / (y[0] - x[0]):.1f} more per round')


def fmt_exc(e):
  return 'a normal return' if e is None else f'{e["t"]}({clip(e["msg"], 80)!r})'


def done(o):
  """A look at a record, as if it had been part of reading it."""
  return dict(o, ret=True if o['exc'] is None else None)
