"""Seeded generation of scenarios: workload, storage delivery, faults and schedule, per property."""
import random

import gen
import model

ERR_READ = ['EIO', 'ESTALE', 'EIO', 'ETIMEDOUT', 'ENXIO', 'EBADF', 'EISDIR', 'ECONNRESET', 'EPERM', 'EAGAIN', 'EINVAL', 'EACCES',
            'ENOENT', 'ENOMEM', 'ENODATA']
ERR_OPEN = ['EACCES', 'EMFILE', 'ENOENT', 'ENFILE', 'EIO', 'EPERM', 'ELOOP', 'EBUSY', 'ENAMETOOLONG', 'ENOTDIR', 'EISDIR',
            'ETIMEDOUT', 'ENOMEM', 'EAGAIN', 'ESTALE', 'ENXIO', 'ETXTBSY', 'EOVERFLOW', 'ENOSPC']
ERR_SINK = ['EPIPE', 'EPIPE', 'ENOSPC', 'EIO', 'CLOSED', 'CLOSED', 'ENCODE', 'ENCODE', 'EAGAIN', 'EBADF', 'ECONNRESET', 'ETIMEDOUT']
EXCS = ['KeyboardInterrupt', 'MemoryError', 'Cancelled']
LOOKS = [['decode', False], ['decode', True], ['json', False, True], ['json', True, True], ['json', False, False],
         ['json', True, False], ['primary'], ['hasCont'], ['raw']]
ALL_LOOKS = [['raw'], ['decode', False], ['json', False, True], ['json', False, False], ['primary'], ['hasCont']]


# ----------------------------------------------------------------------------
# lines and files

def reshape(rng, line, ident, variant=None):
  """The same columns under another section code."""
  v = variant or rng.choice([v for i, v in gen.VARIANTS if i == ident])
  return ''.join(gen.structure(rng, list(line), ident, v))[:123] + line[123:]


# sections that share one definition
CLASSES = [['AS'], ['D '], ['DB', 'PN'], ['EA', 'PC'], ['EM'], ['EP'], ['ER'], ['ET'], ['EU'], ['EV'], ['HA'], ['HC'],
           ['HD', 'HE', 'HF', 'PD', 'PE', 'PF'], ['HK', 'PK'], ['HS', 'PS'], ['HV'], ['PA'], ['PB'], ['PG'], ['PI'], ['PL'],
           ['PM'], ['PP'], ['PR'], ['PT'], ['PV'], ['R '], ['RA'], ['TC'], ['TG'], ['UC'], ['UF'], ['UR']]
BY_NO = {}
for _i, _v in gen.VARIANTS:
  _e = model.SECTIONS[_i]
  for _f in model.POOL[_e['primary'] if _v == 'primary' else _e['default'] if _v == 'default' else _e['apps'][_v]]:
    BY_NO.setdefault(_f[2], []).append((_i, _v, _f))
STRATUM = 0       # the run number: pools walk through all definitions and all field decoders


def with_field(rng, no, value=None):
  """A record that has a field of this number, with the given value in it if it fits."""
  i, v, f = rng.choice(BY_NO[no])
  b = list(gen.record(rng, i, v))
  cols = [c for a, z in f[1] for c in range(a, z)]
  if value is not None:
    for c, x in zip(cols, value.ljust(len(cols))):
      b[c] = x
    b = list(''.join(gen.structure(rng, b, i, v))[:123]) + b[123:]
  return ''.join(b), ''.join(b[c] for c in cols)


def pool(rng, n=None, allow_fail=True, allow_odd=True):
  """A small set of related lines, chosen so that any mix-up between them shows."""
  n = n or rng.randrange(2, 7)
  kind = rng.choices(['class', 'field', 'same', 'family', 'seq', 'mix', 'near', 'edge', 'corpus', 'graft'],
                     [8, 6, 2, 3, 3, 4, 3, 3, 2, 5])[0]
  out = []
  if kind == 'class':
    cl = CLASSES[STRATUM % len(CLASSES)]
    vs = [(i, v) for i, v in gen.VARIANTS if i in cl]
    if rng.random() < .5:
      v = rng.choice(vs)[1]
      vs = [x for x in vs if x[1] == v]
    out = [gen.record(rng, *rng.choice(vs)) for _ in range(n)]
  elif kind == 'field':
    no = sorted(BY_NO)[STRATUM % len(BY_NO)]
    value = None
    for _ in range(n):
      l, got = with_field(rng, no, value)
      out.append(l)
      value = rng.choice([None, got, got, got.strip(), ' ' + got, got[::-1], gen.mutate(rng, got, 1)])
  elif kind == 'edge':                          # lines that differ in what decides whether they are records
    base = gen.record(rng) if rng.random() < .7 else rng.choice(gen.CORPUS)
    out = [base]
    e = model.SECTIONS[model.section_of(base) or 'PA']
    cols = [0, 4, 5, 12] + list(range(123, 132)) + ([e['cont']] * 3 if 'cont' in e else []) + \
        list(range(*e['app'])) * 2
    for _ in range(n - 1):
      c = rng.choice(cols)
      l = base[:c] + rng.choice(gen.ODD + 'ST25PEW') + base[c + 1:]
      out.append(rng.choice([l, l, l, l, l[:-1], l + '0', ' ' + l, l[1:]]))
  elif kind == 'same':
    i, v = rng.choice(gen.VARIANTS)
    out = [gen.record(rng, i, v) for _ in range(n)]
  elif kind == 'family':
    fam = rng.choice(gen.FAMILIES)
    base = gen.record(rng, rng.choice(fam))
    out = [base] + [reshape(rng, base, rng.choice(fam)) if rng.random() < .6 else gen.record(rng, rng.choice(fam))
                    for _ in range(n - 1)]
  elif kind == 'seq':
    i = rng.choice([s for s, e in model.SECTIONS.items() if 'cont' in e])
    base = gen.record(rng, i, 'primary')
    out = [base]
    vs = [v for s, v in gen.VARIANTS if s == i]
    for _ in range(n - 1):
      v = rng.choice(vs)
      out.append(reshape(rng, base, i, v) if rng.random() < .5 else gen.record(rng, i, v))
  elif kind == 'graft':                         # one form; long parts of one line in another
    x = gen.VARIANTS[STRATUM % len(gen.VARIANTS)]
    out = [gen.record(rng, *x)]
    for _ in range(n - 1):
      l, o, c = gen.record(rng, *x), rng.choice(out), rng.choice([6, 13, 18, 26, 40, 60, 90, 120, 123, 128, rng.randrange(1, 132)])
      out.append(rng.choice([o[:c] + l[c:], o[:c] + l[c:], l[:c] + o[c:]]))
  elif kind == 'near':
    base = gen.record(rng) if rng.random() < .6 else rng.choice(gen.CORPUS)
    out = [base] + [gen.mutate(rng, base, 1) for _ in range(n - 1)]
  elif kind == 'corpus':
    k = rng.randrange(len(gen.CORPUS))
    out = [gen.CORPUS[(k + j) % len(gen.CORPUS)] for j in range(n)]
  else:
    out = [gen.any_line(rng, gen.MIX) for _ in range(n)]
  if rng.random() < .06:                        # text, but not ASCII
    k, c = rng.randrange(len(out)), rng.randrange(13, 120)
    out[k] = out[k][:c] + rng.choice('éÅñß°€') + out[k][c + 1:]
  if allow_odd and rng.random() < .35:
    out[rng.randrange(len(out))] = gen.unsupported(rng)
  if allow_odd and rng.random() < .2:
    out[rng.randrange(len(out))] = gen.noise(rng)
  if allow_fail and rng.random() < .35:
    out[rng.randrange(len(out))] = gen.failing(rng)
  if not allow_fail:
    out = [l if not fails(l) else gen.record(rng, 'PA', 'primary') for l in out]
  return out


def fails(line):
  s = model.spec(line)
  return s.read == 'err' or s.dec == 'err'


def ends(rng):
  if rng.random() < .04:
    return rng.choice([['\r'], ['\r', '\n', '\r\n']])
  return rng.choice([['\n'], ['\n'], ['\r\n'], ['\n', '\r\n']])


def to_segs(rng, lines, final=None, le=None):
  le = le or ends(rng)
  segs = []
  for i, l in enumerate(lines):
    e = rng.choice(le)
    if i == len(lines) - 1 and (rng.random() < .4 if final is None else not final):
      e = ''
    segs.append((l + e).encode('utf-8').decode('latin-1'))
  return segs


def file_lines(rng, n, lines=None, fail=False, pad=.1):
  out = []
  mix = dict(gen.MIX, fail=1 if fail else 0)
  for _ in range(n):
    l = rng.choice(lines) if lines and rng.random() < .7 else gen.any_line(rng, mix)
    if not fail and fails(l):
      l = gen.record(rng, 'PA', 'primary') if rng.random() < .5 else gen.noise(rng)
      if fails(l):
        l = ''
    if rng.random() < pad:
      l = rng.choice(['', ' ', '  ', '\t', '     ']) + l + rng.choice(['', ' ', '    ', '\t'])
    out.append(l)
  if out and rng.random() < .3:                 # repeated lines must be delivered repeatedly
    i = rng.randrange(len(out))
    out[i:i] = [out[i]] * rng.randrange(1, 3)
  if PROP in ('C01', 'C02', 'C07', 'C08') and rng.random() < .04:      # a long stretch with nothing in it
    x, k = rng.choice(['', '', ' ', ' ' * 100, '#', 'HDR ' + '0' * 128]), rng.choice([10, 50, 300, 1500])
    i = rng.choice([0, 0, len(out)])
    out[i:i] = [x] * min(k, 20000 // (len(x) + 1))
  return out


PROP = ''


def size(rng, big=40):
  if big <= 12:
    return rng.randrange(0, big + 1)
  return rng.choice([0, 1, 1, 2, 3, 4, 6, 8, 12]) if rng.random() < .9 else rng.randrange(10, big)


def io_knobs(rng, nbytes=2000):
  """How the storage delivers bytes: sizes of reads, buffers, text chunks, interrupted calls."""
  k = rng.choice(['plain', 'tiny', 'line', 'mixed', 'mixed', 'page'])
  if k == 'plain':
    return {}
  if k == 'tiny':
    sizes = [rng.choice([1, 1, 2, 3])] if nbytes < 1500 else [rng.randrange(7, 60)]
  elif k == 'line':
    sizes = [rng.choice([131, 132, 133, 134, 135, 266])]
  elif k == 'page':
    sizes = [rng.choice([512, 1024, 4096])]
  else:
    sizes = [rng.choice([5, 17, 64, 131, 132, 133, 134, 200, 511, 512, 4096]) for _ in range(rng.randrange(2, 7))]
  return {'sizes': sizes, 'buf': rng.choice([1, 16, 128, 133, 134, 512, 8192, 8192, 65536]),
          'chunk': rng.choice([1, 7, 64, 128, 133, 1024, 8192, 8192]),
          'eintr': sorted(rng.sample(range(30), rng.randrange(0, 4)))}


def race(rng, s):
  """Switch where something is stored; with `park`, a client is held back there until the others are through."""
  s.update(mod=rng.choice([1, 1, 1, 3]), files=rng.choice([1, 1, 2]), park=rng.choice([0, 0, 1, 1, 2]), p=rng.choice([.4, .7, 1]))


def schedule(rng, nclients, est=3000):
  if nclients < 2:
    return {'mode': 'none'}
  m = rng.choices(['rand', 'pct', 'hot', 'seam', 'race'], [4, 3, 4, 1, 5])[0]
  s = {'mode': m, 'seed': rng.getrandbits(31)}
  if m == 'rand':
    s['p'] = rng.choice([.5, .2, .05, .02, .005])
  elif m == 'pct':
    s['points'] = sorted(rng.randrange(1, est) for _ in range(rng.randrange(1, 7)))
  elif m == 'hot':
    s['mod'] = rng.choice([2, 4, 8, 16])
  elif m == 'race':
    race(rng, s)
  else:
    s['p'] = .5
  return s


def looks(rng, k=None, out=True):
  ls = [l for l in LOOKS if out or len(l) < 2 or l[1] is False]
  return [list(rng.choice(ls)) for _ in range(k or rng.randrange(1, 5))]


def filters(rng, lines):
  def sub():
    cand = [l.strip() for l in lines if len(l.strip()) > 20]
    if not cand or rng.random() < .15:
      return rng.choice(['ZZZZQ', '', 'SUSA', 'S', '0', 'KJFK', '123456789012'])
    l = rng.choice(cand)
    n = rng.choice([1, 2, 3, 4, 6, 10])
    i = rng.randrange(0, len(l) - n)
    s = l[i:i + n]
    if rng.random() < .25:                      # almost in the record, and characters that mean something elsewhere
      return rng.choice([' ' + l[:n], l[-n:] + ' ', l[-n:] + '\n', s.lower(), '\t' + s, s[:-1] + '.', '.*', '[' + s, s + '|' + s, '*',
                         '\\d', '^S', s + s, s[::-1], s.strip() or ' ', s + '\0', '(', '%s', '{}', 'é'])
    return rng.choice([s, s, l[:4], l[-9:], l[6:10], l])
  return sub() if rng.random() < .5 else [sub() for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]


def bulk(rng, pl, deep):
  """A big file that is cheap to read: mostly lines that are no records, a few records all over it."""
  n = rng.choice([70, 300, 700, 1500, 4200] + [12000, 30000] * deep)
  w = rng.choice([0, 5, 20, 60, 131, 134, 400, 3000])
  if rng.random() < .06:
    n, w = rng.choice([17000, 33000, 70000, 110000]), rng.choice([0, 0, 1])
  if rng.random() < .12:
    n, w = 400, 3000
  if n * w > (6e6 if deep else 1.5e6):
    n = int(1.5e6 / w)
  fill = ['H' + 'x' * (w - 1) if w else '' for _ in range(n)]
  for _ in range(rng.randrange(3, 12)):
    fill.insert(rng.choice([rng.randrange(len(fill) + 1), max(0, len(fill) - rng.randrange(3)), rng.randrange(len(fill) + 1)]),
                rng.choice(pl))
  fill.append(rng.choice(pl))
  if rng.random() < .6:                         # records across the borders of likely blocks
    total = sum(len(l) + 1 for l in fill)
    for size in rng.sample([1 << p for p in range(9, 20)], 6) + [1 << 20]:
      edge = size * rng.choice([1, 1, 2, 3])
      at = 0
      if edge > total:
        continue
      for i, l in enumerate(fill):
        gap = edge - at
        if gap < 140 + len(l):
          break
        at += len(l) + 1
      k = gap - rng.randrange(1, 132) - 1
      fill[i:i] = ['H' * max(0, k), rng.choice(pl)] if 0 <= k < 140 + len(l) else []
  return fill


def merge_segs(segs, k=200):
  """Fewer, larger segments (the unit in which a replay is minimised)."""
  m = max(1, len(segs) // k)
  return [''.join(segs[i:i + m]) for i in range(0, len(segs), m)] if m > 1 else segs


def missing(rng, b, kinds=('read_file', 'search')):
  """A call with a path at which there is no file (or no folder)."""
  k = rng.choice(kinds)
  p = ['nothing', 'no/such', 'x' * 300]
  p += [f + '/x' for f in b.sc['files'] if '/' not in f and isinstance(b.sc['files'][f], list)][:1]
  p += [f for f in b.sc['files'] if '/' not in f][:1] if k == 'read_folder' else [d for d in b.sc['dirs'] if '/' not in d][:1]
  o = {'op': k, 'path': rng.choice(p), 'missing': True, 'form': rng.choice(['abs', 'abs', 'rel', 'path'])}
  if k == 'search':
    o['filters'] = rng.choice(['S', '', [], ['A', 'B']])
  return o


class Build:
  def __init__(self, rng, prop):
    self.rng = rng
    self.sc = {'prop': prop, 'files': {}, 'dirs': [], 'clients': []}

  def add_file(self, lines, name=None, **kw):
    name = name or f'f{len(self.sc["files"])}'
    self.sc['files'][name] = to_segs(self.rng, lines, **kw)
    return name

  def nbytes(self):
    return sum(len(s) for f in self.sc['files'].values() if isinstance(f, list) for s in f)

  def folder(self, pl=None, n=None, fail=False, big=8):
    rng = self.rng
    d = f'd{len(self.sc["dirs"])}'
    if self.sc['prop'] == 'C08' and rng.random() < .15:
      d = rng.choice(['d [0]', 'd*', '.d', 'D~', 'é', '%s', '-d'])
    self.sc['dirs'].append(d)
    names = ['a.dat', 'b.txt', 'FAACIFP18', '.hidden', 'z z', 'c', 'K1.PC', 'data~', 'README.md', 'x.424', '0', 'é', 'A.DAT', 'a.dat.bak',
             'C', 'tmp', '#x#', 'b.TXT', 'x' * 120, '[1].dat', 'a?', '-n', '~', 'a%sb', '$HOME', 'e\u0301', 'data.gz', 'core', 'nul\n']
    rng.shuffle(names)
    names = [n for n in names if n.isascii() or self.sc['prop'] != 'C12']
    out = []
    for k in range(rng.choice([0, 1, 2, 2, 3, 3, 4, 5]) if n is None else n):
      nm = f'{d}/{names[k]}'
      self.sc['files'][nm] = to_segs(rng, file_lines(rng, rng.choice([0, 1, 2, 3, rng.randrange(1, big)]), pl, fail))
      out.append(nm)
    if len(out) > 1 and rng.random() < .2:      # two files with the same content
      self.sc['files'][out[1]] = list(self.sc['files'][out[0]])
    return d, out

  def op(self, kinds, pl, slots=3, out=None):
    """One random operation on the scenario's data."""
    rng = self.rng
    k = rng.choice(kinds)
    o = out if out is not None else rng.choice([True, True, True, False, None])
    if k == 'parse':
      l = rng.choice(pl)
      if rng.random() < .1:
        l = rng.choice([' ', '\t', '']) + l + rng.choice(['\n', ' ', '\r\n'])
      return {'op': 'parse', 'line': l, 'out': o}
    if k == 'rec':
      op = {'op': 'rec', 'line': rng.choice(pl), 'steps': looks(rng)}
      if rng.random() < .5:
        op['slot'] = rng.randrange(slots)
      return op
    if k == 'look':
      return {'op': 'look', 'slot': rng.randrange(slots), 'steps': looks(rng)}
    if k == 'sread':
      return {'op': 'sread', 'slot': rng.randrange(slots), 'line': rng.choice(pl)}
    if k == 'mut':
      return {'op': 'mut', 'slot': rng.randrange(slots),
              'how': rng.choice(['clear', 'pop', 'reverse', 'dup', 'value', 'name', 'attrs'])}
    if k == 'read_folder':
      return {'op': 'read_folder', 'path': rng.choice(self.sc['dirs']), 'order': rng.getrandbits(16)}
    f = rng.choice([f for f in self.sc['files'] if '/' not in f])
    if k == 'read_file':
      return {'op': 'read_file', 'path': f, 'out': o, 'form': rng.choice(['abs', 'abs', 'rel', 'path'])}
    if k == 'search':
      return {'op': 'search', 'path': f, 'filters': filters(rng, pl)}
    raise ValueError(k)

  def basic_files(self, pl, n=None, fail=True, big=14):
    for _ in range(n or self.rng.choice([1, 1, 2])):
      self.add_file(file_lines(self.rng, size(self.rng, big), pl, fail and self.rng.random() < .3))


def hard_fault(rng, kinds=('open', 'read', 'close')):
  k = rng.choice(kinds)
  if rng.random() < .25 and k != 'close':
    return dict(hard_fault(rng, (k,)), sticky=True)
  if k == 'open':
    return {'k': 'open', 'n': rng.choice([0, 0, 0, 1, 2]), 'err': rng.choice(ERR_OPEN)}
  if k == 'close':
    return {'k': 'close', 'n': rng.choice([0, 0, 1]), 'err': rng.choice(['EIO', 'ENOSPC', 'EDQUOT'])}
  return {'k': 'read', 'n': int(2 ** (rng.random() * 6)) - 1, 'err': rng.choice(ERR_READ)}


def sink_fault(rng):
  return {'k': 'sink', 'n': int(2 ** (rng.random() * 5)) - 1, 'err': rng.choice(ERR_SINK),
          'sticky': rng.random() < .5, 'part': rng.choice([0, 0, .3, .9, 1])}


def int_fault(rng, nlines=3, reads=True):
  at = rng.choices(['code', 'read', 'sink'], [6, 2 if reads else 0, 2])[0]
  f = {'k': 'int', 'at': at, 'exc': rng.choice(EXCS)}
  if at == 'code':
    f['n'] = max(1, int((200 * nlines + 30) ** rng.random())) if rng.random() < .7 else rng.randrange(1, 60)
  else:
    f['n'] = int(2 ** (rng.random() * 4)) - 1
    f['after'] = rng.random() < .5
  return f


def ops_lines(sc, op):
  if 'path' in op:
    return sum(len(v) for k, v in sc['files'].items()
               if isinstance(v, list) and (k == op['path'] or k.startswith(op['path'] + '/'))) + 1
  return 1


# ----------------------------------------------------------------------------
# one generator per property

def c01(rng, deep):
  b = Build(rng, 'C01')
  if rng.random() < .05:
    pl = pool(rng, allow_fail=False)
    b.sc['files']['big'] = merge_segs(to_segs(rng, bulk(rng, pl, deep)))
    b.sc['io'] = {'sizes': [rng.choice([1000, 4096, 8192, 65536, 1 << 20])], 'eintr': [1],
                  'buf': rng.choice([4096, 8192, 65536]), 'chunk': rng.choice([2048, 8192])}
    b.sc['clients'] = [[{'op': 'read_file', 'path': 'big', 'out': rng.choice([None, None, False])}]]
    b.sc['trace'] = 'none'
    return b.sc
  if rng.random() < .015:                       # very many records
    ls = [gen.record(rng) for _ in range(rng.choice([70, 140, 300, 600]))]
    if rng.random() < .6:
      for _ in range(rng.choice([1, 5, 60])):
        ls.insert(rng.randrange(len(ls) + 1), rng.choice(['', '', ' ', gen.noise(rng), gen.unsupported(rng)]))
    b.sc['files']['many'] = to_segs(rng, [l for l in ls if not fails(l)])
    b.sc['io'] = io_knobs(rng, 1 << 20)
    b.sc['clients'] = [[{'op': 'read_file', 'path': 'many', 'out': rng.choice([None, None, False])}]]
    b.sc['trace'] = 'none'
    return b.sc
  pl = pool(rng, allow_fail=False) if rng.random() < .7 else None
  big = 400 if deep and rng.random() < .1 else 60
  for _ in range(rng.choice([1, 1, 2])):
    n = size(rng, big)
    lines = file_lines(rng, n, pl, pad=rng.choice([0, .1, .5]))
    if rng.random() < .15:
      lines = [l + ' é' if rng.random() < .3 else l for l in lines]
    if rng.random() < .04 and lines:            # a byte order mark is text like any other
      lines[0] = '\ufeff' + lines[0]
    b.add_file(lines, name=rng.choice([None, None, None, 'FAACIFP18', 'a.gz', 'b.csv', 'x y.txt', '.dot', 'CYCLE.2401', 'z.dat~']))
  b.sc['io'] = io_knobs(rng, b.nbytes())
  ops = [{'op': 'read_file', 'path': f, 'out': rng.choice([True, True, None, None, False]),
          'form': rng.choice(['abs', 'rel', 'path'])} for f in b.sc['files'] for _ in range(rng.choice([1, 1, 2]))]
  rng.shuffle(ops)
  b.sc['clients'] = [ops]
  b.sc['trace'] = 'none'
  return b.sc


def c02(rng, deep):
  b = Build(rng, 'C02')
  pl = pool(rng)
  b.basic_files(pl, big=60 if deep else 30)
  if rng.random() < .25:
    b.folder(pl)
  if rng.random() < .25:                        # bytes that are not text
    f = rng.choice([f for f in b.sc['files']])
    segs = b.sc['files'][f]
    if segs:
      i = rng.randrange(len(segs))
      j = rng.randrange(len(segs[i]) + 1)
      segs[i] = segs[i][:j] + rng.choice(['\xff', '\xc3\x28', '\xa0', '\x80\x80']) + segs[i][j:]
      b.sc['damage'] = ['undecodable']
  kinds = ['read_file'] * 3 + ['search'] * 2 + (['read_folder'] * 2 if b.sc['dirs'] else [])
  ops = [b.op(kinds, pl) for _ in range(rng.randrange(1, 4))]
  for o in ops:
    if rng.random() < .85:
      o['faults'] = [hard_fault(rng) for _ in range(rng.choice([1, 1, 1, 2]))]
  if rng.random() < .12:
    ops.insert(rng.randrange(len(ops) + 1), missing(rng, b))
  b.sc['clients'] = [ops]
  if rng.random() < .15:
    b.sc['clients'].append([b.op(kinds, pl) for _ in range(2)])
  b.sc['io'] = io_knobs(rng, b.nbytes())
  b.sc['sched'] = schedule(rng, len(b.sc['clients']), 1500)
  b.sc['trace'] = 'line' if len(b.sc['clients']) > 1 else 'none'
  return b.sc


def c03(rng, deep):
  b = Build(rng, 'C03')
  pl = pool(rng)
  b.basic_files(pl)
  if rng.random() < .2:
    b.folder(pl, n=rng.randrange(1, 3))
  kinds = ['read_file'] * 3 + ['search'] * 2 + ['parse'] * 3 + ['rec'] * 3 + (['read_folder'] if b.sc['dirs'] else [])
  ops = [b.op(kinds, pl) for _ in range(rng.randrange(1, 5))]
  for o in ops:
    if rng.random() < .85:
      f = sink_fault(rng)
      if o['op'] in ('parse', 'rec') or rng.random() < .3:
        f['n'] = rng.randrange(0, 3)
      o['faults'] = [f]
  if len(ops) > 1 and rng.random() < .15:
    ops.insert(rng.randrange(1, len(ops)), {'op': 'console'})
  b.sc['clients'] = [ops]
  b.sc['io'] = io_knobs(rng, b.nbytes())
  b.sc['trace'] = 'none'
  return b.sc


def threads(rng, prop, kinds, deep, faults=None):
  b = Build(rng, prop)
  pl = pool(rng)
  if set(kinds) & {'read_file', 'search'}:
    for _ in range(rng.choice([1, 1, 2])):
      b.add_file(file_lines(rng, rng.choice([1, 1, 2, 3, 4, 6]), pl, rng.random() < .2))
  if 'read_folder' in kinds:
    b.folder(pl, n=2, big=3)
  n = rng.choice([2, 2, 2, 3, 3, 4])
  for _ in range(n):
    b.sc['clients'].append([b.op(kinds, pl) for _ in range(rng.choice([1, 1, 2, 3, 4]))])
  b.sc['io'] = io_knobs(rng, b.nbytes()) if rng.random() < .4 else {}
  b.sc['trace'] = rng.choice(['line', 'line', 'op'])
  b.sc['sched'] = schedule(rng, n, 1200 * n * (5 if b.sc['trace'] == 'op' else 1))
  return b


def rivals(rng, n):
  """Lines that go through the same code: one definition, one record form or one field decoder, by run number."""
  if STRATUM % 2:
    no = sorted(BY_NO)[STRATUM // 2 % len(BY_NO)]
    return [with_field(rng, no)[0] for _ in range(n)]
  cl = CLASSES[STRATUM // 2 % len(CLASSES)]
  vs = [(i, v) for i, v in gen.VARIANTS if i in cl]
  if rng.random() < .7:
    v = rng.choice(vs)[1]
    vs = [x for x in vs if x[1] == v]
  if rng.random() < .6:
    v = rng.choice(vs)[0]
    vs = [x for x in vs if x[0] == v]
  return [gen.record(rng, *rng.choice(vs)) for _ in range(n)]


def close_schedule(rng, n, est):
  """Schedules that switch again and again inside the same few statements."""
  m = rng.choices(['race', 'hot', 'rand', 'pct'], [6, 3, 2, 1])[0]
  s = {'mode': m, 'seed': rng.getrandbits(31)}
  if m == 'hot':
    s['mod'] = rng.choice([2, 3, 4, 8])
  elif m == 'race':
    race(rng, s)
  elif m == 'rand':
    s['p'] = rng.choice([.5, .3, .15])
  else:
    s['points'] = sorted(rng.randrange(1, est) for _ in range(rng.randrange(1, 5)))
  return s


def duel(rng, prop):
  """Few short calls in two or three threads, all going through the same code."""
  b = Build(rng, prop)
  n = rng.choice([2, 2, 2, 3])
  pl = rivals(rng, n + 1)
  for t in range(n):
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
      l = pl[t] if rng.random() < .7 else rng.choice(pl)
      ops.append({'op': 'parse', 'line': l, 'out': rng.choice([True, False])} if rng.random() < .4 else
                 {'op': 'rec', 'line': l, 'steps': rng.choice([ALL_LOOKS, looks(rng), [['decode', False]], [['json', False, True]]])})
    b.sc['clients'].append(ops)
  b.sc['trace'] = rng.choice(['line', 'line', 'line', 'op'])
  b.sc['sched'] = close_schedule(rng, n, 600 * n * (5 if b.sc['trace'] == 'op' else 1))
  return b


def c04(rng, deep):
  if rng.random() < .6:
    return duel(rng, 'C04').sc
  return threads(rng, 'C04', ['parse'] * 3 + ['rec'] * 4 + ['read_file'] * 2 + ['search'] * 2 + ['read_folder']
                 + ['look', 'sread'], deep).sc


def c05(rng, deep):
  b = Build(rng, 'C05')
  pl = []
  for _ in range(rng.choice([1, 1, 2, 3])):
    pl += pool(rng)
  b.basic_files(pl, big=10)
  if rng.random() < .15:
    b.folder(pl, n=2)
  kinds = ['parse'] * 4 + ['rec'] * 4 + ['look'] * 2 + ['mut'] + ['read_file', 'search']
  if b.sc['dirs']:
    kinds.append('read_folder')
  r = rng.random()
  n = rng.randrange(3, 25)
  if r < (.06 if deep else .04):                # long histories: caches fill, counters grow
    n = rng.choice([300, 600, 1200, 3000 if deep else 1500])
    for _ in range(60):
      pl += pool(rng)
    kinds = ['parse'] * 6 + ['rec'] * 4 + ['look']
  elif r < .12:                                 # one field decoder with very many values
    no = sorted(BY_NO)[STRATUM % len(BY_NO)]
    alpha = rng.choice(['ABCDEFGHIJKLMNOPQRSTUVWXYZ', '0123456789', 'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 '])
    pl, w = [], len(with_field(rng, no)[1])
    for _ in range(rng.choice([40, 90, 150])):
      pl.append(with_field(rng, no, rng.choice([None, ''.join(rng.choice(alpha) for _ in range(w))]))[0])
    ops = [{'op': 'rec', 'line': l, 'steps': [['decode', False]]} for l in pl]
    ops += [dict(o) for o in rng.sample(ops, min(30, len(ops)))]
    b.sc['clients'] = [ops]
    b.sc['trace'] = 'none'
    return b.sc
  elif r < .2:
    n = rng.randrange(60, 160)
    for _ in range(15):
      pl += pool(rng)
  if rng.random() < .02:
    b.sc['files']['big'] = merge_segs(to_segs(rng, bulk(rng, pl, deep)))
  ops = []
  twins = rng.random() < .08                    # two folders with a file of the same name, each in turn the current one
  if twins:
    n = min(n, 24)
    b.sc['dirs'] += ['w0', 'w1']
    for d in ('w0', 'w1'):
      b.sc['files'][d + '/f'] = to_segs(rng, file_lines(rng, rng.randrange(1, 4), pl))
  for _ in range(n):
    if twins and rng.random() < .5:
      d = rng.choice(['w0', 'w1'])
      ops.append({'op': 'chdir', 'path': d})
      o = rng.choice([{'op': 'read_file', 'path': d + '/f', 'out': None}, {'op': 'search', 'path': d + '/f', 'filters': filters(rng, pl)},
                      {'op': 'read_folder', 'path': d, 'order': rng.getrandbits(16)}])
      ops.append(dict(o, form='rel'))
      continue
    if n < 200 and rng.random() < .04:
      ops.append({'op': 'console'})
    o = b.op(kinds, pl)
    if n > 200 and o['op'] == 'parse':
      o['out'] = rng.choice([False, False, True])
    ops.append(o)
    if n < 200 and rng.random() < .08:          # the caller replaces a file between two calls
      f = rng.choice([f for f in b.sc['files'] if '/' not in f])
      old = b.sc['files'][f]
      new = list(old)
      rng.shuffle(new)
      if not new or rng.random() < .5:
        new = to_segs(rng, file_lines(rng, rng.randrange(0, 6), pl))
      if any(not x.endswith('\n') for x in new[:-1]):
        new = [x if x.endswith('\n') else x + '\n' for x in new]
      ops.append({'op': 'write', 'path': f, 'segs': new, 'same_time': rng.random() < .5})
      ops.append(dict(b.op(['read_file', 'search'], pl), path=f))
  b.sc['clients'] = [ops]
  b.sc['trace'] = 'none'
  return b.sc


def c06(rng, deep):
  b = Build(rng, 'C06')
  pl = pool(rng) + pool(rng)
  if rng.random() < .5:
    pl += [gen.record(rng, rng.choice(['EU', 'AS', 'TC', 'RA', 'R ']))]
  if rng.random() < .6:
    pl += [gen.unsupported(rng), gen.failing(rng), gen.noise(rng)]
  ops = []
  for _ in range(rng.randrange(2, 14 if not deep else 40)):
    s = rng.randrange(2)
    ops.append({'op': 'sread', 'slot': s, 'line': rng.choice(pl)})
    if rng.random() < .8:
      st = [list(x) for x in ALL_LOOKS]
      if rng.random() < .7:
        rng.shuffle(st)
        st = st[:rng.randrange(1, 7)]
      ops.append({'op': 'look', 'slot': s if rng.random() < .8 else 1 - s, 'steps': st})
  ops.append({'op': 'look', 'slot': 0, 'steps': [list(x) for x in ALL_LOOKS]})
  b.sc['clients'] = [ops]
  b.sc['trace'] = 'none'
  return b.sc


def c07(rng, deep):
  b = Build(rng, 'C07')
  if rng.random() < .05:
    pl = pool(rng, allow_fail=False)
    b.sc['files']['big'] = merge_segs(to_segs(rng, bulk(rng, pl, deep)))
    b.sc['io'] = {'sizes': [rng.choice([4096, 8192, 65536, 1 << 20])], 'buf': rng.choice([4096, 8192, 65536])}
    b.sc['clients'] = [[{'op': 'search', 'path': 'big', 'filters': filters(rng, pl)}]]
    b.sc['trace'] = 'none'
    return b.sc
  if rng.random() < .02:                        # very many hits
    ls = [gen.record(rng) for _ in range(rng.choice([120, 300, 700, 1100]))]
    ls = [l for l in ls if model.spec(l).read == 'ok']
    b.sc['files']['big'] = merge_segs(to_segs(rng, ls))
    b.sc['clients'] = [[{'op': 'search', 'path': 'big', 'filters': rng.choice(['', [], 'S', 'T', ['0']])}]]
    b.sc['trace'] = 'none'
    return b.sc
  fail = rng.random() < .15
  pl = pool(rng, allow_fail=fail)
  for _ in range(rng.choice([1, 1, 2])):
    b.add_file(file_lines(rng, size(rng, 200 if deep and rng.random() < .1 else 60), pl, fail,
                          pad=rng.choice([0, .1, .4])))
  b.sc['io'] = io_knobs(rng, b.nbytes())
  n = rng.choice([1, 1, 1, 2, 3])
  lines = pl + [s for f in b.sc['files'].values() for s in f]
  for _ in range(n):
    ops = []
    for _ in range(rng.randrange(1, 4)):
      o = {'op': 'search', 'path': rng.choice(list(b.sc['files'])), 'filters': filters(rng, lines),
           'form': rng.choice(['abs', 'rel', 'path'])}
      if rng.random() < .15:
        o['faults'] = [hard_fault(rng)]
      ops.append(o)
    if rng.random() < .2:
      ops.insert(rng.randrange(len(ops) + 1), b.op(['parse', 'read_file', 'rec'], pl))
    b.sc['clients'].append(ops)
  b.sc['sched'] = schedule(rng, n, 1500)
  b.sc['trace'] = rng.choice(['line', 'line', 'op']) if n > 1 else 'none'
  return b.sc


def c08(rng, deep):
  b = Build(rng, 'C08')
  pl = pool(rng, allow_fail=False)
  d, names = b.folder(pl, fail=rng.random() < .1, big=16 if deep else 6)
  if rng.random() < .04:                        # many small files
    for k in range(rng.choice([9, 17, 33, 65, 130])):
      f = f'{d}/{rng.choice(["", "n", "K.", "."])}{k}'
      b.sc['files'][f] = to_segs(rng, [rng.choice(pl)] if rng.random() < .3 else [])
      names.append(f)
  if rng.random() < .12:
    b.sc['dirs'].append(f'{d}/sub')
    if rng.random() < .5:
      b.sc['files'][f'{d}/sub/inner'] = to_segs(rng, [rng.choice(pl)])
  if rng.random() < .12:
    b.sc['files']['outside'] = to_segs(rng, file_lines(rng, 2, pl))
    b.sc['files'][f'{d}/link'] = 'outside'
    names.append(f'{d}/link')
  ops = []
  for _ in range(rng.choice([1, 1, 2])):
    o = {'op': 'read_folder', 'path': d, 'order': rng.getrandbits(16), 'form': rng.choice(['abs', 'abs', 'rel', 'slash', 'path'])}
    r = rng.random()
    if r < .12:
      o['faults'] = [{'k': 'list', 'n': rng.randrange(0, len(names) + 2), 'err': rng.choice(['EIO', 'ESTALE', 'EACCES'])}]
    elif r < .24 and names:
      o['faults'] = [{'k': 'vanish', 'name': rng.choice(names).split('/')[1]}]
    elif r < .45:
      f = hard_fault(rng)
      if f['k'] != 'read':
        f['n'] = rng.randrange(0, len(names) + 1)
      o['faults'] = [f]
    ops.append(o)
  if rng.random() < .06:
    ops.insert(0, missing(rng, b, ('read_folder',)))
  if any(f['k'] == 'vanish' for o in ops for f in o.get('faults', ())):
    ops = ops[:next(i for i, o in enumerate(ops) if any(f['k'] == 'vanish' for f in o.get('faults', ()))) + 1]
  if rng.random() < .1 and names:
    f = rng.choice(names)
    if isinstance(b.sc['files'][f], list) and b.sc['files'][f]:
      segs = b.sc['files'][f]
      i = rng.randrange(len(segs))
      segs[i] = segs[i][:5] + '\xff' + segs[i][5:]
      b.sc['damage'] = ['undecodable']
  b.sc['clients'] = [ops]
  if rng.random() < .2 and not any('faults' in o and any(f['k'] == 'vanish' for f in o['faults']) for o in ops):
    b.sc['clients'].append([{'op': 'read_folder', 'path': d, 'order': rng.getrandbits(16)}])
  b.sc['io'] = io_knobs(rng, b.nbytes())
  b.sc['sched'] = schedule(rng, len(b.sc['clients']), 2500)
  b.sc['trace'] = 'line' if len(b.sc['clients']) > 1 else 'none'
  return b.sc


def c09(rng, deep):
  b = threads(rng, 'C09', ['parse'] * 3 + ['rec'] * 4 + ['read_file'] * 2 + ['search'] * 2, deep)
  if rng.random() < .5:
    b.sc['trace'] = 'none'
    b.sc['sched'] = {'mode': 'seam', 'p': rng.choice([.2, .5, .8]), 'seed': rng.getrandbits(31)}
  return b.sc


def c10(rng, deep):
  b = Build(rng, 'C10')
  pl = pool(rng)
  b.basic_files(pl, big=6)
  if rng.random() < .2:
    b.folder(pl, n=2, big=3)
  kinds = ['parse'] * 2 + ['rec'] * 2 + ['read_file'] * 3 + ['search'] * 2 + ['sread', 'look'] + \
      (['read_folder'] if b.sc['dirs'] else [])
  n = rng.choice([1, 1, 1, 2, 2, 3])
  for _ in range(n):
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
      o = b.op(kinds, pl)
      if rng.random() < .7:
        o['faults'] = [int_fault(rng, ops_lines(b.sc, o), 'path' in o)]
      ops.append(o)
      if rng.random() < .5:                     # the same call again, undisturbed
        ops.append({k: v for k, v in o.items() if k != 'faults'})
    ops.append(b.op(kinds, pl))
    b.sc['clients'].append(ops)
  b.sc['sched'] = schedule(rng, n, 2000)
  b.sc['trace'] = 'line'
  b.sc['io'] = io_knobs(rng, b.nbytes()) if rng.random() < .3 else {}
  return b.sc


def damage(rng, data, kinds):
  """Damage stored bytes; returns (bytes, kind)."""
  k = rng.choice(kinds)
  n = len(data)
  if n == 0:
    return data, 'none'
  i = rng.randrange(n)
  if k == 'bitflip':
    for _ in range(rng.choice([1, 1, 2, 5])):
      i = rng.randrange(n)
      data = data[:i] + bytes([data[i] ^ (1 << rng.randrange(7))]) + data[i + 1:]
  elif k == 'highbit':
    data = data[:i] + bytes([data[i] ^ 0x80]) + data[i + 1:]
  elif k == 'overwrite':
    m = min(rng.choice([1, 2, 4, 8, 30, 140]), n - i)
    pat = rng.choice([b'*', b'0', b' ', b'Z', b'9', b'-', b'\t', b'.', b'E', b'A'])
    junk = bytes(rng.randrange(32, 127) for _ in range(m)) if rng.random() < .4 else pat * m
    data = data[:i] + junk + data[i + m:]
  elif k == 'zero':
    m = min(rng.choice([1, 4, 16, 64, 512]), n - i)
    data = data[:i] + b'\0' * m + data[i + m:]
  elif k == 'bom':
    j = data.rfind(b'\n', 0, i) + 1
    data = data[:j] + rng.choice([b'\xef\xbb\xbf', b'\xe2\x80\x8b', b'\0', b'\x1a', b'\x7f']) + data[j:]
  elif k == 'torn':
    data = data[:i]
  elif k == 'join':
    j = data.find(b'\n', i)
    if j >= 0:
      data = data[:j] + data[j + 1:]
  elif k == 'split':
    data = data[:i] + rng.choice([b'\n', b'\r\n', b'\r']) + data[i:]
  elif k == 'dup':
    m = min(rng.choice([1, 3, 133, 132, 266, 40]), n - i)
    data = data[:i] + data[i:i + m] + data[i:]
  elif k == 'delete':
    m = rng.choice([1, 1, 2, 9, 132, 133])
    data = data[:i] + data[i + m:]
  elif k == 'shift':                            # a blank slips in before or inside a record
    data = data[:i] + rng.choice([b' ', b'  ', b'\x0c', b'\x1c', b'\x0b']) + data[i:]
  elif k == 'field':                            # one column of one record becomes something else
    ls = data.split(b'\n')
    r = rng.randrange(len(ls))
    if len(ls[r]) > 20:
      c = rng.randrange(len(ls[r]))
      ls[r] = ls[r][:c] + bytes([rng.choice(b'0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ -*#.+_/')]) + ls[r][c + 1:]
    data = b'\n'.join(ls)
  elif k == 'swap':
    j = rng.randrange(n)
    i, j = min(i, j), max(i, j)
    m = min(rng.choice([4, 64, 133]), j - i, n - j)
    data = data[:i] + data[j:j + m] + data[i + m:j] + data[i:i + m] + data[j + m:]
  return data, k


DAMAGE = ['bom', 'bitflip', 'bitflip', 'overwrite', 'overwrite', 'zero', 'torn', 'join', 'split', 'dup', 'delete', 'shift', 'swap',
          'field', 'field']


JUNK = ['*', '#', ' ', '0', '9', 'Z', 'A', 'x', '-', '.', '\t', '/', 'é', 'Ж', '٣']


def hit_field(rng):
  """A record one of whose fields was overwritten with something it does not expect."""
  if rng.random() < .5:
    i, v, f = rng.choice(BY_NO[rng.choice(sorted(BY_NO))])
  else:
    i, v = rng.choice(gen.VARIANTS)
    e = model.SECTIONS[i]
    f = rng.choice(model.POOL[e['primary'] if v == 'primary' else e['default'] if v == 'default' else e['apps'][v]])
  b = list(gen.record(rng, i, v))
  cols = [c for a, z in f[1] for c in range(a, z)]
  if not cols:
    return ''.join(b)
  j = rng.choice(JUNK[:12]) if rng.random() < .95 else rng.choice(JUNK)
  how = rng.random()
  if how < .08:
    t = rng.choice(['NAN', 'INF', '1E9', '1_1', '0X1', '-1', '+5', '-0', '--', 'N', 'S', 'E', 'W', 'T', 'M', 'U', 'A1', '1A', '%s', '{}', "'"])
    t = rng.choice([t.ljust(len(cols)), t.rjust(len(cols)), t.ljust(len(cols), '0'), t.rjust(len(cols), '0'),
                    t.ljust(len(cols), '9')])
    for c, x in zip(cols, t):
      b[c] = x
  elif how < .35:
    for c in cols:
      b[c] = j
  elif how < .7:
    b[rng.choice(cols)] = j
  elif how < .85:
    b[cols[0]] = j
  else:
    for c in cols:
      b[c] = rng.choice(gen.AN + ' *-')
  return ''.join(b)


def c11(rng, deep):
  b = Build(rng, 'C11')
  if rng.random() < .4:                         # one damaged field per record, many records
    b.sc['damage'] = []
    ops = []
    for _ in range(rng.choice([4, 10, 25])):
      l = hit_field(rng)
      b.sc['damage'].append('field')
      ops.append({'op': 'parse', 'line': l, 'out': rng.choice([True, False])})
    b.sc['clients'] = [ops]
    b.sc['trace'] = 'none'
    return b.sc
  pl = pool(rng, allow_fail=rng.random() < .3)
  lines = file_lines(rng, rng.choice([1, 2, 3, 4, 6, 10]), pl, pad=.05)
  data = ''.join(to_segs(rng, lines)).encode('latin-1')
  ks = DAMAGE + (['highbit'] if rng.random() < .15 else [])
  done = []
  for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 5])):
    data, k = damage(rng, data, ks)
    done.append(k)
  b.sc['damage'] = done
  b.sc['files']['f0'] = data.decode('latin-1').splitlines(True) if False else [
      x for x in data.decode('latin-1').replace('\n', '\n\0SPLIT').split('\0SPLIT') if x]
  ops = [{'op': 'read_file', 'path': 'f0', 'out': rng.choice([True, None, None])}]
  if rng.random() < .3:
    ops.append({'op': 'search', 'path': 'f0', 'filters': filters(rng, lines)})
  try:
    text = data.decode('utf-8')
    for l in text.replace('\r\n', '\n').replace('\r', '\n').split('\n')[:10]:
      if rng.random() < .7:
        ops.append({'op': 'parse', 'line': l, 'out': True} if rng.random() < .6 else
                   {'op': 'rec', 'line': l, 'steps': looks(rng)})
  except UnicodeDecodeError:
    pass
  rng.shuffle(ops)
  b.sc['clients'] = [ops]
  b.sc['io'] = io_knobs(rng, len(data)) if rng.random() < .3 else {}
  b.sc['trace'] = 'none'
  return b.sc


YEARS = [0, 1, 3e8, 631152000, 946684799, 946684800, 1e9, 1.6e9, 1735689599, 2e9, 2147483647, 2147483648, 2524607999,
         2524608000, 2556143999, 4102444800, 7258118400, 3e10]
ENVS = {'TZ': [None, 'UTC', 'Pacific/Kiritimati', 'America/New_York', 'XYZ+23', 'Asia/Kolkata'],
        'COLUMNS': [None, '20', '80', '400', '0'], 'LINES': [None, '3'],
        'NO_COLOR': [None, '1', ''], 'FORCE_COLOR': [None, '1'], 'TERM': [None, 'dumb', 'xterm-256color'],
        'HOME': [None, '/nonexistent', '/'], 'USER': [None, 'nobody'], 'DEBUG': [None, '1', 'true'],
        'VERBOSE': [None, '1'], 'CI': [None, '1'], 'PYTHONIOENCODING': [None, 'latin-1'], 'LANGUAGE': [None, 'de']}


def c12(rng, deep, env_keys=()):
  b = Build(rng, 'C12')
  pl = pool(rng) + pool(rng)
  if rng.random() < .3:
    l, c = gen.record(rng), rng.randrange(13, 120)
    pl.append(l[:c] + rng.choice('éÅñß°€') + l[c + 1:])
  b.add_file(file_lines(rng, rng.choice([1, 3, 6]), pl))
  b.folder(pl, n=1, big=3)
  kinds = ['parse'] * 4 + ['rec'] * 4 + ['read_file', 'search', 'search', 'read_folder']
  b.sc['clients'] = [[b.op(kinds, pl) for _ in range(rng.randrange(2, 8))]]
  b.sc['trace'] = rng.choice(['none', 'line'])
  b.sc['clock'] = {'start': rng.choice(YEARS), 'tick': rng.choice([0, 1e-6, 1, 3600, 86400 * 30]),
                   'jumps': [[rng.randrange(1, 800), rng.choice([-1, 1]) * rng.choice([1, 3600, 86400, 3e7, 1e9])]
                             for _ in range(rng.randrange(0, 4))]}
  env = {k: rng.choice(v) for k, v in ENVS.items() if rng.random() < .4}
  for k in env_keys:
    if rng.random() < .7:
      env[k] = rng.choice([None, '', '0', '1', 'true', 'false', 'no', 'xyz', '7', 'latin-1', 'dumb', 'NONE'])
  b.sc['env'] = env
  b.sc['random'] = rng.getrandbits(16)
  b.sc['tty'] = rng.random() < .3
  b.sc['enc'] = rng.choice(['utf-8', 'utf-8', 'ascii', 'cp1252'])
  b.sc['term'] = rng.choice([None, [20, 5], [80, 24], [400, 100]])
  b.sc['cwd'] = rng.choice(['', '', 'd0'])
  for o in b.sc['clients'][0]:
    if 'path' in o and 'form' not in o and rng.random() < .3:
      o['form'] = 'rel'
  if rng.random() < .1:
    b.sc['clients'][0].insert(rng.randrange(len(b.sc['clients'][0])), {'op': 'chdir', 'path': rng.choice(['', 'd0'])})
  return b.sc


def any_fault(rng, b, o):
  k = rng.choice(['hard', 'sink', 'int']) if o['op'] in ('read_file', 'search', 'read_folder') else \
      rng.choice(['sink', 'int'])
  return hard_fault(rng) if k == 'hard' else sink_fault(rng) if k == 'sink' else int_fault(rng, ops_lines(b.sc, o), 'path' in o)


def c13(rng, deep):
  b = Build(rng, 'C13')
  if rng.random() < .15:                        # cost grows with the input only
    ls = file_lines(rng, rng.choice([8, 16, 24]), pool(rng, allow_fail=False), pad=0)
    b.sc['files']['small'] = to_segs(rng, ls, final=True, le=['\n'])
    b.sc['files']['large'] = to_segs(rng, ls * 6, final=True, le=['\n'])
    fl = filters(rng, ls)
    b.sc['clients'] = [[dict(o, path=p) for o in ({'op': 'read_file', 'out': False}, {'op': 'search', 'filters': fl})
                        for p in ('small', 'large')]]
    b.sc['scale'] = [[0, 1], [2, 3]]
    b.sc['trace'] = 'line'
    return b.sc
  pl = pool(rng)
  b.basic_files(pl, big=8)
  if rng.random() < .2:
    b.folder(pl, n=2, big=3)
  kinds = ['parse'] * 2 + ['rec'] * 2 + ['read_file'] * 4 + ['search'] * 3 + ['sread'] + \
      (['read_folder'] * 2 if b.sc['dirs'] else [])
  n = rng.choice([1, 1, 1, 2])
  for _ in range(n):
    bad, good = [], []
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
      o = b.op(kinds, pl)
      bad.append(dict(o, faults=[any_fault(rng, b, o)]))
      if rng.random() < .6:
        good.append(o)
    good.append(b.op(kinds, pl))
    rng.shuffle(good)
    if n == 1 and rng.random() < .2:
      bad.append({'op': 'console'})
    if rng.random() < .3:
      ops = [x for p in zip(bad, good) for x in p] + good[len(bad):]
    else:
      ops = bad + good
    b.sc['clients'].append(ops)
  b.sc['sched'] = schedule(rng, n, 2000)
  b.sc['io'] = io_knobs(rng, b.nbytes()) if rng.random() < .4 else {}
  b.sc['trace'] = 'line'
  return b.sc


def c14(rng, deep):
  b = Build(rng, 'C14')
  pl = pool(rng)
  b.basic_files(pl, big=6)
  b.folder(pl, n=rng.choice([0, 1, 2]), big=3)
  kinds = ['parse'] * 2 + ['rec'] * 2 + ['read_file'] * 3 + ['search'] * 3 + ['read_folder'] * 2
  if rng.random() < .2:
    segs = b.sc['files'][rng.choice(sorted(b.sc['files']))]
    segs.insert(rng.randrange(len(segs) + 1), rng.choice(['\xff', '\xc3\x28\n', '\x80\x80']))
    b.sc['damage'] = ['undecodable']
  if rng.random() < .06:                        # many records
    ls = [l for l in (gen.record(rng) for _ in range(rng.choice([30, 70, 300]))) if not fails(l)]
    b.sc['files']['many'] = merge_segs(to_segs(rng, ls))
    b.sc['clients'] = [[{'op': 'search', 'path': 'many', 'filters': rng.choice(['', [], 'S', ['0']])},
                        {'op': 'read_file', 'path': 'many', 'out': False}]]
    b.sc['trace'] = 'none'
    b.sc['ambient'] = True
    return b.sc
  n = rng.choice([1, 1, 2, 2, 3])
  for _ in range(n):
    ops = []
    for _ in range(rng.randrange(1, 4)):
      o = b.op(kinds, pl) if rng.random() < .93 else missing(rng, b, ('read_file', 'search', 'read_folder'))
      if rng.random() < .4:
        f = any_fault(rng, b, o)
        if f['k'] != 'int':
          o['faults'] = [f]
        if o['op'] == 'read_folder' and rng.random() < .3:
          o['faults'] = [{'k': 'list', 'n': rng.randrange(0, 3), 'err': 'EIO'}]
      ops.append(o)
    b.sc['clients'].append(ops)
  if n > 1:
    b.sc['clients'].append([{'op': 'probe'} for _ in range(rng.randrange(2, 7))])
  n = len(b.sc['clients'])
  b.sc['sched'] = schedule(rng, n, 1500)
  b.sc['trace'] = 'line' if n > 1 else 'none'
  b.sc['ambient'] = True
  return b.sc


def c15(rng, deep):
  b = Build(rng, 'C15')
  pl = [l for l in pool(rng) + [gen.record(rng)] if model.spec(l).read == 'ok']
  if rng.random() < .3:
    l = gen.failing(rng)
    if model.spec(l).read == 'ok':
      pl.append(l)
  keep = rng.sample(pl, min(len(pl), rng.choice([1, 1, 2])))
  b.sc['shared'] = {str(i): l for i, l in enumerate(keep)}
  n = rng.choice([1, 1, 2, 2, 2, 3, 4])
  for _ in range(n):
    ops = []
    for _ in range(rng.choice([1, 2, 2, 3, 5]) if n > 1 else rng.randrange(2, 12)):
      o = {'op': 'obs', 'slot': rng.choice(list(b.sc['shared'])), 'steps': looks(rng)}
      if rng.random() < .15:
        o['faults'] = [sink_fault(rng)]
        o['faults'][0]['n'] = rng.randrange(0, 3)
      ops.append(o)
      if rng.random() < .1:
        ops.append(b.op(['parse', 'rec'], pl))
    b.sc['clients'].append(ops)
  b.sc['trace'] = rng.choice(['line', 'line', 'op']) if n > 1 else 'none'
  b.sc['sched'] = schedule(rng, n, 700 * n * (5 if b.sc['trace'] == 'op' else 1))
  return b.sc


def closed(segs):
  """Every line complete."""
  return [x if x.endswith('\n') else x + '\n' for x in segs if x]


def c21(rng, deep):
  """Readers while another program replaces the files by new editions, or adds lines to them."""
  b = Build(rng, 'C21')
  pl = pool(rng, allow_fail=rng.random() < .3)
  k = rng.choice(['file', 'file', 'file', 'folder'])
  if k == 'folder':
    d, names = b.folder(pl, n=rng.choice([1, 2, 2, 3]), big=5)
  else:
    names = [b.add_file(file_lines(rng, rng.choice([1, 2, 3, 4, 6, 10]), pl)) for _ in range(rng.choice([1, 1, 2]))]
  for f in names:
    b.sc['files'][f] = closed(b.sc['files'][f])
  now = {f: b.sc['files'][f] for f in names}
  ops = []
  for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
    f = rng.choice(names)
    o = {'op': rng.choice(['replace', 'replace', 'append']), 'path': f}
    if o['op'] == 'append':
      o['segs'] = closed(to_segs(rng, file_lines(rng, rng.choice([1, 1, 2, 3]), pl)))
      now[f] = now[f] + o['segs']
    else:
      new = list(now[f])
      r = rng.random()
      if r < .25:
        rng.shuffle(new)
      elif r < .45 and new:                     # one line differs
        new[rng.randrange(len(new))] = closed(to_segs(rng, [rng.choice(pl) or ' '], final=True))[0]
      elif r < .6 and new:
        del new[rng.randrange(len(new))]
      elif r < .7:
        new = new * 2
      else:
        new = closed(to_segs(rng, file_lines(rng, rng.choice([0, 1, 2, 3, 5, 8]), pl)))
      o['segs'] = now[f] = new
    ops.append(o)
  for _ in range(rng.choice([1, 1, 2])):
    rd = []
    for _ in range(rng.choice([1, 1, 2, 3])):
      if k == 'folder' and rng.random() < .7:
        rd.append({'op': 'read_folder', 'path': d, 'order': rng.getrandbits(16)})
      elif rng.random() < .5:
        rd.append({'op': 'read_file', 'path': rng.choice(names), 'out': rng.choice([True, None, None])})
      else:
        rd.append({'op': 'search', 'path': rng.choice(names), 'filters': filters(rng, pl)})
    b.sc['clients'].append([dict(o, cap=400000) for o in rd])
  b.sc['clients'].append(ops)
  n = len(b.sc['clients'])
  b.sc['io'] = io_knobs(rng, b.nbytes())
  if rng.random() < .6:
    b.sc['sched'] = {'mode': 'seam', 'p': rng.choice([.2, .5, .8]), 'seed': rng.getrandbits(31)}
    b.sc['trace'] = 'none'
  else:
    b.sc['sched'] = schedule(rng, n, 2000)
    b.sc['trace'] = 'line'
  b.sc['versions'] = True
  return b.sc


def nest_fault(rng, b, kinds, pl, o, depth=0):
  at = rng.choices(['code', 'touch', 'sink', 'read', 'open'], [5, 4, 3, 2 if 'path' in o else 0, 1 if 'path' in o else 0])[0]
  n = int(2 ** (rng.random() * 3)) - 1
  if at == 'touch':
    n = int(2 ** (rng.random() * 5.3))
  if at == 'code':
    m = 60 * ops_lines(b.sc, o) + 30
    n = max(1, int(m ** rng.random())) if rng.random() < .6 else rng.randrange(1, m)
  p = dict(b.op(kinds, pl))
  p.pop('slot', None)
  if rng.random() < .15 and depth < 2:
    p['faults'] = [nest_fault(rng, b, kinds, pl, p, depth + 1)]
  elif rng.random() < .1:
    p['faults'] = [hard_fault(rng) if 'path' in p else sink_fault(rng)]
  return {'k': 'nest', 'at': at, 'n': n, 'op': p}


def c22(rng, deep):
  b = Build(rng, 'C22')
  two = rng.random() < .5
  pl = rivals(rng, 3) if two else pool(rng)
  b.basic_files(pl, big=5)
  if rng.random() < .15:
    b.folder(pl, n=2, big=3)
  kinds = ['parse'] * 3 + ['rec'] * 4 + ['read_file'] * 2 + ['search'] * 2 + (['read_folder'] if b.sc['dirs'] else [])
  for _ in range(rng.choice([1, 1, 1, 2])):
    ops = []
    for _ in range(rng.choice([1, 2, 2, 3])):
      o = b.op(kinds, pl)
      o.pop('slot', None)
      if rng.random() < .85:
        o['faults'] = [nest_fault(rng, b, kinds, pl, o) for _ in range(rng.choice([1, 1, 2, 3]))]
      ops.append(o)
    b.sc['clients'].append(ops)
  n = len(b.sc['clients'])
  b.sc['sched'] = schedule(rng, n, 1500)
  b.sc['trace'] = 'line'
  b.sc['io'] = io_knobs(rng, b.nbytes()) if rng.random() < .3 else {}
  return b.sc


def c24(rng, deep):
  """Processes forked while calls are under way, in this or in other threads."""
  b = Build(rng, 'C24')
  pl = rivals(rng, 3) if rng.random() < .5 else pool(rng)
  b.basic_files(pl, big=5)
  if rng.random() < .15:
    b.folder(pl, n=2, big=3)
  kinds = ['parse'] * 3 + ['rec'] * 4 + ['read_file'] * 2 + ['search'] * 2 + (['read_folder'] if b.sc['dirs'] else [])
  n = rng.choice([1, 2, 2, 2, 3])
  if rng.random() < .08:                        # a crowd at one place
    n, kinds = rng.choice([4, 5, 6]), [rng.choice(kinds)]
  for t in range(n):
    ops = []
    for _ in range(rng.choice([1, 1, 2])):
      o = b.op(kinds, pl)
      o.pop('slot', None)
      if rng.random() < (.85 if t == 0 else .4):
        f = nest_fault(rng, b, kinds, pl, o, 2)
        f['k'] = 'fork'
        if rng.random() < .3:
          f['op'] = {k: v for k, v in o.items() if k != 'faults'}
        o['faults'] = [f]
      ops.append(o)
    b.sc['clients'].append(ops)
  b.sc['trace'] = 'line'
  b.sc['sched'] = schedule(rng, n, 800 * n)
  return b.sc


def c23(rng, deep):
  """The same few calls, faults included, many times over."""
  b = Build(rng, 'C23')
  pl = pool(rng)
  b.basic_files(pl, big=4)
  if rng.random() < .3:
    b.folder(pl, n=2, big=3)
  kinds = ['parse'] * 2 + ['rec'] * 2 + ['read_file'] * 2 + ['search'] * 2 + (['read_folder'] * 2 if b.sc['dirs'] else [])
  ops, ints = [], rng.random() < .3
  if not ints and rng.random() < .5:            # many different records in each round
    b.sc['files']['many'] = to_segs(rng, rivals(rng, 6) + pool(rng) + [gen.unsupported(rng), gen.record(rng), gen.record(rng)])
    ops.append({'op': rng.choice(['read_file', 'search']), 'path': 'many', 'out': rng.choice([None, False]), 'filters': filters(rng, pl)})
  for _ in range(rng.choice([1, 2, 2, 3])):
    o = b.op(kinds, pl)
    o.pop('slot', None)
    if rng.random() < .5:
      f = any_fault(rng, b, o)
      if f['k'] != 'int' or ints:
        o['faults'] = [f]
    ops.append(o)
  if rng.random() < .1:
    ops.append(missing(rng, b, ('read_file', 'search', 'read_folder')))
  b.sc['clients'] = [ops]
  b.sc['io'] = io_knobs(rng, b.nbytes()) if rng.random() < .3 else {}
  b.sc['trace'] = 'line' if any(f['k'] == 'int' and f['at'] == 'code' for o in ops for f in o.get('faults', ())) else 'none'
  b.sc['rounds'] = [2, 4, 8, 16]
  return b.sc


GENERATORS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09,
              'C10': c10, 'C11': c11, 'C12': c12, 'C13': c13, 'C14': c14, 'C15': c15, 'C21': c21, 'C22': c22, 'C23': c23, 'C24': c24}


def scenario(prop, seed, deep=False, env_keys=(), stratum=0):
  global STRATUM, PROP
  STRATUM, PROP = stratum, prop
  rng = random.Random(seed)
  sc = c12(rng, deep, env_keys) if prop == 'C12' else GENERATORS[prop](rng, deep)
  sc['seed'] = seed
  return sc
