"""One-off: capture the pinned release's record layouts and code tables as data.

The checks never run this: they read the committed sim/layouts.json and
sim/tables.json.  Re-run it only when a deliberate change of a layout or of a
decoded text makes a new reference necessary (see DESIGN.md).
"""
import io, json, string, sys, contextlib
sys.path.insert(0, '/repo/src')
from arinc424.record import records
from arinc424 import decoder

PRINT = [chr(c) for c in range(32, 127)]


class Probe(str):
  """A line whose slices remember their columns."""
  def __new__(cls, s, idx):
    o = str.__new__(cls, s)
    o.idx = idx
    return o
  def __getitem__(self, k):
    i = self.idx[k]
    return Probe(str.__getitem__(self, k), i if isinstance(i, list) else [i])
  def __add__(self, o):
    return Probe(str.__add__(self, o), self.idx + o.idx)


def probe(defn, chars, primary):
  line = Probe(''.join(chars), list(range(132)))
  try:
    fields = defn.read(line, primary)
  except ValueError:
    return 'err'
  if not fields:
    return 'rej'
  res = []
  for f in fields:
    r = []
    for i in f.value.idx:
      if r and r[-1][1] == i:
        r[-1][1] = i + 1
      else:
        r.append([i, i + 1])
    res.append([f.name, r, int(f.decode_fn.__name__[6:])])
  return res


layouts, pool, index = {}, [], {}


def intern(l):
  if isinstance(l, str):
    return l
  k = json.dumps(l)
  if k not in index:
    index[k] = len(pool)
    pool.append(l)
  return index[k]


for ident, defn in records.items():
  e = {}
  base = [' '] * 132
  if hasattr(defn, 'cont_idx'):
    e['cont'] = defn.cont_idx
    e['name'] = defn.name
    e['primary'] = intern(probe(defn, base, True))
    app = [defn.app_idx, defn.app_idx + 1]
    apps = {}
    for ch in PRINT + ['é']:
      b = list(base); b[defn.app_idx] = ch
      apps[ch] = intern(probe(defn, b, False))
    default = apps['~']
  elif ident == 'EU':
    app = [15, 17]
    apps = {}
    for a in PRINT:
      for c in PRINT:
        b = list(base); b[15] = a; b[16] = c
        apps[a + c] = intern(probe(defn, b, False))
    default = apps['~~']
  else:
    app, apps, default = [0, 0], {}, intern(probe(defn, base, False))
  e['app'] = app
  e['apps'] = {k: v for k, v in apps.items() if v != default}
  e['default'] = default
  layouts[ident] = e

json.dump({'sections': layouts, 'pool': pool}, open('/verif/sim/layouts.json', 'w'), indent=None, separators=(',', ':'))


class Rec:
  def __init__(self, ident):
    self.ident, self.raw = ident, ''


def enum(fn, values, ident='', default=None):
  d = {}
  for v in values:
    with contextlib.redirect_stdout(io.StringIO()):
      try:
        o = fn(v, Rec(ident))
      except ValueError:
        o = None
    d[v] = o
  dflt = d[default]
  return {k: v for k, v in d.items() if v != dflt}, dflt


UP = string.ascii_uppercase
three = [a + b + c for a in UP for b in UP for c in UP] + ['~~~']
two = [a + b for a in PRINT for b in PRINT]
one = PRINT
T = {}
T['003'] = enum(decoder.field_003, three, default='~~~')[0]
T['004'] = {k: v for k, v in enum(decoder.field_004, two, default='~~')[0].items() if k.strip()}
for i in ('ER', 'ET', 'PD', 'PE', 'PF'):
  T['007' + i] = enum(decoder.field_007, one, i, '~')[0]
T['021'] = enum(decoder.field_021, [a + b for a in UP for b in UP], default='QQ')[0]
T['101'] = enum(decoder.field_101, three, default='~~~')[0]
T['106'] = {k: v for k, v in enum(decoder.field_106, [a + b + c for a in ' ' + UP for b in ' ' + UP for c in ' ' + UP] + ['~~~'], default='~~~')[0].items() if k.strip()}
T['104'] = enum(decoder.field_104, one, default='~')[0]
T['198'] = enum(decoder.field_198, one, default='~')[0]
T['199'] = {k: v for k, v in enum(decoder.field_199, one, default='~')[0].items() if k.strip()}
T['181'] = enum(decoder.field_181, one, default='~')[0]
T['091'] = {k: v for k, v in enum(decoder.field_091, one)[0].items() if not v.startswith('Unknown Application')} if False else {c: decoder.field_091(c, None) for c in one if not decoder.field_091(c, None).startswith('Unknown Application')}
for p in range(4):
  T['017_%d' % p] = {c: s for c in one for s in [decoder.field_017('~' * p + c + '~' * (3 - p), None)] if s}
T['042_0'] = {c: s for c in one for s in [decoder.field_042(c + '~~', None)] if s != 'Unknown Waypoint Type'}
T['042_0']['N'] = T['042_0']['N'][:-2]
T['042_1'] = {c: s for c in one for s in [decoder.field_042('~' + c + '~', None)] if s != 'Unknown Waypoint Type'}
T['196_0'] = {c: s for c in one for s in [decoder.field_196(c + '~~', None)] if s != 'Unknown Name Format Indicator'}
T['196_1'] = {c: s for c in one for s in [decoder.field_196('~' + c + '~', None)] if s != 'Unknown Name Format Indicator'}
T['118'] = {c: s for c in 'CGHLR' for s in [decoder.field_118(c + ' ', None)]}
json.dump(T, open('/verif/sim/tables.json', 'w'), indent=1, sort_keys=True)
print(len(pool), 'layouts', {k: len(v) for k, v in T.items()})
