"""Small executable reference model of one ARINC-424 line.

`spec(line)` says what a fresh reader must do with one line of text: reject it,
report an error, or produce a table / JSON.  It is written from the captured
data in layouts.json and tables.json, shares no code with the library, keeps no
state, and does no I/O.  PrettyTable (a pinned third-party dependency) is used
for the table's box drawing only.
"""
import json
import os
import string

from prettytable import PrettyTable

_HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(_HERE, 'layouts.json'), encoding='utf-8') as _f:
  _L = json.load(_f)
SECTIONS, POOL = _L['sections'], _L['pool']
with open(os.path.join(_HERE, 'tables.json'), encoding='utf-8') as _f:
  TAB = json.load(_f)

UNK = '<UNKNOWN>'


class Bad(Exception):
  """The model's 'this is a ValueError in the library'."""


def _num(s):
  try:
    return float(s)
  except ValueError:
    raise Bad()


def _feet(v, ctx):
  return v.lstrip('0') + ' ft' if v.isnumeric() else v


def _alnum4(v, ctx):
  v = v.strip()
  if v and (not v.isalnum() or len(v) > 4):
    raise Bad()
  return v


def _f002(v, ctx):
  if v not in ('S', 'T'):
    raise Bad()
  return {'S': 'Standard', 'T': 'Tailored'}[v]


def _f007(v, ctx):
  i = ctx['ident']
  i = {'HD': 'PD', 'HE': 'PE', 'HF': 'PF'}.get(i, i)
  return TAB.get('007' + i, {}).get(v, UNK)


def _f008(v, ctx):
  if not v.strip().isalnum():
    raise Bad()
  return v


def _f012(v, ctx):
  t = {1: 'MSA Table, TAA Table, Cruise Table', 2: 'VHF Navaid Limitation Continuation Records',
       3: 'SID/STAR/Approach and Company Routes',
       4: 'Enroute Airways, Preferred Routes, FIR/UIR, and Restrictive Airspace'}.get(len(v.strip()))
  return f'{t} - Sequence No. {v}' if t else v


def _f016(v, ctx):
  return {'0': 'Primary Record', '1': 'Primary Record (with Cont.)'}.get(v, v + ' - Continuation')


def _f017(v, ctx):
  return '\n'.join(t for t in (TAB['017_%d' % i].get(v[i]) for i in range(4)) if t)


def _f020(v, ctx):
  d = {'R': 'Right', 'L': 'Left', 'E': 'Either', ' ': 'Either'}
  if v not in d:
    raise Bad()
  return d[v]


def _f021(v, ctx):
  v = v.strip()
  if v and not v.isalpha():
    raise Bad()
  return TAB['021'].get(v, UNK) if v else v


def _f022(v, ctx):
  v = v.strip()
  if v and not v.isalpha():
    raise Bad()
  return v


def _f026(v, ctx):
  v = _alnum4(v, ctx)
  return v if not v or v.endswith('T') else '{:.1f}'.format(_num(v) / 10)


def _f027(v, ctx):
  v = v.strip()
  if not v:
    return v
  return '{:.1f} min'.format(_num(v[1:]) / 10) if v[0] == 'T' else '{:.1f} nm'.format(_num(v) / 10)


def _int(s):
  try:
    return int(s)
  except ValueError:
    raise Bad()


def _f032(v, ctx):
  return '{}{}, Release {}'.format('19' if _int(v[:2]) > 50 else '20', v[:2], v[2:])


def _f034(v, ctx):
  v = v.strip()
  if not v:
    return v
  if not v.isnumeric():
    ctx['diag'].append(f'Unsupported VOR/NDB Frequency: "{v}"\n')
    ctx['diag'].append(f'from record type "{ctx["ident"]}": "{ctx["raw"]}"\n')
    raise Bad()
  return '{:.2f}'.format(_num(v) / 100)


def _f039(v, ctx):
  return v if not v.strip() else '{:03} {}'.format(_int(v[1:]), v[0])


def _f042(v, ctx):
  t = TAB['042_0'].get(v[0])
  if t is not None:
    return t + v[1:] if v[0] == 'N' else t
  return TAB['042_1'].get(v[1], 'Unknown Waypoint Type')


def _hundredths(v, ctx):
  return '{:.2f}'.format(_num(v) / 100) if v.isnumeric() else 'BAD VALUE'


def _tenths(v, ctx):
  return _num(v) / 10 if v.isnumeric() else 'BAD VALUE'


def _f054(v, ctx):
  return v.lstrip('0') + '00 ft' if v.isnumeric() else v


def _f065(v, ctx):
  if not v.strip():
    return None
  try:
    return '{}m {}s'.format(int(v[0]), int(v[1]) * 6)
  except ValueError as e:
    ctx['diag'].append(f'Error: Invalid value passed to format_time. Value: "{v}". Error: {e}\n')
    return f'Invalid Value: "{v}"'


def _f072(v, ctx):
  if v.isnumeric():
    return v + ' knots (IAS)'
  if v.strip():
    raise Bad()
  return v


def _f082(v, ctx):
  d = {'B': 'HI and LO Altitude', 'H': 'HI Altitude', 'L': 'LO Altitude', ' ': 'Terminal Use Only'}
  if v[1] in d:
    return d[v[1]]
  if v[0] != 'R':
    raise Bad()
  return 'RNAV'


def _f118(v, ctx):
  t = TAB['118'].get(v[0])
  if t is None:
    ctx['diag'].append(f'Unsupported Boundary Via: "{v}"\n')
    return f'Unsupported Value: "{v}"'
  return t + (', End of description, return to origin point' if v[1] == 'E' else '')


def _f178(v, ctx):
  if not (v[0].isalpha() and v[1:].isnumeric()):
    return f'Unsupported Value: "{v}"'
  x = string.ascii_uppercase.find(v[0]) - 12
  if x == -13:
    raise Bad()
  return 'GMT {}{}:{}'.format('+' if x >= 0 else '-', x, v[1:])


def _f196(v, ctx):
  return TAB['196_0'].get(v[0]) or TAB['196_1'].get(v[1], 'Unknown Name Format Indicator')


def _f269(v, ctx):
  return _num(v) / 10 if v.strip() else v


def _strict(d):
  def f(v, ctx):
    if v not in d:
      raise Bad()
    return d[v] if d[v] is not None else v
  return f


def _soft(d, default=None):
  def f(v, ctx):
    return d.get(v, v if default is None else default(v))
  return f


def _unsup(v):
  return f'Unsupported Value: "{v}"'


def _tab(key, blank_ok=False):
  def f(v, ctx):
    if blank_ok and not v.strip():
      return v
    return TAB[key].get(v, UNK)
  return f


DEC = {
    2: _f002, 3: _tab('003'), 4: _tab('004', True), 7: _f007, 8: _f008,
    9: lambda v, c: v if v.strip().isalnum() else None,
    10: lambda v, c: f'Approach: {v[0]}, Runway: {v[1:4]}',
    12: _f012, 16: _f016, 17: _f017, 20: _f020, 21: _f021, 22: _f022, 23: _alnum4, 24: _alnum4, 25: _alnum4,
    26: _f026, 27: _f027, 32: _f032, 34: _f034, 39: _f039, 42: _f042, 43: lambda v, c: v.strip(),
    45: _hundredths, 49: _soft({'@': 'Beyond stop end of runway', '+': 'Ahead of approach end of runway',
                                '-': 'To the side of runway'}),
    54: _f054, 62: _tenths, 65: _f065, 72: _f072, 82: _f082,
    91: _soft(TAB['091'], lambda v: 'Unknown Application Type: ' + v),
    101: _tab('101'), 102: _soft({'R': 'Radar Capabilities', 'N': 'No Radar Capabilities'}), 103: _hundredths,
    104: _tab('104'), 106: _tab('106', True), 108: _strict({'Y': 'Official', 'N': 'Non-official'}),
    112: _soft({'E': 'Elliptical', 'B': 'Bone'}),
    113: _soft({'H': 'High Power (general use)', 'L': 'Low Power (low altitude use)'}),
    117: _soft({'F': 'FIR', 'U': 'UIR', 'B': 'Combined FIR/UIR'}), 118: _f118, 135: _tenths,
    165: _soft({'M': 'Magnetic', 'T': 'True'}),
    177: _soft({'C': 'Public / Civil', 'M': 'Military', 'P': 'Private (not open to public)'}, _unsup), 178: _f178,
    179: _soft({'Y': 'Yes', 'N': 'No'}, _unsup), 181: _tab('181'),
    182: _strict({'G': 'Guard (radio receives on this freq)', 'T': 'Transmit (radio transmits on this freq)',
                  ' ': 'Guards and Transmits'}),
    196: _f196, 198: _tab('198'), 199: _tab('199', True), 269: _f269,
    270: _strict({'I': 'ILS or MLS Glideslope', 'R': 'RNAV Procedure', 'V': 'Visual Glideslope Indicator (VGSI)',
                  'D': 'Default Value (40 or 50 feet)', ' ': None}),
}
for _n in (29, 30, 48, 50, 53, 73, 86, 92, 123, 127, 147, 161, 184, 209, 240):
  DEC[_n] = _feet


class Spec:
  """What a fresh reader does with one line.

  read:   'ok' | 'rej' | 'err'        rdiag: text printed while reading
  dec:    'ok' | 'err' | None         ddiag: text printed while decoding
  table, json1, jsonn, primary, hascont, raw, values
  """
  __slots__ = ('read', 'rdiag', 'dec', 'ddiag', 'table', 'json1', 'jsonn', 'primary', 'hascont', 'raw', 'values')

  def __init__(self, **kw):
    for k in self.__slots__:
      setattr(self, k, kw.get(k))

  def key(self):
    return tuple(getattr(self, k) for k in self.__slots__)

  def __eq__(self, o):
    return self.key() == o.key()

  def diff(self, o):
    return [k for k in self.__slots__ if getattr(self, k) != getattr(o, k)]


def section_of(raw):
  a, b = raw[4:6], raw[4] + raw[12]
  return a if a in SECTIONS else b if b in SECTIONS else None


def layout_of(raw):
  """(ident, continuation, layout | 'rej' | 'err', diag) for a trimmed 132-character line."""
  ident = section_of(raw)
  if ident is None:
    return None, '', 'rej', ''
  e = SECTIONS[ident]
  cont = ''
  if 'cont' in e:
    cont = raw[e['cont']]
    if not cont.isalnum():
      return ident, cont, 'rej', (
          f'Unsupported {e["name"]} Continuation Record Number: "{cont}"\n'
          'Valid Continuation Record Numbers are 0, 1, 2 (through 9) A, B, C (through Z)\n'
          f'Record: {raw}\n')
    if cont in '01':
      return ident, cont, POOL[e['primary']], ''
  lay = e['apps'].get(raw[e['app'][0]:e['app'][1]], e['default'])
  return ident, cont, lay if isinstance(lay, str) else POOL[lay], ''


def render(rows):
  t = PrettyTable(field_names=['Field', 'Value', 'Decoded'])
  t.align = 'l'
  for r in rows:
    t.add_row(r)
  return t.get_string()


def spec(line):
  raw = line.strip()
  if not raw.startswith(('S', 'T')) or len(raw) != 132 or not raw[-9:].isnumeric():
    return Spec(read='rej', rdiag='')
  ident, cont, lay, diag = layout_of(raw)
  if isinstance(lay, str):
    return Spec(read=lay, rdiag=diag)
  ctx = {'ident': ident, 'raw': raw, 'diag': []}
  vals = [(n, ''.join(raw[a:b] for a, b in rng)) for n, rng, _ in lay]
  d = dict(vals)
  s = Spec(read='ok', rdiag=diag, raw=raw, values=vals, primary=cont in ('0', '1'), hascont=cont == '1',
           json1=json.dumps(d), jsonn=json.dumps(d, sort_keys=True, indent=4, separators=(',', ': ')))
  try:
    rows = []
    for (n, v), (_, _, no) in zip(vals, lay):
      f = DEC.get(no)
      rows.append([n, f"'{v}'", f(v, ctx) if f else v])
    s.table, s.dec = render(rows), 'ok'
  except Bad:
    s.dec = 'err'
  s.ddiag = ''.join(ctx['diag'])
  return s
