"""Seeded generation of ARINC-424 lines (valid, odd, damaged and non-record)."""
import os

import model

_HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(_HERE, 'corpus.txt'), encoding='utf-8') as _f:
  CORPUS = [l for l in _f.read().split('\n') if len(l) == 132]

UP = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'
DIG = '0123456789'
AN = UP + DIG

# every (section, variant) that a line can take; variant is 'primary' or an application type
VARIANTS = []
for _s, _e in model.SECTIONS.items():
  if 'cont' in _e:
    VARIANTS.append((_s, 'primary'))
  for _a, _l in sorted(_e['apps'].items()):
    if not isinstance(_l, str):
      VARIANTS.append((_s, _a))
  if not isinstance(_e['default'], str):
    VARIANTS.append((_s, 'default'))

# sections whose definitions share a class or whose decoders depend on the section
FAMILIES = [
    ['PD', 'PE', 'PF', 'HD', 'HE', 'HF'], ['ER', 'ET', 'PD', 'PE', 'PF'], ['EA', 'PC', 'HC'], ['DB', 'PN', 'D '],
    ['PS', 'HS', 'PK', 'HK'], ['PV', 'HV', 'EV'], ['UC', 'UF', 'UR'], ['PA', 'HA'], ['PI', 'PL', 'PM', 'PT', 'EM'],
    ['ER', 'EU', 'ET', 'EP'], ['R ', 'RA', 'TC', 'TG', 'AS'], ['PG', 'PP', 'PR', 'PB'], ['EU', 'AS', 'TC', 'PA', 'RA'],
]


def _one(d):
  def f(rng, n):
    return rng.choice(d).ljust(n)[:n]
  return f


def _digits(rng, n):
  return ''.join(rng.choice(DIG) for _ in range(n))


def _text(rng, n):
  k = rng.randrange(0, n + 1)
  return ''.join(rng.choice(AN + ' ') for _ in range(k)).ljust(n)


def _word(rng, n):
  return ''.join(rng.choice(AN) for _ in range(rng.randrange(1, n + 1))).ljust(n)


def _num_or_blank(rng, n):
  return ' ' * n if rng.random() < .3 else _digits(rng, n)


def _alt(rng, n):
  r = rng.random()
  if r < .6:
    return _digits(rng, n)
  if r < .8:
    return ('FL' + _digits(rng, max(0, n - 2)))[:n]
  return rng.choice(['UNKNN', 'GND', 'MSL', 'UNLTD', '']).ljust(n)[:n]


def _magvar(rng, n):
  return ' ' * n if rng.random() < .2 else rng.choice('EWT') + _digits(rng, n - 1)


def _time(rng, n):
  return ' ' * n if rng.random() < .2 else rng.choice(['T', '']).ljust(0) + _digits(rng, n)[:n]


def _f027(rng, n):
  r = rng.random()
  return ' ' * n if r < .2 else 'T' + _digits(rng, n - 1) if r < .4 else _digits(rng, n)


def _f026(rng, n):
  r = rng.random()
  return ' ' * n if r < .2 else _digits(rng, n - 1) + 'T' if r < .3 else _digits(rng, n)


def _pos(*tabs):
  def f(rng, n):
    return ''.join(rng.choice(tabs[i] if i < len(tabs) else ' ') for i in range(n))
  return f


def _tk(*keys, extra=''):
  return [''.join(model.TAB[k]) + extra for k in keys]


_RT = ''.join(sorted({c for k in model.TAB if k.startswith('007') for c in model.TAB[k]}))

GEN = {
    2: _one('ST'), 3: _one(list(model.TAB['003']) + ['ZZZ']),
    4: _one(list(model.TAB['004']) + ['  ', 'QQ']), 7: _one(_RT + ' '), 8: _word, 9: _word, 10: _word, 11: _text,
    12: _num_or_blank, 13: _word, 14: _word, 17: _pos(*_tk('017_0', '017_1', '017_2', '017_3', extra='   ')),
    20: _one('RLE '), 21: _one(list(model.TAB['021']) + ['  ', 'QQ', 'ZX']), 22: _one('Y '), 23: _word,
    24: _num_or_blank, 25: _num_or_blank, 26: _f026, 27: _f027, 34: _num_or_blank, 39: _magvar,
    42: _pos(*_tk('042_0', '042_1', extra='  ')), 49: _one('@+- '), 65: _num_or_blank, 72: _num_or_blank,
    82: _pos('R  ', 'BHL '), 91: _one(''.join(model.TAB['091'])), 101: _one(list(model.TAB['101']) + ['QQQ']),
    102: _one('RN '), 104: _one('HVUC'), 106: _one(list(model.TAB['106']) + ['   ']), 108: _one('YN'),
    112: _one('EB '), 113: _one('HL '), 117: _one('FUB'), 118: _pos('CGHLR', 'E '), 165: _one('MT '), 177: _one('CMP'),
    178: lambda r, n: r.choice(UP) + _digits(r, n - 1), 179: _one('YN'), 181: _one('YN'), 182: _one('GT '),
    196: _pos(*_tk('196_0', '196_1', extra='  ')), 198: _one('AF'), 199: _one(list(model.TAB['199']) + [' ']),
    269: _num_or_blank, 270: _one('IRVD '), 45: _num_or_blank, 62: _num_or_blank, 103: _digits, 135: _num_or_blank,
    54: _num_or_blank, 31: _digits, 32: _digits,
}
for _n in (29, 30, 48, 50, 53, 73, 86, 92, 123, 127, 147, 161, 184, 209, 240):
  GEN[_n] = _alt


def structure(rng, b, ident, variant):
  """Force the columns that make line `b` a record of this section and variant."""
  e = model.SECTIONS[ident]
  b[0] = rng.choice('ST')
  b[4] = ident[0]
  b[132 - 9:] = list(_digits(rng, 9))
  if ident[1] == ' ' or ident in ('DB', 'AS', 'RA', 'TC', 'TG', 'UC', 'UF', 'UR') or ident[0] == 'E':
    b[5] = ident[1]
  else:
    b[5], b[12] = ' ', ident[1]
  if 'cont' in e:
    b[e['cont']] = rng.choice('01') if variant == 'primary' else rng.choice('23456789ABZ')
  if variant == 'default':
    if e['app'][1] > e['app'][0]:
      ok = [c for c in 'XYZ 13' if c not in e['apps']]
      b[e['app'][0]] = rng.choice(ok)
  elif variant != 'primary':
    b[e['app'][0]:e['app'][1]] = list(variant)
  return b


def record(rng, ident=None, variant=None):
  """A well-formed record line of the given (or a random) section and variant."""
  if ident is None:
    ident, variant = rng.choice(VARIANTS)
  elif variant is None:
    variant = rng.choice([v for i, v in VARIANTS if i == ident])
  e = model.SECTIONS[ident]
  lay = model.POOL[e['primary'] if variant == 'primary' else
                   e['default'] if variant == 'default' else e['apps'][variant]]
  b = [' '] * 132
  for _, rngs, no in lay:
    n = sum(z - a for a, z in rngs)
    v = GEN.get(no, _text)(rng, n)
    i = 0
    for a, z in rngs:
      b[a:z] = list(v[i:i + z - a])
      i += z - a
  return ''.join(structure(rng, b, ident, variant))


ODD = 'ABQXZ019 -+/.*~#'


def mutate(rng, line, k=None):
  """Change a few characters of a line, keeping its length."""
  b = list(line)
  for _ in range(k or rng.choice([1, 1, 1, 2, 3])):
    if b:
      b[rng.randrange(len(b))] = rng.choice(ODD)
  return ''.join(b)


def unsupported(rng):
  """132 characters, shaped like a record, but not a supported one."""
  l = record(rng)
  r = rng.random()
  if r < .3:
    return l[:4] + rng.choice(['XX', 'QZ', 'Z ']) + l[6:12] + 'Z' + l[13:]
  if r < .55:
    e = model.SECTIONS[model.section_of(l)]
    if 'cont' in e:
      return l[:e['cont']] + rng.choice(' -*#') + l[e['cont'] + 1:]
  if r < .8:
    s, e = rng.choice([(s, e) for s, e in model.SECTIONS.items() if 'cont' in e and e['default'] == 'rej'])
    l = record(rng, s, 'primary')
    b = list(l)
    b[e['cont']] = '2'
    b[e['app'][0]] = rng.choice([c for c in 'XYZ3' if c not in e['apps']])
    return ''.join(b)
  return rng.choice('ABXU') + l[1:]


def failing(rng):
  """A record that the library reports as an error, in read or in decode."""
  r = rng.random()
  if r < .25:
    s, e = rng.choice([(s, e) for s, e in model.SECTIONS.items() if 'cont' in e and e['default'] == 'err'])
    b = list(record(rng, s, 'primary'))
    b[e['cont']] = '2'
    b[e['app'][0]] = rng.choice([c for c in 'XYZ3' if c not in e['apps']])
    return ''.join(b)
  if r < .4:
    b = list(record(rng, 'EU'))
    b[15:17] = list('XX')
    return ''.join(b)
  for _ in range(50):
    l = record(rng) if r < .9 else rng.choice(CORPUS)
    ident, cont, lay, _d = model.layout_of(l)
    if isinstance(lay, str):
      continue
    strict = [f for f in lay if f[2] in (8, 20, 21, 22, 23, 24, 25, 26, 27, 34, 39, 72, 82, 108, 182, 269, 270)]
    if not strict:
      continue
    b = list(l)
    f = rng.choice(strict)
    for a, z in f[1]:
      for i in range(a, z):
        b[i] = rng.choice('*#!')
    l = ''.join(b)
    s = model.spec(l)
    if s.read == 'err' or s.dec == 'err':
      return l
  return 'SUSAEU' + 'XXXXXXXXXXXXXXX'.ljust(117) + '123456789'


def noise(rng):
  """Not a record at all."""
  r = rng.random()
  if r < .2:
    return ''
  if r < .3:
    return '**Examples from ARINC-424 18 Spec.**'
  if r < .4:
    return rng.choice(['\x1a', '\x1a' * 5, '\x0c', '\x0b', '\0', '#', '# comment', '//', '--', 'EOF', 'END', 'EOD', '.', '<<<<<<< a', '>',
                       '\x04', '"', "'''", '\\', '%', '*', '***', 'TRAILER', 'EOF1', '\x1b[0m', '{', '\ufeff', '\x85', '\u2028', 'S', 'T',
                       'SUSA', 'S' * 132, '9' * 132, ' ' * 132, 'T' + ' ' * 122 + '1' * 9])
  if r < .5:
    return 'HDR' + _text(rng, 129)
  l = record(rng)
  if r < .65:
    return l[:rng.randrange(1, 132)]
  if r < .8:
    return l + rng.choice(['0', 'X', '12', ' 7', 'SUSA'])
  if r < .9:
    return l[:rng.randrange(124, 132)].ljust(131)[:131] + rng.choice('AX -')
  return _text(rng, rng.randrange(1, 140))


def any_line(rng, mix):
  """mix: dict of weights over rec / corpus / mut / unsup / fail / noise / pad."""
  k = rng.choices(list(mix), weights=list(mix.values()))[0]
  if k == 'rec':
    return record(rng)
  if k == 'corpus':
    return rng.choice(CORPUS)
  if k == 'mut':
    return mutate(rng, record(rng) if rng.random() < .5 else rng.choice(CORPUS))
  if k == 'unsup':
    return unsupported(rng)
  if k == 'fail':
    return failing(rng)
  if k == 'pad':
    l = record(rng) if rng.random() < .7 else rng.choice(CORPUS)
    return rng.choice(['', ' ', '  ', '\t', '   ']) + l + rng.choice(['', ' ', '   ', '\t', ' \x0c'])
  return noise(rng)


MIX = {'rec': 10, 'corpus': 4, 'mut': 3, 'unsup': 2, 'fail': 0, 'noise': 2, 'pad': 1}
