"""Workload generators: record kinds, field domains, lines, texts."""
import os
import random
import string

import model
import shapes

PRINT = [chr(i) for i in range(32, 127)]
DIG = string.digits
UP = string.ascii_uppercase
ALNUM = UP + DIG
TEXT = UP + DIG + ' /-.,()&'


class Kind:
  """one way a line can be recognised: section, continuation number, selector"""
  __slots__ = ('section', 'cont', 'sel', 'spec', 'layout', 'layout_name', 'primary')

  def __init__(self, section, cont, sel):
    self.section, self.cont, self.sel = section, cont, sel
    self.spec = model.RECORDS[section]
    self.primary = cont is None or cont in '01'
    if self.primary:
      n = self.spec['primary']
      n = n.get(sel) if isinstance(n, dict) else n
    else:
      n = self.spec['other'].get(sel, self.spec['default'])
    self.layout_name = n
    self.layout = model.LAYOUTS[n] if n else None

  def key(self):
    return (self.section, self.cont, self.sel)

  def __repr__(self):
    return f'{self.section}/{self.cont}/{self.sel}'

  def fixed(self):
    """{column: char} that make a line of this kind"""
    d = {}
    s = self.section
    if s[0] in 'PH' and s != 'PN':
      d.update({4: s[0], 5: ' ', 12: s[1]})
    else:
      d.update({4: s[0], 5: s[1]})
    if self.cont is not None:
      d[self.spec['cont']] = self.cont
    if self.sel is not None and (not self.primary or isinstance(self.spec['primary'], dict)):
      for i, ch in enumerate(self.sel):
        d[self.spec['sel'][0] + i] = ch
    return d

  def selecting(self):
    """columns that take part in recognising the line"""
    cols = {0, 4, 5, 12} | set(range(123, 132))
    if self.cont is not None:
      cols.add(self.spec['cont'])
      if not self.primary or isinstance(self.spec['primary'], dict):
        cols |= set(range(*self.spec['sel']))
    return cols


def kinds(conts_primary='01', conts_other='2', default_sel='QXz '):
  """every accepted (section, continuation number, selector)"""
  out = []
  for s, spec in model.RECORDS.items():
    if spec['cont'] is None:
      out.append(Kind(s, None, None))
      continue
    prim = spec['primary']
    for c in conts_primary:
      if isinstance(prim, dict):
        out += [Kind(s, c, k) for k in prim]
      else:
        out.append(Kind(s, c, None))
    for c in conts_other:
      out += [Kind(s, c, k) for k in spec['other']]
      if spec['default']:
        out += [Kind(s, c, k) for k in default_sel if k not in spec['other']]
  return out


def ndb_q(kind):
  return kind.layout_name == 'DB.P' and not kind.primary


# ------------------------------------------------------------------ domains

def codes(field, section):
  """every defined code of an enumerated field, padded to the field; None otherwise"""
  p, w = field.para, field.width
  if p not in model.CODED:
    return None
  if p == '002':
    c = ['S', 'T']
  elif p == '003':
    c = list(model.AREA)
  elif p == '004':
    c = list(model.SECTION) + ['  ']
  elif p == '007':
    c = list(model.ROUTE.get(section, {}))
  elif p == '016':
    c = list(DIG + UP)
  elif p == '017':
    c = [a + b + d + e for a in ' ' + ''.join(model.DESC[0]) for b in ' ' + ''.join(model.DESC[1])
         for d in ' ' + ''.join(model.DESC[2]) for e in ' ' + ''.join(model.DESC[3])]
  elif p == '020':
    c = list('RLE ')
  elif p == '021':
    c = list(model.LEG) + ['  ']
  elif p == '042':
    c = [a + b + ' ' for a in ''.join(model.WPT1) + 'N' for b in ' ' + ''.join(model.WPT2)]
    c += [' ' + b + ' ' for b in model.WPT2]
  elif p == '049':
    c = list('@+- ')
  elif p == '082':
    c = [a + b for a in ' R' for b in ' BHL'] + ['RZ']
  elif p == '091':
    c = list(model.APPL)
  elif p == '101':
    c = list(model.COMM)
  elif p == '102':
    c = list('RN ')
  elif p == '104':
    c = list(model.UNITS)
  elif p == '106':
    c = list(model.SERVICE) + ['   ']
  elif p == '108':
    c = list('YN')
  elif p == '112':
    c = list('EB ')
  elif p == '113':
    c = list('HL ')
  elif p == '117':
    c = list('FUB ')
  elif p == '118':
    c = [a + b for a in 'CGHLR' for b in ' E']
  elif p == '165':
    c = list('MT ')
  elif p == '177':
    c = list('CMP')
  elif p == '179':
    c = list('YN')
  elif p == '181':
    c = list('YN')
  elif p == '182':
    c = list('GT ')
  elif p == '196':
    c = [a + ' ' for a in model.NAMEIND] + [' O', ' M']
  elif p == '198':
    c = list('AF')
  elif p == '199':
    c = list(model.EMISSION) + [' ']
  elif p == '270':
    c = list('IRVD ')
  else:
    raise KeyError(p)
  c = [x for x in (y.ljust(w)[:w] if len(y) <= w else y for y in c) if len(x) == w]
  return c


def rand_text(rng, w, alphabet=TEXT):
  r = rng.random()
  if r < .15:
    return ' ' * w
  if r < .45:
    k = rng.randint(1, w)
    return ''.join(rng.choice(alphabet) for _ in range(k)).ljust(w)
  if r < .55:
    k = rng.randint(1, w)
    return ''.join(rng.choice(alphabet) for _ in range(k)).rjust(w)
  if r < .65:
    return ''.join(rng.choice(DIG) for _ in range(w))
  return ''.join(rng.choice(alphabet) for _ in range(w))


def rand_digits(rng, w):
  r = rng.random()
  if r < .06:
    return '0' * w
  if r < .1:
    return '9' * w
  if r < .3:
    k = rng.randint(1, w)
    return ''.join(rng.choice(DIG) for _ in range(k)).rjust(w, '0')
  if r < .4:
    k = rng.randint(1, w)
    return ''.join(rng.choice(DIG) for _ in range(k)).ljust(w, '0')
  return ''.join(rng.choice(DIG) for _ in range(w))


def numeric_value(field, section, rng):
  """an allowed value of a numeric field"""
  p, w = field.para, field.width
  if p == '012':
    return rand_digits(rng, w) if rng.random() < .8 else rand_text(rng, w, ALNUM)
  if p == '010':
    return (rng.choice('BDFGHIJLMNPQRSTUVWXY ') + f'{rng.randint(0, 36):02d}' + rng.choice('LRC ')).ljust(w)[:w] \
      if rng.random() < .7 else rand_text(rng, w)
  if p == '026':
    r = rng.random()
    if r < .15:
      return ' ' * w
    if r < .35:
      return rand_digits(rng, w - 1) + 'T'
    return rand_digits(rng, w)
  if p == '027':
    r = rng.random()
    if r < .15:
      return ' ' * w
    if r < .4:
      return 'T' + rand_digits(rng, w - 1)
    return rand_digits(rng, w)
  if p == '032':
    return rand_digits(rng, w)
  if p == '034':
    return ' ' * w if rng.random() < .15 else rand_digits(rng, w)
  if p == '039':
    return ' ' * w if rng.random() < .15 else rng.choice('EWT') + rand_digits(rng, w - 1)
  if p == '065':
    return ' ' * w if rng.random() < .15 else rand_digits(rng, w)
  if p == '072':
    return ' ' * w if rng.random() < .2 else rand_digits(rng, w)
  if p == '178':
    return rng.choice('ABCDEFGHIKLMNOPQRSTUVWXYZ') + rng.choice(['00', '15', '30', '45', rand_digits(rng, 2)])
  if p == '269':
    return ' ' * w if rng.random() < .2 else rand_digits(rng, w)
  if p in ('045', '103', '062', '135'):
    return rand_digits(rng, w) if rng.random() < .9 else rand_text(rng, w, UP + ' ')
  # altitudes and lengths in feet
  r = rng.random()
  if r < .12:
    return ' ' * w
  if r < .2 and w == 5:
    return rng.choice(['FL180', 'FL095', 'UNLTD', 'GND  ', 'UNKNN', 'NOTAM', 'FL450', 'MSL  '])
  if r < .25 and w == 1:
    return rng.choice('+-@BCDGHIJVXY ')
  if r < .28:
    return '-' * min(1, w) + rand_digits(rng, w - 1) if w > 1 else '-'
  return rand_digits(rng, w)


def free_value(field, section, rng):
  """an allowed value of a field shown as it stands"""
  p, w = field.para, field.width
  if p == '008':
    k = rng.randint(0, w)
    return ''.join(rng.choice(ALNUM) for _ in range(k)).ljust(w)
  if p == '022':
    return rng.choice(['Y', ' ', 'N', rng.choice(UP)])
  if p in ('023', '024', '025'):
    if rng.random() < .2:
      return ' ' * w
    k = rng.randint(1, w)
    return ''.join(rng.choice(ALNUM) for _ in range(k)).ljust(w)
  return shapes.text(rng, w) if rng.random() < .15 else rand_text(rng, w)


def valid_value(field, section, rng):
  c = codes(field, section)
  if c is not None:
    if not c:
      return rand_text(rng, field.width, ALNUM)
    return rng.choice(c)
  if field.para in model.NUMERIC:
    return numeric_value(field, section, rng)
  return free_value(field, section, rng)


_CODES = {}


def cached_codes(field, section):
  k = (field.para, field.width, section)
  if k not in _CODES:
    _CODES[k] = codes(field, section)
  return _CODES[k]


def fill(kind, rng, given=None, gaps=' ', plain=False):
  """characters of a valid line of this kind; given: {field index: text}"""
  chars = [rng.choice(gaps) for _ in range(model.LEN)]
  for ch in range(123, 132):
    chars[ch] = rng.choice(DIG)
  for i, f in enumerate(kind.layout):
    if given and i in given:
      continue
    c = cached_codes(f, kind.section)
    f.put(chars, rng.choice(c) if c else valid_value(f, kind.section, rng))
  if not plain and rng.random() < .2:
    relate(kind, rng, chars)
  chars[0] = rng.choice('ST') if rng.random() < .3 else 'S'
  if given:
    for i, t in given.items():
      kind.layout[i].put(chars, t)
  for col, ch in kind.fixed().items():
    chars[col] = ch
  for ch in range(123, 132):
    if not (chars[ch].isascii() and chars[ch].isdigit()):
      chars[ch] = rng.choice(DIG)
  return chars


_BLANK = {}


def blankable(kind):
  """the fields of the layout that may be blank"""
  if kind.key() not in _BLANK:
    rng = rng_for('blank', kind.key())
    out = []
    for _ in range(40):
      base = ''.join(fill(kind, rng, plain=True))
      if sane(base):
        fixed = kind.selecting()
        for i, f in enumerate(kind.layout):
          if set(f.columns()) & fixed:
            continue
          t = list(base)
          f.put(t, ' ' * f.width)
          if sane(''.join(t)):
            out.append(i)
        break
    _BLANK[kind.key()] = out
  return _BLANK[kind.key()]


def relate(kind, rng, chars):
  """makes fields resemble one another: one text in many fields, neighbours alike, everything blank, one number everywhere"""
  free = [f for f in kind.layout if f.para not in model.CODED and f.para not in model.NUMERIC and f.columns()[-1] < 123]
  nums = [f for f in kind.layout if f.para in model.NUMERIC and f.para not in ('010', '012', '032', '039', '178') and f.columns()[-1] < 123]
  how = rng.choice(['text', 'text', 'number', 'blank', 'empty', 'full', 'swap'])
  if how == 'text' and free:
    f = rng.choice(free)
    tok = ''.join(chars[p] for p in f.columns()).strip()[:rng.choice([1, 2, 3, 4, 5, 5])]
    if not (tok and tok.isalnum()):
      tok = ''.join(rng.choice(ALNUM) for _ in range(rng.choice([1, 2, 2, 3, 4, 5])))
    share, whole = rng.choice([.3, .7, 1]), rng.random() < .3
    for f in free:
      if rng.random() < share and (f.width >= len(tok) or rng.random() < .3):
        f.put(chars, ((tok * f.width) if whole else tok.ljust(f.width))[:f.width])
  elif how == 'number':
    tok = rand_digits(rng, 5)
    share = rng.choice([.3, 1])
    for f in nums + (free if rng.random() < .5 else []):
      if rng.random() < share:
        f.put(chars, (tok * f.width)[:f.width] if rng.random() < .5 else tok[-f.width:].rjust(f.width, '0'))
  elif how == 'blank':
    keep = rng.choice([0, .1, .5])
    for f in free:
      if rng.random() >= keep:
        f.put(chars, ' ' * f.width)
  elif how == 'empty':     # as good as nothing in the record
    keep = rng.choice([0, 0, .1])
    for i in blankable(kind):
      if rng.random() >= keep:
        kind.layout[i].put(chars, ' ' * kind.layout[i].width)
  elif how == 'full':      # not a blank that could be avoided
    for f in free:
      f.put(chars, ''.join(x if x != ' ' else rng.choice(ALNUM) for x in (chars[p] for p in f.columns())))
    for f in nums:
      if ' ' in (chars[p] for p in f.columns()):
        f.put(chars, rand_digits(rng, f.width))
  elif how == 'swap' and len(free) > 1:      # two fields of one width hold the same
    for f in free:
      same = [g for g in free if g.width == f.width and g is not f]
      if same and rng.random() < .5:
        f.put(chars, ''.join(chars[p] for p in rng.choice(same).columns()))


def sparse(kind, rng):
  """a line of this kind with hardly anything in it, or one with hardly a blank"""
  for _ in range(20):
    chars = fill(kind, rng, plain=True)
    if rng.random() < .7:
      keep = rng.choice(blankable(kind) or [0])
      for i in blankable(kind):
        if i != keep:
          kind.layout[i].put(chars, ' ' * kind.layout[i].width)
    else:
      for f in kind.layout:
        if f.para not in model.CODED and f.para not in model.NUMERIC and f.columns()[-1] < 123:
          f.put(chars, ''.join(x if x != ' ' else rng.choice(ALNUM) for x in (chars[p] for p in f.columns())))
    for col, ch in kind.fixed().items():
      chars[col] = ch
    line = ''.join(chars)
    if line.strip() == line and len(line) == model.LEN and sane(line):
      return line
  return valid_line(kind, rng)


def sane(line):
  """line decodes under the model (a whole record of allowed values)"""
  a = model.classify(line)
  try:
    return isinstance(a, model.Accept) and (model.decode(a) or True)
  except model.Bad:
    return False


def valid_line(kind, rng, given=None, gaps=' '):
  """a line of this kind that the model decodes (except NDB 'Q' continuations)"""
  for _ in range(60):
    line = ''.join(fill(kind, rng, given, gaps))
    if line.strip() != line or len(line) != model.LEN:
      continue
    if ndb_q(kind) or sane(line):
      return line
  raise AssertionError(f'cannot build a line of kind {kind}')


def free_line(kind, rng, alphabet):
  """a line of this kind with arbitrary content elsewhere (may not decode)"""
  chars = [rng.choice(alphabet) for _ in range(model.LEN)]
  chars[0] = rng.choice('ST')
  for c in range(123, 132):
    chars[c] = rng.choice(DIG)
  for col, ch in kind.fixed().items():
    chars[col] = ch
  return ''.join(chars)


def unique_line(kind, start=0x4E00):
  """every column holds a different character (except the recognising ones)"""
  chars = [chr(start + i) for i in range(model.LEN)]
  chars[0] = 'S'
  for i, c in enumerate(range(123, 132)):
    chars[c] = '123456789'[i]
  for col, ch in kind.fixed().items():
    chars[col] = ch
  return ''.join(chars)


# ------------------------------------------------------------------ sample data

_SAMPLES = None


def samples():
  """lines of the ARINC 424 sample files shipped with the repository (may be empty)"""
  global _SAMPLES
  if _SAMPLES is None:
    _SAMPLES = []
    root = os.path.join(os.path.dirname(os.environ.get('VERIF_REPO_SRC', '/repo/src')), 'data')
    for d, _, fs in sorted(os.walk(root)):
      for f in sorted(fs):
        try:
          _SAMPLES += open(os.path.join(d, f), encoding='utf-8', errors='replace').read().split('\n')
        except OSError:
          pass
  return _SAMPLES


HOSTILE = ['\x00', '\x01', '\x07', '\x08', '\x1b', '\x7f', '\x85', '\xa0', '"', "'", '\\', '/', '|', '+', '\t', '%',
           '{', '}', '\u00e9', '\u0660', '\u00b2', '\u2460', '\u0131', '\ufb01', '\u200b', '\u202e',
           '\ufeff', '\u0301', '\U0001F6EB', '\ud800', '\u2028', '\x0b', '\x0c', '\x1c', '\r', '\n', '\u3000']
NASTY = HOSTILE + PRINT


def rand_unicode(rng, n):
  out = []
  for _ in range(n):
    r = rng.random()
    if r < .5:
      out.append(rng.choice(PRINT))
    elif r < .8:
      out.append(rng.choice(HOSTILE))
    else:
      out.append(chr(rng.choice([rng.randint(0, 0x2ff), rng.randint(0x300, 0xd7ff), rng.randint(0xe000, 0x10ffff)])))
  return ''.join(out)


def rng_for(*parts):
  return random.Random(repr(parts))
