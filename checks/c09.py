"""C09: fields that are not interpreted are shown verbatim."""
import gen
import harness
import model
import os
import re
import shapes
import sweep
import sut
from prettytable import PrettyTable

TIER = os.environ.get('VERIF_TIER', 'quick')
QUICK = TIER == 'quick'
VERBATIM_TRIM = {'022', '023', '024', '025', '043'}   # blanks around the text may be dropped
PRINT = ''.join(gen.PRINT)
NARROW = PRINT + 'éßñÅøΩжЯ°±¼×'                      # printable, one column wide
WORDS = ['ALL', 'NONE', 'None', 'N/A', 'UNKNN', 'NULL', '0', '00', 'ZZZZ', 'null', 'nan', 'inf', 'True', '1E5', '-1',
         '<UNKNOWN>', 'BAD VALUE', 'S', 'T', "'", "''", '"', '\\n', '%s', '{}', '{0}', '|', '+--+', 'GND', 'MSL', 'UNLTD',
         'N40382374', 'S89595999', 'W073464329', 'E180000000', 'N00000000', '2359', '0000', '2400', 'KJFK', 'RW04L', 'RW36 ',
         'VDHW ', 'H   W', '1 2', 'a b', 'A  B', 'éa', 'JFK', 'K6', 'NAR', 'WGE', '+', '-', '--', '.', ',', ';', '$', '#']


def value(rng, w, style):
  if style == 0:
    return ''.join(rng.choice(PRINT) for _ in range(w))
  if style == 1:
    return ''.join(rng.choice(NARROW) for _ in range(w))
  if style == 2:
    return ' ' * w
  if style == 3:
    return ''.join(rng.choice(gen.DIG) for _ in range(w))
  if style == 4:
    t = rng.choice([x for x in WORDS if len(x) <= w] or ['0'])
    k = rng.randint(0, w - len(t))
    return (' ' * k + t).ljust(w)
  if style == 5:
    return gen.rand_text(rng, w)
  if style == 6:
    return rng.choice(PRINT) * w
  if style == 7:
    return '0' * w
  if style == 8:
    k = rng.randint(0, w)
    t = ''.join(rng.choice(gen.ALNUM) for _ in range(k))
    return (t.ljust(w) if rng.random() < .5 else t.rjust(w))
  if style in (11, 12):
    return shapes.text(rng, w)
  if style == 9:
    return ''.join(rng.choice('abcdefghijklmnopqrstuvwxyz ') for _ in range(w))
  return ''.join(rng.choice(' 0AZ\'"') for _ in range(w))


STYLES = 13


def check(c, kinds, n, every):
  for kind in kinds:
    rng = gen.rng_for('C09', c.seed, kind.key())
    fixed = kind.selecting() - set(range(123, 132))
    idx = [i for i, f in enumerate(kind.layout)
           if f.para not in model.DECODERS and not set(f.columns()) & fixed]
    trim = [i for i, f in enumerate(kind.layout)
            if f.para in model.CHECKED and not set(f.columns()) & fixed]
    total = n
    chars = list(PRINT) if every else rng.sample(PRINT, 24)
    for k in range(total + len(chars)):
      given = {}
      for i in idx:
        f = kind.layout[i]
        if f.columns()[-1] >= 123:
          continue
        if k < total:
          given[i] = value(rng, f.width, (k + i) % STYLES if k < STYLES else rng.randrange(STYLES))
        else:  # one character class through all positions
          ch = chars[k - total]
          given[i] = ''.join(ch if rng.random() < .5 else rng.choice('A1 ') for _ in range(f.width))
      line = gen.valid_line(kind, rng, given)
      if k == 1:
        c.sample(kind=str(kind), line=line)
      cells(c, kind, line, idx, trim)


def cells(c, kind, line, idx, trim):
  exp = model.decode(model.classify(line))
  got = sweep.rows_of(line)
  if not isinstance(got, str) or not got.startswith('+'):
    c.bad(f'{kind}: a record of allowed values was not decoded: {got}', line=line)
    return
  if got == sut.expected_table(exp):
    rows = None
  else:
    rows = sweep.table_of(got)
    if rows is None:
      c.bad(f'{kind}: the result is not a table', line=line, got=got)
      return
    named = {}
    for r in rows:
      named.setdefault(r[0], r)
  for i in idx + trim:
    name, v, dec = exp[i]
    if rows is not None:
      want = sut.row(name, v, dec)
      r = rows[i] if i < len(rows) and rows[i][0] == want[0] else named.get(want[0])
      if r is None:
        c.bad(f'{kind}: no row for field "{name}"', line=line, field=name)
        break
      ok = r[2] == want[2]
      if not ok and i in trim and kind.layout[i].para in VERBATIM_TRIM:
        ok = r[2].strip() == v.strip()
      if not ok:
        c.bad(f'{kind}: field "{name}" with text {v!r} is decoded to {r[2]!r}', line=line, field=name, got=r[2])
        continue
    c.ok('cells judged', (kind.layout_name, name, v))
  c.n['records decoded'] += 1


def mined(c, kinds, limit, light):
  def one(kind, line):
    if not line.isascii() or not line.isprintable() or not gen.sane(line):
      return
    idx = [i for i, f in enumerate(kind.layout) if f.para not in model.DECODERS]
    trim = [i for i, f in enumerate(kind.layout) if f.para in model.CHECKED]
    cells(c, kind, line, idx, trim)
  sweep.mined(c, kinds, limit, light, one)


ODD = gen.HOSTILE + ['\x02', '\x1d', '\x1e', '\x1f', '\x9f', '\xad', '\u00df', '\u0130', '\u1e9e', '\u01c5', '\u212b', '\u2126',
                     'e\u0301', '\uff21', '\uff11', '\u3000', '\u4e2d', '\ufffd', '\U0001d7ce', 'A\tB', 'A\nB', 'A\r\nB', '  ', '   ',
                     'a', 'z', 'aZ', '&amp;', '<b>', '%41', '\\t', '\\u0041']


def drawn(rows):
  t = PrettyTable(field_names=list(sut.HEADER))
  t.align = 'l'
  for r in rows:
    t.add_row(list(r))
  return re.sub('-+', '-', re.sub(' +', ' ', t.get_string()))


def odd(c, kinds, per):
  """one field at a time holds characters that a table cannot be read back with: the whole table is compared with
  the one drawn from the rows of a plain record and this one text"""
  for kind in kinds:
    rng = gen.rng_for('C09odd', c.seed, kind.key())
    fixed = kind.selecting()
    base = gen.valid_line(kind, rng)
    rows = sweep.rows_of(base)
    rows = sweep.table_of(rows) if isinstance(rows, str) else None
    names = [f.name.rstrip() for f in kind.layout]
    if rows is None or [r[0] for r in rows] != names or len(set(names)) != len(names):
      c.n['records left to other checks'] += 1
      continue
    for i, f in enumerate(kind.layout):
      if set(f.columns()) & fixed or (f.para in model.DECODERS and f.para != '043'):
        continue
      if any(g is not f and set(g.columns()) & set(f.columns()) for g in kind.layout):
        continue
      for ch in rng.sample(ODD, per):
        if f.para == '043' or rng.random() < .3:
          if len(ch) + 2 > f.width:
            continue
          k = rng.randint(1, f.width - len(ch) - 1)
          v = 'A' * k + ch + 'Z' * (f.width - k - len(ch))
        elif len(ch) > f.width:
          continue
        else:
          k = rng.randint(0, f.width - len(ch))
          fillc = rng.choice('A1 .')
          v = fillc * k + ch + fillc * (f.width - k - len(ch))
        chars = list(base)
        f.put(chars, v)
        line = ''.join(chars)
        got = sweep.rows_of(line)
        if not isinstance(got, str) or not got.startswith('+'):
          c.bad(f'{kind}: field "{f.name}" with text {v!r} stops the decoding: {got}', line=line, field=f.name)
          continue
        want = list(rows)
        want[i] = (rows[i][0], f"'{v}'", v)
        if re.sub('-+', '-', re.sub(' +', ' ', got)) != drawn(want):
          c.bad(f'{kind}: field "{f.name}" with text {v!r} is not shown as it stands', line=line, field=f.name, got=got)
          continue
        c.ok('odd texts judged', (kind.layout_name, f.name, v))


def run():
  kinds = sweep.usable_kinds(conts_primary='0', default_sel='X') + sweep.usable_kinds(conts_primary='1', conts_other='')
  tasks = [(f'text-{i}', check, (ks, 300 if QUICK else 1500, not QUICK)) for i, ks in enumerate(sweep.chunks(kinds, 32)) if ks]
  tasks += [(f'odd-{i}', odd, (ks, 10 if QUICK else 50)) for i, ks in enumerate(sweep.chunks(kinds, 32)) if ks]
  tasks += sweep.mined_tasks(mined, sweep.usable_kinds())
  harness.run(
    'C09', tasks,
    rule='every uninterpreted field of every record kind is given arbitrary printable text (random, blank, digits, '
         'reserved words, palindromes, repetitions and other structured texts, look-alikes of codes, coordinates, quotes, table characters, accented letters, every printable '
         'ASCII character) and the decoded cell must be that text; then one field at a time holds control, wide, combining, '
         'case-changing and line-breaking characters, and the table must be the one drawn from this text; distinct = different (layout, field, text)',
    floors={'odd texts judged': 5000, 'cells judged': 100000, 'records decoded': 8000},
    assumptions=['which fields are interpreted is fixed by the reference model; blanks beside characters '
                 'that are not printable or not one column wide are compared only up to their number',
                 'blanks at the end of a decoded cell cannot be told from the padding of the table'])


run()
