"""C02: every reported value is exactly the text of its columns."""
import os

import gen
import harness
import model
import sut
import sweep

QUICK = os.environ.get('VERIF_TIER', 'quick') == 'quick'
PRINT = ''.join(gen.PRINT)
CONTS = '3456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def values_json(line):
  r = sut.Record()
  got, _ = sut.call(r.read, line)
  if got is not True:
    return f'read gave {got!r}'
  t, _ = sut.call(r.json, False)
  p = sut.pairs(t) if isinstance(t, str) else None
  return p if p is not None else f'json gave {t!r}'[:200]


def judge_json(c, kind, line):
  acc = model.classify(line)
  got = values_json(line)
  if isinstance(got, str):
    c.bad(f'{kind}: {got}', line=line)
    return
  exp = model.values(acc)
  if got == exp:
    for (n, v), f in zip(exp, acc.layout):
      c.ok('json values', (acc.section, acc.layout_name, n, v))
    return
  named = {}
  for n, v in got:
    named.setdefault(n, v)
  for n, v in exp:
    if n not in named:
      c.bad(f'{kind}: field "{n}" is missing from the JSON', line=line, field=n)
      return
    if named[n] != v:
      c.bad(f'{kind}: field "{n}" is reported as {named[n]!r}, its columns hold {v!r}', line=line, field=n)
      return
    c.ok('json values', (acc.section, acc.layout_name, n, v))


def judge_table(c, kind, line):
  acc = model.classify(line)
  got = sweep.rows_of(line)
  rows = sweep.table_of(got) if isinstance(got, str) else None
  if rows is None:
    c.bad(f'{kind}: a record of allowed values was not shown as a table: {str(got)[:80]}', line=line)
    return
  named = {}
  for r in rows:
    named.setdefault(r[0], r[1])
  for i, (n, v) in enumerate(model.values(acc)):
    want = sut.row(n, v, '')
    g = rows[i][1] if i < len(rows) and rows[i][0] == want[0] else named.get(want[0])
    if g != want[1]:
      c.bad(f'{kind}: the Value column of "{n}" shows {g!r}, its columns hold {v!r}', line=line, field=n)
      return
    c.ok('table values', (acc.section, acc.layout_name, n, v))


def patterned(kind, rng, style):
  """contents meant to expose shifts, trims, normalisations and swaps"""
  if style == 0:
    return gen.unique_line(kind, rng.choice([0x4e00, 0x5000, 0x0e01 + 0x3000, 0x100, 0x400 + 0x10]))
  if style == 1:
    return gen.free_line(kind, rng, PRINT)
  if style == 2:
    return gen.free_line(kind, rng, ' ')
  if style == 3:
    return gen.free_line(kind, rng, rng.choice(['0', '9', 'A', 'Z', '-', '+', '.']))
  if style == 4:
    return gen.free_line(kind, rng, '  \'"\\')
  if style == 5:
    return gen.free_line(kind, rng, ' 0A')
  if style == 6:
    return gen.free_line(kind, rng, gen.DIG)
  if style == 7:
    return gen.free_line(kind, rng, gen.NASTY)
  if style == 8:
    return gen.free_line(kind, rng, 'abcdefghijklmnopqrstuvwxyz ')
  if style == 9:
    return gen.free_line(kind, rng, gen.ALNUM)
  chars = list(gen.free_line(kind, rng, ' '))
  for _ in range(rng.randint(1, 20)):     # sparse
    p = rng.randrange(1, 123)
    if p not in kind.selecting():
      chars[p] = rng.choice(PRINT)
  return ''.join(chars)


STYLES = 11


def check(c, kinds, n, tables):
  for kind in kinds:
    rng = gen.rng_for('C02', c.seed, kind.key())
    for k in range(n):
      line = patterned(kind, rng, k % STYLES)
      if not isinstance(model.classify(line), model.Accept) or line.strip() != line:
        c.n['skipped'] += 1
        continue
      judge_json(c, kind, line)
      if k == 1:
        c.sample(kind=str(kind), line=line)
    for k in range(tables):
      line = gen.valid_line(kind, rng, gaps=rng.choice([' ', 'X', gen.ALNUM]))
      judge_json(c, kind, line)
      if not gen.ndb_q(kind):
        judge_table(c, kind, line)


def real(c):
  """the lines of the sample files shipped with the repository"""
  for line in gen.samples():
    acc = model.classify(line)
    if isinstance(acc, model.Accept):
      judge_json(c, f'sample {acc.layout_name}', line)
      try:
        model.decode(acc)
      except model.Bad:
        continue
      judge_table(c, f'sample {acc.layout_name}', acc.line)


def mined(c, kinds, limit, light):
  def one(kind, line):
    judge_json(c, kind, line)
    if line.isprintable() and sweep.all_defined(model.classify(line)):
      judge_table(c, kind, line)
  sweep.mined(c, kinds, limit, light, one)


def run():
  kinds = gen.kinds()
  more = gen.kinds(conts_primary='', conts_other=CONTS)
  tasks = [(f'columns-{i}', check, (ks, 330 if QUICK else 4400, 80 if QUICK else 1000)) for i, ks in enumerate(sweep.chunks(kinds, 24))]
  tasks += [(f'conts-{i}', check, (ks, 11 if QUICK else 110, 0 if QUICK else 10)) for i, ks in enumerate(sweep.chunks(more, 16))]
  tasks += [('samples', real, ())]
  tasks += sweep.mined_tasks(mined)
  harness.run(
    'C02', tasks,
    rule='for every record kind and every continuation number, lines with a different character in every column, random '
         'printable and hostile text, blanks, digits, quotes and realistic contents; one evaluation = one reported value '
         '(JSON or Value column) compared with the columns of the reference layout; distinct = (section, layout, field, text)',
    floors={'json values': 400000, 'table values': 50000},
    assumptions=['the reference layouts (lib/layouts.py) state the columns; blanks at the end of a quoted value are visible '
                 'because of the closing quote'])


run()
