"""C19: a field depends on its own columns only."""
import os

import gen
import harness
import mine
import model
import sut
import sweep

QUICK = os.environ.get('VERIF_TIER', 'quick') == 'quick'
PRINT = ''.join(gen.PRINT)


def rows(line):
  got = sweep.rows_of(line)
  if not isinstance(got, str):
    return got
  r = sut.parse_table(got)
  return r if r is not None else f'not a table: {got[:80]}'


def free_columns(kind):
  """columns that take no part in recognising the record"""
  free = set(range(132)) - kind.selecting()
  free |= set(range(123, 132)) | {0}
  if kind.section[0] not in 'PH':
    free.add(12)
  return free


def compare(c, kind, a, b, ra, rb, what):
  """the rows of two records of one kind: only fields covering a changed column may differ"""
  if not isinstance(ra, list) or not isinstance(rb, list):
    c.bad(f'{kind}: {what}: a record of allowed values was not decoded: {ra if not isinstance(ra, list) else rb}', line=a, other=b)
    return False
  if [x[0] for x in ra] != [x[0] for x in rb]:
    c.bad(f'{kind}: {what} changes which fields are reported', line=a, other=b)
    return False
  changed = {p for p in range(132) if a[p] != b[p]}
  cover = {}
  for f in kind.layout:
    cover[f.name.rstrip()] = set(f.columns())
  for x, y in zip(ra, rb):
    if x != y and not (cover.get(x[0], set(range(132))) & changed):
      c.bad(f'{kind}: {what} changes field "{x[0]}", which does not cover it: {x[1:]} becomes {y[1:]}', line=a, other=b)
      return False
    # a field covering a changed column shows the change
    if x[1] == y[1] and x[0] in cover and cover[x[0]] & changed:
      c.bad(f'{kind}: {what} does not show in field "{x[0]}", which covers it', line=a, other=b)
      return False
  return True


SEEN = {}


def remember(c, kind, line, rs):
  """trace monitor: (section, layout, field, text) -> decoded meaning is a function"""
  for n, v, d in rs:
    k = (kind.section, kind.layout_name, n, v)
    old = SEEN.setdefault(k, (d, line))
    if old[0] != d:
      c.bad(f'{kind}: field "{n}" with {v} is decoded to {old[0]!r} in one record and to {d!r} in another', line=line, other=old[1])
      return
    if old[1] is not line:
      c.n['texts seen again in another record'] += 1


def mutate(c, kinds, reps):
  for kind in kinds:
    SEEN.clear()
    rng = gen.rng_for('C19', c.seed, kind.key())
    free = free_columns(kind)
    for rep in range(reps):
      a = gen.sparse(kind, rng) if rep % 6 == 5 else gen.valid_line(kind, rng, gaps=' ' if rep % 2 else gen.ALNUM)
      if rep % 6 == 5:
        c.n['nearly empty or full records'] += 1
      ra = rows(a)
      if isinstance(ra, list):
        remember(c, kind, a, ra)
      donor = gen.valid_line(kind, rng, gaps=gen.ALNUM)
      # one field at a time takes another allowed text
      for f in kind.layout:
        cols = [p for p in f.columns() if p in free]
        if not cols:
          continue
        b = list(a)
        for p in cols:
          b[p] = donor[p]
        b = ''.join(b)
        if b == a or not gen.sane(b) or b.strip() != b or model.classify(b).layout_name != kind.layout_name:
          continue
        rb = rows(b)
        if compare(c, kind, a, b, ra, rb, f'new text in the columns of "{f.name}"'):
          remember(c, kind, b, rb)
          c.ok('field changes', (kind.section, kind.layout_name, f.name, f.value(b)))
      # columns no field covers
      gaps = [p for p in sorted(free) if not any(p in f.columns() for f in kind.layout)]
      if gaps:
        b = list(a)
        for p in gaps:
          b[p] = rng.choice(PRINT)
        b = ''.join(b)
        if b.strip() == b and gen.sane(b) and model.classify(b).layout_name == kind.layout_name:
          rb = rows(b)
          if compare(c, kind, a, b, ra, rb, 'new text in columns of no field'):
            c.ok('gap changes', (kind.section, kind.layout_name, b))
      # everything else changes at once, one field stays
      f = rng.choice(kind.layout)
      b = list(donor)
      for p in f.columns():
        b[p] = a[p]
      b = ''.join(b)
      if gen.sane(b) and b.strip() == b and model.classify(b).layout_name == kind.layout_name:
        rb = rows(b)
        if compare(c, kind, a, b, ra, rb, f'everything but "{f.name}" changed'):
          remember(c, kind, b, rb)
          c.ok('complement changes', ('c', kind.section, kind.layout_name, f.name, f.value(b)))
      if rep == 0:
        c.sample(kind=str(kind), line=a, donor=donor)


def columns(c, kinds, chars):
  """single columns, JSON only: arbitrary replacement characters"""
  for kind in kinds:
    rng = gen.rng_for('C19c', c.seed, kind.key())
    base = gen.free_line(kind, rng, gen.ALNUM)
    if base.strip() != base:
      continue

    def fields(line):
      r = sut.Record()
      ok, _ = sut.call(r.read, line)
      t, _ = sut.call(r.json, False)
      return sut.pairs(t) if ok is True and isinstance(t, str) else None
    fa = fields(base)
    free = free_columns(kind)
    for p in sorted(free):
      cs = gen.DIG if p >= 123 else 'ST' if p == 0 else [chr(0x4e00 + p)] + rng.sample(PRINT, chars) + ['é', '\x00']
      for ch in rng.sample(list(cs), min(len(cs), chars + 2)):
        if ch == base[p]:
          continue
        b = base[:p] + ch + base[p + 1:]
        acc = model.classify(b)
        if not isinstance(acc, model.Accept) or acc.layout_name != kind.layout_name:
          continue
        fb = fields(b)
        if fa is None or fb is None or [x for x, _ in fa] != [x for x, _ in fb]:
          c.bad(f'{kind}: {ch!r} in column {p + 1} changes which fields are reported', line=base, other=b)
          break
        diff = [x for (x, v), (_, w) in zip(fa, fb) if v != w]
        want = [f.name for f in kind.layout if p in f.columns()]
        if diff != want:
          c.bad(f'{kind}: {ch!r} in column {p + 1} changes {diff}, should change {want}', line=base, other=b)
          break
        c.ok('column changes', (kind.section, kind.layout_name, p, ch))


def mined(c, kinds, limit, light):
  """a mined text in one place; fields elsewhere stay as they were"""
  for kind in kinds:
    SEEN.clear()
    rng = gen.rng_for('C19m', c.seed, kind.key())
    a = gen.valid_line(kind, rng)
    ra = rows(a)
    free = free_columns(kind)
    for b in mine.lines(kind, rng, limit, light):
      acc = model.classify(b)
      if not isinstance(acc, model.Accept) or acc.layout_name != kind.layout_name or acc.section != kind.section:
        continue
      if not gen.sane(b) or not b.isascii() or not b.isprintable() or any(sweep.odd_number(f, f.value(b)) for f in acc.layout):
        continue
      rb = rows(b)
      if not isinstance(rb, list):
        c.bad(f'{kind}: a record of allowed values was not decoded: {rb}', line=b)
        continue
      remember(c, kind, b, rb)
      if compare(c, kind, a, b, ra, rb, 'mined text'):
        c.ok('mined changes', (kind.section, kind.layout_name, b))
      # the same text in an otherwise different record
      d = list(gen.valid_line(kind, rng))
      f = rng.choice(kind.layout)
      for p in f.columns():
        if p in free:
          d[p] = b[p]
      d = ''.join(d)
      if gen.sane(d) and d.strip() == d and d.isascii() and d.isprintable():
        rd = rows(d)
        if isinstance(rd, list):
          remember(c, kind, d, rd)


def run():
  kinds = sweep.usable_kinds(conts_primary='0', default_sel='X') + [k for k in gen.kinds(conts_primary='1', conts_other='')]
  tasks = [(f'fields-{i}', mutate, (ks, 12 if QUICK else 250)) for i, ks in enumerate(sweep.chunks(kinds, 32))]
  tasks += [(f'columns-{i}', columns, (ks, 6 if QUICK else 60)) for i, ks in enumerate(sweep.chunks(gen.kinds(), 16))]
  tasks += sweep.mined_tasks(mined, sweep.usable_kinds(), limit=160 if QUICK else 2000)
  harness.run(
    'C19', tasks,
    rule='two-run monitor: records that differ in the columns of one field, in uncovered columns, in all columns but one '
         'field, or in one single column; rows of fields not covering a changed column must be identical and covering ones '
         'must show the change; and a trace monitor requiring (section, layout, field, text) -> decoded text to be a function '
         'over everything seen; distinct = (section, layout, field/column, text)',
    floors={'field changes': 20000, 'column changes': 60000, 'gap changes': 500, 'nearly empty or full records': 150, 'complement changes': 500,
            'texts seen again in another record': 100000})


run()
