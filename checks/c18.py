"""C18: a continuation reports the same identifying fields as its primary; fields do not overlap."""
import os

import gen
import harness
import mine
import model
import sut
import sweep

QUICK = os.environ.get('VERIF_TIER', 'quick') == 'quick'
PRINT = ''.join(gen.PRINT)
ALLCONT = '23456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def fields(line):
  r = sut.Record()
  got, _ = sut.call(r.read, line)
  if got is not True:
    return None
  t, _ = sut.call(r.json, False)
  return sut.pairs(t) if isinstance(t, str) else None


def identifying(layout, cont):
  """names of fields that lie wholly before the continuation number (and are not selectors)"""
  return [f.name for f in layout if max(f.columns()) < cont]


def keys(c, pairs, n):
  """primary and continuation with the same identifying columns"""
  for prim, cont in pairs:
    rng = gen.rng_for('C18', c.seed, prim.key(), cont.key())
    ci = cont.spec['cont']
    both = [x for x in identifying(prim.layout, ci) if x in set(identifying(cont.layout, ci))]
    for k in range(n):
      alph = [PRINT, gen.ALNUM, gen.ALNUM + '  ', [chr(0x4e00 + i) for i in range(132)], gen.DIG, ' A'][k % 6]
      a = list(gen.free_line(prim, rng, alph))
      b = list(gen.free_line(cont, rng, alph))
      if mine.FRESH and k % 2 or k % 12 == 11:
        for x in (a, b):
          for _ in range(rng.choice([1, 2, 4])):
            t = mine.one(rng)
            p = rng.randrange(1, max(2, (ci if rng.random() < .7 else 120) - len(t)))
            if p + len(t) <= 123:
              x[p:p + len(t)] = list(t)
        for x, kd in ((a, prim), (b, cont)):
          for p, ch in kd.fixed().items():
            x[p] = ch
      for p in range(ci):
        if p in cont.fixed():
          a[p] = b[p]
        else:
          b[p] = a[p]
      a, b = ''.join(a), ''.join(b)
      ca, cb = model.classify(a), model.classify(b)
      if not (isinstance(ca, model.Accept) and isinstance(cb, model.Accept) and ca.primary and not cb.primary):
        c.n['skipped'] += 1
        continue
      fa, fb = fields(a), fields(b)
      if fa is None or fb is None:
        c.bad(f'{prim}/{cont}: read or JSON failed', primary=a, continuation=b)
        continue
      da, db = dict(fa), dict(fb)
      for name in both:
        if name not in da or name not in db:
          c.bad(f'{prim}/{cont}: identifying field "{name}" is not reported by both', primary=a, continuation=b)
          break
        if da[name] != db[name]:
          c.bad(f'{prim}/{cont}: "{name}" is {da[name]!r} in the primary and {db[name]!r} in its continuation, whose columns '
                f'before the continuation number are equal', primary=a, continuation=b)
          break
        c.ok('identifying values', (cont.section, prim.layout_name, cont.layout_name, name, da[name]))
      # any other common name wholly before the number must agree too, wherever it is taken from
      for line, acc, d in ((a, ca, da), (b, cb, db)):
        recognised(c, line, acc, d)
      if k == 0:
        c.sample(primary=a, continuation=b, common=both)


def recognised(c, line, acc, d):
  """the continuation number and application type shown are the characters that selected the layout"""
  spec = acc.cont is not None and model.RECORDS[acc.section]
  if not spec:
    return
  for f in acc.layout:
    if f.para == '016':
      if d.get(f.name) != line[spec['cont']]:
        c.bad(f'{acc.layout_name}: recognised by continuation number {line[spec["cont"]]!r}, but shows {d.get(f.name)!r} as '
              f'"{f.name}"', line=line)
        return
      c.ok('numbers shown', ('016', acc.section, acc.layout_name, d[f.name]))
    elif not acc.primary and (f.columns() == list(range(*spec['sel'])) or f.para == '091' and acc.section != 'EU'):
      sel = line[spec['sel'][0]:spec['sel'][1]]
      if d.get(f.name) != sel:
        c.bad(f'{acc.layout_name}: recognised by application type {sel!r}, but shows {d.get(f.name)!r} as "{f.name}"', line=line)
        return
      c.ok('application types shown', ('091', acc.section, acc.layout_name, sel))


def numbers(c, kinds, n):
  for kind in kinds:
    rng = gen.rng_for('C18n', c.seed, kind.key())
    for _ in range(n):
      line = gen.free_line(kind, rng, rng.choice([PRINT, gen.ALNUM]))
      if line.strip() != line:
        continue
      f = fields(line)
      if f is None:
        c.bad(f'{kind}: read or JSON failed', line=line)
        continue
      recognised(c, line, model.classify(line), dict(f))


def overlaps(c, kinds):
  """every column appears in at most one reported value: all columns hold different characters"""
  for kind in kinds:
    for start in (0x4e00, 0x5200):
      line = gen.unique_line(kind, start)
      f = fields(line)
      if f is None:
        c.bad(f'{kind}: read or JSON failed', line=line)
        continue
      where = {}
      for name, v in f:
        for ch in v:
          if ord(ch) >= 0x4e00:
            where.setdefault(ord(ch) - start, []).append(name)
      for p, names in where.items():
        if len(set(names)) > 1 or len(names) > 1:
          if kind.section in ('PK', 'HK') and kind.primary and 20 <= p < 24 and sorted(names) == ['TAA Procedure Turn', 'TAA Waypoint']:
            c.known('taa-overlap')
            continue
          c.bad(f'{kind}: column {p + 1} is reported in more than one field: {names}', line=line)
          break
        c.ok('columns reported once', (kind.section, kind.layout_name, p))
    # the selecting columns cannot hold odd characters: change them within what they may hold
    rng = gen.rng_for('C18o', c.seed, kind.key())
    alts = {}
    for p in range(123, 132):
      alts[p] = gen.DIG
    alts[0] = 'ST'
    if kind.cont is not None:
      alts[kind.spec['cont']] = '01' if kind.primary else ALLCONT
    base = gen.valid_line(kind, rng)
    fb = fields(base)
    for p, cs in alts.items():
      ch = rng.choice([x for x in cs if x != base[p]])
      f2 = fields(base[:p] + ch + base[p + 1:])
      if fb is None or f2 is None or [x for x, _ in fb] != [x for x, _ in f2]:
        c.bad(f'{kind}: column {p + 1} changed from {base[p]!r} to {ch!r} changes the kind of record', line=base)
        break
      diff = [x for (x, v), (_, w) in zip(fb, f2) if v != w]
      if len(diff) > 1:
        c.bad(f'{kind}: column {p + 1} is reported in more than one field: {diff}', line=base)
        break
      c.ok('columns reported once', (kind.section, kind.layout_name, p))


def mined(c, kinds, limit, light):
  def one(kind, line):
    f = fields(line)
    if f is None:
      c.bad(f'{kind}: read or JSON failed', line=line)
      return
    recognised(c, line, model.classify(line), dict(f))
  sweep.mined(c, kinds, limit, light, one)


def run():
  kinds = gen.kinds()
  pairs = []
  for k in kinds:
    if not k.primary:
      for p in kinds:
        if p.section == k.section and p.primary and p.cont == '1' and (p.sel is None or p.sel == k.sel):
          pairs.append((p, k))
  more = gen.kinds(conts_primary='', conts_other=ALLCONT)
  tasks = [(f'keys-{i}', keys, (ps, 120 if QUICK else 4000)) for i, ps in enumerate(sweep.chunks(pairs, 16))]
  tasks += [(f'numbers-{i}', numbers, (ks, 4 if QUICK else 100)) for i, ks in enumerate(sweep.chunks(more, 8))]
  tasks += [(f'overlap-{i}', overlaps, (ks,)) for i, ks in enumerate(sweep.chunks(kinds, 8))]
  tasks += sweep.mined_tasks(mined)
  harness.run(
    'C18', tasks,
    rule='pairs of a primary and a continuation record with equal columns before the continuation number, for every '
         'continuation layout: values of the identifying fields both report must be equal; the continuation number and '
         'application type shown must be the selecting characters; on lines with a different character in every column no '
         'column may turn up in two values; distinct = (section, layouts, field, value)',
    floors={'identifying values': 30000, 'numbers shown': 10000, 'application types shown': 5000, 'columns reported once': 5000},
    assumptions=['identifying fields are those the reference layouts place wholly before the continuation number'])


run()
