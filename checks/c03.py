"""C03: the record kind alone decides which fields are reported, and in which order."""
import os

import gen
import harness
import model
import sut
import sweep

QUICK = os.environ.get('VERIF_TIER', 'quick') == 'quick'
PRINT = ''.join(gen.PRINT)
CONTS = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabz'
ALPH = [PRINT, gen.ALNUM, ' ', '0', '1', 'A', 'T', '2', gen.DIG, gen.NASTY]


def names_json(r):
  t, _ = sut.call(r.json, False)
  p = sut.pairs(t) if isinstance(t, str) else None
  return [n for n, _ in p] if p is not None else None


def judge(c, r, kind, line, how, table=False):
  got, _ = sut.call(r.read, line)
  exp = [f.name for f in kind.layout]
  if got is not True:
    c.bad(f'{kind} ({how}): read gave {got!r}', line=line)
    return
  names = names_json(r)
  if names != exp:
    c.bad(f'{kind} ({how}): fields reported are {names}, should be {exp}', line=line)
    return
  c.ok('name lists', (kind.section, kind.cont, kind.sel, line[:60]))
  if table:
    t, _ = sut.call(r.decode, False)
    rows = sut.parse_table(t) if isinstance(t, str) else None
    if rows is None or [x[0] for x in rows] != [n.rstrip() for n in exp]:
      c.bad(f'{kind} ({how}): the table has rows {rows and [x[0] for x in rows]}, should be {exp}', line=line)
      return
    c.ok('table row lists', ('t', kind.section, kind.cont, kind.sel))


def check(c, kinds, n, tables):
  """every section x continuation number x application type, arbitrary other content"""
  rng = gen.rng_for('C03', c.seed, c.label)
  shared = sut.Record()
  todo = [k for k in kinds for _ in range(n)]
  rng.shuffle(todo)
  for j, kind in enumerate(todo):
    if rng.random() < .5:
      line = gen.valid_line(kind, rng, gaps=rng.choice([' ', gen.ALNUM]))
    else:
      line = gen.free_line(kind, rng, rng.choice(ALPH))
      if line.strip() != line:
        continue
    judge(c, sut.Record(), kind, line, 'fresh object')
    judge(c, shared, kind, line, 'object used before')
    if rng.random() < .1:
      sut.call(shared.read, line[:131])
      sut.call(shared.read, gen.rand_unicode(rng, 132))
    if j < 2:
      c.sample(kind=str(kind), line=line)
  for kind in kinds:
    if gen.ndb_q(kind):
      continue
    for _ in range(tables):
      judge(c, sut.Record(), kind, gen.valid_line(kind, rng), 'table', table=True)


def onecolumn(c, kinds, chars):
  """no single other column changes the fields: every column, several characters"""
  for kind in kinds:
    rng = gen.rng_for('C03o', c.seed, kind.key())
    base = gen.valid_line(kind, rng)
    sel = kind.selecting()
    for p in range(1, 123):
      if p in sel:
        continue
      for ch in rng.sample(PRINT, chars) + ['0', ' ', 'A']:
        line = base[:p] + ch + base[p + 1:]
        judge(c, sut.Record(), kind, line, f'column {p + 1} = {ch!r}')


def types(c, sections):
  """every application type, defined or not: small letters, digits and signs are types of their own"""
  for s in sections:
    spec = model.RECORDS[s]
    if spec['cont'] is None or not spec['sel']:
      continue
    rng = gen.rng_for('C03t', c.seed, s)
    k0 = next(k for k in gen.kinds() if k.section == s)
    a, b = spec['sel']
    defined = [x for x in spec['other']] + ([x for x in spec['primary']] if isinstance(spec['primary'], dict) else [])
    sels = list(PRINT + 'éＡſ') if b - a == 1 else [x + y for x in gen.UP + ' 09' for y in gen.UP + ' 09']
    for d in defined:
      sels += [d.lower(), d.swapcase(), d[::-1], d]
      if len(d) == 2:
        sels += [d[0] + d[1].lower(), d[0].lower() + d[1], d[0] + ' ', ' ' + d[1]]
    for cont in '0129AZz':
      for sel in dict.fromkeys(sels):
        t = list(gen.free_line(k0, rng, rng.choice([' ', '0', gen.ALNUM])))
        t[a:b] = list(sel)
        t[spec['cont']] = cont
        line = ''.join(t)
        acc = model.classify(line)
        if isinstance(acc, model.Accept):
          kind = gen.Kind(s, cont, sel)
          if kind.layout is not None and kind.layout_name == acc.layout_name:
            judge(c, sut.Record(), kind, line, f'type {sel!r}')
            c.n['types judged'] += 1
          continue
        r = sut.Record()
        got, _ = sut.call(r.read, line)
        if got is not False:
          c.bad(f'{s}/{cont}: application type {sel!r} is none, but fields are reported: {names_json(r)}', line=line)
          return
        c.ok('types that are none', (s, cont, sel))


def mined(c, kinds, limit, light):
  def one(kind, line):
    judge(c, sut.Record(), kind, line, 'mined text', table=line.isprintable() and sweep.all_defined(model.classify(line)))
  sweep.mined(c, kinds, limit, light, one)


def run():
  kinds = gen.kinds(conts_primary='01', conts_other=CONTS[2:])
  main = gen.kinds(conts_primary='01', conts_other='2')
  tasks = [(f'kinds-{i}', check, (ks, 16 if QUICK else 200, 0)) for i, ks in enumerate(sweep.chunks(kinds, 16))]
  tasks += [(f'tables-{i}', check, (ks, 10, 12 if QUICK else 300)) for i, ks in enumerate(sweep.chunks(main, 8))]
  tasks += [(f'columns-{i}', onecolumn, (ks, 6 if QUICK else 60)) for i, ks in enumerate(sweep.chunks(main, 16))]
  tasks += [(f'types-{i}', types, (x,)) for i, x in enumerate(sweep.chunks(list(model.SECTIONS), 8))]
  tasks += sweep.mined_tasks(mined)
  harness.run(
    'C03', tasks,
    rule='names and order of the reported fields for every section x continuation number (0-9, A-Z and three more) x '
         'application type with arbitrary other content, in a fresh and in a much-used object, with every other character as application type, and with every non-selecting '
         'column changed one at a time; distinct = (section, continuation number, application type, content)',
    floors={'types judged': 2000, 'types that are none': 1000, 'name lists': 60000, 'table row lists': 1500},
    assumptions=['field names and their order are those of the reference layouts'])


run()
