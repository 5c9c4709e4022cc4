"""C05: JSON output is valid and loses nothing."""
import os

import gen
import harness
import model
import sut
import sweep

QUICK = os.environ.get('VERIF_TIER', 'quick') == 'quick'
PRINT = ''.join(gen.PRINT)
UNI = [chr(i) for i in list(range(0x20, 0x180)) + [0x2028, 0x2029, 0xfeff, 0xfffd, 0xffff, 0xd800, 0x1f6eb, 0x10ffff]]


def calls(r):
  """every way of asking, with whether it must print and whether it is the single-line form"""
  return [('json()', (), {}, True, True),
          ('json(False)', (False,), {}, False, True),
          ('json(output=False, single_line=True)', (), {'output': False, 'single_line': True}, False, True),
          ('json(True, True)', (True, True), {}, True, True),
          ('json(single_line=False)', (), {'single_line': False}, True, False),
          ('json(False, False)', (False, False), {}, False, False)]


def judge(c, r, acc, line, ways):
  exp = model.values(acc)
  want = dict(exp)
  assert len(want) == len(exp), acc.layout_name
  for name, a, k, prints, single in ways:
    got, out = sut.call(r.json, *a, **k)
    if not isinstance(got, str):
      c.bad(f'{acc.layout_name}: {name} gave {got!r}', line=line)
      return
    p = sut.pairs(got)
    if p is None:
      c.bad(f'{acc.layout_name}: {name} is not a JSON object', line=line, got=got)
      return
    if len(p) != len(exp):
      c.bad(f'{acc.layout_name}: {name} has {len(p)} fields, the record has {len(exp)}', line=line, got=got)
      return
    d = dict(p)
    if d != want:
      diff = [(n, d.get(n), want.get(n)) for n in {**d, **want} if d.get(n) != want.get(n)]
      c.bad(f'{acc.layout_name}: {name} does not give the fields back: {diff[:3]}', line=line, got=got)
      return
    if out != (got + '\n' if prints else ''):
      c.bad(f'{acc.layout_name}: {name} printed {out[:80]!r}', line=line, got=got)
      return
    if single and ('\n' in got or '\r' in got):
      c.bad(f'{acc.layout_name}: {name} is not one line', line=line, got=got)
      return
    if not single and len(exp) > 1 and '\n' not in got:
      c.bad(f'{acc.layout_name}: {name} is not indented', line=line, got=got)
      return
    c.ok('renderings', (acc.section, acc.layout_name, name, line))


def check(c, kinds, n):
  for kind in kinds:
    rng = gen.rng_for('C05', c.seed, kind.key())
    for k in range(n):
      s = k % 8
      if s == 0:
        line = gen.free_line(kind, rng, PRINT)
      elif s == 1:
        line = gen.free_line(kind, rng, gen.HOSTILE)
      elif s == 2:
        line = gen.free_line(kind, rng, UNI)
      elif s == 3:
        line = gen.free_line(kind, rng, '"\\/\' ')
      elif s == 4:
        line = gen.valid_line(kind, rng)
      elif s == 5:
        line = gen.unique_line(kind, rng.choice([0x4e00, 0x10000, 0xa0, 0x1f600]))
      elif s == 6:
        line = gen.free_line(kind, rng, ' ')
      else:
        line = gen.free_line(kind, rng, [rng.choice(UNI), rng.choice(gen.NASTY)])
      acc = model.classify(line)
      if not isinstance(acc, model.Accept):
        c.n['skipped'] += 1
        continue
      r = sut.Record()
      got, _ = sut.call(r.read, line)
      if got is not True:
        c.bad(f'{kind}: read gave {got!r}', line=line)
        continue
      judge(c, r, acc, line, calls(r))
      if k % 4 == 0:
        sut.call(r.decode, False)      # also after a decode, refused or not
        judge(c, r, acc, line, calls(r)[1:2])
      if k == 3:
        c.sample(kind=str(kind), line=line, json=sut.call(r.json, False)[0][:200])


def chars(c, sections):
  """every BMP character block edge and every character below U+0300 through a text field"""
  rng = gen.rng_for('C05c', c.seed, c.label)
  kinds = [k for k in gen.kinds(conts_primary='0', default_sel='X') if k.section in sections]
  for kind in kinds:
    for base in range(0, 0x300, 100):
      line = list(gen.free_line(kind, rng, 'A'))
      free = [p for p in range(1, 123) if p not in kind.selecting()]
      for i, p in enumerate(free[:100]):
        line[p] = chr(base + i)
      line = ''.join(line)
      acc = model.classify(line)
      if isinstance(acc, model.Accept) and len(line.strip()) == 132:
        r = sut.Record()
        sut.call(r.read, line)
        judge(c, r, acc, line, calls(r)[1:])


def mined(c, kinds, limit, light):
  def one(kind, line):
    r = sut.Record()
    got, _ = sut.call(r.read, line)
    if got is not True:
      c.bad(f'{kind}: read gave {got!r}', line=line)
      return
    judge(c, r, model.classify(line), line, calls(r)[:1] + calls(r)[5:])
  sweep.mined(c, kinds, limit, light, one)


def run():
  kinds = gen.kinds()
  tasks = [(f'json-{i}', check, (ks, 120 if QUICK else 1600)) for i, ks in enumerate(sweep.chunks(kinds, 24))]
  tasks += [(f'chars-{i}', chars, (s,)) for i, s in enumerate(sweep.chunks(model.SECTIONS, 8))]
  tasks += sweep.mined_tasks(mined)
  harness.run(
    'C05', tasks,
    rule='json() in all its forms on records of every kind holding printable, quoting, control, non-ASCII, astral and lone '
         'surrogate characters; the text is parsed back and compared field by field (duplicate names seen), and what was '
         'printed is compared with what was returned; distinct = (section, layout, form, line)',
    floors={'renderings': 30000})


run()
