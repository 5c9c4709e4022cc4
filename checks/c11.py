"""C11: what a record reports depends on its line alone, not on history."""
import gc
import os
import shutil
import tempfile

import gen
import harness
import hist
import mine
import model
import sut
import sweep

QUICK = os.environ.get('VERIF_TIER', 'quick') == 'quick'
mine.encodable_only()


class World:
  """record objects, what each must report, and the log of the history"""

  def __init__(self, c, base, slots):
    self.c, self.base = c, base
    self.objs = [sut.Record() for _ in range(slots)]
    self.cur = [None] * slots
    self.log = []

  def expect(self, line, op, got, what):
    want = self.base[line][op]
    if got != want:
      self.c.bad(f'{what}: {op} gives {str(got)[:150]!r}; without the history it gives {str(want)[:150]!r}',
                 line=line, history=self.log[-40:], steps=len(self.log))
      return
    self.c.ok('comparisons', (op, line))

  def read(self, i, line):
    self.log.append(('read', i, line))
    got = hist.do_read(self.objs[i], line)
    self.expect(line, 'read', got, f'object {i}')
    if got[0] is True:
      self.cur[i] = line

  def op(self, i, op):
    self.log.append((op, i))
    self.expect(self.cur[i], op, hist.do(op, self.objs[i]), f'object {i}')

  def all_objects(self, op):
    for i in range(len(self.objs)):
      self.expect(self.cur[i], op, hist.do(op, self.objs[i]), f'object {i} (not touched by the last step)')


def histories(c, families, n, steps):
  rng = gen.rng_for('C11', c.seed, c.label)
  lines = hist.pool(rng, families)
  base = hist.baselines(lines + [None])            # before this process uses the library
  c.n['pristine baselines'] += len(base)
  d = tempfile.mkdtemp(prefix='c11-')
  path = os.path.join(d, 'records.txt')
  with open(path, 'w') as f:
    f.write('\n'.join(x.strip() for x in lines if base[x]['parse quiet'][0] is True and '\n' not in x.strip())[:40000] + '\n')
  try:
    for h in range(n):
      w = World(c, base, rng.randint(1, 5))
      fam = rng.randrange(len(lines))
      for s in range(rng.randint(5, steps)):
        # look-alikes stand next to one another in the pool
        line = lines[(fam + rng.randint(0, 14)) % len(lines)] if rng.random() < .8 else rng.choice(lines)
        i = rng.randrange(len(w.objs))
        q = rng.random()
        if q < .4:
          w.read(i, line)
        elif q < .75:
          w.op(i, rng.choice(list(hist.OPS)))
        elif q < .85:
          quiet = rng.random() < .5
          w.log.append(('parse', quiet, line))
          w.expect(line, 'parse quiet' if quiet else 'parse', hist.do_parse(line, not quiet), 'parse')
        elif q < .9:
          w.all_objects(rng.choice(['json', 'primary', 'hasCont']))
        elif q < .95:
          w.objs[i], w.cur[i] = sut.Record(), None
          w.log.append(('new object', i))
          w.op(i, rng.choice(list(hist.OPS)))
        elif q < .97:
          w.log.append(('search',))
          sut.call(sut.arinc424.search, path, line.strip()[6:10])
        elif q < .98:
          w.log.append(('read_file',))
          sut.call(sut.arinc424.read_file, path, False)
        else:
          w.read(i, line)
          w.read(i, line)
          w.op(i, 'decode')
          w.op(i, 'decode')
      w.all_objects('decode')
      w.all_objects('json')
      c.n['histories'] += 1
      c.n['steps'] += len(w.log)
      if h == 0:
        c.sample(history=[x[:2] for x in w.log[:12]])
  finally:
    shutil.rmtree(d)


def marathon(c, n, decodes):
  """one process reads very many different records; the same lines still report the same"""
  rng = gen.rng_for('C11m', c.seed, c.label)
  lines = hist.pool(rng, 8)
  base = hist.baselines(lines + [None])
  keep = World(c, base, 3)
  for i in range(3):
    keep.read(i, lines[i])
  kinds = hist.ALL
  r = sut.Record()
  for k in range(n):
    kind = kinds[k % len(kinds)]
    sut.call(r.read, gen.free_line(kind, rng, gen.ALNUM))
    if k % 11 == 0:
      sut.call(r.json, False)
    if k % max(1, n // decodes) == 0:
      x = sut.Record()
      sut.call(x.read, gen.valid_line(kind, rng))
      sut.call(x.decode, False)
      line = rng.choice(lines)
      keep.expect(line, 'read', hist.do_read(sut.Record(), line), 'marathon')
      o = rng.choice(list(hist.OPS))
      keep.expect(line, o, hist.do(o, hist._read(line)), f'after {k} other records')
    if k % 5000 == 0:
      gc.collect()
      keep.all_objects('decode')
  for line in lines:
    for o in hist.OPS:
      keep.expect(line, o, hist.do(o, hist._read(line)), f'after {n} other records')
  keep.all_objects('json')
  c.n['marathon records'] += n


def reuse(c, kinds):
  """one object goes through every kind after every other kind of a sample: leftovers of the previous record"""
  rng = gen.rng_for('C11r', c.seed, c.label)
  lines = [gen.valid_line(k, rng) for k in kinds]
  base = hist.baselines(lines)
  r = sut.Record()
  for a in lines:
    for b in lines:
      if a == b:
        continue
      for x in (a, b):
        got = hist.do_read(r, x)
        if got != base[x]['read']:
          c.bad(f'reading again gives {got[0]!r}', line=x, before=a)
      bad = hist.broken(b, model_kind(b), rng)
      if not isinstance(model.classify(bad), model.Accept):
        sut.call(r.read, bad)
      for o in ('json', 'primary', 'hasCont'):
        got = hist.do(o, r)
        if got != base[b][o]:
          c.bad(f'after reading another record, {o} gives {str(got)[:120]!r}, alone it gives {str(base[b][o])[:120]!r}',
                line=b, before=a)
      if rng.random() < .15:
        got = hist.do('decode', r)
        if got != base[b]['decode']:
          c.bad('after reading another record, decode gives another table', line=b, before=a)
      c.ok('successions', ('s', model.classify(a).layout_name, model.classify(b).layout_name))


def changes(kind, donor, rng, most):
  """(field name, its columns, None) for every field, (None, column, text) for texts mined from the source"""
  for f in kind.layout:
    yield f.name, f.columns(), None
  spots = mine.places(kind, mine.tokens(rng), True) if mine.FRESH else []
  rng.shuffle(spots)
  spots.sort(key=lambda x: len(x[1].strip()) < 3)
  for p, t in spots[:most * 3 // 4] + spots[-most // 4:]:
    yield None, p, t


def changed(a, cols, donor):
  b = list(a)
  for p in cols:
    b[p] = donor[p]
  return ''.join(b)


def variants(c, kinds, reps):
  """one object reads a record and then the same record with one field changed, and back"""
  for kind in kinds:
    rng = gen.rng_for('C11v', c.seed, kind.key())
    for rep in range(reps):
      a = gen.valid_line(kind, rng)
      donor = gen.valid_line(kind, rng)
      r = sut.Record()
      for name, p, t in changes(kind, donor, rng, 120 if QUICK else 600):
        b = mine.overlay(a, p, t) if name is None else changed(a, p, donor)
        if b == a or b.strip() != b or len(b) != model.LEN:
          continue
        if name is None:
          acc = model.classify(b)
          if not isinstance(acc, model.Accept) or acc.layout_name != kind.layout_name or acc.section != kind.section:
            continue
          c.n['variants by texts of the source'] += 1
        elif not gen.sane(b):
          continue
        name = name or f'columns {p + 1} to {p + len(t)}'
        for x in (a, b):
          acc = model.classify(x)
          got, _ = sut.call(r.read, x)
          if got is not True:
            c.bad(f'{kind}: reading again gives {got!r}', line=x)
            return
          t, _ = sut.call(r.json, False)
          if sut.pairs(t) != [(g.name, g.value(x)) for g in acc.layout]:
            c.bad(f'{kind}: an object that read a record differing in "{name}" before reports {str(t)[:120]!r}', line=x, before=a if x is b else b)
            return
          if (sut.call(r.primary)[0], sut.call(r.hasCont)[0]) != (acc.primary, acc.primary and acc.cont == '1'):
            c.bad(f'{kind}: an object that read a record differing in "{name}" before gives other helper answers', line=x)
            return
          if rep == 0 and x is b and gen.sane(b):
            t, _ = sut.call(r.decode, False)
            if not x.isascii() or t != sut.expected_table(model.decode(acc)):
              other, _ = sut.call(hist._read(x).decode, False)
              if other != t:
                c.bad(f'{kind}: an object that read a record differing in "{name}" before decodes it differently', line=x, before=a)
                return
          c.ok('variants', (kind.key(), name, x is b))
        a = b if rng.random() < .5 else a


LENGTHS = [*range(1, 14), 16, 17, 20, 21, 26, 31, 32, 33, 50, 51, 64, 65, 99, 100, 101, 127, 128, 129, 200, 201, 255, 256, 257, 300, 301, 366, 500, 501, 512, 513, 1000, 1001, 1024, 1025]
STREAKS = ['short texts', 'one text', 'wrong number', 'unknown section', 'continuation number', 'empty texts', 'one record', 'one record, new objects', 'different records', 'the same but for the cycle',
           'refused decoding', 'decode', 'decode printed', 'json', 'json indented', 'primary', 'hasCont', 'parse', 'parse quiet', 'parse refused', 'read_file', 'search', 'search without result',
           'read_folder', 'new objects', 'objects alive']


def streak(c, what, longest):
  """one thing is done many times in a row, and nothing else; then everything is as ever"""
  rng = gen.rng_for('C11s', c.seed, what)
  lines = hist.pool(rng, 3)
  base = hist.baselines(lines + [None])
  good = [x for x in lines if base[x]['read'][0] is True and base[x]['parse quiet'][0] is True]
  worse = [x for x in lines if base[x]['read'][0] is True and x not in good] or [hist.spoil(good[0], model_kind(good[0]), rng)]
  d = tempfile.mkdtemp(prefix='c11-')
  path = os.path.join(d, 'f')
  with open(path, 'w') as f:
    f.write(good[0].strip() + '\n')
  alive = []
  x = good[0]
  k0 = model_kind(x)
  t = x.strip()

  def step(i, w):
    r = w.objs[0]
    if what == 'short texts':
      sut.call(r.read, 'x' * (i + 1))
    elif what == 'one text':
      sut.call(r.read, 'HDR01FAACIFP18')
    elif what == 'wrong number':
      sut.call(r.read, t[:131] + 'X')
    elif what == 'unknown section':
      sut.call(r.read, t[:4] + 'ZZ' + t[6:])
    elif what == 'continuation number':
      sut.call(r.read, t if k0.cont is None else t[:k0.spec['cont']] + '-' + t[k0.spec['cont'] + 1:])
    elif what == 'empty texts':
      sut.call(r.read, '')
    elif what == 'one record':
      w.read(0, x)
    elif what == 'one record, new objects':
      sut.call(sut.Record().read, x)
    elif what == 'different records':
      sut.call(sut.Record().read, gen.free_line(hist.ALL[i % len(hist.ALL)], rng, gen.ALNUM))
    elif what == 'the same but for the cycle':
      sut.call(sut.Record().read, t[:123] + f'{i:09d}')
    elif what == 'refused decoding':
      y = sut.Record()
      sut.call(y.read, worse[0])
      sut.call(y.decode, False)
    elif what in hist.OPS:
      hist.do(what, r)
    elif what == 'parse':
      sut.call(sut.arinc424.parse, x)
    elif what == 'parse quiet':
      sut.call(sut.arinc424.parse, x, False)
    elif what == 'parse refused':
      sut.call(sut.arinc424.parse, t[:-1])
    elif what == 'read_file':
      sut.call(sut.arinc424.read_file, path)
    elif what == 'search':
      sut.call(sut.arinc424.search, path, t[6:10])
    elif what == 'search without result':
      sut.call(sut.arinc424.search, path, '~zz')
    elif what == 'read_folder':
      sut.call(sut.arinc424.read_folder, d)
    elif what == 'new objects':
      sut.Record()
    else:
      alive.append(hist._read(x))
  try:
    for n in sorted({x for x in LENGTHS + [n + k for n in mine.NUMBERS for k in (0, 1)] if 0 < x <= longest}):
      w = World(c, base, 2)
      w.read(0, rng.choice(good))
      if rng.random() < .5:
        w.read(1, rng.choice(good))
      w.log.append((what, f'{n} times'))
      for i in range(n):
        step(i, w)
      for _ in range(2):
        y = rng.choice(lines)
        w.expect(y, 'read', hist.do_read(sut.Record(), y), f'after {n} times "{what}"')
      for o in rng.sample(list(hist.OPS), 3):
        w.op(0, o)
        w.op(1, o)
        y = rng.choice(lines)
        w.expect(y, o, hist.do(o, hist._read(y)), f'after {n} times "{what}"')
      y = rng.choice(lines)
      w.expect(y, 'parse', hist.do_parse(y, True), f'after {n} times "{what}"')
      w.read(0, y)
      c.n['streaks'] += 1
      c.n['longest streak'] = max(c.n['longest streak'], n)
  finally:
    shutil.rmtree(d)


def model_kind(line):
  a = model.classify(line)
  sel = None
  spec = model.RECORDS[a.section]
  if spec['sel']:
    sel = a.line[spec['sel'][0]:spec['sel'][1]]
  return gen.Kind(a.section, a.cont, sel if not a.primary or isinstance(spec['primary'], dict) else None)


def run():
  kinds = sweep.usable_kinds(conts_primary='1', default_sel='X')
  rng = gen.rng_for('C11k', os.environ.get('VERIF_SEED', '1'))
  rng.shuffle(kinds)
  allk = list(hist.ALL)
  rng.shuffle(allk)
  tasks = [(f'history-{i}', histories, (ks, 170, 60) if QUICK else (ks + ks + ks, 3000, 120)) for i, ks in enumerate(sweep.chunks(allk, 8))]
  tasks += [(f'marathon-{i}', marathon, (40000, 900) if QUICK else (1500000, 20000)) for i in range(2 if QUICK else 4)]
  tasks += [(f'variants-{i}', variants, (ks, 2 if QUICK else 40)) for i, ks in enumerate(sweep.chunks(sweep.usable_kinds(), 16))]
  tasks += [(f'streak-{w}', streak, (w, 1100 if QUICK else 40000)) for w in STREAKS]
  if QUICK:
    tasks += [(f'succession-{i}', reuse, (ks,)) for i, ks in enumerate(sweep.chunks(kinds, 4))]
  else:
    tasks += [(f'succession-{i}-{j}', reuse, (a + b,)) for i, a in enumerate(sweep.chunks(kinds, 4))
              for j, b in enumerate(sweep.chunks(kinds, 4)) if i < j]
  harness.run(
    'C11', tasks,
    rule='the result of every operation in random histories over up to five record objects (good, refused and undecodable '
         'reads, renderings, helpers, parse, search, read_file, new objects; lines in families of look-alikes that differ in '
         'one column, in section or in continuation) is compared with the result of the same operation on the same line in a '
         'process that has done nothing else; plus one single thing done up to a thousand times in a row, runs over tens of thousands of records and all successions of record '
         'kinds, and of records that differ in one field; distinct = (operation, line) and ordered pairs of layouts',
    floors={'comparisons': 30000, 'histories': 1000, 'pristine baselines': 500, 'successions': 2000, 'marathon records': 50000, 'variants': 5000, 'streaks': 900})


run()
