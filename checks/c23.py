"""C23: work and memory stay proportional to the input; nothing is kept of records already done with."""
import gc
import os
import shutil
import sys
import tempfile
import time
import tracemalloc

import gen
import harness
import hist
import mine
import sut
import sweep

QUICK = os.environ.get('VERIF_TIER', 'quick') == 'quick'
mine.encodable_only()
KEPT = 12              # bytes that may be kept per record read


def use(line, r=None):
  """all that can be done with a record"""
  r = r or sut.Record()
  sut.call(r.read, line)
  sut.call(r.json, False)
  sut.call(r.decode, False)


class Fresh:
  """an endless supply of different lines of some kinds"""

  def __init__(self, kinds, rng):
    self.kinds, self.rng, self.n = kinds, rng, 0

  def __call__(self):
    self.n += 1
    k = self.kinds[self.n % len(self.kinds)]
    q = self.n % 12
    if q == 0:
      return hist.broken(gen.free_line(k, self.rng, gen.ALNUM), k, self.rng)
    if q == 1:
      return hist.spoil(gen.valid_line(k, self.rng), k, self.rng)
    if q == 2:
      return gen.free_line(k, self.rng, gen.PRINT)
    return gen.valid_line(k, self.rng, gaps=gen.ALNUM)


def lib_size():
  """bytes held by objects created in the library or anything it called into, and by texts made outside that it may have kept"""
  gc.collect()
  s = tracemalloc.take_snapshot()
  mine_ = s.filter_traces([tracemalloc.Filter(True, sut.SRC_DIR + '/*', all_frames=True)])
  theirs = s.filter_traces([tracemalloc.Filter(True, gen.__file__), tracemalloc.Filter(True, hist.__file__), tracemalloc.Filter(True, __file__)])
  theirs = theirs.filter_traces([tracemalloc.Filter(False, sut.SRC_DIR + '/*', all_frames=True)])
  return sum(t.size for t in mine_.traces) + sum(t.size for t in theirs.traces)


def growth(go, n):
  tracemalloc.start(6)
  go(50)
  m0 = lib_size()
  go(n)
  m1 = lib_size()
  tracemalloc.stop()
  return m1 - m0


def memory(c, kinds, warm, n, style):
  """grow: memory kept after n more records"""
  rng = gen.rng_for('C23', c.seed, c.label)
  fresh = Fresh(kinds, rng)
  d = tempfile.mkdtemp(prefix='c23-')
  try:
    path = os.path.join(d, 'f')
    r = sut.Record()                 # alive while the memory is measured

    def go(m):
      if style == 'objects':
        for _ in range(m):
          use(fresh())
      elif style == 'one object':
        for _ in range(m):
          use(fresh(), r)
      elif style == 'parse':
        for _ in range(m):
          sut.call(sut.arinc424.parse, fresh())
      else:
        left = m
        while left > 0:
          k = min(left, 200)
          good = [x for x in (fresh() for _ in range(k * 2)) if '\n' not in x and x.isascii()]
          if style == 'read_file':
            good = [x for x in good if not x or gen.sane(x)]
          good = good[:k] or ['']
          with open(path, 'w') as f:
            f.write('\n'.join(good) + '\n')
          if style == 'read_file':
            sut.call(sut.arinc424.read_file, path)
          elif style == 'search':
            sut.call(sut.arinc424.search, path, good[0][6:10] if rng.random() < .5 else ['S', good[0][20:23]])
          else:
            sut.call(sut.arinc424.read_folder, d)
          left -= k
    go(warm)
    grown = growth(go, n)
    if grown > n * KEPT + 8000:      # a cache that is still filling up? then it is full some time
      c.n['longer looks'] += 1
      go(12000)
      grown = growth(go, n)
    c.n['max bytes kept per 1000 records'] = max(c.n['max bytes kept per 1000 records'], grown * 1000 // n)
    if grown > n * KEPT + 8000:
      c.bad(f'{style}: {grown} bytes are still held after {n} more records ({grown // n} each)', kinds=[str(k) for k in kinds[:4]])
    c.ok('memory observations', (style, c.label))
    c.n['records under memory observation'] += n
    c.sample(style=style, records=n, bytes_kept=grown)
  finally:
    tracemalloc.stop()
    shutil.rmtree(d)


REFUSALS = {
  'wrong start': lambda x, k, rng: rng.choice('XCs1#') + x[1:],
  'no number at the end': lambda x, k, rng: x[:123] + ''.join(rng.choice(gen.UP) for _ in range(9)),
  'one letter at the end': lambda x, k, rng: x[:-1] + 'X',
  'short': lambda x, k, rng: x[:rng.randrange(132)],
  'long': lambda x, k, rng: x + rng.choice(gen.DIG),
  'unknown section': lambda x, k, rng: x[:4] + rng.choice(['ZZ', 'QQ', '??']) + x[6:],
  'continuation number': lambda x, k, rng: x if k.cont is None else x[:k.spec['cont']] + rng.choice('-?* ') + x[k.spec['cont'] + 1:],
  'application type': lambda x, k, rng: x if k.cont is None or not k.spec['sel'] else put(x, {k.spec['cont']: '3', k.spec['sel'][0]: '~'}),
  'padded': lambda x, k, rng: ' ' * rng.randrange(1, 9) + x + '\t\r\n',
  'text': lambda x, k, rng: gen.rand_unicode(rng, rng.randrange(200)),
}


def put(line, chars):
  t = list(line)
  for p, ch in chars.items():
    t[p] = ch
  return ''.join(t)


def one_use(c, what, n, warm):
  """one thing only, over and over: nothing of it stays"""
  rng = gen.rng_for('C23o', c.seed, what)
  kinds = sweep.usable_kinds()
  keep = sut.Record()
  some = [gen.valid_line(k, rng) for k in kinds]

  def supply(m):
    for i in range(m):
      k = rng.choice(kinds)
      x = gen.free_line(k, rng, gen.ALNUM)
      if what in REFUSALS:
        yield REFUSALS[what](x, k, rng)
      elif what == 'undecodable':
        yield hist.spoil(put(rng.choice(some), {p: rng.choice(gen.DIG) for p in range(123, 132)}), k, rng)
      else:
        yield put(rng.choice(some), {p: rng.choice(gen.DIG) for p in range(123, 132)})

  def go(m):
    for i, x in enumerate(supply(m)):
      r = keep if i % 2 else sut.Record()
      if what in REFUSALS:
        sut.call(r.read, x)
        continue
      if what == 'new objects':
        r = sut.Record()
        sut.call(r.primary)
        sut.call(r.json, False)
        continue
      sut.call(r.read, x)
      if what == 'undecodable' and i % 4 == 0:
        sut.call(r.decode, False)
      elif what == 'json':
        sut.call(r.json, False, i % 4 > 1)
      elif what == 'helpers':
        sut.call(r.primary)
        sut.call(r.hasCont)
  go(warm)
  grown = growth(go, n)
  if grown > n * KEPT // 2 + 8000:
    c.n['longer looks'] += 1
    go(12000)
    grown = growth(go, n)
  if grown > n * KEPT // 2 + 8000:
    c.bad(f'{what}: {grown} bytes are still held after {n} more lines ({grown // n} each)')
    return
  c.ok('memory observations', ('one use', what))
  c.n['max bytes kept per 1000 lines of one sort'] = max(c.n['max bytes kept per 1000 lines of one sort'], grown * 1000 // n)
  c.n['lines of one sort'] += n


def steps(fn):
  """lines executed inside the library"""
  n = [0]

  def local(frame, event, arg):
    if event == 'line':
      n[0] += 1
    return local

  def tracer(frame, event, arg):
    return local if frame.f_code.co_filename.startswith(sut.SRC_DIR) else None
  sys.settrace(tracer)
  try:
    sut.call(fn)
  finally:
    sys.settrace(None)
  return n[0]


def work(c, kinds, rounds):
  """the steps a line takes do not grow with what was read before, nor faster than the file"""
  rng = gen.rng_for('C23w', c.seed, c.label)
  for kind in kinds:
    line = gen.valid_line(kind, rng)
    use(line)
    first = max(steps(lambda: use(line)) for _ in range(3))
    fresh = Fresh([kind], rng)
    r = sut.Record()
    for _ in range(rounds):
      sut.call(r.read, fresh())
      sut.call(r.json, False)
    for _ in range(rounds // 10):
      use(fresh())
    again = min(steps(lambda: use(line)) for _ in range(3))
    if again > first * 2 + 200:
      c.bad(f'{kind}: reading and rendering a line took {first} steps, after {rounds} other records {again}', line=line)
      continue
    c.ok('work observations', (kind.key(), first))
    c.n['max steps per record'] = max(c.n['max steps per record'], first)
  d = tempfile.mkdtemp(prefix='c23-')
  try:
    for op in ('read_file', 'search', 'read_folder', 'search list'):
      kind = rng.choice([k for k in kinds if not gen.ndb_q(k)])
      unit = [gen.valid_line(kind, rng) for _ in range(12)] + ['# comment', '', 'S' * 132]
      cost = []
      lo, hi = (20, 160) if op.startswith('search') else (2, 12)
      for m in (lo, lo, hi):
        files = 1
        if op == 'read_folder':
          files, reps = m, 1
        else:
          reps = m
        folder = os.path.join(d, f'{op}{len(cost)}')
        os.mkdir(folder)
        for i in range(files):
          with open(os.path.join(folder, f'f{i}'), 'w') as f:
            f.write('\n'.join(unit * reps) + '\n')
        path = os.path.join(folder, 'f0')
        fn = {'read_file': lambda: sut.arinc424.read_file(path), 'search': lambda: sut.arinc424.search(path, 'S'),
              'search list': lambda: sut.arinc424.search(path, ['S', '0', '']), 'read_folder': lambda: sut.arinc424.read_folder(folder)}[op]
        cost.append(steps(fn))
      base, big = cost[1], cost[2]
      if big > hi // lo * base * 1.5 + 500:
        c.bad(f'{op}: {hi // lo} times the records take {big} steps instead of about {hi // lo * base}', kind=str(kind))
        continue
      c.ok('work observations', (op, kind.key()))
      c.n['file work observations'] += 1
  finally:
    shutil.rmtree(d)


def clock(c, op, n):
  """processor time for a file and for one sixteen times as long: work in C code is not seen by counting lines"""
  rng = gen.rng_for('C23t', c.seed, c.label)
  kind = rng.choice([k for k in gen.kinds(default_sel='X') if not gen.ndb_q(k)])
  d = tempfile.mkdtemp(prefix='c23-')
  try:
    def once(m):
      path = os.path.join(d, 'f')
      if op == 'search':
        lines = [gen.valid_line(kind, rng) for _ in range(200)]
        text = [x[:123] + f'{i:09d}' for i, x in enumerate(lines * (m // 200))]
      else:                           # lines that are refused, all different
        text = [f'{i:0131d}' if i % 2 else f'S{i:0130d}' for i in range(m)]
      with open(path, 'w') as f:
        f.write('\n'.join(text) + '\n')
      fn = getattr(sut.arinc424, 'search' if op.startswith('search') else 'read_file')
      args = (path, 'S') if op.startswith('search') else (path,)
      t = time.process_time()
      sut.call(fn, *args)
      return time.process_time() - t
    once(200)
    for _ in range(3):                # only a difference that shows three times counts
      a = max(once(n) for _ in range(3))
      b = once(16 * n)
      c.n['max slowdown per cent'] = max(c.n['max slowdown per cent'], int(100 * b / (16 * a + .05)))
      if b < 3 * 16 * a + .5:
        break
    else:
      c.bad(f'{op}: sixteen times the lines take {b:.1f} s instead of about {16 * a:.1f} s')
      return
    c.ok('work observations', (op, 'time'))
    c.n['lines timed'] += 17 * n
  finally:
    shutil.rmtree(d)


SHAPES = {
  'blanks inside': lambda n: 'x' + ' ' * n + 'x', 'blanks before': lambda n: ' ' * n + 'x', 'blanks behind': lambda n: 'x' + ' ' * n, 'blanks': lambda n: ' ' * n,
  'digits': lambda n: 'S' + '7' * n, 'letters': lambda n: 'S' * n, 'digits and a letter': lambda n: 'S' + '7' * n + 'X', 'letters and a digit': lambda n: 'S' * n + '1',
  'words': lambda n: 'SUSA ' * (n // 5) + '!', 'tabs and blanks': lambda n: 'S' + ' \t' * (n // 2) + '.', 'quotes': lambda n: '"' * n + 'x', 'backslashes': lambda n: '\\' * n + 'x',
  'brackets': lambda n: '(' * n, 'accents': lambda n: 'é' * n + '0', 'zeros': lambda n: '\0' * n + 'S', 'line ends': lambda n: 'x' + '\n' * n + 'x', 'returns': lambda n: 'x' + '\r' * n,
  'record and blanks': None, 'record and digits': None, 'blanks and record': None, 'record over and over': None}


def timed(c, what, fn, n, times):
  """fn(n) against fn(times n), in processor time; only a difference that shows three times counts"""
  def once(m):
    go = fn(m)
    t = time.process_time()
    got, _ = sut.call(go)
    if isinstance(got, sut.Raised) and got.type is sut.Hung:
      return 1000
    return time.process_time() - t
  once(n)
  for _ in range(3):
    a = max(once(n) for _ in range(3))
    b = once(times * n)
    c.n['max slowdown per cent'] = max(c.n['max slowdown per cent'], int(100 * b / (times * a + .05)))
    if b < 3 * times * a + .5:
      break
  else:
    c.bad(f'{what}: {times} times the input takes {b:.1f} s instead of about {times * a:.2f} s')
    return
  c.ok('work observations', ('time', what))
  c.n['sizes timed'] += 1


def long_texts(c, names, n):
  sut.watchdog()
  rng = gen.rng_for('C23l', c.seed, c.label)
  rec = gen.valid_line(rng.choice(sweep.usable_kinds()), rng)
  more = {'record and blanks': lambda n: rec + ' ' * n + '.', 'record and digits': lambda n: rec + '1' * n, 'blanks and record': lambda n: ' ' * n + rec,
          'record over and over': lambda n: rec * (n // 132)}
  for name in names:
    f = SHAPES[name] or more[name]

    def reading(m):
      x, r = f(m), sut.Record()
      return lambda: (r.read(x), r.read(x), sut.arinc424.parse(x, False))
    timed(c, f'reading a long text ({name})', reading, n, 8)


def many_things(c, n):
  sut.watchdog()
  rng = gen.rng_for('C23y', c.seed, c.label)
  kind = rng.choice([k for k in gen.kinds(default_sel='X') if not gen.ndb_q(k)])
  line = gen.valid_line(kind, rng)
  d = tempfile.mkdtemp(prefix='c23-')
  try:
    path = os.path.join(d, 'f')
    with open(path, 'w') as f:
      f.write(line + '\n')
    subs = [line[a:b] for a in range(132) for b in range(a + 1, 133)]
    for what, wrap in (('list', list), ('tuple', tuple), ('set', set)):
      def searching(m):
        fs = wrap((subs * (m // len(subs) + 1))[:m] if wrap is not set else [f'{x}' for x in subs[:m]])
        return lambda: sut.arinc424.search(path, fs)
      timed(c, f'a search for a {what} of many texts', searching, n if wrap is not set else 1000, 16 if wrap is not set else 8)
    timed(c, 'a search for a long text', lambda m: lambda: sut.arinc424.search(path, line * m), 400, 16)
    made = {}
    for what in ('empty files', 'subfolders'):
      def listing(m):
        p = os.path.join(d, f'{what}{m}')
        if p not in made:
          os.mkdir(p)
          made[p] = 1
          for i in range(m):
            q = os.path.join(p, f'n{i}')
            if what == 'subfolders':
              os.mkdir(q)
            else:
              open(q, 'w').close()
        return lambda: sut.arinc424.read_folder(p)
      timed(c, f'a folder of many {what}', listing, 200, 16)
    timed(c, 'a file of blank lines', lambda m: blank_file(path, m), 8000, 16)
    timed(c, 'a file of one line over and over', lambda m: blank_file(path, m, line[:-1] + '\n'), 3000, 16)
  finally:
    shutil.rmtree(d)


def blank_file(path, m, text='\n'):
  with open(path, 'w') as f:
    f.write(text * m)
  return lambda: sut.arinc424.read_file(path)


def run():
  kinds = [k for k in gen.kinds(default_sel='X')]
  gen.rng_for('C23k', os.environ.get('VERIF_SEED', '1')).shuffle(kinds)
  tasks = []
  styles = ['objects', 'one object', 'parse', 'read_file', 'search', 'read_folder']
  warm, n = (1200, 800) if QUICK else (20000, 12000)
  for i, ks in enumerate(sweep.chunks(kinds, 12)):
    st = styles[i % len(styles)]
    tasks.append((f'memory-{i}', memory, (ks, warm if st != 'read_folder' else warm, n, st)))
  tasks += [(f'only-{w}', one_use, (w, 5000 if QUICK else 60000, 2000)) for w in [*REFUSALS, 'undecodable', 'new objects', 'json', 'helpers']]
  tasks += [(f'work-{i}', work, (ks, 250 if QUICK else 4000)) for i, ks in enumerate(sweep.chunks(kinds, 12))]
  tasks += [('clock-search', clock, ('search', 2000 if QUICK else 8000)), ('clock-search-refused', clock, ('search refused', 4000 if QUICK else 20000)),
            ('clock-refused', clock, ('read_file refused', 4000 if QUICK else 20000))]
  tasks += [(f'long-{i}', long_texts, (ns, 5000 if QUICK else 60000)) for i, ns in enumerate(sweep.chunks(list(SHAPES), 6))]
  tasks += [(f'many-{i}', many_things, (500 if QUICK else 2000,)) for i in range(1 if QUICK else 3)]
  harness.run(
    'C23', tasks,
    rule='memory allocated in or below library frames and still held after garbage collection is measured (tracemalloc) before and after '
         'many further different records, through objects, one re-used object, parse, files, searches and folders, and through lines refused for one reason, one rendering or one helper only, after a warm-up; and '
         'the lines executed inside the library are counted for the same record before and after many others and for files of '
         'different lengths, and the processor time for files of 2000 and 32000 lines, for long texts of some twenty structures, for many filters, files and subfolders is compared; distinct = (way of use, kinds) and (record kind, steps)',
    floors={'memory observations': 24, 'lines of one sort': 40000, 'records under memory observation': 9000, 'work observations': 170, 'sizes timed': 24, 'file work observations': 40},
    assumptions=[f'up to {KEPT} bytes per record are allowed to remain, and growth must persist after 12000 further records, so that bounded '
                 'caches and interpreter free lists raise no alarm; work in C code is only seen by processor time, where it must be three times too much, three times in a row'])


run()
