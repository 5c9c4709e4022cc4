"""C14: a search prints exactly the matching records and their true count."""
import os
import pathlib
import re
import shutil
import tempfile

import gen
import harness
import hist
import mine
import model
import names
import sut
import sweep

QUICK = os.environ.get('VERIF_TIER', 'quick') == 'quick'
mine.encodable_only()
ANSI = re.compile(r'\x1b\[[0-9;]*m')
META = ['.', '*', '.*', '^S', '$', '[A-Z]', '\\d', '(', ')', '|', '?', '+', '\\', '%', '{}', '{0}', "'", '"', 'S.*', '[', 'K.FK', '\t']


class Text(str):
  """a text by another name"""


class Texts(list):
  """a list by another name"""


class Three(tuple):
  """a tuple by another name"""


ALIKE = [Texts, Three, list, list, tuple, list, set, list, frozenset]


def matches(line, filters):
  fs = [filters] if isinstance(filters, str) else filters
  return all(x in line for x in fs)


def judge(c, path, lines, filters, text):
  acc = [model.classify(x) for x in lines]
  want = [a.line for a in acc if isinstance(a, model.Accept) and matches(a.line, filters)]
  # read() may remark on a record with an unsupported continuation number
  remarks = any(isinstance(a, model.Reject) and a.why in ('continuation number', 'application type') for a in acc)
  arg = (filters if len(c.distinct) % 9 else Text(filters)) if isinstance(filters, str) else ALIKE[len(c.distinct) % len(ALIKE)](filters)
  colour = len(c.distinct) % 7 == 0
  if colour:
    os.environ['FORCE_COLOR'] = '1'
  try:
    got, out = sut.call(sut.arinc424.search, path, arg)
  finally:
    os.environ.pop('FORCE_COLOR', None)
  if isinstance(got, sut.Raised):
    c.bad(f'search for {filters!r} {got}', file=text[:4000], filters=filters)
    return
  if not out.endswith('\n'):
    c.bad(f'search for {filters!r} does not end with a line', out=out[:500], filters=filters)
    return
  shown = out[:-1].split('\n')
  summary = ANSI.sub('', shown.pop())
  recs = []
  for x in shown:
    if remarks and not isinstance(model.classify(x), model.Accept):
      continue
    recs.append(x)
  if recs != want:
    i = next((k for k, (a, b) in enumerate(zip(recs, want)) if a != b), min(len(recs), len(want)))
    c.bad(f'search for {filters!r} prints {len(recs)} records, should print {len(want)}; first difference at {i}: '
          f'{recs[i:i + 1]} / {want[i:i + 1]}', file=text[:6000], filters=filters)
    return
  m = re.search(r'\d+', summary)
  if not m or int(m[0]) != len(want) or isinstance(arg, (str, list)) and ANSI.sub('', str(arg)) not in summary:
    c.bad(f'search for {filters!r} found {len(want)} records but says {summary!r}', file=text[:4000], filters=filters)
    return
  c.ok('searches', (text, repr(filters)))
  c.n['searches in colour'] += colour
  c.n[f'searches by a {type(arg).__name__}'] += 1
  c.n['records found'] += len(want)
  c.n['searches without result' if not want else 'searches with result'] += 1


def filters_for(rng, recs):
  """substrings of the records and texts that are nearly so"""
  def sub():
    x = rng.choice(recs) if recs else 'SUSA'
    a = rng.randrange(len(x))
    return x[a:a + rng.choice([1, 2, 3, 4, 5, 8, 20, 132])]
  q = rng.random()
  if q < .3:
    return sub()
  if q < .36:
    return ''
  if q < .5 and mine.FRESH or q < .37:
    t = mine.one(rng)
    return rng.choice([t, t, [t], [t, sub()], [sub(), t], sub() + t, t + sub()])
  if q < .46:
    return rng.choice(META)
  if q < .54:
    s = sub()
    return rng.choice([s.lower(), s.swapcase(), ' ' + s, s + ' ', s + '\x00', s[::-1], s + s])
  if q < .6:
    x = rng.choice(recs) if recs else 'S' * 132
    return rng.choice([x, x + ' ', ' ' + x, x[1:], x[:-1], x[-9:], x[-4:], x[:6], '\n', '  ', 'KJFK', 'S', 'T', '0'])
  n = rng.choice([0, 1, 2, 2, 3, 5])
  if q < .63:                   # very many, of which one may not match
    fs = [sub() for _ in range(1)] * rng.choice([10, 40, 120])
    x = rng.choice(recs) if recs else 'SUSA'
    fs += [x[a:a + rng.choice([1, 2, 4])] for a in (rng.randrange(len(x)) for _ in range(rng.choice([20, 70, 300])))]
    if rng.random() < .6:
      fs.insert(rng.randrange(len(fs) + 1), rng.choice(['~', 'zz', '~~~~~~~~', '', 'S' * 200, x + x]))
    rng.shuffle(fs)
    return fs
  fs = [sub() for _ in range(n)]
  if q < .7 and fs:
    x = rng.choice(recs) if recs else 'SUSA'
    fs = [x[a:a + 4] for a in (rng.randrange(128) for _ in range(n))]
  if q < .8 and fs:
    fs += [rng.choice(fs)]
  if q < .85:
    fs += ['']
  if q < .9 and fs:
    fs.append(rng.choice(META + ['zzz', fs[0].lower()]))
  return fs


def check(c, kinds, n):
  rng = gen.rng_for('C14', c.seed, c.label)
  d = tempfile.mkdtemp(prefix='c14-')
  try:
    for k in range(n):
      ks = [rng.choice(kinds) for _ in range(rng.choice([0, 1, 3, 8]))]
      lines = []
      for kind in ks:
        base = gen.valid_line(kind, rng) if rng.random() < .7 else gen.free_line(kind, rng, ''.join(gen.PRINT))
        if rng.random() < .15:
          cols = sorted(set(range(1, 123)) - kind.selecting())
          p = rng.choice(cols)
          base = base[:p] + rng.choice(['\x0b', '\x0c', '\x1c', '\u2028', '\x85', 'é', '*', '.', '\t']) + base[p + 1:]
        lines.append(base)
        if rng.random() < .5:
          lines.append(hist.near(base, kind, rng))
        if rng.random() < (.8 if mine.FRESH else .1):
          lines += mine.lines(kind, rng, 8, 1)[:3]
        if rng.random() < .4:
          lines.append(hist.broken(base, kind, rng).strip('\r\n'))
        if rng.random() < .2:
          lines.append(base)
        if rng.random() < .3:
          lines.append(rng.choice([' ', '\t', '    ']) + base + rng.choice(['', '  ', '\t']))
        if rng.random() < .2:
          lines.append(rng.choice(['# ', '\ufeff', '\ufeff', '> ', '1 ', '\x1a', '\x00']) + base)
          if rng.random() < .4:
            lines.insert(0, lines.pop())
        if rng.random() < .2:
          lines.append(base + base[:20])
      lines = [x for x in lines if '\n' not in x and '\r' not in x]
      if rng.random() < .5:
        rng.shuffle(lines)
      end = rng.choice(['\n', '\r\n'])
      text = end.join(lines) + (end if rng.random() < .7 else '')
      path = os.path.join(d, 'f')
      with open(path, 'w', newline='', encoding='utf-8') as f:
        f.write(text)
      recs = [a.line for a in map(model.classify, lines) if isinstance(a, model.Accept)]
      for _ in range(6):
        fs = filters_for(rng, recs)
        if '\n' in str(fs):
          continue
        p = pathlib.Path(path) if rng.random() < .2 else path
        judge(c, p, lines, fs, text)
        if isinstance(fs, list) and len(fs) > 1:
          g = list(fs)
          rng.shuffle(g)
          judge(c, p, lines, g, text)
      if k == 3:
        c.sample(lines=len(lines), records=len(recs), filters=fs)
  finally:
    shutil.rmtree(d)


def big(c, n):
  """many records: counts beyond any power of ten, matches at both ends"""
  rng = gen.rng_for('C14b', c.seed, c.label)
  kinds = gen.kinds()
  lines = [gen.free_line(rng.choice(kinds), rng, gen.ALNUM + ' ') for _ in range(n)]
  lines = [x for x in lines if x.strip() == x and isinstance(model.classify(x), model.Accept)]
  lines[0:0] = lines[-1:]
  text = '\n'.join(lines) + '\n'
  d = tempfile.mkdtemp(prefix='c14-')
  try:
    path = os.path.join(d, 'big')
    with open(path, 'w', encoding='utf-8') as f:
      f.write(text)
    for fs in ('', 'S', 'T', lines[0][10:14], lines[-1], ['A', 'B'], [], ['0', '1', '2', '3'], 'zzzz', lines[0][60:62], [lines[-1][5:8], lines[-1][90:94]]):
      judge(c, path, lines, fs, 'big')
      c.n['evaluations on big files'] += 1
  finally:
    shutil.rmtree(d)


def embedded(c, part, parts):
  """lines in which a record begins or ends at a round place, but which are no records (or are, behind blanks)"""
  rng = gen.rng_for('C14e', c.seed)
  rec = gen.valid_line(rng.choice(gen.kinds()), rng)
  other = gen.valid_line(rng.choice(gen.kinds()), rng)
  sizes = [1, 80, 128, 131, 132, 133, 264, 266, 256, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536, 100000, 131072, 1000000, 1048576]
  sizes = sorted({n + k for n in sizes + [x for x in mine.NUMBERS if 0 < x < 3000000] for k in (-1, 0, 1) if n + k > 0})
  d = tempfile.mkdtemp(prefix='c14-')
  try:
    for n in sizes[part::parts]:
      for x in (rng.choice('#x0') * n + rec, ' ' * n + rec, rec + rng.choice('#x0') * n, rec + ' ' * n + rng.choice(['', rec]), (rec * 2)[:n % 132 + 1] + rec):
        lines = [other, x, other]
        text = '\n'.join(lines) + '\n'
        path = os.path.join(d, 'f')
        with open(path, 'w', encoding='utf-8') as f:
          f.write(text)
        for fs in ('', rec[6:14], [rec[:4], rec[-9:]]):
          judge(c, path, lines, fs, f'a line of {len(x)} characters')
        c.n['long lines'] += 1
  finally:
    shutil.rmtree(d)


def named(c, part, parts, n):
  """small files under odd names, pointed at in different ways, beside files of other content"""
  rng = gen.rng_for('C14n', c.seed, c.label)
  order = names.all_names()
  kinds = gen.kinds()
  for k in range(n):
    lines = [gen.valid_line(rng.choice(kinds), rng) for _ in range(rng.choice([1, 1, 2, 5]))] + rng.choice([[], ['# remark'], ['']])
    lines = [x for x in lines if '\n' not in x and '\r' not in x]
    text = '\n'.join(lines) + rng.choice(['', '\n'])
    decoy = (gen.valid_line(rng.choice(kinds), rng) + '\n').encode('utf-8')
    recs = [a.line for a in map(model.classify, lines) if isinstance(a, model.Accept)]
    name = order[(k + len(order) * part // parts) % len(order)] if k % 3 else None
    with names.pointed(rng, text.encode('utf-8'), decoy, name=name) as (how, path, name):
      fs = rng.choice(['', 'S', name, filters_for(rng, recs)])
      if '\n' in str(fs):
        continue
      judge(c, path, lines, fs, f'{how}: {text}')
      c.n['named: ' + how.split(',')[0]] += 1
      c.n['odd names'] += 1


def run():
  kinds = list(hist.ALL)
  gen.rng_for('C14k', os.environ.get('VERIF_SEED', '1')).shuffle(kinds)
  tasks = [(f'search-{i}', check, (ks, 350 if QUICK else 12000)) for i, ks in enumerate(sweep.chunks(kinds, 12))]
  tasks += [(f'big-{i}', big, (12000 if QUICK else 150000,)) for i in range(2 if QUICK else 6)]
  tasks += [(f'embedded-{i}', embedded, (i, 4)) for i in range(4)]
  tasks += [(f'named-{i}', named, (i, 8, 150 if QUICK else 3000)) for i in range(8)]
  tasks += [('big-many', big, (70000 if QUICK else 400000,))]
  harness.run(
    'C14', tasks,
    rule='files of records of every kind, look-alikes, refused and padded lines, repeated lines; searched for substrings, '
         'near-misses in case and blanks, empty text, regular-expression characters, whole records, and lists, tuples and sets of these in '
         'different orders and with repetitions; files under odd names, beside other files, relative and absolute, through links, pipes and descriptors; printed records and the count in the summary are compared with a literal '
         'scan using the acceptance rule; distinct = (file, filters)',
    floors={'searches': 5000, 'records found': 10000, 'searches with result': 2000, 'searches without result': 500, 'searches by a tuple': 200, 'searches by a set': 200, 'odd names': 600},
    assumptions=['filters are a str or a list, tuple or set of str without line breaks; the wording and colour of the summary are free as '
                 'long as it holds the count and the filter; remarks about unsupported continuation numbers are ignored'])


run()
