"""C13: reading a file is reading each of its lines, once and in order."""
import os
import pathlib
import re
import shutil
import tempfile

import gen
import harness
import hist
import mine
import model
import names
import sut
import sweep

QUICK = os.environ.get('VERIF_TIER', 'quick') == 'quick'
mine.encodable_only()
ENDS = ['\n', '\r\n', '\r']
INSIDE = ['\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x85', '\u2028', '\u2029', '\t', '\x00', 'é', '\xa0', '\u3000', '\x1a', '\x04']
MARKS = ['\ufeff', '\ufeff', '\ufeff', '\ufffe', '\xef\xbb\xbf', '\ufeff\ufeff', '\u200b', '\x1a', '\x04', '\x00', '\ufffd', '\u2060', '\xa0', '\x1f', '\x1c', '>', '|', '-', '1 ', '1: ', '\x1b[0m']
JUNK = ['', ' ', '   ', '\t', '# comment', 'HDR01FAACIFP18      001P013203974502301  20-DEC-2022', 'x' * 132, 'S', 'T', 'SUSA', '-' * 40,
        'S' * 132, '0' * 132, 'SUSAP KJFKK6A', "'", '"', '\\', 'é' * 10, 'END', 'VOL1']


def split(text):
  """the lines of a text file: LF, CRLF and CR end a line, nothing else does"""
  lines = re.split('\r\n|\n|\r', text)
  return lines[:-1] if lines[-1] == '' else lines


def quiet_parse(line):
  return {'parse': hist.do_parse(line, True), 'parse quiet': hist.do_parse(line, False)}


def build_pool(rng, kinds):
  lines = []
  for kind in kinds:
    base = gen.valid_line(kind, rng) if not gen.ndb_q(kind) else gen.free_line(kind, rng, gen.ALNUM)
    lines += [base, hist.near(base, kind, rng), gen.valid_line(kind, rng)]
    lines.append(rng.choice([hist.broken, hist.spoil])(base, kind, rng))
    mark = rng.choice(MARKS)
    lines += [mark + base, mark + rng.choice(['', ' ', '#']), base + mark][:rng.choice([1, 2, 3])]
    pad = rng.choice(['  ', '\t', ' '])
    lines.append(pad + base + rng.choice(['', '   ', '\t']))
    free = [f for f in kind.layout if f.para not in model.DECODERS and not set(f.columns()) & kind.selecting() and f.width > 4]
    if free:
      t = list(base)
      f = rng.choice(free)
      f.put(t, 'AB' + rng.choice(INSIDE) + 'S' * (f.width - 3))
      lines.append(''.join(t))
    for x in mine.lines(kind, rng, 6, 1)[:6]:
      lines.append(x)
  lines += JUNK
  for t in (rng.sample(mine.FRESH, min(12, len(mine.FRESH))) + [rng.choice(mine.KNOWN) for _ in range(3)]):
    lines += [t, t + ' ' + lines[0], lines[0] + ' ' + t]
  lines = [x.strip('\n\r') for x in lines]
  return list(dict.fromkeys(x for x in lines if '\n' not in x and '\r' not in x))


def expected(lines, base, key):
  """(text printed, refused?) when every line is parsed in turn"""
  out = []
  for x in lines:
    got, text = base[x][key]
    out.append(text)
    if isinstance(got, str):           # parse raised
      return ''.join(out), True
  return ''.join(out), False


def first_diff(got, want):
  for i, (a, b) in enumerate(zip(got.split('\n'), want.split('\n'))):
    if a != b:
      return f'line {i}: {a[:80]!r} should be {b[:80]!r}'
  return f'{got.count(chr(10))} lines printed, should be {want.count(chr(10))}'


def judge(c, path, text, base, key, args, kwargs, what):
  want, refused = expected(split(text), base, key)
  got, out = sut.call(sut.arinc424.read_file, path, *args, **kwargs)
  if isinstance(got, sut.Raised) and not (refused and got.refusal):
    c.bad(f'{what}: read_file {got}', file=text[:4000])
    return
  if refused and not isinstance(got, sut.Raised):
    c.bad(f'{what}: a record that cannot be decoded did not end the reading with ValueError', file=text[:4000])
    return
  if out != want:
    c.bad(f'{what}: the output is not that of parsing each line: {first_diff(out, want)}', file=text[:6000])
    return
  c.ok('files compared', text)
  c.n['lines in files'] += text.count('\n') + text.count('\r')
  if refused:
    c.n['files ending in a refusal'] += 1


def check(c, kinds, n, size):
  rng = gen.rng_for('C13', c.seed, c.label)
  pool = build_pool(rng, kinds)
  base = {x: hist.pristine(quiet_parse, x) for x in pool + ['']}
  good = [x for x in pool if not isinstance(base[x]['parse'][0], str)]
  recs = [x for x in good if base[x]['parse'][0] is True]
  marked = [x for x in good if x.startswith(tuple(MARKS))] or good
  d = tempfile.mkdtemp(prefix='c13-')
  try:
    for k in range(n):
      s = k % 8
      m = rng.choice([0, 1, 2, 3, 5, size])
      src = recs if s in (0, 3) else pool if s in (5,) else good
      lines = [rng.choice(src) for _ in range(m)]
      if s == 1:
        lines = [x for x in lines for _ in range(rng.choice([1, 1, 2, 3]))]
      if k % 5 == 4:                     # a mark at the very beginning or end
        m = rng.choice(marked)
        lines = [m] + lines if rng.random() < .8 else lines + [m]
        c.n['files with a mark'] += 1
      end = rng.choice(ENDS)
      mixed = s == 2
      text = ''.join(x + (rng.choice(ENDS) if mixed else end) for x in lines)
      if s == 3 or rng.random() < .3:
        text = text.rstrip('\r\n')
      if s == 4:
        text = '\n\n' + text + '\n \n\n'
      path = os.path.join(d, rng.choice(['records.txt', 'a b.dat', 'noext', 'ü.txt']))
      with open(path, 'w', newline='', encoding='utf-8') as f:
        f.write(text)
      p = pathlib.Path(path) if rng.random() < .2 else path
      q = rng.random()
      if q < .6:
        judge(c, p, text, base, 'parse', (), {}, 'read_file(path)')
      elif q < .8:
        judge(c, p, text, base, 'parse', (True,), {}, 'read_file(path, True)')
      else:
        judge(c, p, text, base, 'parse quiet', (), {'output': False}, 'read_file(path, output=False)')
        _, out = sut.call(sut.arinc424.read_file, p, False)
        if '| Field' in out:
          c.bad('read_file(path, False) printed a table', file=text[:4000])
      if k == 1:
        c.sample(lines=len(lines), end=repr(end), bytes=len(text))
  finally:
    shutil.rmtree(d)


def wide(c, kinds, n, size):
  """files of very many different records, each once"""
  rng = gen.rng_for('C13w', c.seed, c.label)
  d = tempfile.mkdtemp(prefix='c13-')
  try:
    for k in range(n):
      lines = [gen.valid_line(rng.choice(kinds), rng) if rng.random() < .6 else gen.free_line(rng.choice(kinds), rng, rng.choice([gen.ALNUM, gen.ALNUM + ' ', ''.join(gen.PRINT)]))
               for _ in range(size)]
      for kind in rng.sample(kinds, min(4, len(kinds))) if mine.FRESH else ():
        lines += mine.lines(kind, rng, 40, 0)[:50]
      base = {x: {'parse': hist.do_parse(x, True)} for x in dict.fromkeys(lines)}
      good = [x for x in base if '\n' not in x and '\r' not in x and not isinstance(base[x]['parse'][0], str)]
      rng.shuffle(good)
      path = os.path.join(d, 'wide')
      with open(path, 'w', newline='', encoding='utf-8') as f:
        f.write('\n'.join(good))
      judge(c, path, '\n'.join(good), base, 'parse', (), {}, 'file of different records')
      c.n['different records in files'] += len(good)
  finally:
    shutil.rmtree(d)


def big(c, records, junk):
  """large files, far beyond any buffer"""
  rng = gen.rng_for('C13b', c.seed, c.label)
  pool = build_pool(rng, rng.sample(sweep.usable_kinds(), 12))
  base = {x: hist.pristine(quiet_parse, x) for x in pool + ['']}
  recs = [x for x in pool if base[x]['parse'][0] is True]
  bad = [x for x in pool if base[x]['parse'][0] is False and base[x]['parse'][1] == ''] + ['']
  lines = [rng.choice(recs) for _ in range(records)] + [rng.choice(bad) for _ in range(junk)]
  rng.shuffle(lines)
  text = ''.join(x + rng.choice(['\n', '\n', '\r\n']) for x in lines)
  d = tempfile.mkdtemp(prefix='c13-')
  try:
    path = os.path.join(d, 'big.txt')
    with open(path, 'w', newline='', encoding='utf-8') as f:
      f.write(text)
    judge(c, path, text, base, 'parse', (), {}, 'big file')
    c.n['bytes of big files'] += len(text)
  finally:
    shutil.rmtree(d)


SIZES = [1, 66, 80, 100, 128, 131, 132, 133, 134, 200, 255, 256, 264, 265, 266, 396, 400, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8191, 8192, 10000,
         16384, 20000, 32768, 50000, 65535, 65536, 99999, 100000, 131072, 262144, 500000, 1000000, 1048576]


def sizes():
  return sorted({n + k for n in SIZES + [x for x in mine.NUMBERS if 0 < x < 3000000] for k in (-1, 0, 1) if n + k > 0})


def long_lines(rec, rng):
  """lines in which a record begins or ends at a round place but which are no records themselves (or are, behind blanks)"""
  for n in sizes():
    yield rng.choice('#x0S ') * n + rec
    yield ' ' * n + rec
    yield rec + rng.choice('#x0') * n
    yield rec + ' ' * n + rng.choice(['', '', rec, '.'])
    if n < 20000:
      yield (rec * (n // 132 + 1))[:n] + rec


def embedded(c, part, parts):
  rng = gen.rng_for('C13e', c.seed)
  rec = gen.valid_line(rng.choice(sweep.usable_kinds()), rng)
  other = gen.valid_line(rng.choice(sweep.usable_kinds()), rng)
  d = tempfile.mkdtemp(prefix='c13-')
  try:
    for k, x in enumerate(long_lines(rec, rng)):
      if k % parts != part:
        continue
      base = {y: quiet_parse(y) for y in (x, other, '')}
      path = os.path.join(d, 'f')
      text = other + '\n' + x + '\n' + other + '\n' if k % 2 else x + '\n' + other
      with open(path, 'w', newline='', encoding='utf-8') as f:
        f.write(text)
      judge(c, path, text, base, 'parse', (), {}, f'line of {len(x)} characters')
      c.n['long lines'] += 1
  finally:
    shutil.rmtree(d)


def named(c, kinds, n):
  """the same small file under odd names, pointed at in different ways, beside files of other content"""
  rng = gen.rng_for('C13n', c.seed, c.label)
  pool = build_pool(rng, rng.sample(kinds, min(4, len(kinds))))
  base = {x: hist.pristine(quiet_parse, x) for x in pool + ['']}
  recs = [x for x in pool if base[x]['parse'][0] is True]
  rest = [x for x in pool if not isinstance(base[x]['parse'][0], str)]
  for k in range(n):
    lines = [rng.choice(recs if rng.random() < .6 else rest) for _ in range(rng.choice([1, 1, 2, 4, 9]))]
    text = rng.choice(ENDS).join(lines) + rng.choice(['', '\n'])
    decoy = (rng.choice(recs) + '\n').encode('utf-8')
    order = names.all_names()
    with names.pointed(rng, text.encode('utf-8'), decoy, name=order[(k + c.offset) % len(order)] if k % 3 else None) as (how, path, _):
      judge(c, path, text, base, 'parse', (), {}, f'read_file(path), {how}')
      c.n['named: ' + how.split(',')[0]] += 1
      c.n['odd names'] += 1


def named_all(c, part, parts, n):
  c.offset = len(names.all_names()) * part // parts
  named(c, list(sweep.usable_kinds()), n)


def shipped(c):
  """the sample files of the repository: every line, and the number of tables"""
  root = os.path.join(os.path.dirname(sut.REPO_SRC), 'data')
  for dd, _, fs in sorted(os.walk(root)):
    for fn in sorted(fs):
      p = os.path.join(dd, fn)
      try:
        text = open(p, newline='', encoding='utf-8').read()
      except (OSError, UnicodeDecodeError):
        continue
      if len(text) > 3000000:
        continue
      lines = split(text)
      base = {x: hist.pristine(quiet_parse, x) for x in set(lines)} if len(lines) < 400 else {x: quiet_parse(x) for x in set(lines)}
      judge(c, p, text, base, 'parse', (), {}, f'sample file {fn}')
      c.n['sample files'] += 1


def run():
  kinds = list(hist.ALL)
  gen.rng_for('C13k', os.environ.get('VERIF_SEED', '1')).shuffle(kinds)
  tasks = [(f'files-{i}', check, (ks, 110 if QUICK else 2500, 12 if QUICK else 40)) for i, ks in enumerate(sweep.chunks(kinds, 12))]
  tasks += [(f'big-{i}', big, (1500, 6000) if QUICK else (30000, 200000)) for i in range(2 if QUICK else 6)]
  tasks += [('big-many', big, (9000, 2000) if QUICK else (70000, 1000)), ('big-long', big, (150, 280000) if QUICK else (500, 1500000))]
  tasks += [(f'embedded-{i}', embedded, (i, 4)) for i in range(4)]
  tasks += [(f'named-{i}', named_all, (i, 8, 90 if QUICK else 1500)) for i in range(8)]
  tasks += [(f'wide-{i}', wide, (ks, 26 if QUICK else 300, 220)) for i, ks in enumerate(sweep.chunks(kinds, 12))]
  tasks += [('shipped', shipped, ())]
  harness.run(
    'C13', tasks,
    rule='files put together from records of every kind, refused and undecodable lines, comments, blanks, repeated lines, '
         'unusual characters inside records, LF/CRLF/CR and mixed line ends, with and without final newline, empty, small and '
         'large, of tens of thousands of different records, lines with a record at round places of a long line; odd file names beside other files, relative and absolute, through links, pipes and descriptors; what read_file prints is compared with the concatenation of what parse prints for each line in a process of '
         'its own; distinct = different file contents',
    floors={'files compared': 800, 'lines in files': 10000, 'files ending in a refusal': 2, 'bytes of big files': 500000, 'long lines': 400, 'odd names': 400, 'different records in files': 8000, 'files with a mark': 150})


run()
