"""C25: every way of reading a record gives the same result."""
import os
import re
import shutil
import tempfile

import gen
import harness
import hist
import mine
import shapes
import model
import sut
import sweep

QUICK = os.environ.get('VERIF_TIER', 'quick') == 'quick'
mine.encodable_only()
ANSI = re.compile(r'\x1b\[[0-9;]*m')
PRINT = ''.join(gen.PRINT)
INSIDE = ['\x0b', '\x0c', '\x1c', '\x85', '\u2028', '\t', '\x00', 'é', '\xa0', '\u3000', '\x1a', '\x04', 'ß', '\ufeff', '"', "'", '\\', '%', '{}', '|', '+']


def by_object(text, output):
  """(what parse should give, everything printed, the record or None) by way of a record object"""
  r = sut.Record()
  got, out = sut.call(r.read, text)
  if got is not True:
    return got, out, None
  t, more = sut.call(r.decode, output)
  return (t if isinstance(t, sut.Raised) else True), out + more, r


def same(a, b):
  return a == b if isinstance(a, sut.Raised) or isinstance(b, sut.Raised) else a is b


class Text(str):
  """a text by another name"""


def judge(c, text, path, rng, kind):
  res = {}
  if c.n['evaluations'] % 7 == 0:
    text = Text(text)
    c.n['texts of a subclass of str'] += 1
    if sut.call(sut.Record().read, text)[0] is not sut.call(sut.Record().read, ''.join(text))[0]:
      c.bad('a text that is an instance of a subclass of str is not read like the same text', line=str(text))
      return
  for output in (True, False):
    want, printed, r = by_object(text, output)
    res[output] = want, printed, r
    calls = {'parse': [(output,), {}], 'parse with a keyword': [(), {'output': output}]}
    if output:
      calls['parse by default'] = [(), {}]
    for what, (a, k) in calls.items():
      got, out = sut.call(sut.arinc424.parse, text, *a, **k)
      if not same(got, want):
        c.bad(f'{what} (output {output}) gave {got!r}, reading and decoding with a record object gives {want!r}', line=text)
        return
      if out != printed:
        c.bad(f'{what} (output {output}) printed {out[:80]!r}, a record object {printed[:80]!r}', line=text, parse=out, by_object=printed)
        return
      c.ok('parse against a record object', (kind, what, output, repr(want)[:30]))
  shown(c, text, res, kind)
  if '\n' in text or '\r' in text:
    return
  try:
    data = (text + rng.choice(['\n', '\r\n', '', '\n\n'])).encode('utf-8')
  except UnicodeEncodeError:
    return
  with open(path, 'wb') as f:
    f.write(data)
  for output in (True, False):
    want, printed, r = res[output]
    want = want if isinstance(want, sut.Raised) else None
    ways = [('read_file', sut.arinc424.read_file, (path, output))]
    if output:
      ways.append(('read_folder', sut.arinc424.read_folder, (os.path.dirname(path),)))
    for what, fn, a in ways:
      got, out = sut.call(fn, *a)
      if isinstance(got, sut.Raised) != (want is not None) or want is not None and not same(got, want):
        c.bad(f'{what} gave {got!r}, a record object {want!r}', line=text)
        return
      if out != printed:
        c.bad(f'{what} (output {output}) printed {out[:80]!r}, a record object {printed[:80]!r}', line=text, file=out, by_object=printed)
        return
      c.ok('files against a record object', (kind, what, output, want is None))
  finds(c, text, path, rng, kind, res[False])


def shown(c, text, res, kind):
  """the table printed is the table returned, the JSON has the same fields, whatever is asked first"""
  want, printed, r = res[True]
  if r is None or want is not True:
    return
  t, out = sut.call(r.decode, False)
  if not isinstance(t, str) or printed != out + t + '\n' and t not in printed:
    c.bad(f'the table printed is not the table returned: {printed[:80]!r}', line=text)
    return
  c.ok('printed against returned', kind)


def finds(c, text, path, rng, kind, res):
  want, _, r = res
  line = text.strip()
  accepted = r is not None
  sub = line[(i := rng.randrange(max(len(line), 1))):i + rng.randint(1, 12)]
  remark = sut.call(sut.Record().read, text)[1]
  for what, flt in (('a substring', sub), ('a list', [sub, line[:3]]), ('the whole text', line), ('the empty text', ''), ('an empty list', [])):
    got, out = sut.call(sut.arinc424.search, path, flt)
    if isinstance(got, sut.Raised):
      c.bad(f'search by {what} {got}', line=text, filter=flt)
      return
    start = remark + (line + '\n' if accepted else '')
    m = re.search(r'\d+', ANSI.sub('', out[len(start):]))
    if not out.startswith(start) or not m or int(m[0]) != accepted:
      c.bad(f'search by {what}: the record is {"accepted" if accepted else "refused"} when read, the search printed {out[:160]!r}', line=text, filter=flt)
      return
    c.ok('search against a record object', (kind, what, accepted))


def texts(kind, rng, n):
  for k in range(n):
    base = gen.valid_line(kind, rng)
    yield base
    yield gen.free_line(kind, rng, rng.choice([PRINT, gen.ALNUM, gen.DIG, ' ', gen.NASTY]))
    yield rng.choice([' ', '\t', '  ', '']) + base + rng.choice(['', ' ', '\t', '   '])
    yield hist.near(base, kind, rng)
    yield rng.choice([hist.broken, hist.spoil])(base, kind, rng)
    free = [f for f in kind.layout if f.para not in model.DECODERS and not set(f.columns()) & kind.selecting() and f.width > 4]
    t = list(base)
    if free:
      f = rng.choice(free)
      f.put(t, ('AB' + rng.choice(INSIDE) + 'S' * f.width)[:f.width])
      yield ''.join(t)
    t = list(base)
    t[rng.randrange(132)] = rng.choice(PRINT + 'é\x0c\xa0')
    yield ''.join(t)
    if k % 3 == 0:
      yield base.lower()
      yield base[:rng.randrange(133)]
      yield base + rng.choice(['0', 'A', base])
      yield rng.choice(INSIDE) + base
      yield rng.choice(['#', '//', '"', "'", '>', '- ']) + base[1:]
      yield rng.choice(mine.FRESH or ['x']) + base
      yield base + '\n' + base
      w = rng.randrange(140)
      yield rng.choice(['', ' ', '\t', '\n']) + shapes.text(rng, rng.choice([1, 2, 3, 5, 9, 20, w + 1]))
      yield rng.choice(['', ' ']) + ''.join(rng.choice(gen.DIG) for _ in range(rng.choice([1, 4, 9, 131, 132, w])))
      yield '\n' + base + '\n'


def check(c, kinds, n):
  d = tempfile.mkdtemp(prefix='c25-')
  path = os.path.join(d, 'records')
  try:
    for kind in kinds:
      rng = gen.rng_for('C25', c.seed, kind.key())
      for text in texts(kind, rng, n):
        judge(c, text, path, rng, str(kind))
      c.sample(kind=str(kind), line=text)
  finally:
    shutil.rmtree(d)


def mined(c, kinds, limit, light):
  d = tempfile.mkdtemp(prefix='c25-')
  rng = gen.rng_for('C25m', c.seed, c.label)
  try:
    sweep.mined(c, kinds, limit, light, lambda kind, line: judge(c, line, os.path.join(d, 'f'), rng, 'mined'), keep=False)
  finally:
    shutil.rmtree(d)


def run():
  kinds = gen.kinds()
  tasks = [(f'ways-{i}', check, (ks, 6 if QUICK else 200)) for i, ks in enumerate(sweep.chunks(kinds, 16))]
  tasks += sweep.mined_tasks(mined, limit=40 if QUICK else 1000)
  harness.run(
    'C25', tasks,
    rule='the same text goes through a record object, parse (positional, keyword, default output), a one-line file by read_file, a '
         'folder of that file by read_folder, and searches by text, list and empty filter; results, refusals and everything printed '
         'are compared with those of the record object; distinct = (record kind, way, outcome)',
    floors={'parse against a record object': 10000, 'files against a record object': 5000, 'search against a record object': 5000,
            'printed against returned': 1000})


run()
