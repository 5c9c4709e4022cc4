"""C24: nothing is printed unasked, and a bad continuation number is announced."""
import io
import os
import shutil
import sys
import tempfile

import gen
import harness
import hist
import model
import sut
import sweep

QUICK = os.environ.get('VERIF_TIER', 'quick') == 'quick'
PRINT = ''.join(gen.PRINT)
BAD = [ch for ch in PRINT if not ch.isalnum()] + ['\t', '\x00', '\xa0', '\u2028', '\xb7', '\U0001F6EB']


class Err:
  """with Err() as e: ... ; e.text is what was written to standard error"""

  def __enter__(self):
    self.old = sys.stderr
    sys.stderr = self.buf = io.StringIO()
    return self

  def __exit__(self, *a):
    sys.stderr = self.old
    self.text = self.buf.getvalue()
    return False


class Descriptors:
  """with Descriptors() as d: ... ; d.text is what reached the real standard output and error, past sys.stdout and sys.stderr"""

  def __enter__(self):
    for f in (sys.__stdout__, sys.__stderr__):
      f.flush()
    self.file = tempfile.TemporaryFile()
    self.old = [os.dup(1), os.dup(2)]
    os.dup2(self.file.fileno(), 1)
    os.dup2(self.file.fileno(), 2)
    return self

  def __exit__(self, *a):
    for f in (sys.__stdout__, sys.__stderr__):
      f.flush()
    for fd, old in enumerate(self.old, 1):
      os.dup2(old, fd)
      os.close(old)
    self.file.seek(0)
    self.text = self.file.read().decode(errors='replace')
    self.file.close()
    return False


def past(c, stage, *a):
  """the stage, with the real standard output and error observed beneath the Python ones"""
  with Descriptors() as d:
    stage(c, *a)
  if d.text:
    c.bad(f'{stage.__name__}: written past sys.stdout and sys.stderr: {d.text[:200]!r}')
  else:
    c.ok('descriptors silent', (stage.__name__, c.label))


def quiet(c, what, out, err, line):
  if out or err:
    c.bad(f'{what} printed {(out or err)[:100]!r}', line=line)
    return False
  c.ok('silences', (what, line[4:6] + line[12:13]))
  return True


ONE = sut.Record()


def unremarked(acc):
  """every field that may be remarked on when it cannot be decoded (a leg time, a boundary code) can be decoded"""
  return acc.line.isascii() and all(v[:2].isdigit() or not v.strip() if p == '065' else v[0] in 'CGHLR'
                                    for p, v in ((f.para, f.value(acc.line)) for f in acc.layout) if p in model.NOISY)


def judge(c, text, decode=False):
  """a new object and one that has read everything before take turns"""
  exp = model.classify(text)
  c.n['judged'] += 1
  r = ONE if c.n['judged'] % 2 else sut.Record()
  with Err() as e:
    got, out = sut.call(r.read, text)
  line = text.strip()
  if isinstance(exp, model.Accept) or exp.why != 'continuation number':
    what = 'reading an accepted line' if isinstance(exp, model.Accept) else f'refusing a line ({exp.why})'
    if not quiet(c, what, out, e.text, text) or not isinstance(exp, model.Accept) or got is not True:
      return
    for op, fn in (('primary', r.primary), ('hasCont', r.hasCont), ('json(False)', lambda: r.json(False)),
                   ('json(False, False)', lambda: r.json(False, False))):
      with Err() as e:
        _, out = sut.call(fn)
      quiet(c, op, out, e.text, text)
    if decode and unremarked(exp):
      allowed = sweep.all_defined(exp)
      c.n['decodings of allowed values' if allowed else 'decodings of other values'] += 1
      for op, fn in (('decode(False)', lambda: r.decode(False)), ('parse(line, False)', lambda: sut.arinc424.parse(text, False))):
        with Err() as e:
          _, out = sut.call(fn)
        quiet(c, op, out, e.text, text)
    return
  if ambiguous(text):
    return
  spec = model.RECORDS[hist_section(line)]
  ch = line[spec['cont']]
  if e.text:
    c.bad(f'standard error: {e.text[:100]!r}', line=text)
    return
  if got is not False:
    return                             # C01 judges that
  if out.count(line) != 1:
    c.bad(f'continuation number {ch!r}: the refused record is printed {out.count(line)} times, should be once', line=text, out=out)
    return
  rest = out.replace(line, '')
  if f'"{ch}"' not in rest and f"'{ch}'" not in rest and repr(ch) not in rest:
    c.bad(f'continuation number {ch!r} is not named in {rest[:100]!r}', line=text, out=out)
    return
  if not out.endswith('\n'):
    c.bad('the remark does not end its line', line=text, out=out)
    return
  if '| Field' in out:
    c.bad('a table was printed for a refused record', line=text, out=out)
    return
  c.ok('remarks', (hist_section(line), ch))
  got2, out2 = sut.call(sut.arinc424.parse, text, False)
  if out2 != out:
    c.bad(f'parse prints {out2[:80]!r}, read printed {out[:80]!r}', line=text)
    return
  c.ok('remarks by parse', (hist_section(line), ch))


def ambiguous(text):
  line = text.strip()
  return line != text.strip(' \t\r\n') or any(ord(x) > 127 and x.isnumeric() for x in line[-9:])


def hist_section(line):
  return line[4:6] if line[4:6] in model.RECORDS else line[4] + line[12]


def refused(line, rng):
  """the line spoilt so that it is refused for other reasons than its continuation number (mostly)"""
  p = rng.randrange(1, 132)
  return [rng.choice('XsC# 1t') + line[1:], line[:rng.randrange(123, 132)].ljust(132, rng.choice('A-.')), line[:p] + line[p + 1:],
          line[:p] + rng.choice(gen.ALNUM) + line[p:], line + rng.choice('01A'), line + line, line[:rng.randrange(132)],
          line[:4] + rng.choice(['ZZ', 'pa', 'P_', '  ', 'XX', line[4:6].lower()]) + line[6:], '', 'S', 'T', '\n', ' ' * 132, '# comment',
          'HDR01'.ljust(132), 'HDR01'.ljust(131) + '1', 'S' * 132, '#' + line, line.lower(), line[:123] + '123 56789', line[::-1], 'S' * 400]


def tame(line, kind, rng):
  """the line with allowed values in the fields that may be remarked on, and in some others"""
  good, q = gen.valid_line(kind, rng), list(line)
  keep = rng.choice([0, .3, .7, .95])
  for f in kind.layout or ():
    if f.para in model.NOISY or rng.random() < keep:
      f.put(q, f.value(good))
  return ''.join(q)


def check(c, kinds, n):
  for kind in kinds:
    rng = gen.rng_for('C24', c.seed, kind.key())
    for k in range(n):
      if k % 3 == 0:
        line = gen.valid_line(kind, rng)
      else:
        line = gen.free_line(kind, rng, rng.choice([PRINT, gen.ALNUM, ' ', '0', gen.NASTY]))
        if k % 3 == 1:
          line = tame(line, kind, rng)
      judge(c, line, decode=k % 3 != 2)
      judge(c, rng.choice([' ', '\t', '']) + line + rng.choice(['\n', '\r\n', '  ']))
      for q in refused(line, rng):
        judge(c, q)
      if kind.layout_name and model.RECORDS[kind.section]['cont'] is not None:
        for ch in rng.sample(BAD, 5) + ([' ', '-'] if k == 0 else []):
          q = list(line)
          q[model.RECORDS[kind.section]['cont']] = ch
          judge(c, ''.join(q))
        if k == 0:
          c.sample(kind=str(kind), line=line)


def streaks(c, kinds, n):
  """one object does the same many times in a row"""
  rng = gen.rng_for('C24s', c.seed, c.label)
  for kind in kinds:
    r = sut.Record()
    line = gen.valid_line(kind, rng)
    many = [[x] * 3 + [x[:-1] + y for y in '01A'] for x in refused(line, rng)]
    for group in [[line]] + many:
      group = [x for x in group if not (isinstance(model.classify(x), model.Reject) and model.classify(x).why == 'continuation number' or ambiguous(x))]
      for k in range(n if group else 0):
        x = group[k % len(group)]
        with Err() as e:
          got, out = sut.call(r.read, x)
          if got is True and k % 9 == 0:
            sut.call(r.json, False)
            _, out2 = sut.call(r.primary)
            out += out2 + sut.call(r.hasCont)[1]
        if not quiet(c, f'reading the same sort of line {k + 1} times', out, e.text, x):
          return
      c.n['streaks'] += 1
  # a very long one
  x = 'S' * 131
  with Err() as e:
    _, out = sut.call(lambda: [r.read(x) for _ in range(n * 200)])
  quiet(c, 'a long streak of refusals', out, e.text, x)


def files(c, n):
  """with output off, a file of good records prints nothing"""
  rng = gen.rng_for('C24f', c.seed, c.label)
  kinds = sweep.usable_kinds()
  d = tempfile.mkdtemp(prefix='c24-')
  try:
    for k in range(n):
      path = os.path.join(d, 'f')
      lines = [gen.valid_line(rng.choice(kinds), rng) for _ in range(rng.randint(1, 6))]
      lines = [x for x in lines if gen.sane(x) and sweep.all_defined(model.classify(x))]
      spoilt = [x for x in refused(gen.valid_line(rng.choice(kinds), rng), rng) if '\n' not in x and isinstance(model.classify(x), model.Reject)
                and model.classify(x).why != 'continuation number']
      lines += rng.sample(spoilt, min(len(spoilt), rng.randint(0, 12))) + ['# comment', '']
      rng.shuffle(lines)
      with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
      with Err() as e:
        got, out = sut.call(sut.arinc424.read_file, path, False) if k % 2 else sut.call(sut.arinc424.read_file, path, output=False)
      if isinstance(got, sut.Raised):
        c.n['files not read'] += 1
        continue
      if out or e.text:
        c.bad(f'read_file with output off printed {(out or e.text)[:100]!r}', lines=lines)
        continue
      c.ok('silent files', tuple(lines))
  finally:
    shutil.rmtree(d)


def mined(c, kinds, limit, light):
  sweep.mined(c, kinds, limit, light, lambda kind, line: judge(c, line, decode=True), keep=False)


def run():
  kinds = gen.kinds()
  tasks = [(f'lines-{i}', past, (check, ks, 70 if QUICK else 2000)) for i, ks in enumerate(sweep.chunks(kinds, 16))]
  tasks += [(f'streaks-{i}', past, (streaks, ks, 60 if QUICK else 1500)) for i, ks in enumerate(sweep.chunks(kinds, 16))]
  tasks += [(f'files-{i}', past, (files, 150 if QUICK else 3000)) for i in range(4)]
  tasks += sweep.mined_tasks(mined, limit=500 if QUICK else 4000)
  harness.run(
    'C24', tasks,
    rule='standard output and standard error, as Python objects and as file descriptors, are observed during read, the helpers, JSON and decoding with output off, parse and '
         'read_file with output off, on records of every kind with valid, random and hostile contents and on refused lines, in new and in long-used objects; a record '
         'refused for its continuation number must be announced once with the character and the record, everything else must be '
         'silent; distinct = (call or section, record kind or character)',
    floors={'silences': 30000, 'decodings of other values': 1500, 'remarks': 3000, 'remarks by parse': 3000, 'silent files': 300, 'streaks': 1000, 'descriptors silent': 30},
    assumptions=['remarks on leg times and boundary codes that cannot be decoded are not judged; the wording of the announcement is free'])


run()
