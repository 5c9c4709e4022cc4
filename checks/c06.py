"""C06: the table shows every field once, in order, and is printed iff asked."""
import os
import re

import gen
import harness
import model
import sut
import sweep

QUICK = os.environ.get('VERIF_TIER', 'quick') == 'quick'


def expected(acc, got):
  """the table that must be returned; recorded findings are accepted in repaired form too"""
  exp = model.decode(acc)
  want = sut.expected_table(exp)
  if got == want or not isinstance(got, str):
    return want
  rows = sut.parse_table(got)
  if rows is None or len(rows) != len(exp):
    return want
  fixed = []
  for f, (n, v, d), r in zip(acc.layout, exp, rows):
    for a in model.alternatives(f, v, acc.section):
      if sut.row(n, v, a)[2] == r[2]:
        d = a
    fixed.append((n, v, d))
  return sut.expected_table(fixed)


def printed_ok(acc, out, want, prints):
  """exactly the table, once (records with a self-reporting field may print a remark before it)"""
  if prints:
    if out == want + '\n':
      return True
    if not any(f.para in model.NOISY for f in acc.layout) or not out.endswith(want + '\n'):
      return False
    rest = out[:-len(want) - 1]
  else:
    if out == '':
      return True
    if not any(f.para in model.NOISY for f in acc.layout):
      return False
    rest = out
  return '+-' not in rest and '| ' not in rest


def judge(c, kind, line):
  acc = model.classify(line)
  r = sut.Record()
  got, out = sut.call(r.read, line)
  if got is not True or out:
    c.bad(f'{kind}: read gave {got!r} and printed {out[:60]!r}', line=line)
    return
  ways = [('decode(False)', (False,), {}, False), ('decode()', (), {}, True), ('decode(output=True)', (), {'output': True}, True),
          ('decode(output=False)', (), {'output': False}, False)]
  for name, a, k, prints in ways:
    got, out = sut.call(r.decode, *a, **k)
    want = expected(acc, got)
    if got != want:
      c.bad(f'{kind}: {name} did not return the table of the record: {first_diff(got, want)}', line=line, got=str(got))
      return
    if not printed_ok(acc, out, want, prints):
      c.bad(f'{kind}: {name} printed {out[:100]!r} ({out.count(chr(10))} lines)', line=line)
      return
    c.ok('tables', (acc.section, acc.layout_name, line, name))
  for name, a, prints in [('parse(line)', (), True), ('parse(line, True)', (True,), True), ('parse(line, False)', (False,), False)]:
    got, out = sut.call(sut.arinc424.parse, line, *a)
    if got is not True or not printed_ok(acc, out, want, prints):
      c.bad(f'{kind}: {name} returned {got!r} and printed {out[:100]!r} ({out.count(chr(10))} lines)', line=line)
      return
    c.ok('parse outputs', ('p', acc.section, acc.layout_name, name))


def first_diff(got, want):
  if not isinstance(got, str):
    return repr(got)
  for a, b in zip(got.split('\n') + [''] * 200, want.split('\n')):
    if a != b:
      return f'{a[:120]!r} should be {b[:120]!r}'
  return 'extra lines'


def check(c, kinds, n):
  for kind in kinds:
    rng = gen.rng_for('C06', c.seed, kind.key())
    for k in range(n):
      line = gen.valid_line(kind, rng, gaps=' ' if k % 2 else gen.ALNUM)
      judge(c, kind, line)
      if k == 0:
        c.sample(kind=str(kind), line=line)


ODD = ['\t', '\x00', '\x01', '\x0b', '\x0c', '\x1b', '\x1b[31m', '\x1c', '\x1d', '\x7f', '\x85', '\xa0', '\xad', '\xe9', 'e\u0301', '\u200b', '\u200d',
       '\u2028', '\u3000', '\u65e5', '\U0001F6EB', '\ufeff', '\ud800', '\u202e', '|', '||', '+', '+-+', "'", "''", '"', '\\', '\\n', '<b>', '&amp;', '%s', '{}', '{0}', '$x', '`', '#', 'None']


def loose(exp, text):
  """the rows of the table, whatever its padding: characters of unusual width leave that open"""
  lines = text.split('\n')
  want = []
  for name, value, dec in exp:
    first, *more = str(dec).split('\n')
    want.append(re.escape(f'| {name}') + ' *' + re.escape(f" | '{value}'") + ' *' + re.escape(f' | {first}') + ' *\\|')
    want += ['\\| *\\| *\\| ' + re.escape(x) + ' *\\|' for x in more]
  if len(lines) != len(want) + 4:
    return f'{len(lines)} lines, should be {len(want) + 4}'
  for got, rx in zip(lines[3:], want):
    if not re.fullmatch(rx, got, re.S):
      return f'a row is {got!r}, should match {rx!r}'
  return None


def odd(c, kinds, n):
  """characters of unusual width, control characters and the characters of the frame, in free texts"""
  for kind in kinds:
    rng = gen.rng_for('C06o', c.seed, kind.key())
    free = [f for f in kind.layout if f.para not in model.DECODERS and not set(f.columns()) & kind.selecting()]
    for ch in ODD * n if free else []:
      t = list(gen.valid_line(kind, rng))
      for f in rng.sample(free, min(len(free), 3)):
        f.put(t, (''.join(rng.choice(['A', 'B ', '', '7', ch, ch]) for _ in range(f.width)) + ch + 'C' * f.width)[:f.width])
      line = ''.join(t)
      acc = model.classify(line)
      if not isinstance(acc, model.Accept) or acc.line != line:
        continue
      r = sut.Record()
      sut.call(r.read, line)
      got, _ = sut.call(r.decode, False)
      exp = model.decode(acc)
      why = loose(exp, got) if isinstance(got, str) else repr(got)
      if why and isinstance(got, str):         # findings recorded elsewhere may be repaired
        alts = [model.alternatives(f, v, acc.section) or [d] for f, (_, v, d) in zip(acc.layout, exp)]
        why = loose([(name, v, a[0]) for (name, v, _), a in zip(exp, alts)], got)
      if why:
        c.bad(f'{kind}: character {ch!r}: {why[:200]}', line=line, got=repr(got)[:3000])
        return
      again, out = sut.call(r.decode, True)
      if again != got or not (out == got + '\n' or any(f.para in model.NOISY for f in acc.layout) and out.endswith(got + '\n')):
        c.bad(f'{kind}: character {ch!r}: the table printed is not the one returned', line=line, got=repr(got)[:2000], printed=repr(out)[:2000])
        return
      c.ok('tables with odd characters', ('o', acc.section, acc.layout_name, ch))


def real(c):
  for line in gen.samples():
    acc = model.classify(line)
    if isinstance(acc, model.Accept):
      try:
        model.decode(acc)
      except model.Bad:
        continue
      judge(c, f'sample {acc.layout_name}', acc.line)


def mined(c, kinds, limit, light):
  def one(kind, line):
    if sweep.all_defined(model.classify(line)) and line.isprintable():
      judge(c, kind, line)
  sweep.mined(c, kinds, limit, light, one)


def run():
  kinds = sweep.usable_kinds()
  tasks = [(f'tables-{i}', check, (ks, 18 if QUICK else 500)) for i, ks in enumerate(sweep.chunks(kinds, 24))]
  tasks += [(f'odd-{i}', odd, (ks, 1 if QUICK else 20)) for i, ks in enumerate(sweep.chunks(kinds, 16))]
  tasks += [('samples', real, ())]
  tasks += sweep.mined_tasks(mined, kinds, 100 if QUICK else 2000)
  harness.run(
    'C06', tasks,
    rule='decode() with every output setting and parse() on decodable records of every kind; the returned table is compared '
         'character for character with a table rendered from the reference rows, and stdout with the returned table (once or '
         'not at all); with odd characters in free texts every row is compared up to its padding; distinct = (section, layout, line, call)',
    floors={'tables': 10000, 'parse outputs': 7000, 'tables with odd characters': 3000},
    assumptions=['the padding of the table is judged for printable ASCII contents only'])


run()
