"""C17: whitespace around a record changes nothing."""
import os
import shutil
import tempfile

import gen
import harness
import model
import sut
import sweep

QUICK = os.environ.get('VERIF_TIER', 'quick') == 'quick'
PRINT = ''.join(gen.PRINT)
PADS = ['', ' ', '  ', '\t', '\n', '\r', '\r\n', ' \t', '\t\t ', '\n\n', '   \r\n', '\r\n\r\n', ' ' * 10, ' ' * 120, '\t' * 8,
        ' ' * 132, '\n \t\r', ' ' * 70, ' ' * 124, '\n' * 300, ' ' * 5000, '\t \r\n' * 700, ' ' * 70000]


def everything(text):
  """all public results for one text, from a fresh object"""
  r = sut.Record()
  out = [sut.call(r.read, text)]
  out[0] = (out[0][0], out[0][1].replace(text.strip(), '<line>') if text.strip() else out[0][1])
  for fn, a in ((r.primary, ()), (r.hasCont, ()), (r.json, (False,)), (r.json, (False, False)), (r.decode, (False,)), (r.decode, ())):
    got = sut.call(fn, *a)
    out.append((repr(got[0]) if isinstance(got[0], sut.Raised) else got[0], got[1]))
  p = sut.call(sut.arinc424.parse, text)
  out.append((repr(p[0]) if isinstance(p[0], sut.Raised) else p[0], p[1].replace(text.strip(), '<line>') if text.strip() else p[1]))
  out[0] = (repr(out[0][0]) if isinstance(out[0][0], sut.Raised) else out[0][0], out[0][1])
  return out


NAMES = ['read', 'primary', 'hasCont', 'json', 'json indented', 'decode(False)', 'decode', 'parse']


def strip_lines(out):
  """diagnostics quote the line; compare them without the whitespace that surrounds it"""
  return '\n'.join(x.rstrip() for x in out.split('\n')).strip()


def same(a, b):
  for n, x, y in zip(NAMES, a, b):
    if x[0] != y[0]:
      return n
    if x[1] != y[1] and strip_lines(x[1]) != strip_lines(y[1]):
      return n + ' (printed)'
  return None


def judge(c, kind, line, pads):
  bare = everything(line)
  for pre, post in pads:
    got = everything(pre + line + post)
    d = same(bare, got)
    if d:
      i = NAMES.index(d.split(' (')[0])
      c.bad(f'{kind}: {d} changes when the record is surrounded by {pre!r} and {post!r}: {str(bare[i][0])[:80]!r} becomes '
            f'{str(got[i][0])[:80]!r}', line=line, before=pre, after=post)
      return
    c.ok('padded records', (kind, pre, post, line[:40]))


def check(c, kinds, n, m):
  for kind in kinds:
    rng = gen.rng_for('C17', c.seed, kind.key())
    for k in range(n):
      line = gen.valid_line(kind, rng) if k % 3 else gen.free_line(kind, rng, PRINT)
      if line.strip() != line:
        continue
      pads = [(rng.choice(PADS), rng.choice(PADS)) for _ in range(m)] + [(' ', ''), ('', '\n')]
      judge(c, str(kind), line, pads)
      if k == 1:
        c.sample(kind=str(kind), line=line, pads=pads)
      # refused alike: wrong length, wrong frame
      bad = rng.choice([line[:-1], line[1:], line + '0', line[:130], 'X' + line[1:], line[:4] + 'ZZ' + line[6:], line[:131] + 'A',
                        line[:20], '', line[:60] + line[61:]])
      if bad.strip() == bad:
        judge(c, 'refused', bad, pads[:2])


def files(c, n):
  """in files: indentation and trailing blanks; line ends never carry over"""
  d = tempfile.mkdtemp(prefix='c17-')
  try:
    kinds = sweep.usable_kinds()
    for k in range(n):
      rng = gen.rng_for('C17f', c.seed, c.label, k)
      lines = [gen.valid_line(rng.choice(kinds), rng) for _ in range(6)]
      bare, padded = os.path.join(d, 'bare'), os.path.join(d, 'padded')
      ws = [' ', '  ', '\t', ' \t ', '', '   '] + ([' ' * 9000, '\t' * 300] if k % 5 == 0 else [])
      with open(bare, 'w', newline='') as f:
        f.write(''.join(x + '\n' for x in lines))
      with open(padded, 'w', newline='') as f:
        f.write(''.join(rng.choice(ws) + x + rng.choice(ws) + rng.choice(['\n', '\r\n', '\n\n', ' \r\n', '\r']) for x in lines))
      for what, fn, a in (('read_file', sut.arinc424.read_file, ()), ('search', sut.arinc424.search, (rng.choice(lines)[10:14],)),
                          ('search', sut.arinc424.search, ('',)), ('search', sut.arinc424.search, ('  ',))):
        x, y = sut.call(fn, bare, *a), sut.call(fn, padded, *a)
        if repr(x[0]) != repr(y[0]) or x[1] != y[1]:
          c.bad(f'{what} prints something else for the file with padded records', lines=lines, args=a, padded=open(padded, newline='').read(), bare_out=x[1], padded_out=y[1])
        c.ok(f'{what} comparisons', (what, k, c.label))
  finally:
    shutil.rmtree(d)


def mined(c, kinds, limit, light):
  rng = gen.rng_for('C17m', c.seed, c.label)
  sweep.mined(c, kinds, limit, light, lambda kind, line: judge(c, str(kind), line, [(rng.choice(PADS[1:]), rng.choice(PADS))]))


def run():
  kinds = gen.kinds()
  tasks = [(f'pads-{i}', check, (ks, 12 if QUICK else 120, 4 if QUICK else 8)) for i, ks in enumerate(sweep.chunks(kinds, 24))]
  tasks += [(f'files-{i}', files, (30 if QUICK else 600,)) for i in range(8)]
  tasks += sweep.mined_tasks(mined, limit=60 if QUICK else 1500)
  harness.run(
    'C17', tasks,
    rule='all public results (read, primary, hasCont, both JSON forms, decode, parse and what they print) for a bare line and '
         'for the same line surrounded by blanks, tabs, CR, LF in 23 x 23 combinations, up to 70000 characters long, accepted and refused lines of every '
         'kind, and file/search output for bare and padded files; distinct = (kind, whitespace, line)',
    floors={'padded records': 3000, 'read_file comparisons': 100})


run()
