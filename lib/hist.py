"""Baselines from pristine processes, and pools of lines that are easy to confuse."""
import os
import pickle

import gen
import mine
import model
import sut
import sweep


def plain(x):
  return repr(x) if isinstance(x, sut.Raised) else x


def _read(line):
  r = sut.Record()
  if line is not None:
    sut.call(r.read, line)
  return r


# operation name -> (how to run it on a record object, the output counts too)
OPS = {
  'primary': lambda r: sut.call(r.primary),
  'hasCont': lambda r: sut.call(r.hasCont),
  'json': lambda r: sut.call(r.json, False),
  'json printed': lambda r: sut.call(r.json),
  'json indented': lambda r: sut.call(r.json, False, False),
  'decode': lambda r: sut.call(r.decode, False),
  'decode printed': lambda r: sut.call(r.decode),
}


def do(op, r):
  got, out = OPS[op](r)
  return plain(got), out


def do_read(r, line):
  got, out = sut.call(r.read, line)
  return plain(got), out


def do_parse(line, output):
  got, out = sut.call(sut.arinc424.parse, line, output)
  return plain(got), out


def observe(line):
  """every result for a line, each from an object of its own"""
  res = {}
  if line is not None:
    res['read'] = do_read(sut.Record(), line)
  for op in OPS:
    res[op] = do(op, _read(line))
  if line is not None:
    res['parse'] = do_parse(line, True)
    res['parse quiet'] = do_parse(line, False)
  return res


def pristine(fn, *a):
  """fn(*a) in a forked copy of this process, which must not have used the library yet"""
  rd, wr = os.pipe()
  pid = os.fork()
  if pid == 0:
    code = 1
    try:
      os.close(rd)
      data = pickle.dumps(fn(*a))
      with os.fdopen(wr, 'wb') as f:
        f.write(data)
      code = 0
    finally:
      os._exit(code)
  os.close(wr)
  with os.fdopen(rd, 'rb') as f:
    data = f.read()
  os.waitpid(pid, 0)
  if not data:
    raise RuntimeError('pristine process gave no result')
  return pickle.loads(data)


def baselines(lines):
  return {x: pristine(observe, x) for x in lines}


PRINT = ''.join(gen.PRINT)
PROC = ('PD', 'PE', 'PF', 'HD', 'HE', 'HF')


def near(line, kind, rng):
  """the same line with one free column (or the file record number, cycle or record type) changed"""
  if rng.random() < .2:
    p = rng.choice([0] + list(range(123, 132)))
    t = line[:p] + (rng.choice(gen.DIG) if p else 'ST'[line[0] == 'S']) + line[p + 1:]
    if t != line:
      return t
  free = sorted(set(range(1, 123)) - kind.selecting())
  for _ in range(40):
    p = rng.choice(free)
    t = line[:p] + rng.choice(gen.ALNUM + ' ') + line[p + 1:]
    if t != line and t.strip() == t:
      return t
  return line


def other_section(line, kind, rng):
  """the same columns as a record of another section, continuation number or selector"""
  opts = [k for k in ALL if k.layout_name != kind.layout_name or k.section != kind.section]
  same = [k for k in opts if k.spec['cont'] == kind.spec['cont']]
  k = rng.choice(same or opts)
  t = list(line)
  for p, ch in k.fixed().items():
    t[p] = ch
  return ''.join(t), k


def sibling(line, kind, rng):
  """same section, other continuation number or application type, all else equal"""
  opts = [k for k in ALL if k.section == kind.section and k.key() != kind.key()]
  if not opts:
    return line
  t = list(line)
  for p, ch in rng.choice(opts).fixed().items():
    t[p] = ch
  return ''.join(t)


def broken(line, kind, rng):
  """a refused variant"""
  q = rng.randrange(7)
  if q == 0:
    return line[:-1]
  if q == 1:
    return line[:4] + 'ZZ' + line[6:]
  if q == 2 and kind.cont is not None:
    p = kind.spec['cont']
    return line[:p] + rng.choice(' -?') + line[p + 1:]
  if q == 3 and kind.cont is not None and kind.spec['default'] is None:
    t = list(line)
    t[kind.spec['cont']] = '2'
    a, b = kind.spec['sel']
    t[a:b] = list('~~'[:b - a])
    return ''.join(t)
  if q == 4:
    return line[:125] + 'X' + line[126:]
  if q == 5:
    return 'X' + line[1:]
  return rng.choice(['', ' ', '\n', '# comment', line[:60]])


def spoil(line, kind, rng):
  """an accepted variant that may be refused when decoded"""
  strict = [f for f in kind.layout if f.para in ('020', '108', '182', '270', '082', '072', '034', '008', '021', '026', '039')
            and not set(f.columns()) & kind.selecting()]
  if not strict:
    return near(line, kind, rng)
  t = list(line)
  f = rng.choice(strict)
  f.put(t, '?' * f.width)
  return ''.join(t)


ALL = gen.kinds()
USABLE = sweep.usable_kinds()


def pool(rng, families, wide=True):
  """lines in families of look-alikes; families: a number of random kinds or a list of kinds"""
  out = []
  if isinstance(families, int):
    families = [rng.choice(ALL) for _ in range(families)]
  for kind in families:
    base = gen.valid_line(kind, rng, gaps=rng.choice([' ', gen.ALNUM]))
    fam = [base, near(base, kind, rng), near(base, kind, rng), sibling(base, kind, rng), spoil(base, kind, rng),
           broken(base, kind, rng), gen.valid_line(kind, rng)]
    if mine.FRESH:
      ml = mine.lines(kind, rng, 10, 0)
      fam += ml[:3] + ml[-2:]
    if wide:
      fam += [other_section(base, kind, rng)[0], other_section(base, kind, rng)[0], gen.free_line(kind, rng, PRINT),
              '  ' + base + '\r\n', broken(base, kind, rng)]
    out += fam
  return list(dict.fromkeys(out))
