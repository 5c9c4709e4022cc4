"""C10: decoding gives the whole table or refuses with ValueError, nothing else."""
import os
import sys

import gen
import harness
import model
import sut
import sweep

QUICK = os.environ.get('VERIF_TIER', 'quick') == 'quick'
PRINT = ''.join(gen.PRINT)
STEPS = 400000         # traced lines of the library per call; a decode takes about a thousand


class TooLong(BaseException):
  pass


def counted(fn, *a):
  """call fn counting the lines it executes inside the library"""
  n = [0]

  def local(frame, event, arg):
    if event == 'line':
      n[0] += 1
      if n[0] > STEPS:
        raise TooLong
    return local

  def tracer(frame, event, arg):
    return local if frame.f_code.co_filename.startswith(sut.SRC_DIR) else None
  sys.settrace(tracer)
  try:
    return sut.call(fn, *a), n[0]
  finally:
    sys.settrace(None)


def odd(acc):
  """a number is spelled in a way the statement does not settle (sign, exponent, inner or leading blank)"""
  return any(sweep.odd_number(f, f.value(acc.line)) for f in acc.layout)


def allowed(acc):
  """every field holds a value its definition allows (ASCII only, no odd spellings of numbers)"""
  if not all(ch.isascii() for ch in acc.line):
    return None
  try:
    model.decode(acc)
    return None if odd(acc) else True
  except model.Bad:
    return False


def whole(acc, t):
  """the text is the complete table: one row per field (read back where the characters permit)"""
  if not t.startswith('+-') or not t.endswith('-+'):
    return False
  if all(32 <= ord(ch) < 127 for ch in acc.line):
    rows = sut.parse_table(t)
    return rows is not None and len(rows) == len(acc.layout)
  return all(f.name.rstrip() in t for f in acc.layout)


def judge(c, text, canary, trace=False):
  acc = model.classify(text)
  if not isinstance(acc, model.Accept):
    c.n['not a record'] += 1
    return
  r = sut.Record()
  ok, _ = sut.call(r.read, text)
  if ok is not True:
    c.n['read refused'] += 1
    return
  before, _ = sut.call(r.json, False)
  if trace:
    (got, out), steps = counted(r.decode)
    c.n['traced decodes'] += 1
    c.n['max traced steps'] = max(c.n['max traced steps'], steps)
  else:
    got, out = sut.call(r.decode)
  exp = allowed(acc)
  if isinstance(got, sut.Raised):
    if got.type in (TooLong, sut.Hung):
      c.bad(f'{acc.layout_name}: decoding does not come to an end', line=text)
      raise harness.Stop
    if not got.refusal:
      c.bad(f'{acc.layout_name}: decoding {got}; only ValueError is a refusal', line=text)
      return
    if exp is True:
      c.bad(f'{acc.layout_name}: every field holds an allowed value, but decoding {got}', line=text)
      return
    if '+-' in out and '| Field' in out:
      c.bad(f'{acc.layout_name}: a refused record printed a table', line=text, out=out)
      return
    if model.undecodable(acc):
      c.known('ndb-q-undecodable')
    c.ok('refusals', ('r', acc.section, acc.layout_name, got.msg[:60]))
  else:
    if not isinstance(got, str) or not whole(acc, got):
      c.bad(f'{acc.layout_name}: decoding returned {str(got)[:80]!r}, not a whole table', line=text)
      return
    c.ok('whole tables', ('t', acc.section, acc.layout_name, acc.line))
  after, _ = sut.call(r.json, False)
  if after != before or not isinstance(before, str):
    c.bad(f'{acc.layout_name}: JSON before and after decoding differ', line=text, before=before, after=after)
    return
  got2, _ = sut.call(r.decode, False)
  if (isinstance(got, sut.Raised)) != isinstance(got2, sut.Raised) or (isinstance(got, str) and got2 != got):
    c.bad(f'{acc.layout_name}: decoding again gives another outcome: {str(got)[:60]!r}, then {str(got2)[:60]!r}', line=text)
    return
  canary(c)


def make_canary():
  rng = gen.rng_for('canary')
  k = [k for k in sweep.usable_kinds() if k.section in ('PF', 'D ', 'UR', 'PV', 'ER') and k.primary]
  lines = [gen.valid_line(x, rng) for x in k]
  r0 = []
  for x in lines:
    r = sut.Record()
    sut.call(r.read, x)
    r0.append((r, sut.call(r.decode, False)[0]))
  state = [0]

  def canary(c):
    state[0] += 1
    if state[0] % 20:
      return
    r, want = r0[(state[0] // 20) % len(r0)]
    got, _ = sut.call(r.decode, False)
    if got != want:
      c.bad('another record, read before, decodes differently after this', got=str(got)[:200])
    c.ok('other records unaffected')
  return canary


def spoilt(kind, rng):
  """a valid record with a few columns or one field made odd"""
  line = list(gen.valid_line(kind, rng))
  sel = kind.selecting()
  r = rng.random()
  if r < .4:
    for _ in range(rng.randint(1, 3)):
      p = rng.randrange(1, 123)
      if p not in sel:
        line[p] = rng.choice(gen.NASTY)
  elif r < .8:
    f = rng.choice(kind.layout)
    if not set(f.columns()) & sel:
      q = rng.random()
      t = ' ' * f.width if q < .2 else ''.join(rng.choice(gen.NASTY) for _ in range(f.width)) if q < .5 else \
        rng.choice(gen.NASTY) * f.width if q < .6 else ''.join(rng.choice(PRINT) for _ in range(f.width)) if q < .8 else \
        ''.join(rng.choice('0123456789\u00b2\u0664\u2460\u00bd ') for _ in range(f.width))
      f.put(line, t)
  else:
    a = rng.randrange(1, 120)
    for p in range(a, min(123, a + rng.randint(1, 30))):
      if p not in sel:
        line[p] = rng.choice([' ', '9', 'A', '-'])
  return ''.join(line)


def check(c, kinds, n):
  sut.watchdog()
  canary = make_canary()
  for kind in kinds:
    rng = gen.rng_for('C10', c.seed, kind.key())
    for k in range(n):
      s = k % 10
      if s == 0:
        line = gen.free_line(kind, rng, PRINT)
      elif s == 1:
        line = gen.free_line(kind, rng, gen.NASTY)
      elif s == 2:
        line = gen.free_line(kind, rng, rng.choice([' ', '0', '9', 'A', 'T', '-', '\x00', '\u4e00', '\u0301']))
      elif s == 3:
        line = gen.free_line(kind, rng, gen.DIG)
      elif s == 4:
        line = gen.valid_line(kind, rng, gaps=gen.ALNUM)
      elif s == 5:
        line = gen.free_line(kind, rng, ' 0')
      else:
        line = spoilt(kind, rng)
      judge(c, line, canary, trace=k % 5 == 0)
      if k == 6:
        c.sample(kind=str(kind), line=line)


def conts(c, kinds, n):
  sut.watchdog()
  canary = make_canary()
  for kind in kinds:
    rng = gen.rng_for('C10c', c.seed, kind.key())
    for _ in range(n):
      judge(c, gen.valid_line(kind, rng), canary)


def mined(c, kinds, limit, light):
  sut.watchdog()
  canary = make_canary()
  sweep.mined(c, kinds, limit, light, lambda kind, line: judge(c, line, canary))


def filled(c, cases):
  """every kind of field filled with one repeated character"""
  sut.watchdog()
  canary = make_canary()
  for kind, i in cases:
    rng = gen.rng_for('C10r', c.seed, kind.key(), i)
    f = kind.layout[i]
    for ch in gen.PRINT + rng.sample(gen.HOSTILE, 4):
      for v in dict.fromkeys([ch * f.width, ch + ' ' * (f.width - 1), ' ' * (f.width - 1) + ch]):
        chars = list(gen.valid_line(kind, rng))
        f.put(chars, v)
        line = ''.join(chars)
        if line.strip() == line:
          judge(c, line, canary)
          c.n['fields of one character'] += 1


def runs(c, cases):
  """long runs of one kind of character that end differently: texts on which a careless pattern backtracks for ever"""
  sut.watchdog()
  canary = make_canary()
  for kind, i in cases:
    rng = gen.rng_for('C10b', c.seed, kind.key(), i)
    f = kind.layout[i]
    for unit in ('A', 'a', '0', ' ', '-', '.', 'A ', 'A1', 'AB ', '0.', '(', ')', '"', "'", 'A-', 'A,', '\\'):
      for end in ('!', '0', 'x', '', ' ', '*'):
        v = ((unit * f.width)[:f.width - len(end)] + end)
        chars = list(gen.valid_line(kind, rng))
        f.put(chars, v)
        line = ''.join(chars)
        if line.strip() == line:
          judge(c, line, canary)
          c.n['runs of characters'] += 1
    for unit in ('A', '0', 'A ', '-'):    # the whole rest of the line
      chars = list(gen.free_line(kind, rng, unit[0]))
      judge(c, ''.join(chars), canary)


def run():
  kinds = gen.kinds()
  more = gen.kinds(conts_primary='', conts_other='3456789ABCDEFGHIJKLMNOPQRSTUVWXYZ')
  tasks = [(f'fuzz-{i}', check, (ks, 160 if QUICK else 5000)) for i, ks in enumerate(sweep.chunks(kinds, 24))]
  tasks += [(f'conts-{i}', conts, (ks, 1 if QUICK else 20)) for i, ks in enumerate(sweep.chunks(more, 8))]
  tasks += sweep.mined_tasks(mined)
  seen, cases = set(), []
  for k in kinds:
    for i, f in enumerate(k.layout):
      key = (f.para, f.width, k.section if f.para in model.DECODERS and not QUICK else '')
      if key not in seen and not set(f.columns()) & k.selecting() and not gen.ndb_q(k):
        seen.add(key)
        cases.append((k, i))
  tasks += [(f'filled-{i}', filled, (cs,)) for i, cs in enumerate(sweep.chunks(cases, 16)) if cs]
  wide = [(k, i) for k, i in cases if k.layout[i].width >= 9]
  tasks += [(f'runs-{i}', runs, (cs,)) for i, cs in enumerate(sweep.chunks(wide, 8)) if cs]
  harness.run(
    'C10', tasks,
    rule='decode() on accepted records of every kind with random, hostile, blank, numeric, non-ASCII and slightly spoilt '
         'contents; long runs of characters; observed: outcome type, completeness of the table, printed text, lines executed inside the library '
         f'(limit {STEPS}) and processor time (20 s), JSON before/after, a second decode, and other records decoded in between; distinct = (layout, line)',
    floors={'whole tables': 5000, 'refusals': 3000, 'traced decodes': 3000, 'other records unaffected': 500},
    assumptions=['a record is required to decode only if it is ASCII and the reference model allows every field'],
    death=True)


run()
