"""C08: numbers are decoded without loss, in the right scale and unit."""
import gen
import harness
import model
import os
import sweep

TIER = os.environ.get('VERIF_TIER', 'quick')
QUICK = TIER == 'quick'


def corner(w):
  """digit strings of width w at which scales, signs, paddings and centuries change"""
  out = {'0' * w, '9' * w}
  for k in range(w):
    for d in range(1, 10):
      out.add(str(d * 10 ** k).zfill(w)[-w:])
    out.add(str(10 ** k - 1).zfill(w)[-w:])
    out.add(str(10 ** k + 1).zfill(w)[-w:])
    out.add(('12345678'[:k + 1]).ljust(w, '0'))
    out.add(('12345678'[:k + 1]).rjust(w, '0'))
  for n in (5, 6, 50, 51, 59, 60, 61, 99, 100, 101, 127, 128, 179, 180, 181, 255, 256, 359, 360, 361, 999, 1000, 1023,
            1024, 1799, 1800, 1801, 3599, 3600, 3601, 4095, 4096, 5999, 6000, 9999, 10000, 17999, 18000, 18001,
            29999, 32767, 32768, 41000, 60000, 65535, 65536, 99900, 99990, 10800, 11795, 11800, 13695, 11812, 19000,
            17500, 5350):
    s = str(n)
    if len(s) <= w:
      out.add(s.zfill(w))
  return sorted(out)


def plain_width(f):
  """number of digit columns of a numeric field"""
  return {'039': f.width - 1}.get(f.para, f.width)


def special(f, rng):
  """non-digit values the field's definition allows"""
  p, w = f.para, f.width
  b = ' ' * w
  if p == '026':
    return [b] + [gen.rand_digits(rng, w - 1) + 'T' for _ in range(6)]
  if p == '027':
    return [b] + ['T' + x for x in (corner(w - 1) if w > 1 else [])]
  if p in ('034', '072', '269', '065'):
    return [b]
  if p == '039':
    return [b] + [d + x for d in 'EWT' for x in corner(w - 1)]
  if p == '178':
    return [z + m for z in 'ABCDEFGHIKLMNOPQRSTUVWXYZ' for m in ('00', '15', '30', '45', '59')]
  if p == '010':
    return [(a + r + s).ljust(w)[:w] for a in 'ILVRNDHSX' for r in ('04', '22', '09', '36') for s in 'LRC ']
  if p in ('045', '103', '062', '135'):
    return ['0' * w]
  if p == '012':
    return [x.ljust(w) for x in ('1', '12', '123', '1234') if len(x) <= w] + [x.rjust(w) for x in ('1', '12', '123') if len(x) <= w] + [b]
  if p == '032':
    return [f'{y:02d}{n:02d}' for y in range(100) for n in (1, 13)]
  feet = [b, '-' + '0' * (w - 1), '+' + '1' * (w - 1)]
  for t in ('FL180', 'FL095', 'FL450', 'UNLTD', 'GND', 'UNKNN', 'NOTAM', 'MSL', '-0050', '-1200', '-9', '00 50', '0 0', 'FL000', 'AGL'):
    if len(t) <= w:
      feet.append(t.ljust(w))
  return feet


def allowed(f, v, section):
  try:
    model.decode_field(f, v, section)
    return True
  except model.Bad:
    return False


def digit_values(f, rng, n):
  w = plain_width(f)
  total = 10 ** w
  if f.para == '178':
    return []
  if total <= n:
    vals = [str(i).zfill(w) for i in range(total)]
    rng.shuffle(vals)
  else:
    vals = corner(w)
    step = max(1, total // max(1, n - len(vals)))
    off = rng.randrange(step)
    vals = vals + [str(min(total - 1, i * step + off)).zfill(w) for i in range(max(0, n - len(vals)))]
    rng.shuffle(vals)
  if f.para == '039':
    vals = [rng.choice('EWT') + x for x in vals]
  return vals


def sweep_numbers(c, kinds, n, paras=None):
  for kind in kinds:
    rng = gen.rng_for('C08', c.seed, kind.key(), n, sorted(paras) if paras else None)
    idx = sweep.indexes(kind, model.NUMERIC)
    fixed = kind.selecting() - set(range(123, 132))
    todo = {}
    for i in idx:
      f = kind.layout[i]
      if set(f.columns()) & fixed or (paras and f.para not in paras):
        continue
      v = special(f, rng) + digit_values(f, rng, n)
      v = [x for x in dict.fromkeys(v) if len(x) == f.width and allowed(f, x, kind.section)]
      if any(col >= 123 for col in f.columns()):
        v = [x for x in v if x.isdigit()]
      rng.shuffle(v)
      if v:
        todo[i] = v
    m = max([len(v) for v in todo.values()] + [1])
    for k in range(m):
      given = {i: v[(k + 13 * i) % len(v)] for i, v in todo.items()}
      line = gen.valid_line(kind, rng, given)
      sweep.judge(c, kind, line, idx, 'number')
      if k == 0:
        c.sample(kind=str(kind), line=line, values={kind.layout[i].name: t for i, t in list(given.items())[:4]})


def mined(c, kinds, limit, light):
  def one(kind, line):
    acc = model.classify(line)
    if not line.isascii() or not line.isprintable() or not gen.sane(line):
      return
    which = [i for i in sweep.indexes(kind, model.NUMERIC) if sweep.defined(kind.layout[i], kind.layout[i].value(line), acc.section)]
    sweep.judge(c, kind, line, which, 'number')
  sweep.mined(c, kinds, limit, light, one)


def run():
  kinds = [k for k in sweep.usable_kinds(conts_primary='0', default_sel='X')]
  # every kind has a cycle date; the kinds that hold nothing else numeric need fewer records
  rich = [k for k in kinds if len(sweep.indexes(k, model.NUMERIC)) > 1]
  poor = [k for k in kinds if k not in rich]
  more = [k for k in sweep.usable_kinds(conts_primary='1', conts_other='7A', default_sel='X')]
  n = 1000 if QUICK else 10000
  tasks = []
  for j, ks in enumerate(sweep.chunks(rich, 32)):
    if ks:
      tasks.append((f'numbers-{j}', sweep_numbers, (ks, n)))
  for j, ks in enumerate(sweep.chunks(poor, 8)):
    if ks:
      tasks.append((f'dates-{j}', sweep_numbers, (ks, 60 if QUICK else 10000)))
  for j, ks in enumerate(sweep.chunks(more, 8)):
    if ks:
      tasks.append((f'other-conts-{j}', sweep_numbers, (ks, 40 if QUICK else 1000)))
  if not QUICK:
    seen = set()
    for k in rich:
      new = {(f.para, k.section) for f in k.layout if f.para in model.NUMERIC and plain_width(f) == 5} - seen
      if new:
        seen |= new
        tasks.append((f'exhaustive5-{k}', sweep_numbers, ([k], 100000, {p for p, _ in new})))
  tasks += sweep.mined_tasks(mined, sweep.usable_kinds())
  harness.run(
    'C08', tasks,
    rule='for every record kind, every numeric field runs through its special values, corner values and digit strings '
         '(all of them up to three digits; wider: corners plus an evenly spaced, seed-shifted sample; thorough: all '
         'four- and five-digit strings of every field type and section); one evaluation = one decoded number compared '
         'with exact integer arithmetic; distinct = different (section, field, digits)',
    floors={'fields judged': 100000, 'records decoded': 30000},
    assumptions=['scales and units of each field are those of the reference model (lib/model.py)'])


run()
