"""C01: exactly the well-formed lines are accepted, and reading never raises."""
import os
import string

import gen
import harness
import model
import sut
import sweep

QUICK = os.environ.get('VERIF_TIER', 'quick') == 'quick'
PRINT = ''.join(gen.PRINT)
ODD = ['é', 'ß', '\u00b2', '\u0664', '\u2460', '\u4e00', '\x00', '\x7f', '\u200b', '\U0001F6EB', '\ud800', '\t', '\n', '\xa0']
ASCII_WS = ' \t\r\n\x0b\x0c'


def ambiguous(text):
  """outside what the statement settles: only 'does not raise' is judged"""
  line = text.strip()
  if line != text.strip(ASCII_WS):
    return True
  if len(line) != model.LEN:
    return False
  if any(not ch.isascii() for ch in line[-9:]):
    return any(ch.isnumeric() and not ch.isascii() for ch in line[-9:])
  acc = model.classify(line)
  if isinstance(acc, model.Accept):
    return acc.cont is not None and not acc.cont.isascii()
  return False


class Text(str):
  """a text by another name"""


def judge(c, text, parse=False):
  exp = model.classify(text)
  r = sut.Record()
  if c.n['evaluations'] % 41 == 40:
    text = Text(text)
    c.n['texts of a subclass of str'] += 1
  got, _ = sut.call(r.read, text)
  want = isinstance(exp, model.Accept)
  if isinstance(got, sut.Raised):
    c.bad(f'read {got} instead of answering {want}', line=text)
    if got.type is sut.Hung:
      raise harness.Stop
    return
  if ambiguous(text):
    c.ok('not raising')
    return
  if got is not want:
    why = '' if want else f' ({exp.why})'
    c.bad(f'read returned {got!r}, should be {want}{why}', line=text, section=getattr(exp, 'section', None))
    return
  if want:
    c.ok('accepted', ('a', exp.section, exp.cont, exp.layout_name))
  else:
    c.ok('refused', ('r', exp.why, len(text) if len(text) < 140 else 140, text[4:6], text[12:13]))
  if parse:
    got, out = sut.call(sut.arinc424.parse, text, False)
    if isinstance(got, sut.Raised):
      if not (want and got.refusal):
        c.bad(f'parse {got}', line=text)
        return
    elif got is not want:
      c.bad(f'parse returned {got!r}, should be {want}', line=text)
      return
    c.ok('parse judged')


def codes(c, fives, sixes, thirteens, fillers):
  """columns 5, 6 and 13 enumerated"""
  sut.watchdog()
  for fill in fillers:
    rng = gen.rng_for('C01', c.seed, fill)
    for a in fives:
      for b in sixes:
        base = list(fill * model.LEN) if len(fill) == 1 else [rng.choice(PRINT) for _ in range(model.LEN)]
        base[0] = rng.choice('ST')
        base[123:132] = [rng.choice(gen.DIG) for _ in range(9)]
        base[4], base[5] = a, b
        for t in thirteens:
          base[12] = t
          judge(c, ''.join(base))


def base_line(rng, section):
  """printable random content of a section with an accepted-looking frame"""
  k = rng.choice([k for k in KINDS if k.section == section])
  return k, list(gen.free_line(k, rng, rng.choice([PRINT, gen.ALNUM, ' ', '0', 'A', '2'])))


KINDS = gen.kinds()
CONTS = list(PRINT) + ODD


def continuation(c, sections):
  """every continuation character x every selector character"""
  sut.watchdog()
  for s in sections:
    spec = model.RECORDS[s]
    rng = gen.rng_for('C01c', c.seed, s)
    for k in [k for k in KINDS if k.section == s and k.cont in (None, '0', '2')]:
      for parsed in range(3):
        judge(c, gen.valid_line(k, rng), parse=True)
      c.sample(kind=str(k))
    if spec['cont'] is None:
      for _ in range(300):
        judge(c, ''.join(base_line(rng, s)[1]), parse=True)
      continue
    a, b = spec['sel']
    sels = list(PRINT) + ODD if b - a == 1 else [x + y for x in string.ascii_uppercase + ' 09az' for y in string.ascii_uppercase + ' 09az']
    for cont in CONTS:
      _, line = base_line(rng, s)
      few = sels if b - a == 1 or cont in '012Z' else ['AE', 'TC', 'SC', 'NR', '  ', 'ae', 'XX', 'EA', 'A ', 'AEA'[1:]]
      for sel in few:
        line[a:b] = list(sel)
        line[spec['cont']] = cont
        if rng.random() < .1:
          _, line2 = base_line(rng, s)
          line2[a:b] = list(sel)
          line2[spec['cont']] = cont
          line = line2
        judge(c, ''.join(line))


def frame(c, sections):
  """length, first character, last nine characters, surrounding whitespace"""
  sut.watchdog()
  for s in sections:
    rng = gen.rng_for('C01f', c.seed, s)
    k = rng.choice([k for k in KINDS if k.section == s and k.primary])
    good = gen.valid_line(k, rng)
    for n in list(range(0, 300, 1 if not QUICK else 3)) + [130, 131, 132, 133, 134, 1000]:
      for t in (good[:n] if n <= 132 else good + '0' * (n - 132), good[:123] + '0' * n, good + 'A' * n,
                good[:60] + ' ' * n + good[60:], good[max(0, 132 - n):], 'S' + ' ' * n):
        judge(c, t)
    for ch in [chr(i) for i in range(0x300)] + ODD:
      judge(c, ch + good[1:])
      judge(c, ch + good)
    for p in range(123, 132):
      for ch in [chr(i) for i in range(0x100)] + ODD:
        judge(c, good[:p] + ch + good[p + 1:])
    for _ in range(60):
      ws = ''.join(rng.choice(ASCII_WS) for _ in range(rng.randint(0, 6)))
      ws2 = ''.join(rng.choice(ASCII_WS) for _ in range(rng.randint(0, 6)))
      judge(c, ws + good + ws2, parse=rng.random() < .3)
      judge(c, ws + good[:-1] + ws2)
      judge(c, ws + good[1:] + ws2)
      judge(c, ws + good[:50] + ws + 'x' + good[51:] + ws2)


def fuzz(c, n, which):
  sut.watchdog()
  rng = gen.rng_for('C01z', c.seed, which)
  pool = [x for x in gen.samples() if x]
  pool += [gen.valid_line(rng.choice(KINDS), rng) for _ in range(400)]
  for i in range(n):
    r = rng.random()
    if r < .15:
      t = gen.rand_unicode(rng, rng.choice([0, 1, 2, 5, 12, 13, 60, 131, 132, 133, 200]))
    elif r < .3:
      k = rng.choice(KINDS)
      t = gen.free_line(k, rng, gen.NASTY)
    else:
      t = rng.choice(pool)
      for _ in range(rng.randint(1, 4)):
        q = rng.random()
        p = rng.randrange(len(t) + 1)
        if q < .5:
          t = t[:p] + rng.choice(gen.NASTY if rng.random() < .3 else PRINT) + t[p + 1:]
        elif q < .6:
          t = t[:p] + t[p + 1:]
        elif q < .7:
          t = t[:p] + rng.choice(PRINT) + t[p:]
        elif q < .8:
          t = t[p:] + t[:p]
        elif q < .9 and len(t) > 30:
          a = rng.choice([4, 5, 12, 15, 16, 17, 19, 20, 21, 22, 24, 25, 26, 27, 29, 30, 38, 39, 55, 56, 69, 70])
          if a < len(t):
            t = t[:a] + rng.choice(gen.ALNUM + ' ') + t[a + 1:]
        else:
          u = rng.choice(pool)
          t = t[:p] + u[p:]
    judge(c, t, parse=rng.random() < (.05 if QUICK else .2))


def runs(c):
  """long runs of one kind of character that end differently"""
  sut.watchdog()
  rng = gen.rng_for('C01r', c.seed)
  for unit in ('A', 'S', 'a', '0', ' ', '-', '.', 'A ', 'A1', '0.', '  A', '\t'):
    for end in ('!', '0', '', 'x', '00000000', '000000000', '0000000000', '00000000!', '123456789', '12345678X', '!123456789'):
      for n in (40, 131, 132, 133, 5000):
        t = 'S' + (unit * n)[:max(0, n - 1 - len(end))] + end
        judge(c, t)
        judge(c, t[1:])
        judge(c, t[:4] + rng.choice(['PA', 'P ', 'D ', 'ER']) + t[6:])


def mined(c, kinds, limit, light):
  sut.watchdog()
  rng = gen.rng_for('C01m', c.seed, c.label)
  sweep.mined(c, kinds, limit, light, lambda kind, line: judge(c, line, parse=rng.random() < .1), keep=False)


def run():
  secs = list(model.SECTIONS)
  tasks = [(f'frame-{i}', frame, (s,)) for i, s in enumerate(sweep.chunks(secs, 8))]
  tasks += [(f'cont-{i}', continuation, (s,)) for i, s in enumerate(sweep.chunks(secs, 8))]
  five = list(PRINT)
  if QUICK:
    thirteen = list(PRINT)
    tasks += [(f'codes-{i}', codes, (f, five, thirteen, ['0', 'random'])) for i, f in enumerate(sweep.chunks(five, 8))]
    tasks += [('codes-PH', codes, (['P', 'H', 'p', 'h', 'D', 'E', 'R', 'T', 'U', 'A'], [' ', 'A', 'N', '0'], list(PRINT) + ODD, ['0', '1', 'A', '2']))]
    tasks += [(f'fuzz-{i}', fuzz, (12000, i)) for i in range(8)]
  else:
    tasks += [(f'codes-{i}', codes, (f, five + ODD, five + ODD, ['0', '1', '2', 'random'])) for i, f in enumerate(sweep.chunks(five + ODD, 24))]
    tasks += [(f'fuzz-{i}', fuzz, (400000, i)) for i in range(24)]
  tasks += [('runs', runs, ())]
  tasks += sweep.mined_tasks(mined)
  harness.run(
    'C01', tasks,
    rule='read() is offered every section/subsection code (columns 5, 6 and 13 enumerated), every continuation and '
         'application type character of every section, every length 0..300, every first character, every character in the '
         'nine numeric positions, padded lines, mutated sample lines and random texts; the answer is compared with the '
         'acceptance rule; parse() on a part of them; distinct = different (verdict, section/reason, continuation, layout)',
    floors={'accepted': 30000, 'refused': 200000, 'parse judged': 2000},
    assumptions=['non-ASCII digits among the last nine characters and non-ASCII letters as continuation number are only '
                 'required not to raise'])


run()
