"""C04: primary() and hasCont() agree with the record."""
import os

import gen
import harness
import model
import sut
import sweep

QUICK = os.environ.get('VERIF_TIER', 'quick') == 'quick'
PRINT = ''.join(gen.PRINT)
CONTS = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcxyz'


def answers(r):
  return sut.call(r.primary)[0], sut.call(r.hasCont)[0]


LOOKALIKES = '\uff10\uff11\u0660\u0661\u00b9\u00b2\u2460\u2160\u0966\u0967\uff21\u00e9\u4e00\U0001d7ce\U0001d7cf\U0001d7d9'


def lookalikes(c, kinds):
  """letters and digits of other scripts, where they are accepted, are no 0 and no 1"""
  for kind in kinds:
    if kind.cont is None:
      continue
    rng = gen.rng_for('C04l', c.seed, kind.key())
    line = gen.free_line(kind, rng, gen.ALNUM)
    for ch in LOOKALIKES:
      p = kind.spec['cont']
      q = line[:p] + ch + line[p + 1:]
      acc = model.classify(q)
      r = sut.Record()
      if isinstance(acc, model.Accept) and sut.call(r.read, q)[0] is True:
        judge(c, r, acc, 'a look-alike of a digit', q)
        c.n['look-alikes'] += 1


def judge(c, r, acc, what, line, steps=None):
  """acc: the line last read with success, or None"""
  want = (acc.primary, acc.has_cont) if acc else (False, False)
  got = answers(r)
  if got[0] is not want[0] or got[1] is not want[1]:
    c.bad(f'{what}: primary(), hasCont() = {got}, should be {want}'
          + (f' ({acc.section}, continuation number {acc.cont!r})' if acc else ' (nothing read yet)'),
          line=line, steps=steps)
    return
  c.ok('answers', (acc.section, acc.cont, acc.layout_name, what) if acc else ('none', what))


def shown(c, r, acc, line):
  """the continuation number shown for the record agrees with the answers"""
  t, _ = sut.call(r.json, False)
  p = dict(sut.pairs(t) or []) if isinstance(t, str) else {}
  for f in acc.layout:
    if f.para == '016':
      v = p.get(f.name)
      if (v in ('0', '1')) is not answers(r)[0] or (v == '1') is not answers(r)[1]:
        c.bad(f'{acc.section}: shows continuation number {v!r} but primary(), hasCont() = {answers(r)}', line=line)
        return
      c.ok('agreement with the number shown', ('shown', acc.section, v))


def enumerate_all(c, kinds, n):
  for kind in kinds:
    rng = gen.rng_for('C04', c.seed, kind.key())
    for k in range(n):
      line = gen.free_line(kind, rng, rng.choice([PRINT, gen.ALNUM, ' ', '0', '1', '2', gen.DIG])) if k % 2 else gen.valid_line(kind, rng)
      acc = model.classify(line)
      if not isinstance(acc, model.Accept) or acc.line != line:
        continue
      r = sut.Record()
      judge(c, r, None, 'fresh object', line)
      got, _ = sut.call(r.read, line)
      if got is not True:
        c.bad(f'{kind}: read gave {got!r}', line=line)
        continue
      judge(c, r, acc, 'after one read', line)
      shown(c, r, acc, line)
      if k == 0:
        sut.call(r.decode, False)
        judge(c, r, acc, 'after decode', line)
        c.sample(kind=str(kind), line=line, answers=answers(r))
      pad = rng.choice(['', ' ', '\t ', '   '])
      sut.call(r.read, pad + line + rng.choice(['\n', '\r\n', '  ']))
      judge(c, r, acc, 'after padded read', line)


def histories(c, n, steps):
  kinds = gen.kinds(conts_primary='01', conts_other='29AZ')
  for h in range(n):
    rng = gen.rng_for('C04h', c.seed, c.label, h)
    r = sut.Record()
    acc, log = None, []
    for s in range(rng.randint(2, steps)):
      q = rng.random()
      k = rng.choice(kinds)
      if q < .45:
        line = gen.free_line(k, rng, rng.choice([PRINT, gen.ALNUM, ' ']))
      elif q < .6:      # right frame, wrong selector or continuation number
        line = gen.free_line(k, rng, gen.ALNUM)
        if k.cont is not None:
          p = k.spec['cont'] if rng.random() < .5 else k.spec['sel'][0]
          line = line[:p] + rng.choice(' -?*zZ~') + line[p + 1:]
      elif q < .7:
        line = gen.free_line(k, rng, PRINT)[:rng.choice([0, 1, 50, 131])]
      elif q < .8:
        line = gen.free_line(k, rng, PRINT)
        line = line[:4] + 'ZZ' + line[6:]
      elif q < .9:
        line = None
      else:
        line = gen.valid_line(k, rng)
      if line is None:
        op = rng.choice(['decode', 'json', 'primary', 'hasCont'])
        log.append(op)
        sut.call(getattr(r, op), *([False] if op in ('decode', 'json') else []))
        line = ''
      else:
        log.append(line)
        a = model.classify(line)
        got, _ = sut.call(r.read, line)
        if isinstance(a, model.Accept) and got is True:
          acc = a
        elif isinstance(a, model.Accept) or got is True:
          c.bad(f'read gave {got!r} on {line!r}', steps=log)
          break
      judge(c, r, acc, f'step {min(s, 9)} of a history', line, log[-6:])


def mined(c, kinds, limit, light):
  def one(kind, line):
    acc = model.classify(line)
    r = sut.Record()
    got, _ = sut.call(r.read, line)
    if got is not True:
      c.bad(f'{kind}: read gave {got!r}', line=line)
      return
    judge(c, r, acc, 'mined text', line)
    shown(c, r, acc, line)
  sweep.mined(c, kinds, limit, light, one)


def run():
  kinds = gen.kinds(conts_primary='01', conts_other=CONTS[2:])
  tasks = [(f'numbers-{i}', enumerate_all, (ks, 12 if QUICK else 100)) for i, ks in enumerate(sweep.chunks(kinds, 16))]
  tasks += [(f'histories-{i}', histories, (1500 if QUICK else 12000, 40)) for i in range(8)]
  tasks += [(f'lookalikes-{i}', lookalikes, (ks,)) for i, ks in enumerate(sweep.chunks(gen.kinds(conts_primary='01', conts_other='2A'), 4))]
  tasks += sweep.mined_tasks(mined)
  harness.run(
    'C04', tasks,
    rule='primary() and hasCont() after reading lines of every section with every continuation number and application '
         'type, before any read, after refused reads, decodes and renderings (random histories of one object); compared with '
         'the last accepted line; distinct = (section, continuation number, layout, situation)',
    floors={'answers': 50000, 'agreement with the number shown': 10000})


run()
