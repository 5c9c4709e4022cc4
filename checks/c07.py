"""C07: every defined code is decoded to its own meaning, in every record type it occurs in."""
import gen
import harness
import model
import os
import sweep

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
CONTS = '23456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def order(codes, rng, cap):
  """the codes to try for one field, shuffled; long products are sampled but keep every character"""
  codes = list(codes)
  rng.shuffle(codes)
  if len(codes) <= cap:
    return codes
  need = {(i, ch) for x in codes for i, ch in enumerate(x)}
  pick = []
  for x in codes:
    new = {(i, ch) for i, ch in enumerate(x)} & need
    if new:
      need -= new
      pick.append(x)
  rest = [x for x in codes if x not in set(pick)]
  return pick + rest[:max(0, cap - len(pick))]


def sweep_codes(c, kinds, cap, reps):
  for kind in kinds:
    rng = gen.rng_for('C07', c.seed, kind.key())
    idx = sweep.indexes(kind, model.CODED)
    # the selecting columns are what they are; every other coded field runs through its table
    free = [i for i in idx if not set(kind.layout[i].columns()) & (kind.selecting() - {0})]
    todo = {i: order(gen.codes(kind.layout[i], kind.section) or ['?' * kind.layout[i].width], rng, cap)
            for i in free}
    n = max([len(v) for v in todo.values()] + [reps])
    for k in range(n):
      given = {i: v[(k + 7 * i) % len(v)] for i, v in todo.items() if gen.codes(kind.layout[i], kind.section)}
      line = gen.valid_line(kind, rng, given)
      for i, t in given.items():
        assert kind.layout[i].value(line) == t, (kind, kind.layout[i].name)
      sweep.judge(c, kind, line, idx, 'coded value')
      if k == 0:
        c.sample(kind=str(kind), line=line)


def mined(c, kinds, limit, light):
  def one(kind, line):
    acc = model.classify(line)
    if not line.isascii() or not line.isprintable() or not gen.sane(line):
      return
    which = [i for i in sweep.indexes(kind, model.CODED) if sweep.defined(kind.layout[i], kind.layout[i].value(line), acc.section)]
    sweep.judge(c, kind, line, which, 'coded value')
  sweep.mined(c, kinds, limit, light, one)


def run():
  quick = TIER == 'quick'
  kinds = sweep.usable_kinds()
  conts = [k for k in sweep.usable_kinds(conts_primary='', conts_other=CONTS[1:])]
  if quick:  # every continuation number for one selector of every section, the rest in thorough
    seen, few = set(), []
    for k in conts:
      if (k.section, k.cont) not in seen:
        seen.add((k.section, k.cont))
        few.append(k)
    conts = few
  cap = 420 if quick else 6000
  tasks = [(f'codes-{i}', sweep_codes, (ks, cap, 2)) for i, ks in enumerate(sweep.chunks(kinds, 24)) if ks]
  tasks += [(f'conts-{i}', sweep_codes, (ks, 2 if quick else 30, 1 if quick else 3))
            for i, ks in enumerate(sweep.chunks(conts, 8)) if ks]
  tasks += sweep.mined_tasks(mined, sweep.usable_kinds())
  harness.run(
    'C07', tasks,
    rule='for every record kind (section x primary/continuation x application type) records are built whose '
         'coded fields run through every code of the field\'s table (long products sampled, every character of '
         'every position kept); one evaluation = one decoded cell compared with the reference table; distinct = '
         'different (section, field, code)',
    floors={'fields judged': 40000, 'records decoded': 8000},
    assumptions=['the code tables of the reference model (lib/model.py) are the definitions the library declares; '
                 'ARINC 424 itself is not available offline'])


run()
