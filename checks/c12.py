"""C12: records can be read and decoded in parallel threads without interference."""
import os
import sys
import threading
import time

import gen
import harness
import hist
import sut
import sweep

QUICK = os.environ.get('VERIF_TIER', 'quick') == 'quick'
SRC = sut.SRC_DIR


class Scheduler:
  """lets one thread at a time run inside the library and decides, from a seed, where to switch.

  A scheduling point is every line (or bytecode) executed in the library.  If the thread whose turn it is makes no
  progress (it waits for a lock another one holds), a waiting thread takes the turn: locks in the library are legal."""

  def __init__(self, n, rng, p, opcodes):
    self.rng, self.p, self.opcodes = rng, p, opcodes
    self.cv = threading.Condition()
    self.turn = 0
    self.live = set(range(n))
    self.blocked = set()             # had the turn and made no progress: not chosen until they do
    self.points = 0
    self.switches = 0
    self.stolen = 0
    self.trace = []

  def finish(self, me):
    with self.cv:
      self.live.discard(me)
      if self.turn == me and self.live:
        self.turn = self.pick(me)
      self.cv.notify_all()

  def pick(self, me):
    ready = self.live - self.blocked - {me} or self.live - {me} or {me}
    return self.rng.choice(sorted(ready))

  def wait_turn(self, me):
    seen = -1
    while self.turn != me:
      if not self.cv.wait(0.004):
        if self.points == seen or self.turn not in self.live:
          self.blocked.add(self.turn)          # the holder waits for a lock
          self.turn = me
          self.stolen += 1
          break
        seen = self.points

  def point(self, me, frame):
    with self.cv:
      self.points += 1
      self.blocked.discard(me)
      if self.turn != me:
        self.wait_turn(me)
      if len(self.live - self.blocked) > 1 and self.rng.random() < self.p:
        self.turn = self.pick(me)
        self.switches += 1
        if len(self.trace) < 400:
          self.trace.append((me, self.turn, frame.f_lineno))
        self.cv.notify_all()
        self.wait_turn(me)

  def tracer(self, me):
    def local(frame, event, arg):
      if event == ('opcode' if self.opcodes else 'line'):
        self.point(me, frame)
      return local

    def glob(frame, event, arg):
      if frame.f_code.co_filename.startswith(SRC):
        if self.opcodes:
          frame.f_trace_opcodes = True
          frame.f_trace_lines = False
        self.point(me, frame)
        return local
      return None
    return glob


class Stdout:
  """a standard output that keeps what each thread writes apart"""
  encoding, errors = 'utf-8', 'surrogatepass'

  def __init__(self):
    self.text = {}

  def write(self, s):
    self.text.setdefault(threading.get_ident(), []).append(s)
    return len(s)

  def take(self):
    return ''.join(self.text.pop(threading.get_ident(), []))

  def flush(self):
    pass

  def isatty(self):
    return False

  def __enter__(self):
    self.old = sys.stdout
    sys.stdout = self
    return self

  def __exit__(self, *a):
    sys.stdout = self.old
    return False


def work(lines, out, rounds=1):
  """what one thread does: read and render its own records; returns the results and what was printed"""
  res = []
  for _ in range(rounds):
    for line in lines:
      r = sut.Record()
      one = {}
      try:
        one['read'] = r.read(line)
      except Exception as e:
        one['read'] = repr(sut.Raised(e))
      for op, fn in (('primary', r.primary), ('hasCont', r.hasCont), ('json', lambda: r.json(False)),
                     ('decode', lambda: r.decode(False)), ('json printed', r.json), ('decode printed', r.decode)):
        try:
          one[op] = fn()
        except BaseException as e:
          one[op] = repr(sut.Raised(e))
        one[op] = (one[op], out.take())
      res.append((line, one))
  return res


def alone(line):
  """the baseline: the same work in a process of its own"""
  with Stdout() as out:
    return work([line], out)[0][1]


def run_threads(jobs, sched=None):
  res = [None] * len(jobs)
  start = threading.Barrier(len(jobs))

  def body(i):
    start.wait()
    try:
      if sched:
        with sched.cv:
          sched.wait_turn(i)
        sys.settrace(sched.tracer(i))
      res[i] = jobs[i]()
    except BaseException as e:
      res[i] = e
    finally:
      sys.settrace(None)
      if sched:
        sched.finish(i)
  ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
  for t in ts:
    t.start()
  for t in ts:
    t.join(120)
  return res if not any(t.is_alive() for t in ts) else None


def compare(res, base):
  """differences between what the threads saw and the baselines"""
  out = []
  for i, r in enumerate(res):
    if isinstance(r, BaseException):
      out.append((i, None, 'thread', repr(r), ''))
      continue
    for line, one in r:
      for op, got in one.items():
        if got != base[line][op]:
          out.append((i, line, op, str(got)[:300], str(base[line][op])[:300]))
  return out


def teams(rng, lines_by_family, n):
  """for each thread the lines it works on: mostly look-alikes of the other threads' lines"""
  fam = rng.choice(lines_by_family)
  out = []
  for _ in range(n):
    ls = [rng.choice(fam) for _ in range(rng.randint(1, 2))]
    if rng.random() < .25:
      ls.append(rng.choice(rng.choice(lines_by_family)))
    out.append(ls)
  return out


def batch(seed, label, k, fams, base, count, limit):
  """several schedules in a fresh process, so that first use of everything is contended as well"""
  n = {'schedules': 0, 'switches': 0, 'points': 0, 'stolen': 0, 'results': 0}
  traces, bad, stuck = set(), [], 0
  end = time.monotonic() + limit
  with Stdout() as out:
    for j in range(count):
      if time.monotonic() > end:
        break
      rng = gen.rng_for('C12', seed, label, k, j)
      team = teams(rng, fams, rng.choice([2, 2, 2, 3, 4]))
      opc = rng.random() < .35
      p = rng.choice([.5, .2, .05, .01]) if not opc else rng.choice([.2, .05, .01])
      s = Scheduler(len(team), rng, p, opc)
      res = run_threads([lambda ls=ls: work(ls, out) for ls in team], s)
      if res is None:
        stuck += 1
        break
      n['schedules'] += 1
      n['switches'] += s.switches
      n['points'] += s.points
      n['stolen'] += s.stolen
      n['results'] += sum(len(r) for r in res if isinstance(r, list)) * 7
      traces.add(harness.hash8(s.trace))
      d = compare(res, base)
      if sys.stdout is not out:
        d.append((0, None, 'sys.stdout', 'replaced after all threads have finished', 'unchanged'))
      if d:
        bad.append((j, team, d[:3], s.trace[:60]))
        break
  return n, traces, bad, stuck


def families(rng, kinds):
  out = []
  for k in kinds:
    f = hist.pool(rng, [k], wide=rng.random() < .5)
    out.append([x for x in f if '\n' not in x.strip()])
  return out


def controlled(c, kinds, batches, count):
  rng = gen.rng_for('C12f', c.seed, c.label)
  fams = families(rng, kinds)
  base = {x: hist.pristine(alone, x) for f in fams for x in f}
  for k in range(batches):
    n, traces, bad, stuck = hist.pristine(batch, c.seed, c.label, k, fams, base, count, 12 if QUICK else 60)
    for key, v in n.items():
      if key != 'results':
        c.n[key] += v
    c.ok('results', k=n['results'])
    c.distinct |= traces
    if stuck:
      c.bad('threads reading and rendering their own records never finished (120 s)', batch=k)
    for j, team, d, tr in bad:
      i, line, op, got, want = d[0]
      c.bad(f'thread {i}: {op} of {line!r} gives {got[:120]!r}; alone it gives {want[:120]!r}', batch=k, schedule=j,
            threads=team, differences=d, switches=tr)
    if k == 0:
      c.sample(schedules=n['schedules'], scheduling_points=n['points'], switches=n['switches'])


def short(line):
  """one record, read and rendered once"""
  r = sut.Record()
  out = []
  for fn in (lambda: r.read(line), lambda: r.decode(False), r.primary, lambda: r.json(False)):
    try:
      out.append(fn())
    except Exception as e:
      out.append(repr(sut.Raised(e)))
  return out


def preempted(la, lb, n):
  """a thread is stopped at its n-th line inside the library while another one does all its work, in a fresh process"""
  state, other = [0], [None]

  def body():
    other[0] = short(lb)

  t = threading.Thread(target=body, daemon=True)

  def tr(frame, event, arg):
    if not frame.f_code.co_filename.startswith(SRC):
      return None
    if event == 'line':
      state[0] += 1
      if state[0] == n:
        sys.settrace(None)
        t.start()
        t.join(.5)                     # longer only if it waits for a lock
        return None
    return tr
  with Stdout():
    sys.settrace(tr)
    try:
      mine = short(la)
    finally:
      sys.settrace(None)
    if state[0] >= n:
      t.join(60)
  return mine, other[0], state[0]


def preempt(c, kinds, points, pairs):
  for kind in kinds:
    rng = gen.rng_for('C12p', c.seed, kind.key())
    for k in range(pairs):
      la = gen.valid_line(kind, rng)
      lb = [hist.near(la, kind, rng), gen.valid_line(rng.choice(hist.ALL), rng), la, gen.valid_line(kind, rng)][(k + c.seed) % 4 if k else rng.randrange(4)]
      base = {x: hist.pristine(short, x) for x in (la, lb)}
      total = hist.pristine(preempted, la, lb, 10 ** 9)[2]
      ns = range(1, total + 1)
      for n in ns if total <= points else sorted(rng.sample(ns, points)):
        a, b, _ = hist.pristine(preempted, la, lb, n)
        if a != base[la] or b != base[lb]:
          who, got, want, line = ('the one stopped', a, base[la], la) if a != base[la] else ('the other', b, base[lb], lb)
          c.bad(f'a thread stopped at its line {n} of {total} while another works: {who} gets {str(got)[:100]!r}, alone {str(want)[:100]!r}', line=line,
                stopped=la, other=lb, got=str(got)[:3000], want=str(want)[:3000])
          break
        c.ok('preemptions', (str(kind), k, n))


def free_batch(seed, label, k, fams, base, rounds, threads):
  rng = gen.rng_for('C12free', seed, label, k)
  bad, total = [], 0
  sys.setswitchinterval(1e-6)
  with Stdout() as out:
    for _ in range(3):
      team = teams(rng, fams, threads)
      res = run_threads([lambda ls=ls: work(ls, out, rounds) for ls in team])
      if res is None:
        return total, bad, 1
      total += sum(len(r) for r in res if isinstance(r, list)) * 7
      d = compare(res, base)
      if sys.stdout is not out:
        d.append((0, None, 'sys.stdout', 'replaced after all threads have finished', 'unchanged'))
      if d:
        bad.append((team, d[:3]))
        break
  return total, bad, 0


def free(c, batches, rounds, threads):
  rng = gen.rng_for('C12g', c.seed, c.label)
  fams = families(rng, rng.sample(hist.ALL, 8))
  base = {x: hist.pristine(alone, x) for f in fams for x in f}
  for k in range(batches):
    total, bad, stuck = hist.pristine(free_batch, c.seed, c.label, k, fams, base, rounds, threads)
    c.ok('results', k=total)
    c.n['free-running results'] += total
    if stuck:
      c.bad('threads never finished (120 s)', batch=k)
    for team, d in bad:
      i, line, op, got, want = d[0]
      c.bad(f'free-running thread {i}: {op} of {line!r} gives {got[:120]!r}; alone it gives {want[:120]!r}', threads=team, differences=d)


def run():
  kinds = list(hist.ALL)
  gen.rng_for('C12k', os.environ.get('VERIF_SEED', '1')).shuffle(kinds)
  parts = sweep.chunks(kinds, 16 if QUICK else 32)
  tasks = [(f'controlled-{i}', controlled, (ks, 9, 25) if QUICK else (ks, 24, 60)) for i, ks in enumerate(parts)]
  tasks += [(f'free-{i}', free, (4, 6, 6) if QUICK else (40, 20, 8)) for i in range(4 if QUICK else 8)]
  tasks += [(f'preempt-{i}', preempt, (ks, 70, 1) if QUICK else (ks, 10000, 2)) for i, ks in enumerate(sweep.chunks(sweep.usable_kinds(), 32))]
  harness.run(
    'C12', tasks,
    rule='two to four threads read and render records (look-alikes of one another, same and different kinds, refused and '
         'undecodable ones) while a seeded scheduler switches threads at lines or single bytecodes executed inside the '
         'library; every batch starts in a fresh process so that first use is contended; each result is compared with the '
         'result of the same line in a process of its own; plus free-running threads with a switch interval of 1 us, and one '
         'thread stopped at a line of its work in a fresh process while another does all of its own; '
         'distinct = different switch sequences (interleavings)',
    floors={'schedules': 400, 'switches': 8000, 'results': 8000, 'free-running results': 2000, 'preemptions': 4000},
    assumptions=['switching happens at line or bytecode boundaries inside the library; calls into the standard library and '
                 'prettytable are atomic for the controlled scheduler, not for the free-running threads'])


run()
