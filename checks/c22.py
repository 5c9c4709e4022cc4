"""C22: an interrupted call leaves nothing half-done behind."""
import ast
import functools
import gc
import os
import shutil
import sys
import tempfile

import gen
import harness
import hist
import mine
import model
import sut
import sweep
import watch

QUICK = os.environ.get('VERIF_TIER', 'quick') == 'quick'
mine.encodable_only()


class Stopped(KeyboardInterrupt):
  """the injected interruption"""


class NoMemory(MemoryError):
  """the injected failure"""


class OutputFault(BrokenPipeError):
  """the injected failure of a write to standard output: nobody reads it any more"""

  @classmethod
  def make(cls, text):
    return cls(32, 'injected')


class DiskFull(OSError):
  """the same: there is no room"""

  @classmethod
  def make(cls, text):
    return cls(28, 'injected')


class Closed(ValueError):
  """the same: it has been closed"""

  @classmethod
  def make(cls, text):
    return cls('I/O operation on closed file (injected)')


class Unencodable(UnicodeEncodeError):
  """the same: it cannot show a character"""

  @classmethod
  def make(cls, text):
    return cls('ascii', text or ' ', 0, 1, 'injected')


OUTPUT = (OutputFault, DiskFull, Closed, Unencodable)
FAULTS = (Stopped, NoMemory) + OUTPUT
INSIDE = (Stopped, NoMemory)


def span(nodes):
  return range(nodes[0].lineno, max(n.end_lineno for n in nodes) + 1) if nodes else ()


@functools.lru_cache(maxsize=None)
def protected(path):
  """lines at which no exception may be injected, and lines of functions that are not interrupted at single bytecodes.

  Python itself delivers no exception between the end of a protected block and its cleanup (the exit of a with block, the
  beginning of a finally), nor between taking something and the try that gives it back; a trace function could, and would then
  blame correct code.  So with and try statements themselves, cleanup code, and the statement before a try are left out."""
  try:
    with open(path, encoding='utf-8') as f:
      tree = ast.parse(f.read())
  except (OSError, SyntaxError, ValueError):
    return frozenset(), frozenset()
  no, coarse = set(), set()
  for n in ast.walk(tree):
    if isinstance(n, (ast.With, ast.AsyncWith)):
      no |= set(range(n.lineno, max(n.lineno + 1, n.body[0].lineno)))
      if n.body[0].lineno == n.lineno:
        no.add(n.lineno)
    elif isinstance(n, ast.Try):
      no |= set(range(n.lineno, n.body[0].lineno)) | set(span(n.finalbody))
      for h in n.handlers:
        no |= set(range(h.lineno, h.end_lineno + 1))
      if n.finalbody:
        no.add(n.finalbody[0].lineno - 1)
    for name in ('body', 'orelse', 'finalbody'):
      block = getattr(n, name, None)
      if isinstance(block, list):
        for x, y in zip(block, block[1:]):
          if isinstance(y, ast.Try):
            no |= set(span([x])) if not isinstance(x, (ast.For, ast.While, ast.If, ast.FunctionDef, ast.ClassDef)) else set()
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) and any(isinstance(x, (ast.With, ast.Try)) for x in ast.walk(n)):
      coarse |= set(range(n.lineno, n.end_lineno + 1))
  return frozenset(no), frozenset(coarse)


def cleaning(frame):
  """is this called from cleanup code?"""
  while frame is not None:
    path = frame.f_code.co_filename
    if path.startswith(sut.SRC_DIR) and frame.f_lineno in protected(path)[0]:
      return True
    frame = frame.f_back
  return False


def injected(fn, at, exc, ops=False):
  """call fn and raise exc at the at-th step inside the library; returns (outcome, steps, where, ...).

  With an output fault the steps are the writes to standard output."""
  n, where = [0], [None]
  writes = isinstance(exc, type) and issubclass(exc, OUTPUT)
  ev = 'none' if writes else 'opcode' if ops else 'line'

  def tracer(frame, event, arg):
    path = frame.f_code.co_filename
    if not path.startswith(sut.SRC_DIR) or cleaning(frame.f_back):
      return None
    no, coarse = protected(path)
    if ops:
      no = no | coarse if coarse else no
      frame.f_trace_opcodes = True
      frame.f_trace_lines = False

    def local(frame, event, arg):
      if event == ev and frame.f_lineno not in no:
        n[0] += 1
        if n[0] == at:
          where[0] = (os.path.basename(path), frame.f_code.co_name, frame.f_lineno)
          raise exc('injected')
      return local
    return local

  class Out:
    encoding = 'utf-8'

    def __init__(self):
      self.parts = []

    def write(self, s):
      if writes:
        n[0] += 1
        if n[0] == at:
          where[0] = ('write', n[0])
          raise exc.make(s)
      self.parts.append(s)
      return len(s)

    def flush(self):
      pass

    def isatty(self):
      return False
  old = sys.stdout
  sys.stdout = out = Out()
  if not writes:
    sys.settrace(tracer)
  try:
    r = fn()
  except BaseException as e:
    r = e
    e.__traceback__ = None
  finally:
    sys.settrace(None)
    moved = sys.stdout is not out
    sys.stdout = old
  return r, n[0], where[0], moved, ''.join(out.parts)


CALLS = {
  'read': lambda r, line: r.read(line),
  'json': lambda r, line: r.json(),
  'decode': lambda r, line: r.decode(),
  'decode quietly': lambda r, line: r.decode(False),
  'parse': lambda r, line: sut.arinc424.parse(line),
  'primary': lambda r, line: r.primary(),
  'hasCont': lambda r, line: r.hasCont(),
}


def prepared(op, line, other):
  """a record object ready for the call"""
  r = sut.Record()
  if other is not None:
    sut.call(r.read, other)
  if op not in ('read', 'parse'):
    sut.call(r.read, line)
  return r


def count(op, line, other, ops, exc=Stopped):
  r = prepared(op, line, other)
  res, n, _, _, _ = injected(lambda: CALLS[op](r, line), -1, exc, ops)
  return n, repr(res) if isinstance(res, BaseException) else res


def trial(op, line, other, at, exc, ops, canaries, base, ordinary):
  """in a process of its own: interrupt the call, then look at everything; returns (differences, where, interrupted?)"""
  bystander = hist._read(canaries[0])
  r = prepared(op, line, other)
  res, n, where, moved, _ = injected(lambda: CALLS[op](r, line), at, exc, ops)
  diffs = []
  if moved:
    diffs.append('standard output was not put back')
  hit = where is not None
  if hit and not isinstance(res, FAULTS):
    if isinstance(res, BaseException):
      if not (isinstance(res, ValueError) and isinstance(res.__context__, FAULTS)):
        diffs.append(f'the interruption came out as {type(res).__name__}')
    elif res != ordinary:
      diffs.append(f'the interruption was swallowed and the call returned {str(res)[:60]!r}')
  # the same object, read again, and a fresh one
  for what, obj in (('the same object, read again', r), ('a new object', sut.Record())):
    got = hist.do_read(obj, line)
    if got != base[line]['read']:
      diffs.append(f'{what}: read gives {got[0]!r}, should give {base[line]["read"][0]!r}')
    for o in hist.OPS:
      if o.endswith('printed') and obj is r:
        continue
      got = hist.do(o, obj)
      if got != base[line][o]:
        diffs.append(f'{what}: {o} gives {str(got[0])[:80]!r}, should give {str(base[line][o][0])[:80]!r}')
  for o in ('json', 'decode', 'primary', 'hasCont'):
    got = hist.do(o, bystander)
    if got != base[canaries[0]][o]:
      diffs.append(f'a record read before: {o} gives {str(got[0])[:80]!r}, should give {str(base[canaries[0]][o][0])[:80]!r}')
  for x in canaries:
    got = hist.do_parse(x, True)
    if got != base[x]['parse']:
      diffs.append(f'another record: parse gives {str(got[0])[:80]!r} and other text, should give {str(base[x]["parse"][0])[:80]!r}')
  return diffs, where, hit


def points(rng, n, k):
  """the steps at which to interrupt: all, or an even, shifted sample with both ends"""
  if n <= k:
    return list(range(1, n + 1))
  step = n / k
  off = rng.random() * step
  return sorted({1, 2, n - 1, n} | {min(n, int(off + i * step) + 1) for i in range(k - 4)})


def calls(c, kinds, per, lines_per):
  for kind in kinds:
    rng = gen.rng_for('C22', c.seed, kind.key())
    fam = hist.pool(rng, [kind])
    good = [x for x in fam if isinstance(model.classify(x), model.Accept) and '\n' not in x.strip()]
    todo = [good[0]] + rng.sample(good[1:], min(len(good) - 1, lines_per - 1))
    base = hist.baselines(fam + [None])
    for line in todo:
      for op in CALLS:
        if op in ('primary', 'hasCont') and rng.random() < .7:
          continue
        ops = rng.random() < .25
        other = rng.choice(good) if rng.random() < .6 else None
        n, ordinary = hist.pristine(count, op, line, other, ops)
        c.n['max steps in one call'] = max(c.n['max steps in one call'], n)
        for at in points(rng, n, per):
          exc = rng.choice(INSIDE)
          can = rng.sample(good, min(2, len(good)))
          diffs, where, hit = hist.pristine(trial, op, line, other, at, exc, ops, can, base, ordinary)
          if not hit:
            c.n['steps not reached'] += 1
            continue
          if diffs:
            c.bad(f'{kind}: {op} interrupted ({exc.__name__}) at {where}: {diffs[0]}', line=line, before=other, step=at, bytecode=ops, differences=diffs[:5])
            continue
          c.ok('interruptions', (op, kind.section, where))
          c.n['interrupted ' + op] += 1
        if op in ('json', 'decode', 'parse', 'read'):
          n, ordinary = hist.pristine(count, op, line, other, False, OutputFault)
          for k, at in enumerate(range(1, min(n, 6) + 1)):
            can = rng.sample(good, min(2, len(good)))
            exc = OUTPUT[(k + len(c.distinct)) % len(OUTPUT)]
            diffs, where, hit = hist.pristine(trial, op, line, other, at, exc, False, can, base, ordinary)
            if hit:
              c.n['output faults: ' + exc.__name__] += 1
            if diffs:
              c.bad(f'{kind}: {op} whose output failed ({exc.__name__}) at write {at}: {diffs[0]}', line=line, before=other, differences=diffs[:5])
            elif hit:
              c.ok('output faults', (op, kind.section, where))
    c.sample(kind=str(kind), steps=n, line=todo[0])


def file_trial(op, path, args, at, exc, ordinary, rest, base):
  f0 = watch.fds()
  cwd = os.getcwd()
  fn = getattr(sut.arinc424, op)
  res, n, where, moved, text = injected(lambda: fn(path, *args), at, exc)
  hit = where is not None
  diffs = ['standard output was not put back'] if moved else []
  if hit and not isinstance(res, FAULTS):
    diffs.append(f'the interruption was swallowed: {str(res)[:60]!r}')
  if hit and not ordinary[1].startswith(text):
    diffs.append('what was printed before the interruption is not the beginning of the ordinary output')
  del res
  gc.collect()
  f1 = watch.fds()
  if f0 != f1:
    diffs.append(f'descriptors left: {watch.diff(f0, f1)[:2]}')
  if os.getcwd() != cwd:
    diffs.append('working directory changed')
  got = sut.call(fn, path, *args)
  if (hist.plain(got[0]), got[1]) != ordinary:
    diffs.append('the same call made again gives another result')
  for x in rest:
    got = hist.do_parse(x, True)
    if got != base[x]['parse']:
      diffs.append('parse of another record gives another result')
  return diffs, where, hit


def file_count(op, path, args, exc=Stopped):
  fn = getattr(sut.arinc424, op)
  res, n, _, _, _ = injected(lambda: fn(path, *args), -1, exc)
  got = sut.call(fn, path, *args)
  return n, (hist.plain(got[0]), got[1])


def files(c, n, per):
  top = tempfile.mkdtemp(prefix='c22-')
  try:
    for k in range(n):
      rng = gen.rng_for('C22f', c.seed, c.label, k)
      lines = [x.strip() for x in hist.pool(rng, 2) if '\n' not in x.strip()]
      base = hist.baselines(lines)
      ok = [x for x in lines if not isinstance(base[x]['parse'][0], str)]
      folder = os.path.join(top, str(k))
      os.mkdir(folder)
      path = os.path.join(folder, 'records')
      with open(path, 'w', encoding='utf-8', errors='surrogatepass') as f:
        f.write('\n'.join(rng.sample(ok, min(4, len(ok)))) + '\n')
      for op, p, args in (('read_file', path, ()), ('read_folder', folder, ()), ('search', path, (rng.choice(['', 'S', ['S', '1']]),))):
        total, ordinary = hist.pristine(file_count, op, p, args)
        for at in points(rng, total, per):
          diffs, where, hit = hist.pristine(file_trial, op, p, args, at, rng.choice(INSIDE), ordinary, rng.sample(ok, min(2, len(ok))), base)
          if not hit:
            c.n['steps not reached'] += 1
            continue
          if diffs:
            c.bad(f'{op} interrupted at {where}: {diffs[0]}', file=open(path, errors='replace').read()[:3000], step=at, differences=diffs[:5])
            continue
          c.ok('interruptions', (op, where))
          c.n['interrupted ' + op] += 1
        total, ordinary = hist.pristine(file_count, op, p, args, OutputFault)
        for at in points(rng, total, 6):
          exc = rng.choice(OUTPUT)
          diffs, where, hit = hist.pristine(file_trial, op, p, args, at, exc, ordinary, rng.sample(ok, min(2, len(ok))), base)
          if diffs:
            c.bad(f'{op} whose output failed ({exc.__name__}) at write {at} of {total}: {diffs[0]}', file=open(path, errors='replace').read()[:3000], differences=diffs[:5])
          elif hit:
            c.ok('output faults', (op, where))
  finally:
    shutil.rmtree(top)


def run():
  for path, _, names in os.walk(sut.SRC_DIR):      # once, before the processes of the trials are forked
    for name in names:
      if name.endswith('.py'):
        protected(os.path.join(path, name))
  kinds = gen.kinds(conts_primary='1', default_sel='X')
  gen.rng_for('C22k', os.environ.get('VERIF_SEED', '1')).shuffle(kinds)
  tasks = [(f'calls-{i}', calls, (ks, 14 if QUICK else 150, 1 if QUICK else 3)) for i, ks in enumerate(sweep.chunks(kinds, 24))]
  tasks += [(f'files-{i}', files, (3 if QUICK else 40, 20 if QUICK else 120)) for i in range(8)]
  harness.run(
    'C22', tasks,
    rule='fault injection: read, decode, json, parse, the helpers, read_file, search and read_folder are interrupted by a keyboard '
         'interrupt or an out-of-memory failure at lines and single bytecodes executed inside the library, or by a failing write to standard output (nobody reads it, no room, closed, a character it cannot show), each time in a process of its '
         'own; afterwards the same object read again, new objects, a bystander, other records and the same file operation must give what '
         'they give in a process that was never interrupted, nothing may stay open, and the interruption must come out; '
         'distinct = (operation, section, place of the interruption)',
    floors={'output faults': 400, 'interruptions': 6000, 'interrupted read': 500, 'interrupted decode': 500, 'interrupted read_file': 200},
    assumptions=['an object whose read was interrupted is judged after it has been read again; no exception is injected where Python itself delivers none: between a protected block and its '
                 'cleanup, in cleanup code, or between taking something and the try that gives it back; interruptions inside the standard library '
                 'and prettytable are represented by the calling line'])


run()
