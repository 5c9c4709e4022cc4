"""C16: the library only reads; no side effects beyond the printed output."""
import gc
import io
import os
import shutil
import sys
import tempfile
import warnings

import gen
import harness
import hist
import mine
import model
import sut
import sweep
import watch

QUICK = os.environ.get('VERIF_TIER', 'quick') == 'quick'
mine.encodable_only()


class Stdin:
  """records any use of standard input"""

  def __init__(self):
    self.used = []

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    self.used.append(name)
    return lambda *a, **k: ''

  def __iter__(self):
    self.used.append('__iter__')
    return iter(())


class Faulty:
  """standard output that fails at the n-th write"""

  def __init__(self, n):
    self.left = n

  def write(self, s):
    self.left -= 1
    if self.left < 0:
      raise BrokenPipeError(32, 'injected')
    return len(s)

  def flush(self):
    pass


def settings(f):
  return [getattr(f, k) for k in ('encoding', 'errors', 'newlines', 'line_buffering', 'write_through', 'closed')]


class Wrapped:
  """a standard output as the interpreter makes it: what is set on it must stay as it was"""

  def __init__(self):
    self.file = io.TextIOWrapper(io.BytesIO(), encoding='utf-8', errors='surrogateescape', newline='\n')
    self.was = settings(self.file)

  def run(self, fn):
    got = with_stdout(self.file, fn)
    try:
      now = settings(self.file)
      self.file.buffer
    except ValueError as e:
      now = repr(e)
    return got, [] if now == self.was else [f'standard output: {self.was} -> {now}']


def with_stdout(out, fn, *a):
  old = sys.stdout
  sys.stdout = out
  try:
    return fn(*a)
  except BaseException as e:
    e.__traceback__ = None
    return sut.Raised(e)
  finally:
    sys.stdout = old


class Scratch:
  """a folder of its own for everything the process might touch"""

  def __init__(self):
    self.top = tempfile.mkdtemp(prefix='c16-')
    self.data, self.cwd, self.home, self.tmp = (os.path.join(self.top, x) for x in ('data', 'cwd', 'home', 'tmp'))
    for d in (self.data, self.cwd, self.home, self.tmp):
      os.mkdir(d)
    self.old = os.getcwd()
    os.chdir(self.cwd)
    os.environ['HOME'], os.environ['TMPDIR'] = self.home, self.tmp
    for v in ('XDG_CACHE_HOME', 'XDG_CONFIG_HOME'):
      os.environ[v] = self.home
    tempfile.tempdir = None

  def close(self):
    os.chdir(self.old)
    shutil.rmtree(self.top)


def observe(c, s, what, fn, files=(), dirs=(), fault=None, **info):
  """run one operation under all observers"""
  stdin = Stdin()
  old = sys.stdin
  sys.stdin = stdin
  t0, f0, p0, b0 = watch.tree(s.top), watch.fds(), watch.process(), watch.bindings()
  try:
    with warnings.catch_warnings(record=True) as ws:
      warnings.simplefilter('always')
      w0 = [repr(f) for f in warnings.filters]
      with watch.Audit() as a:
        more = []
        if fault is None:
          got, _ = sut.call(fn)
        elif fault == 'wrapped':
          got, more = Wrapped().run(fn)
        else:
          got = with_stdout(Faulty(fault), fn)
      got = repr(got) if isinstance(got, sut.Raised) else type(got).__name__
      w1 = [repr(f) for f in warnings.filters]
      gc.collect()
    p1 = watch.process()
    b1 = {k: v for k, v in watch.bindings().items() if k in b0}
  finally:
    sys.stdin = old
  t1, f1 = watch.tree(s.top), watch.fds()
  bad = watch.wrongs(a.events, files, dirs) + more
  bad += ['files changed: ' + x for x in watch.diff(t0, t1)]
  bad += ['descriptors: ' + x for x in watch.diff(f0, f1)]
  bad += ['process: ' + x for x in watch.diff(p0, p1)]
  if w0 != w1:
    bad.append('process: warning filters changed')
  bad += [f'not closed: {w.message}' for w in ws if issubclass(w.category, ResourceWarning) and 'file' in str(w.message)
          and 'scandir' not in str(w.message)]
  bad += ['shared module changed: ' + x for x in watch.diff(b0, b1)]
  if 'arg' in info and repr(info['arg']) != info['arg_was']:
    bad.append(f'the argument {info["arg_was"]} was changed to {info["arg"]!r}')
  if stdin.used:
    bad.append(f'standard input used: {stdin.used[:3]}')
  if watch.children():
    bad.append('a child process was started')
  if bad:
    c.bad(f'{what}: {"; ".join(bad[:3])}', outcome=got, **info)
    return
  c.ok('operations observed', (what.split(' (')[0], got[:40], info.get('line', info.get('kind')), fault))
  c.n['audit events'] += len(a.events)
  c.n['file opens'] += len(watch.opened(a.events))
  if got.startswith('raised'):
    c.n['operations that raised'] += 1
  if fault == 'wrapped':
    c.n['interpreter-like standard outputs'] += 1
  elif fault is not None:
    c.n['injected output faults'] += 1




def lines_ops(c, kinds, n):
  s = Scratch()
  src = watch.tree(sut.SRC_DIR)
  try:
    for kind in kinds:
      rng = gen.rng_for('C16', c.seed, kind.key())
      base = gen.valid_line(kind, rng)
      cands = [base, hist.spoil(base, kind, rng), hist.broken(base, kind, rng), gen.free_line(kind, rng, gen.NASTY),
               hist.near(base, kind, rng), '  ' + base + '\n']
      for line in cands[:n] if n < len(cands) else cands:
        def ops():
          r = sut.Record()
          r.read(line)
          r.primary(), r.hasCont()
          r.json()
          r.json(False, False)
          r.decode(False)
          r.decode()
        observe(c, s, f'Record operations ({kind})', ops, line=line)
        observe(c, s, f'parse ({kind})', lambda: sut.arinc424.parse(line), line=line)
      observe(c, s, f'Record operations on a plain standard output ({kind})', ops, fault='wrapped', line=line)
      observe(c, s, f'parse with output fault ({kind})', lambda: sut.arinc424.parse(base), fault=rng.choice([0, 1]), line=base)
    if watch.tree(sut.SRC_DIR) != src:
      c.bad('files of the library changed: ' + '; '.join(watch.diff(src, watch.tree(sut.SRC_DIR))[:3]))
    c.sample(kinds=[str(k) for k in kinds[:3]])
  finally:
    s.close()


def write(path, text):
  with open(path, 'w', newline='', encoding='utf-8', errors='surrogatepass') as f:
    f.write(text)


def file_ops(c, n):
  rng = gen.rng_for('C16f', c.seed, c.label)
  a = sut.arinc424
  for k in range(n):
    s = Scratch()
    try:
      kinds = [rng.choice(hist.ALL) for _ in range(rng.randint(1, 6))]
      good = [gen.valid_line(x, rng) for x in kinds if not gen.ndb_q(x)] or ['']
      bad = hist.spoil(good[0], kinds[0], rng) if good[0] and not gen.ndb_q(kinds[0]) else '# nothing'
      f1, f2, f3, f4 = (os.path.join(s.data, x) for x in ('good.txt', 'refused.txt', 'binary.dat', 'empty'))
      write(f1, '\n'.join(good) + '\n')
      write(f2, '\n'.join(good[:1] + [bad] + good[1:]) + '\n')
      with open(f3, 'wb') as f:
        f.write(good[0].encode() + b'\n\xff\xfe\x80bad utf-8\n' + bytes(range(256)))
      write(f4, '')
      sub = os.path.join(s.data, 'sub')
      os.mkdir(sub)
      write(os.path.join(sub, 'inner.txt'), '\n'.join(good) + '\n')
      os.mkdir(os.path.join(s.data, 'nothing'))
      missing = os.path.join(s.data, 'missing.txt')
      for what, p in (('good file', f1), ('file with refused record', f2), ('file that is not text', f3), ('empty file', f4),
                      ('missing file', missing), ('folder as file', sub), ('empty name', '')):
        allowed = [p]
        observe(c, s, f'read_file of {what}', lambda: a.read_file(p), allowed, kind=what + str(k % 3))
        observe(c, s, f'read_file quietly of {what}', lambda: a.read_file(p, False), allowed, kind=what)
        fl = rng.choice(['', 'S', good[0][6:10], [good[0][6:10], 'K'], ['nope'], [], ['Z', 'A', 'K', 'A'], [good[0][20:24], '', good[0][6:10]]])
        observe(c, s, f'search in {what}', lambda: a.search(p, fl), allowed, kind=what + repr(fl), arg=fl, arg_was=repr(fl))
      m = rng.randint(0, 8)
      observe(c, s, 'read_file with output fault', lambda: a.read_file(f1), [f1], fault=m)
      observe(c, s, 'search with output fault', lambda: a.search(f1, ''), [f1], fault=m)
      for what, fn, fs in (('read_file', lambda: a.read_file(f1), [f1]), ('read_file of a refused record', lambda: a.read_file(f2), [f2]),
                           ('search', lambda: a.search(f1, ''), [f1]), ('read_folder', lambda: a.read_folder(sub), [os.path.join(sub, 'inner.txt')])):
        observe(c, s, f'{what} on a plain standard output', fn, fs, [sub] if what == 'read_folder' else [], fault='wrapped')
      if k == 0:
        big = os.path.join(s.home, 'big')
        write(big, '\n'.join((good + ['# no record'])[i % (len(good) + 1)] for i in range(1500)) + '\n')
        for what, fn in (('read_file', lambda: a.read_file(big)), ('quiet read_file', lambda: a.read_file(big, False)),
                         ('search', lambda: a.search(big, good[0][6:9])), ('search by a list', lambda: a.search(big, [good[0][6:9], 'S']))):
          observe(c, s, f'{what} of many records', fn, [big])
      all_files = [os.path.join(s.data, x) for x in os.listdir(s.data) if os.path.isfile(os.path.join(s.data, x))]
      observe(c, s, 'read_folder with refused and unreadable files', lambda: a.read_folder(s.data), all_files, [s.data])
      observe(c, s, 'read_folder', lambda: a.read_folder(sub), [os.path.join(sub, 'inner.txt')], [sub])
      observe(c, s, 'read_folder with output fault', lambda: a.read_folder(sub), [os.path.join(sub, 'inner.txt')], [sub], fault=m)
      observe(c, s, 'read_folder of a missing folder', lambda: a.read_folder(missing), [], [missing])
      observe(c, s, 'read_folder of an empty folder', lambda: a.read_folder(os.path.join(s.data, 'nothing')), [], [os.path.join(s.data, 'nothing')])
      if k == 0:
        c.sample(files=['good.txt', 'refused.txt', 'binary.dat', 'empty', 'sub/'], records=len(good))
    finally:
      s.close()


def run():
  kinds = gen.kinds()
  tasks = [(f'lines-{i}', lines_ops, (ks, 4 if QUICK else 6)) for i, ks in enumerate(sweep.chunks(kinds, 16))]
  tasks += [(f'files-{i}', file_ops, (10 if QUICK else 400,)) for i in range(8)]
  harness.run(
    'C16', tasks,
    rule='every operation (Record methods and parse on records of every kind, refused and undecodable ones; read_file, search, '
         'read_folder on good, refused, undecodable, missing, wrong and unreadable targets, and with a standard output that '
         'fails at the n-th write) runs in a scratch folder under an interpreter audit hook; compared before/after: files and '
         'their times and contents, open descriptors, unclosed-file warnings, working directory, environment, process '
         'settings, children, standard input; distinct = (operation, outcome, input)',
    floors={'operations observed': 2500, 'file opens': 1000, 'operations that raised': 300, 'injected output faults': 200, 'interpreter-like standard outputs': 300},
    assumptions=['modules may be imported lazily; effects that bypass the interpreter\'s audit events and leave no trace in the '
                 'scratch folder or process state are not seen'])


run()
