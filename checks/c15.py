"""C15: reading a folder reads each of its files exactly once and nothing else."""
import os
import pathlib
import shutil
import signal
import socket
import tempfile
import time

import gen
import harness
import hist
import mine
import model
import names as nm
import sut
import sweep
import watch

QUICK = os.environ.get('VERIF_TIER', 'quick') == 'quick'
mine.encodable_only()
def content(rng, uniq):
  """a file whose records are found in no other file"""
  n = rng.choice([0, 1, 1, 2, 4])
  out = []
  for i in range(n):
    k = rng.choice(PLAIN)
    line = gen.valid_line(k, rng)
    line = line[:123] + f'{(uniq * 7 + i) % 100000:05d}' + line[128:]
    out.append(line)
    if rng.random() < .2:
      out.append(line)
  for _ in range(rng.choice([0, 0, 1, 3])):
    out.insert(rng.randint(0, len(out)), rng.choice(['', '# comment', 'S', 'x' * 132, ' ']))
  end = rng.choice(['\n', '\n', '\r\n'])
  return end.join(out) + (end if rng.random() < .8 else '')


PLAIN = [k for k in sweep.usable_kinds() if not any(f.para in model.NOISY for f in k.layout)]


def arranged(out, parts):
  """is out the parts one after another, each once, in some order? (backtracking)"""
  parts = sorted((p for p in parts if p), key=len, reverse=True)
  if sum(map(len, parts)) != len(out):
    return False
  budget = [20000]

  def go(pos, left):
    if not left:
      return pos == len(out)
    budget[0] -= 1
    if budget[0] < 0:
      return False
    tried = set()
    for i in left:
      if parts[i] not in tried and out.startswith(parts[i], pos):
        tried.add(parts[i])
        if go(pos + len(parts[i]), left - {i}):
          return True
    return False
  return go(0, frozenset(range(len(parts))))


def ways(rng, folder):
  """different ways of writing the same folder"""
  base = os.path.basename(folder)
  parent = os.path.dirname(folder)
  return [('absolute', folder, None), ('trailing slash', folder + '/', None), ('PathLike', pathlib.Path(folder), None),
          ('dots', os.path.join(parent, '.', base, '..', base), None), ('relative', base, parent), ('dot relative', './' + base, parent),
          ('current folder', '.', folder), ('relative slash', base + '/', parent), ('double slash', parent + '//' + base, None),
          ('PathLike relative', pathlib.Path(base), parent), ('symbolic link', link(parent, folder, 'c15~link'), None),
          ('dots after a link', os.path.join(link(parent, beside(parent), 'c15~far'), '..', '..', base), None),
          ('relative symbolic link', 'c15~link', link(parent, folder, 'c15~link') and parent)]


def beside(parent):
  """a folder two levels below the parent"""
  d = os.path.join(parent, 'c15~beside', 'deep')
  os.makedirs(d, exist_ok=True)
  return d


def link(parent, target, name):
  p = os.path.join(parent, name)
  if os.path.islink(p):
    os.unlink(p)
  os.symlink(target, p)
  return p


def judge(c, folder, files, how, path, cwd, rng):
  """files: {name: text} directly in the folder"""
  parts = []
  for n in files:
    got, out = sut.call(sut.arinc424.read_file, os.path.join(folder, n))
    if isinstance(got, sut.Raised):
      c.bad(f'read_file {got}', name=n, text=files[n][:2000])
      return
    parts.append(out)
  old = os.getcwd()
  try:
    if cwd:
      os.chdir(cwd)
    with watch.Audit() as a:
      got, out = sut.call(sut.arinc424.read_folder, path)
    seen = watch.opened(a.events)
    wrong = watch.wrongs(a.events, [os.path.join(folder, n) for n in files], [folder])
  finally:
    os.chdir(old)
  info = {'folder': how, 'names': list(files)}
  if isinstance(got, sut.Raised):
    c.bad(f'read_folder ({how}) {got}', **info)
    return
  if wrong:
    c.bad(f'read_folder ({how}) did more than read the files of the folder: {wrong[:3]}', **info)
    return
  missing = [n for n in files if os.path.realpath(os.path.join(folder, n)) not in seen]
  if missing:
    c.bad(f'read_folder ({how}) did not read {missing[:5]}', **info)
    return
  if not arranged(out, parts):
    c.bad(f'read_folder ({how}): the output is not that of each file once ({len(out)} characters, the files give '
          f'{sum(map(len, parts))})', out=out[:2000], **info)
    return
  c.ok('folders compared', (how, tuple(sorted(files.items()))))
  c.n['files read'] += len(files)
  c.n['files opened'] += len(seen)
  c.n['ways: ' + how] += 1


class Guard:
  """whoever opens the pipe to read it comes to its end instead of waiting for ever"""

  def __init__(self, path):
    self.pid = os.fork()
    if self.pid == 0:
      try:
        for _ in range(60000):
          try:
            os.close(os.open(path, os.O_WRONLY | os.O_NONBLOCK))
          except OSError:
            pass
          time.sleep(.002)
      finally:
        os._exit(0)

  def end(self):
    os.kill(self.pid, signal.SIGKILL)
    os.waitpid(self.pid, 0)


def specials(c, rng, folder, names, files):
  """things in the folder that are not files: returns the guards of pipes"""
  guards = []
  for kind in rng.sample(['pipe', 'socket', 'broken link', 'link to a folder', 'link to the folder'], rng.choice([0, 0, 1, 2])):
    n = rng.choice(names)[:60]
    p = os.path.join(folder, n)
    if n in files or os.path.lexists(p):
      continue
    if kind == 'pipe':
      os.mkfifo(p)
      guards.append(Guard(p))
    elif kind == 'socket':
      s = socket.socket(socket.AF_UNIX)
      old = os.getcwd()
      try:
        os.chdir(folder)
        s.bind(n)
      except (OSError, ValueError):
        continue
      finally:
        os.chdir(old)
        s.close()
    elif kind == 'broken link':
      os.symlink(rng.choice(['nowhere~', '/nonexistent~/x']), p)
    elif kind == 'link to a folder':
      d = beside(os.path.dirname(folder))
      fill(rng, d, ['records'], 970)
      os.symlink(d, p)
    else:
      os.symlink('.', p)
    c.n['not files: ' + kind] += 1
    c.n['not files'] += 1
  return guards


def fill(rng, folder, names, uniq):
  files = {}
  for i, n in enumerate(names):
    files[n] = content(rng, uniq * 50 + i)
    with open(os.path.join(folder, n), 'w', newline='', encoding='utf-8') as f:
      f.write(files[n])
  return files


def check(c, n):
  top = tempfile.mkdtemp(prefix='c15-')
  try:
    for k in range(n):
      rng = gen.rng_for('C15', c.seed, c.label, k)
      folder = os.path.join(top, rng.choice(nm.FOLDERS + [x for x in mine.FRESH[:20] if '/' not in x and '\0' not in x and x not in ('.', '..') and len(x) < 60]))
      os.mkdir(folder)
      size = rng.choice([0, 1, 2, 3, 6, 12])
      names = nm.all_names()
      files = fill(rng, folder, rng.sample(names, size), k)
      for a in list(files):      # a second name of the same file is another file of the folder
        if rng.random() < .15:
          b = rng.choice(names)
          if b not in files:
            os.link(os.path.join(folder, a), os.path.join(folder, b))
            files[b] = files[a]
            c.n['hard links'] += 1
      for a in files:            # times, permissions and sizes say nothing about the content
        if rng.random() < .2:
          t = rng.choice([0, 1, 10 ** 9, 4 * 10 ** 9])
          os.utime(os.path.join(folder, a), (t, t))
        if rng.random() < .2:
          os.chmod(os.path.join(folder, a), rng.choice([0o400, 0o444, 0o755, 0o777, 0o600, 0o4755]))
      subs = rng.choice([0, 0, 1, 3])
      for s in range(subs):      # subfolders, with records of their own, and deeper ones
        d = os.path.join(folder, rng.choice(['sub', 'SUB', 'zz', '.git', '0dir', 'a.txt', 'records.dat']) + str(s))
        os.mkdir(d)
        fill(rng, d, rng.sample(nm.NAMES, rng.randint(0, 2)), 900 + s)
        if rng.random() < .5:
          os.mkdir(os.path.join(d, 'deeper'))
          fill(rng, os.path.join(d, 'deeper'), ['records'], 950)
      c.n['subfolders'] += subs
      guards = specials(c, rng, folder, names, files)
      # files outside that must not be read
      fill(rng, top, ['outside.txt'], 990)
      w = ways(rng, folder)
      try:
        for how, path, cwd in [w[k % len(w)]] + rng.sample(w, 2):
          judge(c, folder, files, how, path, cwd, rng)
      finally:
        for g in guards:
          g.end()
      shutil.rmtree(folder)
      if k == 2:
        c.sample(names=list(files), subfolders=subs)
  finally:
    shutil.rmtree(top)


def many(c, count):
  """many files, and files with equal content"""
  rng = gen.rng_for('C15m', c.seed, c.label)
  top = tempfile.mkdtemp(prefix='c15-')
  try:
    folder = os.path.join(top, 'many')
    os.mkdir(folder)
    files = {}
    same = content(rng, 5)
    for i in range(count):
      n = f'file{i:04d}' + rng.choice(['', '.txt', '.dat'])
      files[n] = same if i % 9 == 0 else content(rng, i)
      with open(os.path.join(folder, n), 'w', newline='', encoding='utf-8') as f:
        f.write(files[n])
    judge(c, folder, files, 'absolute', folder, None, rng)
    c.n['large folders'] += 1
  finally:
    shutil.rmtree(top)


def run():
  tasks = [(f'folders-{i}', check, (28 if QUICK else 900,)) for i in range(8)]
  tasks += [(f'many-{i}', many, (260 if QUICK else 3000,)) for i in range(2 if QUICK else 4)]
  harness.run(
    'C15', tasks,
    rule='folders of 0 to some hundred files with unusual names and contents, empty files, equal files, hard links, odd times and permissions, nested subfolders, pipes, sockets, broken links, links to folders, and '
         'files beside the folder, named in thirteen ways (absolute, relative, trailing slash, dots, PathLike, symbolic link, ...); the output of '
         'read_folder must be the outputs of read_file for each file, once, in some order; audit events must show every '
         'file opened and nothing else; distinct = (way, folder content)',
    floors={'folders compared': 400, 'files read': 1500, 'subfolders': 100, 'hard links': 40, 'large folders': 2, 'not files': 40},
    assumptions=['symbolic links to files or to themselves and devices in the folder are not judged; the order of files is free'])


run()
