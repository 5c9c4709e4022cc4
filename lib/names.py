"""Odd file names, and different ways of pointing at the same file."""
import contextlib
import os
import pathlib
import shutil
import signal
import tempfile
import time

import mine

NAMES = ['a', 'b.txt', 'FAACIFP18', '.hidden', 'with blank.dat', ' leading', 'trailing ', 'é.txt', 'x.TXT', 'x.txt', '*', '?', '[a]', '%s', '{0}',
         '-rf', '~', '~backup', 'a.b.c', '#hash', "it's", '"q"', 'back\\slash', 'new\nline', 'tab\t', '..x', '...', 'CON', '0', '00', 'a;b',
         '$HOME', '日本', 'z' * 200, 'README.md', 'x.gz', 'data.json', '__pycache__', 'a.pyc', 'con_t', 'Thumbs.db', 'file.bak', 'file~', 'é', ' ', '  ', '\t', ' .txt', '.txt', '..txt', '~$x.doc', '0' * 64, '\u3000', 'x.swp', '.DS_Store', 'LICENSE', 'a.zip', 'x.py', '\x01', '\x7f']

FOLDERS = ['data', 'two words', 'é', 'a.b', '[x]', '*', '-d', 'File.txt', ' leading', 'trailing ', '$HOME', '${HOME}', '~', '~root', '%41', '%20',
           'a+b', 'new\nline', 'tab\t', 'CAPS', 'back\\slash', "it's", '"q"', '日本', '.hidden', '..x', 'a;b', 'C:', '{0}', '%s', 'a&b', '\u00a0x\u00a0', 'e\u0301']

MORE = ['-', '--', '-h', '<stdin>', 'stdin', '0', '1', '@list', '%41', '%20', '$PATH', '${HOME}', '$HOME.txt', '~root', 'a.xz', 'a.bz2', 'a.lzma', 'a.zst', 'a.Z',
        'a.tar', 'a.tgz', 'a.txt.gz', 'A.GZ', 'a.zip', 'a.json', 'a.jsonl', 'a.csv', 'a.xml', 'a.tmp', 'a.part', 'a.lock', 'a.idx', 'a.lnk', 'a.url', 'file:', 'file:a',
        'http:x', 'x\x0by', '\udc80', 'a\udcffb', 'NUL', 'nul', 'LPT1', 'a:b', 'a|b', 'a>b', '`x`', '$(x)', '^', '!', 'a.utf16', 'a.latin1', 'a.PC', 'a.pc', 'FAACIFP18.txt',
        'isARINC424', 'CIFP_220101.zip', 'a\\', '[!a]', '[0-9]', '**', '?.txt', '*.txt', 'a.dat', 'A.TXT', 'records.csv', 'con', 'None', 'True', '/'[:0] + 'S', 'SUSA', 'T']


def legal(n):
  if not n or n in ('.', '..') or '/' in n or '\0' in n:
    return False
  try:
    return len(os.fsencode(n)) < 240
  except UnicodeError:
    return False


def all_names():
  """names of files: odd ones, and those a text of the source might single out"""
  out = NAMES + MORE
  for t in mine.FRESH[:30]:
    out += [t, t + '.txt', 'x' + t, 'x.' + t]
  return sorted({x for x in out if legal(x)}, key=lambda x: (x not in NAMES, os.fsencode(x)))


class Feeder:
  """writes the text into a pipe for whoever reads it first; whoever opens it again finds it empty"""

  def __init__(self, path, data):
    self.pid = os.fork()
    if self.pid == 0:
      try:
        try:
          with open(path, 'wb', buffering=0) as f:
            k = 0
            while k < len(data):
              k += f.write(data[k:k + 60000])
        except OSError:
          pass
        time.sleep(.02)
        for _ in range(60000):
          try:
            os.close(os.open(path, os.O_WRONLY | os.O_NONBLOCK))
          except OSError:
            pass
          time.sleep(.002)
      finally:
        os._exit(0)

  def end(self):
    os.kill(self.pid, signal.SIGKILL)
    os.waitpid(self.pid, 0)


WAYS = ['absolute', 'relative', 'relative', 'dot relative', 'PathLike', 'PathLike relative', 'through a link', 'relative link', 'dots', 'double slash', 'pipe',
        'descriptor', 'hard link']


@contextlib.contextmanager
def pointed(rng, data, decoy, way=None, name=None):
  """a file of these bytes under some name in some folder, with other files beside it; gives (description, path, name of the file)

  The working directory is changed while the context lasts where the path is a relative one."""
  top = tempfile.mkdtemp(prefix='vf-')
  old = os.getcwd()
  feeder = fd = None
  try:
    way = way or rng.choice(WAYS)
    names = all_names()
    name = name or rng.choice(names)
    folder = os.path.join(top, rng.choice(FOLDERS)) if rng.random() < .5 else top
    os.makedirs(folder, exist_ok=True)
    full = os.path.join(folder, name)
    for d in (os.path.join(folder, x) for x in rng.sample(names, 3) + [name + rng.choice(['.gz', '.bak', '~', '.txt', '.idx', '.utf8', '.swp'] + mine.FRESH[:20])]):
      if d != full and legal(os.path.basename(d)):
        with open(d, 'wb') as f:
          f.write(decoy)
    if way == 'pipe':
      os.mkfifo(full)
      feeder = Feeder(full, data)
    else:
      with open(full, 'wb') as f:
        f.write(data)
    path = full
    base = os.path.basename(folder)
    if way in ('relative', 'dot relative', 'PathLike relative'):
      os.chdir(folder)
      path = name if way == 'relative' else './' + name if way == 'dot relative' else pathlib.Path(name)
    elif way == 'PathLike':
      path = pathlib.Path(full)
    elif way in ('through a link', 'relative link'):
      other = os.path.join(top, 'far')
      os.makedirs(other, exist_ok=True)
      path = os.path.join(other, rng.choice(names))
      if way == 'relative link':
        os.symlink(os.path.relpath(full, other), path)
        os.chdir(other)
        path = os.path.basename(path)
      else:
        os.symlink(full, path)
    elif way == 'hard link':
      path = os.path.join(top, 'far~' + rng.choice(['a', 'b.gz', 'c.zip']))
      os.link(full, path)
    elif way == 'dots' and folder != top:
      path = os.path.join(top, '.', base, '..', base, name)
    elif way == 'double slash':
      path = folder + '//' + name
    elif way == 'descriptor':
      fd = os.open(full, os.O_RDONLY)
      path = f'/dev/fd/{fd}'
    yield f'{way}, file {name!r}', path, name
  finally:
    os.chdir(old)
    if feeder:
      feeder.end()
    if fd is not None:
      os.close(fd)
    shutil.rmtree(top)
