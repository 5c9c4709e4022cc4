"""Observers of side effects: interpreter audit events, descriptors, files, process state."""
import atexit
import builtins
import decimal
import gc
import hashlib
import locale
import logging
import os
import random
import resource
import signal
import sys
import threading
import time
import warnings

FORBIDDEN = ('os.remove', 'os.rename', 'os.rmdir', 'os.mkdir', 'os.link', 'os.symlink', 'os.truncate', 'os.chmod', 'os.chown',
             'os.utime', 'os.putenv', 'os.unsetenv', 'os.chdir', 'os.fork', 'os.forkpty', 'os.exec', 'os.posix_spawn', 'os.spawn',
             'os.system', 'os.kill', 'os.killpg', 'os.startfile', 'os.setxattr', 'os.removexattr', 'os.chflags', 'os.lockf',
             'subprocess.', 'socket.', 'shutil.', 'tempfile.', 'urllib.', 'http.', 'ftplib.', 'smtplib.', 'imaplib.', 'poplib.',
             'nntplib.', 'telnetlib.', 'sqlite3.', 'mmap.', 'builtins.input', 'fcntl.', 'resource.', 'syslog.', 'webbrowser.',
             'pty.', 'signal.pthread_kill', 'ctypes.', 'msvcrt.', 'winreg.', 'ensurepip.',)
WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
_events = []
_armed = [False]
_installed = [False]


def _hook(event, args):
  if _armed[0]:
    if event in ('open', 'os.scandir', 'os.listdir') or event.startswith(FORBIDDEN):
      _events.append((event, args))


class Audit:
  """with Audit() as a: ... ; a.events are the audit events of file and process access"""

  def __enter__(self):
    if not _installed[0]:
      sys.addaudithook(_hook)
      _installed[0] = True
    _events.clear()
    _armed[0] = True
    return self

  def __exit__(self, *a):
    _armed[0] = False
    self.events = list(_events)
    return False


LIBS = tuple(os.path.realpath(p) + os.sep for p in sys.path if p) + (os.path.realpath(sys.prefix) + os.sep,
                                                                    os.path.realpath(sys.base_prefix) + os.sep,
                                                                    os.path.dirname(os.path.realpath(os.__file__)) + os.sep)


def is_import(path):
  """a module file opened by the import system"""
  return isinstance(path, str) and path.endswith(('.py', '.pyc', '.so')) and os.path.realpath(path).startswith(LIBS)


def real(path):
  try:
    return os.path.realpath(os.fspath(path))
  except TypeError:
    return repr(path)


def wrongs(events, allowed_files, allowed_dirs):
  """what in the events goes beyond reading the allowed files"""
  files = {real(p) for p in allowed_files}
  dirs = {real(p) for p in allowed_dirs}
  out = []
  for ev, a in events:
    if ev == 'open':
      path, mode, flags = (tuple(a) + (None, None))[:3]
      if isinstance(path, int):
        continue
      writes = (flags or 0) & WRITE or (isinstance(mode, str) and set(mode) & set('wax+'))
      p = real(path if not isinstance(path, bytes) else os.fsdecode(path))
      if writes:
        out.append(f'opened {p} for writing')
      elif p not in files and p not in dirs and not is_import(p):
        out.append(f'opened {p}, which it was not asked to read')
    elif ev in ('os.scandir', 'os.listdir'):
      p = real(a[0] if a and a[0] is not None else '.')
      # the import system lists the folders of the path
      if p not in dirs and not (p + os.sep).startswith(LIBS):
        out.append(f'listed {p}, which it was not asked to read')
    else:
      out.append(f'{ev}{a!r}'[:200])
  return out


def opened(events):
  """files opened, in order"""
  return [real(a[0]) for ev, a in events if ev == 'open' and not isinstance(a[0], int) and not is_import(real(a[0]))]


def tree(*roots):
  """names, kinds, modes, times and contents under the given folders"""
  out = {}
  for root in roots:
    for d, ds, fs in os.walk(root):
      for n in ds + fs:
        p = os.path.join(d, n)
        s = os.lstat(p)
        h = None
        if os.path.isfile(p) and not os.path.islink(p):
          h = hashlib.blake2b(open(p, 'rb').read(), digest_size=8).hexdigest()
        out[p] = (s.st_mode, s.st_size, s.st_mtime_ns if h else 0, s.st_uid, s.st_gid, s.st_nlink if h else 0, h)
  return out


def fds():
  out = {}
  for n in os.listdir('/proc/self/fd'):
    try:
      out[n] = os.readlink('/proc/self/fd/' + n)
    except OSError:
      pass
  return {k: v for k, v in out.items() if not v.startswith('/proc/')}


MODULES = ('builtins', 'os', 'posixpath', 'io', 'json', 'json.encoder', 'json.decoder', 'prettytable', 'prettytable.prettytable', 'termcolor', 'string',
           'time', 'shutil', 'tempfile', 'locale', 'random', 'decimal', 'unicodedata')


def content(v):
  """the content of a small container, the size of a large one"""
  return len(v) if len(v) > 200 else {k: id(x) for k, x in v.items()} if isinstance(v, dict) else [id(x) for x in v] if isinstance(v, list) else set(v)


def bindings():
  """what the names of shared modules are bound to"""
  out = {}
  for m in MODULES:
    mod = sys.modules.get(m)
    if mod is not None:
      for k, v in list(vars(mod).items()):
        if k not in ('__warningregistry__', '_') and not (m == 'tempfile' and k == 'tempdir') and m + '.' + k not in sys.modules:
          out[m + '.' + k] = (id(v), content(v)) if type(v) in (dict, list, set) and k != '__builtins__' else id(v)
  pt = sys.modules.get('prettytable')
  if pt is not None:
    for k, v in list(vars(pt.PrettyTable).items()):
      out['PrettyTable.' + k] = id(v)
  return out


def process():
  um = os.umask(0o22)
  os.umask(um)
  sig = {}
  for s in signal.valid_signals():
    try:
      sig[int(s)] = repr(signal.getsignal(s))
    except (ValueError, OSError):
      pass
  return {
    'cwd': os.getcwd(), 'environment': dict(os.environ), 'umask': um, 'signals': sig, 'path': list(sys.path),
    'recursion limit': sys.getrecursionlimit(), 'switch interval': sys.getswitchinterval(),
    'locale': locale.setlocale(locale.LC_ALL), 'random state': hash(random.getstate()), 'stdin': id(sys.stdin),
    'stderr': id(sys.stderr), 'stdout': id(sys.stdout), 'trace': (sys.gettrace(), sys.getprofile()),
    'hooks': (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook)), 'threads': threading.active_count(),
    'logging': (logging.root.level, len(logging.root.handlers), logging.root.manager.disable),
    'priority': os.getpriority(os.PRIO_PROCESS, 0), 'alarm': signal.getitimer(signal.ITIMER_REAL),
    'limits': [resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_CORE, resource.RLIMIT_STACK)],
    'decimal': repr(decimal.getcontext()), 'bytecode': sys.dont_write_bytecode, 'gc': (gc.isenabled(), gc.get_threshold(), len(gc.callbacks), gc.get_debug()),
    'exit handlers': atexit._ncallbacks(), 'arguments': list(sys.argv), 'import hooks': (len(sys.meta_path), len(sys.path_hooks)),
    'builtins': sorted(k for k in vars(builtins) if k != '_'), 'stream hooks': (id(sys.unraisablehook), id(sys.breakpointhook)),
    'time zone': time.tzname,
    'warning filters': [repr(f) for f in warnings.filters], 'int digits': sys.get_int_max_str_digits(),
    'print': id(__builtins__['print'] if isinstance(__builtins__, dict) else __builtins__.print),
    'open': id(__builtins__['open'] if isinstance(__builtins__, dict) else __builtins__.open),
  }


def children():
  try:
    os.waitpid(-1, os.WNOHANG)
    return True
  except ChildProcessError:
    return False


def diff(a, b):
  return [f'{k}: {str(a.get(k))[:100]} -> {str(b.get(k))[:100]}' for k in {**a, **b} if a.get(k) != b.get(k)]
