"""Runs a fixed list of uses of the library under the settings of this process and writes down every result.

argv: job file, result file.  Nothing of the harness is imported, so that the settings decide everything."""
import io
import json
import sys

job = json.load(open(sys.argv[1], encoding='utf-8'))
result = sys.argv[2]
cfg = job['config']
sys.argv = ['prog'] + cfg.get('argv', [])
sys.path.insert(0, job['src'])

T = 0.0
if cfg.get('now'):
  import datetime
  import time
  T = float(cfg['now'])
  _dt, _d = datetime.datetime, datetime.date
  _gm, _lt, _sf, _ct, _as = time.gmtime, time.localtime, time.strftime, time.ctime, time.asctime

  class FakeDate(_d):
    @classmethod
    def today(cls):
      return cls(*_gm(T)[:3])

  class FakeDateTime(_dt):
    @classmethod
    def now(cls, tz=None):
      return cls.fromtimestamp(T, tz)

    @classmethod
    def today(cls):
      return cls.fromtimestamp(T)

    @classmethod
    def utcnow(cls):
      return cls(*_gm(T)[:6])
  datetime.datetime, datetime.date = FakeDateTime, FakeDate
  time.time = lambda: T
  time.time_ns = lambda: int(T * 1e9)
  time.gmtime = lambda s=None: _gm(T if s is None else s)
  time.localtime = lambda s=None: _lt(T if s is None else s)
  time.strftime = lambda f, t=None: _sf(f, t or _lt(T))
  time.ctime = lambda s=None: _ct(T if s is None else s)
  time.asctime = lambda t=None: _as(t or _lt(T))
if cfg.get('locale'):
  import locale
  try:
    locale.setlocale(locale.LC_ALL, cfg['locale'])
  except locale.Error:
    pass
if cfg.get('decimal'):
  import decimal
  decimal.getcontext().prec = 2
  decimal.getcontext().rounding = decimal.ROUND_UP
if cfg.get('gc'):
  import gc
  gc.set_threshold(1, 1, 1)
if cfg.get('random') is not None:
  import random
  random.seed(cfg['random'])
if cfg.get('luck') is not None:      # every draw comes out at this end
  import os
  import random
  _u = float(cfg['luck'])
  random.random = lambda: _u
  random.uniform = lambda a, b: a + (b - a) * _u
  random.randrange = lambda a, b=None, step=1: (0 if b is None else a) if _u < .5 else (a if b is None else b) - 1
  random.randint = lambda a, b: a if _u < .5 else b
  random.getrandbits = lambda k: 0 if _u < .5 else 2 ** k - 1
  random.choice = lambda seq: seq[0 if _u < .5 else -1]
  random.shuffle = lambda x: x.sort(key=str, reverse=_u > .5)
  random.sample = lambda x, k, **_: list(x)[:k] if _u < .5 else list(x)[-k:]
  os.urandom = lambda n: (b'\0' if _u < .5 else b'\xff') * n
if cfg.get('clocks') is not None:
  import time
  _step, _now = float(cfg['clocks']), [1e6]

  def _tick():
    _now[0] += _step
    return _now[0]
  for _n in ('monotonic', 'perf_counter', 'process_time', 'thread_time'):
    setattr(time, _n, _tick)
    setattr(time, _n + '_ns', lambda: int(_tick() * 1e9))
if cfg.get('host') is not None:
  import getpass
  import os
  import platform
  import socket
  h = cfg['host']
  _names = {'getpid': h['pid'], 'getppid': h['pid'] + 1, 'getuid': h['uid'], 'geteuid': h['uid'], 'getgid': h['uid'], 'getlogin': h['name'],
            'cpu_count': h['cpus'], 'getloadavg': (h['load'],) * 3}
  for _n, _v in _names.items():
    setattr(os, _n, lambda *a, v=_v: v)
  socket.gethostname = socket.getfqdn = platform.node = lambda *a: h['name']
  getpass.getuser = lambda: h['name']
  platform.system = lambda: h['system']
  platform.machine = platform.processor = lambda: h['machine']
  platform.python_implementation = lambda: h['python']
if cfg.get('trace'):
  sys.settrace(lambda *a: None)
  sys.setprofile(lambda *a: None)
for m in cfg.get('stubs', []):       # a test runner or notebook that happens to be loaded
  sys.modules.setdefault(m, type(sys)(m))
if cfg.get('interactive'):
  sys.ps1, sys.ps2 = '>>> ', '... '
if cfg.get('limits'):
  import resource
  resource.setrlimit(resource.RLIMIT_NOFILE, (cfg['limits'], cfg['limits']))
if cfg.get('umask') is not None:
  import os
  os.umask(cfg['umask'])
if cfg.get('signals'):
  import signal
  for _s in ('SIGINT', 'SIGTERM', 'SIGALRM', 'SIGUSR1', 'SIGHUP', 'SIGPIPE'):
    signal.signal(getattr(signal, _s), signal.SIG_IGN)
if cfg.get('input') == 'none':
  sys.stdin = None
elif cfg.get('input') == 'closed':
  sys.stdin.close()
elif cfg.get('input') == 'text':
  sys.stdin = io.StringIO('y\nyes\n1\n' * 50)
for m in cfg.get('imports', []):
  __import__(m)
if cfg.get('hide'):          # optional accelerators and extras that may be missing elsewhere
  class Hidden:
    def find_spec(self, name, path=None, target=None):
      if name in cfg['hide']:
        raise ImportError(name)
  sys.meta_path.insert(0, Hidden())
  for n in cfg['hide']:
    sys.modules.pop(n, None)

asked = set()
if cfg.get('record'):                # which variables does the library look up?
  import os
  _E = type(os.environ)
  _get = _E.__getitem__

  def _recorded(self, key):
    asked.add(key if isinstance(key, str) else key.decode('latin-1'))
    return _get(self, key)
  _E.__getitem__ = _recorded

import arinc424  # noqa: E402


class Out(io.StringIO):
  encoding = cfg.get('encoding', 'utf-8')

  def isatty(self):
    return bool(cfg.get('tty'))

  def fileno(self):
    if cfg.get('tty'):
      return 1
    return super().fileno()


def call(fn, *a, **k):
  old = sys.stdout
  sys.stdout = o = Out()
  try:
    r = fn(*a, **k)
  except BaseException as e:
    r = ['raised', type(e).__name__]
  finally:
    sys.stdout = old
  return [r, o.getvalue()]


if cfg.get('caller'):                # who calls: a program, a test, a notebook, ...
  import types
  _g = dict(globals())
  _g.update(__name__=cfg['caller'][0], __file__=cfg['caller'][1], __package__=None, __spec__=None)
  call = types.FunctionType(call.__code__.replace(co_filename=cfg['caller'][1], co_name=cfg['caller'][2]), _g, cfg['caller'][2], call.__defaults__)
if cfg.get('fileless'):
  sys.modules['__main__'].__dict__.pop('__file__', None)


def deep(n):
  return main() if n == 0 else deep(n - 1)


def everything(line):
  r = arinc424.Record()
  out = [call(r.read, line)]
  for fn, a in ((r.primary, ()), (r.hasCont, ()), (r.json, ()), (r.json, (False, False)), (r.decode, (False,)), (r.decode, ())):
    out.append(call(fn, *a))
  out.append(call(arinc424.parse, line))
  return out


def main():
  global T
  for p, t in job.get('times', []):
    import os
    os.utime(p, (t, t))
  if cfg.get('dates'):               # few lines, many days
    for t in cfg['dates']:
      T = float(t)
      done.append([everything(x) for x in job['few']])
    return
  res = {'lines': [everything(x) for x in job['lines']], 'files': []}
  for op, path, arg in job['files']:
    fn = getattr(arinc424, op)
    res['files'].append(call(fn, path, *arg))
  done.append(res)


def write():
  with open(result, 'w', encoding='utf-8') as f:
    json.dump({'result': done if cfg.get('dates') else done[0], 'asked': sorted(asked)}, f)


done = []
if cfg.get('thread'):
  import threading
  threading.stack_size(cfg['thread'])
  t = threading.Thread(target=main)
  t.start()
  t.join()
elif cfg.get('loop'):
  import asyncio

  async def inside():
    main()
  asyncio.run(inside())
elif cfg.get('fork'):
  import multiprocessing

  def job_in_child():
    main()
    write()
  p = multiprocessing.get_context('fork').Process(target=job_in_child, name='worker')
  p.start()
  p.join()
  sys.exit(p.exitcode)
elif cfg.get('depth'):
  deep(cfg['depth'])
else:
  main()
write()
