"""C21: the same input gives the same output in every environment."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

import gen
import harness
import hist
import mine
import names
import sut
import sweep

QUICK = os.environ.get('VERIF_TIER', 'quick') == 'quick'
CHILD = os.path.join(harness.VERIF, 'lib', 'envchild.py')
ANSI = re.compile(r'\x1b\[[0-9;]*m')
OPS = ['read', 'primary', 'hasCont', 'json', 'json indented', 'decode(False)', 'decode', 'parse']
BASE = {'PATH': '/usr/bin:/bin', 'PYTHONHASHSEED': '0', 'PYTHONUTF8': '1', 'HOME': '/nonexistent', 'LANG': 'C.UTF-8'}
NAMES = ['DEBUG', 'VERBOSE', 'ARINC424', 'ARINC424_DEBUG', 'ARINC_DEBUG', 'ARINC424_STRICT', 'ARINC424_CACHE', 'ARINC424_OUTPUT', 'STRICT', 'CI', 'QUIET',
         'GITHUB_ACTIONS', 'TRAVIS', 'KUBERNETES_SERVICE_HOST', 'VIRTUAL_ENV', 'CONDA_PREFIX', 'container', 'INVOCATION_ID', 'SUDO_USER', 'SSH_TTY', 'SSH_CLIENT', 'DISPLAY', 'PAGER', 'EDITOR',
         'SHELL', 'TMPDIR', 'LANGUAGE', 'LC_NUMERIC', 'LC_MESSAGES', 'PYCHARM_HOSTED', 'VSCODE_PID', 'WT_SESSION', 'MSYSTEM', 'OS', 'PROCESSOR_ARCHITECTURE', 'ARINC424_STRICT', 'ARINC_STRICT',
         'LOGLEVEL', 'LOG_LEVEL', 'TEST', 'TESTING', 'PYTEST_CURRENT_TEST', 'ENV', 'PRODUCTION', 'COLOR', 'CLICOLOR', 'JPY_PARENT_PID']


def locales():
  try:
    out = subprocess.run(['locale', '-a'], capture_output=True, text=True, timeout=20).stdout.split()
  except (OSError, subprocess.SubprocessError):
    out = []
  return [x for x in out if x not in ('C', 'POSIX')][:6]


def settings():
  """[(name, environment changes, interpreter flags, config)]"""
  fresh = [t for t in mine.FRESH if re.fullmatch(r'[A-Za-z_][A-Za-z0-9_]{2,40}', t)]
  out = [('plain again', {}, [], {})]
  for s in ('1', '2', '3', '42', 'random') + (() if QUICK else tuple(str(i) for i in range(4, 40))):
    out.append((f'hash seed {s}', {'PYTHONHASHSEED': s}, [], {}))
  for tz in ('Asia/Tokyo', 'America/Los_Angeles', 'XXX-14', 'XXX+12', ''):
    out.append((f'TZ={tz}', {'TZ': tz}, [], {}))
  for y, t in ((1975, 157766400), (1999, 946684799), (2012, 1330473600), (2030, 1900000000), (2051, 2556144000), (2070, 3155760000), (2099, 4102444799), (2110, 4420000000)):
    out.append((f'year {y}', {}, [], {'now': t}))
  out += [('locale C', {'LC_ALL': 'C', 'LANG': 'C'}, [], {'locale': ''}), ('locale C without UTF-8 mode', {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, [], {'locale': ''}),
          ('latin-1 streams', {'PYTHONIOENCODING': 'latin-1', 'PYTHONUTF8': '0'}, [], {})]
  for x in locales():
    out.append((f'locale {x}', {'LC_ALL': x, 'LANG': x}, [], {'locale': x}))
  for x in ('tr_TR.UTF-8', 'de_DE.UTF-8'):
    out.append((f'locale {x} requested', {'LC_ALL': x, 'LANG': x}, [], {'locale': x}))
  for w in ('20', '79', '400', '0', '-1', 'x'):
    out.append((f'COLUMNS={w}', {'COLUMNS': w, 'LINES': w}, [], {}))
  out += [('dumb terminal', {'TERM': 'dumb'}, [], {'tty': True}), ('terminal', {'TERM': 'xterm-256color'}, [], {'tty': True}),
          ('NO_COLOR', {'NO_COLOR': '1'}, [], {'tty': True}), ('FORCE_COLOR', {'FORCE_COLOR': '1'}, [], {}),
          ('interactive', {'PYTHONINSPECT': ''}, [], {'interactive': True, 'tty': True}),
          ('-O', {}, ['-O'], {}), ('-OO', {}, ['-OO'], {}), ('-X dev', {}, ['-X', 'dev'], {}), ('isolated', {}, ['-I'], {}), ('unbuffered', {}, ['-u'], {}),
          ('-bb', {}, ['-bb'], {}), ('-v off -q', {}, ['-q'], {}), ('no home, no path', {'HOME': None, 'PATH': None, 'LANG': None}, [], {}),
          ('suggestive variables', {n: '1' for n in NAMES}, [], {}), ('suggestive variables off', {n: '0' for n in NAMES}, [], {}),
          ('variables named in the source', {n: '1' for n in fresh}, [], {}), ('variables named in the source, true', {n: 'true' for n in fresh}, [], {}),
          ('arguments', {}, [], {'argv': ['--debug', '-v', '--strict', 'json', '--output', 'off'] + ['--' + x for x in fresh]}),
          ('arguments named in the source', {}, [], {'argv': list(mine.FRESH[:30])}),
          ('decimal context', {}, [], {'decimal': 1}), ('eager collector', {}, [], {'gc': 1}), ('random state', {}, [], {'random': 7}),
          ('thread', {}, [], {'thread': 512 * 1024}), ('decoder imported first', {}, [], {'imports': ['arinc424.decoder']}),
          ('record imported first', {}, [], {'imports': ['arinc424.record']}),
          ('stdlib imported first', {}, [], {'imports': ['readline', 'locale', 'decimal', 'logging', 'unittest', 'doctest', 'asyncio', 'curses']}),
          ('without extras', {}, [], {'hide': ['curses', '_curses', 'readline', 'ujson', 'orjson', 'simplejson', 'pandas', 'numpy', 'rich', 'colorama', '_json']})]
  for i, (pid, uid, name, cpus, system, machine, python) in enumerate((
      (1, 0, 'root', 1, 'Windows', 'AMD64', 'PyPy'), (4194303, 1000, 'user', 64, 'Darwin', 'arm64', 'CPython'), (4242, 33, 'ci-runner', None, 'Linux', 'i686', 'Jython'))):
    out.append((f'host {system}', {'USER': name, 'LOGNAME': name, 'HOSTNAME': name}, [],
                {'host': {'pid': pid, 'uid': uid, 'name': name, 'cpus': cpus, 'system': system, 'machine': machine, 'python': python, 'load': i * 50.0}}))
  out += [('lowest draws', {}, [], {'luck': 0.0}), ('highest draws', {}, [], {'luck': 0.9999999999}),
          ('clocks that stand still', {}, [], {'clocks': 0}), ('clocks that race', {}, [], {'clocks': 3600}),
          ('traced', {}, [], {'trace': True}), ('warnings shown', {}, ['-W', 'always'], {}), ('warnings fatal', {}, ['-W', 'error'], {}),
          ('test runner loaded', {}, [], {'stubs': ['pytest', '_pytest', 'IPython', 'ipykernel', 'pydevd', 'coverage', 'nose', 'google.colab']}),
          ('ASCII output', {}, [], {'encoding': 'ascii'}), ('code page output', {}, [], {'encoding': 'cp1252', 'tty': True}), ('output without encoding', {}, [], {'encoding': None}),
          ('event loop', {}, [], {'loop': True}), ('worker process', {}, [], {'fork': True}),
          ('called by __main__', {}, [], {'caller': ['__main__', '/usr/bin/prog', '<module>']}),
          ('called by a test', {}, [], {'caller': ['tests.test_record', '/x/tests/test_record.py', 'test_read']}),
          ('called by a notebook', {}, [], {'caller': ['__main__', '/tmp/ipykernel_1/1.py', '<cell line: 1>'], 'fileless': True}),
          ('called by typed text', {}, [], {'caller': ['__main__', '<stdin>', '<module>'], 'fileless': True, 'interactive': True}),
          ('called by a string', {}, [], {'caller': ['builtins', '<string>', '<lambda>']}),
          ('deep in the stack', {}, [], {'depth': 400}), ('few descriptors', {}, [], {'limits': 12}), ('strict umask', {}, [], {'umask': 0o777}),
          ('signals ignored', {}, [], {'signals': True}), ('no input', {}, [], {'input': 'none'}), ('closed input', {}, [], {'input': 'closed'}), ('waiting input', {}, [], {'input': 'text'}),
          ('modules named in the source present', {}, [], {'stubs': [m for m in fresh if m not in sys.stdlib_module_names and m not in ('termcolor', 'prettytable', 'wcwidth', 'arinc424')]}),
          ('modules named in the source missing', {}, [], {'hide': [m for m in fresh if m not in sys.stdlib_module_names and m not in ('termcolor', 'prettytable', 'wcwidth', 'arinc424')]}),
          ('home with settings', {'HOME': '{home}', 'XDG_CONFIG_HOME': '{home}/.config', 'APPDATA': '{home}', 'USERPROFILE': '{home}'}, [], {}),
          ('home with folders of that name', {'HOME': '{homes}', 'XDG_CONFIG_HOME': '{homes}/.config', 'APPDATA': '{homes}', 'USERPROFILE': '{homes}'}, [], {}),
          ('current folder full of files', {}, [], {'cwd': 'home'}), ('current folder full of folders', {}, [], {'cwd': 'homes'}), ('files beside the data', {}, [], {'beside': True}),
          ('installed elsewhere', {}, [], {'copy': 'some where/else é'}),
          ('old files', {}, [], {'mtime': 86400.0}), ('files of the future', {}, [], {'mtime': 4e9})]
  days = sorted({int(y * 31556952) + d * 86400 + h for y in range(0, 140, 7) for d, h in ((3, 0), (45, 43200), (100, 86399))} |
                {1582977600, 1709164800, 1735689599, 1767225600, 1798761599, 951782400})
  days += [int(1577836800 + d * 86400 + d * 3607 % 86400) for d in range(0, 7 if QUICK else 1461)] + [1577836800 + m * 2629746 for m in range(12)]
  for part in sweep.chunks(days, 2 if QUICK else 12):
    out.append((f'{len(part)} dates', {}, [], {'now': 1.0, 'dates': list(part)}))
  for v in NAMES + fresh[:12]:
    if not QUICK:
      out.append((f'{v}=1', {v: '1'}, [], {}))
  return out


def suggestive():
  """names of files a program might look for"""
  out = ['arinc424.ini', 'arinc424.cfg', '.arinc424', '.arinc424rc', 'arinc424', 'config.json', '.env', 'arinc424.json', 'settings.toml', 'debug', 'DEBUG', '.debug', 'cache', '.cache', 'pyproject.toml',
         'arinc424.toml', 'arinc424.yaml', 'idx', 'index', 'gz', 'bak', 'lock', 'pid', 'tmp', 'log', 'md5', 'cfg', 'ini', 'json', 'toml', 'cycle', '.git']
  for t in mine.FRESH[:60]:
    out += [t, t.lstrip('./~'), '.' + t, os.path.basename(t)]
  return [x for x in dict.fromkeys(out) if names.legal(x)]


def put(path):
  os.makedirs(os.path.dirname(path), exist_ok=True)
  with open(path, 'w') as f:
    f.write('{"strict": 1, "debug": true}\n')


def homes(d):
  """a folder with files of suggestive names, and one with folders of these names"""
  for n in suggestive():
    for sub in ('', '.config', os.path.join('.config', 'arinc424'), '.arinc424', 'data'):
      p = os.path.join(d, 'home', sub, n)
      if not os.path.exists(p) and not os.path.isfile(os.path.dirname(p)):
        try:
          put(p)
        except OSError:
          pass
      os.makedirs(os.path.join(d, 'homes', sub, n), exist_ok=True)


def launch(d, job, name, env, flags, cfg, cwd):
  jf, rf = os.path.join(d, 'job.json'), os.path.join(d, 'result.json')
  if os.path.exists(rf):
    os.remove(rf)
  job = dict(job)
  if cfg.get('copy'):
    job['src'] = os.path.join(d, cfg['copy'])
    shutil.copytree(os.path.dirname(sut.SRC_DIR), job['src'], ignore=shutil.ignore_patterns('__pycache__'))
  if cfg.get('mtime'):
    job['times'] = [(p, cfg['mtime']) for p in job['paths']]
  with open(jf, 'w', encoding='utf-8') as f:
    json.dump({**job, 'config': cfg}, f)
  e = dict(BASE)
  for k, v in env.items():
    if v is None:
      e.pop(k, None)
    else:
      e[k] = v.replace('{homes}', os.path.join(d, 'homes')).replace('{home}', os.path.join(d, 'home'))
  if cfg.get('cwd'):
    cwd = os.path.join(d, cfg['cwd'])
  if cfg.get('beside'):
    for p in job['paths'][:2]:
      for n in suggestive():
        for q in (p + n, p + '.' + n, os.path.join(d, n), os.path.splitext(p)[0] + '.' + n):
          if not os.path.lexists(q):
            put(q)
  p = subprocess.run([sys.executable, '-B', *flags, CHILD, jf, rf], env=e, cwd=cwd, stdin=subprocess.DEVNULL, capture_output=True, text=True,
                     errors='replace', timeout=500)
  if p.returncode or not os.path.exists(rf):
    return f'exit code {p.returncode}: {p.stderr[-300:]}'
  with open(rf, encoding='utf-8') as f:
    return json.load(f)


def build(d, seed):
  """lines of every kind, good, refused and undecodable; files and a folder of one file"""
  rng = gen.rng_for('C21', seed)
  lines = []
  for k in gen.kinds():
    for _ in range(2 if QUICK else 8):
      lines.append(gen.valid_line(k, rng))
    lines.append(hist.spoil(lines[-1], k, rng))
    if rng.random() < .4:
      lines.append(hist.broken(lines[-2], k, rng))
    if mine.FRESH:
      ml = mine.lines(k, rng, 8, 0)
      lines += ml[:4] + ml[-3:]
  # cycle dates of every year
  k = next(x for x in gen.kinds() if x.section == 'PA' and x.primary)
  base = gen.valid_line(k, rng)
  lines += [base[:128] + f'{y:02d}{n:02d}' for y in range(100) for n in (1, 13)]
  lines = [x for x in lines if x.isascii() and '\n' not in x.strip()]
  good = [x for x in lines if gen.sane(x)]
  folder = os.path.join(d, 'folder')
  os.mkdir(folder)
  a, b, one = os.path.join(d, 'good.txt'), os.path.join(d, 'mixed.txt'), os.path.join(folder, 'one.txt')
  with open(a, 'w') as f:
    f.write('\n'.join(good[:120]) + '\n')
  with open(b, 'w', newline='') as f:
    f.write('\r\n'.join(lines[:60]))
  with open(one, 'w') as f:
    f.write('\n'.join(good[120:150]) + '\n')
  files = [('read_file', a, []), ('read_file', b, []), ('read_folder', folder, []), ('search', a, ['']), ('search', a, ['K1']),
           ('search', b, [['S', '1']]), ('search', a, [['A', 'B', 'C']]), ('search', a, ['zzz'])]
  few = [gen.valid_line(k, rng) for k in gen.kinds() if k.primary] + [base[:128] + f'{y:02d}07' for y in range(0, 100, 9)]
  return {'src': os.path.dirname(sut.SRC_DIR), 'lines': lines, 'files': files, 'few': few, 'paths': [a, b, one]}


def check(c, part, first):
  d = tempfile.mkdtemp(prefix='c21-')
  try:
    job = build(d, c.seed)
    empty = os.path.join(d, 'cwd')
    os.mkdir(empty)
    for i, n in enumerate(('arinc424.ini', 'arinc424.cfg', '.arinc424', 'config.json', '.env', 'arinc424.json', 'settings.toml')):
      with open(os.path.join(empty, n), 'w') as f:
        f.write('strict=1\n' if i % 2 else '{"debug": true}\n')
    homes(d)
    ref = launch(d, job, 'reference', {}, [], {'record': True}, d)
    if isinstance(ref, str):
      raise RuntimeError('reference environment: ' + ref)
    asked, ref = ref['asked'], ref['result']
    part = list(part)
    if first:
      c.n['variables the library looked up'] += len(asked)
      free = [v for v in asked if v not in BASE and v not in ('FORCE_COLOR', 'NO_COLOR')][:60]
      for val in ('1', '0', 'true', 'off', '', 'x') if free else ():
        part.append((f'looked-up variables = {val!r}', {v: val for v in free}, [], {}))
    for k, (name, env, flags, cfg) in enumerate(part):
      got = launch(d, job, name, env, flags, cfg, [d, empty, '/'][k % 3])
      if isinstance(got, str):
        c.bad(f'environment "{name}": the library does not work: {got}', environment=name)
        continue
      got = got['result']
      c.n['environments'] += 1
      if cfg.get('dates'):
        for t, day in zip(cfg['dates'], got):
          if c.violations:
            break
          for line, x, y in zip(job['few'], got[0], day):
            if x != y:
              i = next(i for i, (p, q) in enumerate(zip(x, y)) if p != q)
              c.bad(f'at time {t}: {OPS[i]} gives {diff(x[i], y[i])}, compared with time {cfg["dates"][0]}', line=line, environment=name)
              break
            c.ok('results compared on dates', (t, line), k=len(x))
        continue
      for line, x, y in zip(job['lines'], ref['lines'], got['lines']):
        if x == y:
          c.ok('results compared', (name, line), k=len(x))
          continue
        op = next(o for o, p, q in zip(OPS, x, y) if p != q)
        i = OPS.index(op)
        c.bad(f'environment "{name}": {op} gives {diff(x[i], y[i])}', line=line, environment=name, flags=flags, variables=env, config=cfg)
        break
      for what, x, y in zip(job['files'], ref['files'], got['files']):
        x, y = ([r[0], ANSI.sub('', r[1])] for r in (x, y))
        if x != y:
          c.bad(f'environment "{name}": {what[0]} {what[2]} gives {diff(x, y)}', environment=name)
          break
        c.ok('file results compared', (name, what[0], str(what[2])))
      if k == 0:
        c.sample(environment=name, lines=len(job['lines']), files=len(job['files']))
  finally:
    shutil.rmtree(d)


def diff(x, y):
  a, b = str(x[0]) + '\n' + str(x[1]), str(y[0]) + '\n' + str(y[1])
  for p, q in zip(a.split('\n'), b.split('\n')):
    if p != q:
      return f'{q[:120]!r}, elsewhere {p[:120]!r}'
  return f'{len(b)} characters, elsewhere {len(a)}'


def run():
  s = settings()
  tasks = [(f'env-{i}', check, (p, i == 0)) for i, p in enumerate(sweep.chunks(s, 16)) if p]
  harness.run(
    'C21', tasks,
    rule='the same lines of every record kind (good, refused, undecodable, every cycle year), files, a folder and searches are run in '
         'child interpreters that differ in hash seed, time zone, faked date (1975-2110), clocks, random draws, process, user and host, file times, place of installation, locale and encodings, terminal and its width, '
         'optimisation and development flags, environment variables, arguments, current folder, import order, decimal context, '
         'collector, tracing, warning filters, loaded modules, missing extras, caller, depth of the stack, limits, signals, standard input, files in the home folder, in the current folder and beside the data, thread, event loop and worker process, and in the variables the '
         'library was seen to look up; every result and printed text must equal that of the reference environment (the '
         'colour of the search summary excepted); distinct = (environment, line or file operation)',
    floors={'environments': 80, 'results compared': 100000, 'file results compared': 250},
    assumptions=['files are ASCII, as their encoding is taken from the environment; the date is faked through the time and datetime '
                 'modules; only locales installed in the sandbox are switched to'])


run()
