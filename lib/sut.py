"""The code under test, used through its public interface only, plus observers."""
import io
import json
import os
import signal
import sys

REPO_SRC = os.environ.get('VERIF_REPO_SRC', '/repo/src')
sys.path.insert(0, REPO_SRC)
import arinc424  # noqa: E402

_where = os.path.realpath(arinc424.__file__)
if not _where.startswith(os.path.realpath(REPO_SRC) + os.sep):
  print(f'inconclusive: arinc424 was imported from {_where}, not from {REPO_SRC}')
  sys.exit(2)

Record = arinc424.Record
SRC_DIR = os.path.dirname(_where)


class Captured:
  """with Captured() as c: ... ; c.text is what was printed"""

  def __enter__(self):
    self._old = sys.stdout
    self._buf = io.StringIO()
    sys.stdout = self._buf
    return self

  def __exit__(self, *a):
    sys.stdout = self._old
    self.text = self._buf.getvalue()
    return False


class Raised:
  """the outcome of a call that did not return"""

  def __init__(self, exc):
    self.type = type(exc)
    self.name = type(exc).__name__
    self.msg = str(exc)[:200]
    self.refusal = isinstance(exc, ValueError)

  def __repr__(self):
    return f'raised {self.name}({self.msg!r})'

  def __eq__(self, o):
    return isinstance(o, Raised) and self.type is o.type


class Hung(BaseException):
  """raised into a call that used up its processor time"""


_serial = [0]
_last = [None]


def _tick(*_):
  if _serial[0] % 2 and _last[0] == _serial[0]:
    raise Hung('no end after 20 s of processor time')
  _last[0] = _serial[0]


def watchdog(seconds=20):
  """from now on, in this process, a call() that uses up this much processor time is ended with Hung"""
  signal.signal(signal.SIGPROF, _tick)
  signal.setitimer(signal.ITIMER_PROF, seconds, seconds)


def call(fn, *a, **k):
  """(result or Raised, printed text); never lets anything of the code under test out"""
  _serial[0] += 1 if _serial[0] % 2 == 0 else 2
  try:
    return _call(fn, *a, **k)
  finally:
    _serial[0] += 1


def _call(fn, *a, **k):
  with Captured() as c:
    try:
      r = fn(*a, **k)
    except KeyboardInterrupt:
      raise
    except BaseException as e:  # SystemExit included: ending the process is an observation
      r = Raised(e)
      e.__traceback__ = None
  return r, c.text


def pairs(text):
  """ordered (name, value) pairs of a JSON object, duplicates kept; None if not one"""
  try:
    seen = []

    def hook(ps):
      seen.append(ps)
      return ps
    top = json.loads(text, object_pairs_hook=hook)
  except (ValueError, TypeError):
    return None
  if not isinstance(top, list) or len(seen) != 1 or top is not seen[0]:
    return None
  return [tuple(p) for p in top]


HEADER = ('Field', 'Value', 'Decoded')


def render(rows):
  """the table as it must look: boxed, left-aligned, one blank of padding"""
  cells = [tuple(str(c).split('\n') for c in r) for r in [HEADER] + [tuple(r) for r in rows]]
  w = [max(max(len(x) for x in r[k]) for r in cells) for k in range(3)]
  bar = '+' + '+'.join('-' * (n + 2) for n in w) + '+'
  out = [bar]
  for i, r in enumerate(cells):
    for j in range(max(len(c) for c in r)):
      out.append('|' + '|'.join(' ' + (c[j] if j < len(c) else '').ljust(n) + ' ' for c, n in zip(r, w)) + '|')
    if i == 0:
      out.append(bar)
  out.append(bar)
  return '\n'.join(out)


def expected_table(rows):
  return render([(n, f"'{v}'", d) for n, v, d in rows])


def parse_table(text):
  """rows [(name, value in quotes, decoded)] of a table, or None if it is not a table.

  Values must not contain line breaks or characters of unusual width."""
  lines = text.split('\n')
  if len(lines) < 4 or not lines[0].startswith('+-') or lines[-1] != lines[0] or lines[2] != lines[0]:
    return None
  cut = [i for i, ch in enumerate(lines[0]) if ch == '+']
  if len(cut) != 4:
    return None
  rows = []
  for k, ln in enumerate(lines[1:-1]):
    if k == 1:
      continue
    if len(ln) != len(lines[0]) or any(ln[c] != '|' for c in cut):
      return None
    cells = [ln[a + 2:b] for a, b in zip(cut, cut[1:])]
    cells = [c[:-1] if c.endswith(' ') else c for c in cells]
    if cells[0].strip() == '' and rows:
      for i in range(3):
        if cells[i].strip():
          rows[-1][i] = rows[-1][i] + '\n' + cells[i].rstrip()
    else:
      rows.append([c.rstrip() for c in cells])
  if tuple(rows[0]) != HEADER:
    return None
  return [tuple(r) for r in rows[1:]]


def row(name, value, decoded):
  """a row in the form parse_table gives it"""
  return (name.rstrip(), f"'{value}'".rstrip(),
          '\n'.join(x.rstrip() for x in str(decoded).split('\n')).rstrip())
