"""Field sweeps: decode whole records, judge chosen fields against the reference model."""
import os
import re

import gen
import mine
import model
import sut


def rows_of(line):
  """rows of the table of a line as shown, or a Raised, or a text saying what was wrong"""
  r = sut.Record()
  got, _ = sut.call(r.read, line)
  if got is not True:
    return got if isinstance(got, sut.Raised) else f'read returned {got!r}'
  t, _ = sut.call(r.decode, False)
  if isinstance(t, sut.Raised):
    return t
  if not isinstance(t, str):
    return f'decode returned {type(t).__name__}'
  return t


def table_of(text):
  rows = sut.parse_table(text)
  return None if rows is None else rows


def judge(c, kind, line, which, what):
  """decode a line every field of which holds allowed values; judge the fields in which (indexes)"""
  acc = model.classify(line)
  exp = model.decode(acc)
  got = rows_of(line)
  if not isinstance(got, str) or not got.startswith('+'):
    c.bad(f'{what}: a {kind} record of allowed values was not decoded: {got}', line=line, got=repr(got))
    return False
  same = got == sut.expected_table(exp)
  rows = None
  if not same:
    rows = table_of(got)
    if rows is None:
      c.bad(f'{what}: the result is not a table', line=line, got=got)
      return False
    named = {}
    for r in rows:
      named.setdefault(r[0], r)
  for i in which:
    f = acc.layout[i]
    name, value, dec = exp[i]
    fid = model.finding(f)
    if same:
      if fid:
        alt = model.alternatives(f, value, acc.section)
        if alt and sut.row(name, value, alt[0]) != sut.row(name, value, dec):
          c.known(fid)
    else:
      want = sut.row(name, value, dec)
      r = rows[i] if i < len(rows) and rows[i][0] == want[0] else named.get(want[0])
      if r is None:
        c.bad(f'{what}: {kind}: no row for field "{name}"', line=line, field=name)
        return False
      if r[2] != want[2]:
        alt = [sut.row(name, value, a)[2] for a in model.alternatives(f, value, acc.section)]
        if r[2] not in alt:
          c.bad(f'{what}: {kind}: field "{name}" with {value!r} is decoded to {r[2]!r}, should be {want[2]!r}',
                line=line, field=name, value=value, got=r[2], want=want[2])
          continue
      elif fid:
        alt = model.alternatives(f, value, acc.section)
        if alt and sut.row(name, value, alt[0]) != want:
          c.known(fid)
    c.ok('fields judged', (acc.section, f.para, f.name, value))
  c.n['records decoded'] += 1
  return True


def usable_kinds(**kw):
  """kinds whose records can be decoded at all"""
  return [k for k in gen.kinds(**kw) if not gen.ndb_q(k)]


def chunks(seq, n):
  seq = list(seq)
  return [seq[i::n] for i in range(n)]


def indexes(kind, group):
  return [i for i, f in enumerate(kind.layout) if f.para in group]


PLAIN = {'026': re.compile(r' *|\d+T?'), '027': re.compile(r' *|T?\d+'), '039': re.compile(r' *|[EWT]\d+'),
         '269': re.compile(r' *|\d+'), '034': re.compile(r' *|\d+')}


def odd_number(f, v):
  """a number spelled in a way the statements do not settle (sign, exponent, inner or leading blank)"""
  return f.para in PLAIN and not PLAIN[f.para].fullmatch(v)


def defined(f, v, section):
  """an allowed value: a code of the table, a plainly spelled number, or any text of an uninterpreted field"""
  codes = gen.cached_codes(f, section)
  if codes is not None:
    return v in codes
  if odd_number(f, v):
    return False
  try:
    model.decode_field(f, v, section)
    return True
  except model.Bad:
    return False


def all_defined(acc):
  return acc.line.isascii() and all(defined(f, f.value(acc.line), acc.section) for f in acc.layout)


def mined(c, kinds, limit, light, fn, keep=True):
  """fn(kind, line) for lines holding texts of the mined dictionary"""
  for kind in kinds:
    rng = gen.rng_for('mined', c.prop, c.seed, kind.key())
    for line in mine.lines(kind, rng, limit, light, keep):
      acc = model.classify(line)
      if keep and (not isinstance(acc, model.Accept) or acc.layout_name != kind.layout_name or acc.section != kind.section):
        continue
      c.n['lines with mined texts'] += 1
      fn(kind, line)


def mined_tasks(fn, kinds=None, limit=None, light=None, n=16):
  """tasks for a check: fn(c, kinds, limit, light)"""
  quick = os.environ.get('VERIF_TIER', 'quick') == 'quick'
  kinds = gen.kinds() if kinds is None else kinds
  limit = limit or (240 if quick else 3000)
  light = light or (12 if quick else 400)
  return [(f'mined-{i}', fn, (ks, limit, light)) for i, ks in enumerate(chunks(kinds, n)) if ks]
