"""C20: a value outside the code table is refused or shown as unknown, never as a defined meaning."""
import gen
import harness
import mine
import model
import os
import sweep
import sut

TIER = os.environ.get('VERIF_TIER', 'quick')
QUICK = TIER == 'quick'
PRINT = ''.join(gen.PRINT)

ALLCODES = {}          # paragraph -> codes of any section
for _k in gen.kinds():
  for _f in _k.layout:
    if _f.para in model.CODED:
      ALLCODES.setdefault(_f.para, set()).update(gen.codes(_f, _k.section))
EVERY = sorted(set().union(*ALLCODES.values()))

NONDIGIT = 'ABCDFGHJKLMOPQRSUVWXYZ*/#?=:$!'


def lookalikes(code):
  out = {code.lower(), code.swapcase(), code.capitalize(), code[::-1], code[1:] + code[:1], code[-1:] + code[:-1]}
  for i in range(len(code)):
    out.add(code[:i] + ' ' + code[i + 1:])
    out.add(code[:i] + code[i].swapcase() + code[i + 1:])
    out.add(code[:i] + chr((ord(code[i]) + 1 - 32) % 95 + 32) + code[i + 1:])
    out.add(code[:i] + chr((ord(code[i]) - 1 - 32) % 95 + 32) + code[i + 1:])
  return {x for x in out if len(x) == len(code)}


def no_meaning(f, v, section):
  try:
    return not str(model.decode_field(f, v, section)).strip()
  except model.Bad:
    return False


def undefined(f, section, rng, cap):
  """values outside the field's table"""
  w = f.width
  codes = set(gen.codes(f, section))
  vals = []
  if w == 1:
    vals = list(PRINT)
  else:
    look = set()
    for x in codes:
      look |= lookalikes(x)
    look = sorted(look)
    rng.shuffle(look)
    vals += look[:cap * 2 // 3]
    vals += [x[:w].ljust(w) for x in EVERY] + [x[:w].rjust(w) for x in EVERY if len(x) < w]
    vals += [' ' * w, '?' * w, '0' * w, 'zz'.ljust(w)[:w], 'NA'.ljust(w)[:w]]
    for x in rng.sample(sorted(codes), min(len(codes), 12)):
      i = rng.randrange(w)
      vals += [x[:i] + ch + x[i + 1:] for ch in rng.sample(PRINT, 12)]
    vals += [''.join(rng.choice(PRINT) for _ in range(w)) for _ in range(cap // 5)]
    if not QUICK and w == 2:
      vals += [a + b for a in PRINT for b in PRINT]
  # a blank that stands for nothing in particular is judged too: it must not be given a meaning
  for v in [x for x in mine.FRESH if x.isascii() and x.isprintable()][:40]:
    vals += mine.forms(v, w)
  vals = [v for v in dict.fromkeys(vals) if v not in codes or not v.strip() and no_meaning(f, v, section)]
  if len(vals) > cap and not (not QUICK and w == 2):
    vals = vals[:cap // 2] + rng.sample(vals[cap // 2:], cap - cap // 2)
  return vals


def strict_values(f, rng):
  """values a validated (not enumerated) field must refuse"""
  p, w = f.para, f.width
  out = []

  def spoil(base, chars):
    i = rng.randrange(len(base))
    return base[:i] + rng.choice(chars) + base[i + 1:]
  n = 12 if QUICK else 120
  if p == '008':
    for _ in range(n):
      t = ''.join(rng.choice(gen.ALNUM) for _ in range(rng.randint(2, w)))
      i = rng.randrange(len(t))
      out.append((t[:i] + rng.choice('*/#?-_.$!"') + t[i + 1:]).ljust(w))
    out += ['A B'.ljust(w)] if w >= 3 else []
  elif p == '022':
    out += [x.ljust(w) for x in '0123456789*/#?-_.$!']
  elif p in ('023', '024', '025'):
    for _ in range(n):
      t = ''.join(rng.choice(gen.ALNUM) for _ in range(w))
      out.append(spoil(t, '*/#?-_.$!"'))
    if w >= 3:
      out.append('A B'.ljust(w))
  elif p == '026':
    for _ in range(n):
      out.append(spoil(gen.rand_digits(rng, w), NONDIGIT))
      out.append('T' + gen.rand_digits(rng, w - 1))
    out += ['-' + '1' * (w - 1), '12.5'[:w].ljust(w, '0')]
  elif p == '027':
    for _ in range(n):
      out.append(spoil(gen.rand_digits(rng, w), NONDIGIT))
      out.append('M' + gen.rand_digits(rng, w - 1))
      out.append('t' + gen.rand_digits(rng, w - 1))
  elif p == '034':
    for _ in range(n):
      out.append(spoil(gen.rand_digits(rng, w), NONDIGIT + 'EINT-+.'))
  elif p == '072':
    for _ in range(n):
      out.append(spoil(gen.rand_digits(rng, w), NONDIGIT + 'EINT-+. '))
  elif p == '039':
    for _ in range(n):
      out.append(rng.choice('EWT') + spoil(gen.rand_digits(rng, w - 1), NONDIGIT))
  elif p == '269':
    for _ in range(n):
      out.append(spoil(gen.rand_digits(rng, w), NONDIGIT))
  return [x for x in dict.fromkeys(out) if len(x) == w]


def bad_value(f, v, section):
  try:
    model.decode_field(f, v, section)
    return False
  except model.Bad:
    return True


def refused(c, kind, rng, i, v):
  """one forbidden value in an otherwise allowed record: decode and parse must raise ValueError"""
  f = kind.layout[i]
  for _ in range(20):
    chars = gen.fill(kind, rng, {i: v})
    line = ''.join(chars)
    if f.value(line) != v or line.strip() != line:
      continue
    acc = model.classify(line)
    if not isinstance(acc, model.Accept):
      return
    others = [g for g in acc.layout if g is not f and not bad_value(g, g.value(line), kind.section)]
    if len(others) == len(acc.layout) - 1:
      break
  else:
    c.n['not built'] += 1
    return
  got = sweep.rows_of(line)
  if isinstance(got, sut.Raised) and got.refusal:
    c.ok('refusals seen', (kind.section, kind.layout_name, f.name, v))
    c.n['records tried'] += 1
    return
  c.bad(f'{kind}: field "{f.name}" holds the forbidden value {v!r}, but decoding it gave {str(got)[:60]!r} instead of '
        f'ValueError', line=line, field=f.name, value=v)


UNKNOWN = ('unknown', 'unsupported', 'invalid', 'bad value', 'undefined')


def acceptable(f, v, shown, section):
  """is this an honest rendering of an undefined code?"""
  want = model.decode_field(f, v, section)
  if sut.row('', v, want)[2].strip() == shown.strip():
    return True
  if f.para == '017':
    return False
  if shown.strip() == v.strip():
    return True
  return any(u in shown.lower() for u in UNKNOWN) and f.para not in ('042', '118', '082', '021')


def check(c, kinds, cap):
  for kind in kinds:
    rng = gen.rng_for('C20', c.seed, kind.key())
    fixed = kind.selecting()
    packs = {}
    for i, f in enumerate(kind.layout):
      if set(f.columns()) & fixed:
        continue
      if f.para in model.CODED:
        vals = undefined(f, kind.section, rng, cap)
        hard = [v for v in vals if bad_value(f, v, kind.section)]
        soft = [v for v in vals if not bad_value(f, v, kind.section)]
        if soft:
          rng.shuffle(soft)
          packs[i] = soft
        if QUICK:
          hard = rng.sample(hard, min(len(hard), 150))
        for v in hard:
          refused(c, kind, rng, i, v)
      else:
        for v in strict_values(f, rng):
          if bad_value(f, v, kind.section):
            refused(c, kind, rng, i, v)
    if not packs:
      continue
    m = max(len(v) for v in packs.values())
    for k in range(m):
      given = {i: v[(k + 5 * i) % len(v)] for i, v in packs.items()}
      try:
        line = gen.valid_line(kind, rng, given)
      except AssertionError:
        c.n['not built'] += 1
        continue
      exp = model.decode(model.classify(line))
      got = sweep.rows_of(line)
      if not isinstance(got, str) or not got.startswith('+'):
        c.bad(f'{kind}: undefined codes in fields that are not strict were not shown: {got}', line=line)
        continue
      if got == sut.expected_table(exp):
        for i, v in given.items():
          c.ok('unknowns seen', (kind.section, kind.layout_name, kind.layout[i].name, v))
      else:
        rows = sweep.table_of(got)
        if rows is None:
          c.bad(f'{kind}: the result is not a table', line=line, got=got)
          continue
        named = {}
        for r in rows:
          named.setdefault(r[0], r)
        for i, v in given.items():
          f = kind.layout[i]
          r = rows[i] if i < len(rows) and rows[i][0] == f.name.rstrip() else named.get(f.name.rstrip())
          if r is None:
            c.bad(f'{kind}: no row for field "{f.name}"', line=line)
            break
          if not acceptable(f, v, r[2], kind.section):
            c.bad(f'{kind}: field "{f.name}" holds the undefined value {v!r}, shown as {r[2]!r}', line=line, field=f.name)
            continue
          c.ok('unknowns seen', (kind.section, kind.layout_name, f.name, v))
      c.n['records tried'] += 1
      if k == 0:
        c.sample(kind=str(kind), line=line, values={kind.layout[i].name: v for i, v in list(given.items())[:5]})


SIMILAR = {'S': '\u017f', 'K': '\u212a', 'I': '\u0131', 's': '\u017f', 'A': '\u0410', 'B': '\u0412', 'C': '\u0421', 'E': '\u0395', 'H': '\u041d',
           'M': '\u039c', 'N': '\u039d', 'O': '\u041e', 'P': '\u0420', 'T': '\u03a4', 'X': '\u0425', 'V': '\u2164', 'D': '\u216e', 'L': '\u216c'}


BLANKS = ['\t', '\x00', '\x1f', '\x7f', '\xa0', '\u3000', '\u200b', '\x01']


def foreign(c, kinds, per):
  """letters of other alphabets and widths that only look like, or fold to, a defined code"""
  for kind in kinds:
    rng = gen.rng_for('C20f', c.seed, kind.key())
    fixed = kind.selecting()
    for i, f in enumerate(kind.layout):
      if f.para not in model.CODED or set(f.columns()) & fixed:
        continue
      pool = gen.codes(f, kind.section)
      odd = [x for t in mine.FRESH[:60] if not (t.isascii() and t.isprintable()) and '\n' not in t for x in mine.forms(t, f.width)]
      for code in rng.sample(pool, min(len(pool), per)) + rng.sample(odd, min(len(odd), per)):
        j = rng.choice([j for j, ch in enumerate(code) if ch.isalpha()] or range(len(code)))
        for ch in {code[j]} if code in odd else {*rng.sample(BLANKS, 3), SIMILAR.get(code[j]), chr(ord(code[j]) + 0xFEE0), code[j].lower() + '', chr(0x24B6 + ord(code[j].upper()) - 65) if code[j].isalpha() and code[j].isascii() else None} - {None}:
          v = code[:j] + ch + code[j + 1:]
          if v in gen.codes(f, kind.section):
            continue
          if bad_value(f, v, kind.section):
            refused(c, kind, rng, i, v)
            continue
          try:
            line = gen.valid_line(kind, rng, {i: v})
          except AssertionError:
            c.n['not built'] += 1
            continue
          got = sweep.rows_of(line)
          if f.para == '017':             # several lines in one cell
            ls = got.split('\n')
            a = [k for k, x in enumerate(ls) if x.startswith('| ' + f.name.rstrip() + ' ') and f"'{v}'" in x]
            cell = []
            if a:
              cell = [ls[a[0]].split(f"'{v}'", 1)[1].strip(' |')]
              for x in ls[a[0] + 1:]:
                if not x.startswith('|  '):
                  break
                cell.append(x.strip(' |'))
            if cell != [x.strip() for x in str(model.decode_field(f, v, kind.section)).rstrip('\n').split('\n')]:
              c.bad(f'{kind}: field "{f.name}" holds the partly undefined value {v!r}, shown differently', line=line, got=str(got)[:3000])
              continue
            c.ok('foreign letters', (kind.section, f.name, v))
            continue
          row = [x for x in got.split('\n') if x.startswith('| ' + f.name.rstrip() + ' ') and f"'{v}'" in x] if isinstance(got, str) else []
          if not row:
            c.bad(f'{kind}: field "{f.name}" with the undefined value {v!r} is not shown: {str(got)[:80]}', line=line)
            continue
          shown = row[0][row[0].index(f"'{v}'") + len(v) + 2:].strip(' |')
          if not acceptable(f, v, shown, kind.section):
            c.bad(f'{kind}: field "{f.name}" holds the undefined value {v!r}, shown as {shown!r}', line=line, field=f.name)
            continue
          c.ok('foreign letters', (kind.section, f.name, v))


def mined(c, kinds, limit, light):
  """undefined codes together with other unusual contents"""
  def one(kind, line):
    acc = model.classify(line)
    if not line.isascii() or not line.isprintable() or any(sweep.odd_number(f, f.value(line)) for f in acc.layout):
      return
    got = sweep.rows_of(line)
    if not gen.sane(line):
      if not (isinstance(got, sut.Raised) and got.refusal):
        c.bad(f'{kind}: a field holds a forbidden value, but decoding gave {str(got)[:60]!r} instead of ValueError', line=line)
        return
      c.ok('refusals seen', (kind.section, kind.layout_name, line))
      return
    rows = sweep.table_of(got) if isinstance(got, str) and got.startswith('+') else None
    if rows is None or len(rows) != len(acc.layout):
      c.bad(f'{kind}: a record with unusual texts was not shown: {str(got)[:80]}', line=line)
      return
    for f, r in zip(acc.layout, rows):
      v = f.value(line)
      if f.para not in model.CODED or v in gen.cached_codes(f, acc.section) and not (not v.strip() and no_meaning(f, v, acc.section)):
        continue
      if r[0] == f.name.rstrip() and not acceptable(f, v, r[2], acc.section):
        c.bad(f'{kind}: field "{f.name}" holds the undefined value {v!r}, shown as {r[2]!r}', line=line, field=f.name)
        continue
      c.ok('unknowns seen', (kind.section, kind.layout_name, f.name, v))
  sweep.mined(c, kinds, limit, light, one)


def run():
  kinds = sweep.usable_kinds(conts_primary='0', default_sel='X')
  tasks = [(f'undefined-{i}', check, (ks, 600 if QUICK else 2500)) for i, ks in enumerate(sweep.chunks(kinds, 40)) if ks]
  tasks += [(f'foreign-{i}', foreign, (ks, 4 if QUICK else 40)) for i, ks in enumerate(sweep.chunks(kinds, 24)) if ks]
  tasks += sweep.mined_tasks(mined, sweep.usable_kinds())
  harness.run(
    'C20', tasks,
    rule='every enumerated field of every record kind is given values outside its table (every printable character for '
         'one-character codes; lower case, padded, shifted, one-off look-alikes, codes of other fields and of other record '
         'types, random text for longer ones, letters of other alphabets and widths; thorough: every two-character text) and every validated field is given '
         'forbidden characters; strict fields must be refused with ValueError, the others shown as unknown/verbatim; '
         'distinct = different (section, layout, field, value)',
    floors={'foreign letters': 1500, 'unknowns seen': 50000, 'refusals seen': 3000},
    assumptions=['numbers spelled with exponent, sign, underscore or inner blanks in course/distance fields are not judged'])


run()
