"""A fuzzing dictionary mined from the code under test.

The constants of the library's source (texts, characters, numbers) are collected from its syntax trees.  Constants that
occur more often than in the committed baseline (lib/dictionary.json) are 'fresh': the code has begun to look at them, so
the workloads put them everywhere.  The rest is used now and then.  The dictionary only chooses inputs; what is right is
decided by the monitors."""
import ast
import json
import os
import re
from collections import Counter

import gen
import model
import sut

BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'dictionary.json')
MAXTOK = 48


def constants():
  """Counter of repr(constant) over the source under test"""
  n = Counter()
  for d, ds, fs in os.walk(sut.SRC_DIR):
    ds[:] = [x for x in ds if x != '__pycache__']
    for f in fs:
      if not f.endswith('.py'):
        continue
      try:
        t = ast.parse(open(os.path.join(d, f), encoding='utf-8').read())
      except (SyntaxError, OSError, ValueError):
        continue
      for x in ast.walk(t):
        if isinstance(x, ast.Constant) and isinstance(x.value, (str, bytes, int, float)) and not isinstance(x.value, bool):
          v = x.value
          if isinstance(v, bytes):
            v = v.decode('latin-1')
          if isinstance(v, str) and not 0 < len(v) <= 132:
            continue
          n[repr(v)] += 1
  return n


def pieces(v):
  """texts that a constant suggests"""
  if isinstance(v, float):
    return [str(v), str(int(v))] if abs(v) < 1e9 else []
  if isinstance(v, int):
    if not 0 <= v < 10 ** 9:
      return []
    out = [str(v), str(v + 1)] + ([str(v - 1)] if v else [])
    if 32 < v < 0x3000:
      out.append(chr(v))
    return out
  out = [v]
  if len(v) <= 12:
    out += list(v)
  if '\\' in v or not v.isalnum():
    out += [x for x in re.split(r'[^A-Za-z0-9]+', v) if 0 < len(x) <= 20]
  if len(v) > 12:
    out += [v[:k] for k in (2, 3, 4, 5)]
  return out


def _load():
  now = constants()
  base = Counter(json.load(open(BASE))) if os.path.exists(BASE) else Counter()
  fresh, known = Counter(), set()
  for r, k in now.items():
    v = ast.literal_eval(r)
    extra = k - base.get(r, 0)
    for p in pieces(v):
      known.add(p)
      if extra > 0:
        fresh[p] += 1
  ok = lambda s: s and not any(ch in '\n\r' for ch in s) and s.strip()   # noqa: E731
  numbers = sorted({ast.literal_eval(r) for r, k in now.items() if k > base.get(r, 0) and isinstance(ast.literal_eval(r), int)})
  return ([s for s, _ in fresh.most_common() if ok(s)], sorted(s for s in known if ok(s) and len(s) <= 40), numbers)


FRESH, KNOWN, NUMBERS = _load()


def tokens(rng):
  """the fresh texts, at most MAXTOK of them"""
  if len(FRESH) <= MAXTOK:
    return list(FRESH)
  short = sorted(FRESH, key=len)[:MAXTOK // 2]
  rest = [x for x in FRESH if x not in set(short)]
  return short + rng.sample(rest, MAXTOK - len(short))


def forms(tok, w):
  """the ways a text can stand in a field of width w"""
  n = len(tok)
  if n > w:
    return [tok[:w]] if n <= w + 2 else []
  out = [tok.ljust(w), tok.rjust(w), (tok * w)[:w], ('A' * w + tok)[-w:], (tok + 'A' * w)[:w]]
  if tok.isdigit():
    out += [tok.rjust(w, '0'), tok.ljust(w, '0')]
  return list(dict.fromkeys(out))


def places(kind, toks, keep):
  """(columns, text) pairs: every token in every field and at every column; keep: not in the recognising columns"""
  all_sel = kind.selecting() if keep else set()
  out = set()
  for t in toks:
    sel = all_sel - set(range(123, 132)) if t.isascii() and t.isdigit() else all_sel
    for f in kind.layout:
      cols = f.columns()
      if set(cols) & sel:
        continue
      for v in forms(t, len(cols)):
        if cols[0] >= 123 and sel is not all_sel and not v.isdigit():
          continue
        out.add((cols[0], v) if cols == list(range(cols[0], cols[-1] + 1)) else (cols[0], v))
    for p in range(0, model.LEN - len(t) + 1):
      if not set(range(p, p + len(t))) & sel:
        out.add((p, t))
  return sorted(out)


def packed(kind, rng, spots, most):
  """lines that hold many of the spots at once, side by side; first in uninterpreted columns only, then in any"""
  plain = set(range(model.LEN)) - {p for f in kind.layout if f.para in model.DECODERS for p in f.columns()}
  out = []
  for only in (plain, set(range(model.LEN))):
    todo = [(p, t) for p, t in spots if set(range(p, p + len(t))) <= only]
    rng.shuffle(todo)
    open_lines = []
    for p, t in todo:
      cols = set(range(p, p + len(t)))
      for x in open_lines[-12:]:
        if not x[0] & cols:
          x[0] |= cols
          x[1].append((p, t))
          break
      else:
        if len(open_lines) >= most:
          break
        open_lines.append([set(cols), [(p, t)]])
    for _, pts in open_lines:
      line = gen.valid_line(kind, rng)
      for p, t in pts:
        line = overlay(line, p, t)
      out.append(line)
  return out


def overlay(line, p, t):
  return (line[:p] + t + line[p + len(t):])[:model.LEN]


def lines(kind, rng, limit, light, keep=True):
  """lines of a kind with mined texts in them: up to limit with fresh ones, light with any"""
  out = []
  toks = tokens(rng)
  if toks:
    spots = places(kind, toks, keep)
    many = len(spots) > limit * 3 // 4
    pick = rng.sample(spots, limit * 3 // 4) if many else spots
    base = gen.valid_line(kind, rng)
    for j, (p, t) in enumerate(pick):
      if j % 8 == 0:
        base = gen.valid_line(kind, rng, gaps=rng.choice([' ', gen.ALNUM]))
      out.append(overlay(base, p, t))
    for _ in range(limit // 8):     # two at once
      x = gen.valid_line(kind, rng)
      for _ in range(rng.choice([2, 2, 3])):
        x = overlay(x, *rng.choice(spots)) if spots else x
      out.append(x)
    for n in NUMBERS:               # a number may be a column
      if 0 <= n <= model.LEN:
        for p in range(max(0, n - 2), min(model.LEN, n + 2)):
          if keep and p in kind.selecting():
            continue
          x = gen.valid_line(kind, rng)
          for ch in rng.sample(gen.PRINT, 2):
            out.append(overlay(x, p, ch))
    if len(out) > limit * 5 // 4:
      out = rng.sample(out, limit * 5 // 4)
    out += packed(kind, rng, spots, limit)
  for _ in range(light):
    x = gen.valid_line(kind, rng)
    for _ in range(rng.choice([1, 1, 2])):
      t = rng.choice(KNOWN)
      f = rng.choice(kind.layout)
      vs = forms(t, f.width)
      if vs and not (keep and set(f.columns()) & kind.selecting()):
        x = overlay(x, f.columns()[0], rng.choice(vs))
    out.append(x)
  return [x for x in dict.fromkeys(out) if len(x) == model.LEN and x.strip() == x]


def one(rng, fresh=.8):
  """a single text of the dictionary"""
  return rng.choice(FRESH) if FRESH and rng.random() < fresh else rng.choice(KNOWN)


if __name__ == '__main__':
  with open(BASE, 'w') as _f:
    json.dump(dict(sorted(constants().items())), _f, indent=0, ensure_ascii=True)


def encodable_only():
  """for checks that write the texts into files"""
  for l in (FRESH, KNOWN):
    l[:] = [t for t in l if not any('\ud800' <= ch <= '\udfff' for ch in t)]
