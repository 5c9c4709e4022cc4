"""Texts with a structure a condition could single out without naming a text."""
import string

UP, DIG = string.ascii_uppercase, string.digits
ALNUM = UP + DIG
VOWELS = 'AEIOU'


def _letters(rng, n, a=UP):
  return ''.join(rng.choice(a) for _ in range(n))


def mirrored(rng, w):
  a = _letters(rng, max(1, w // 2), rng.choice([UP, DIG, ALNUM, 'ABC']))
  return a + (rng.choice(ALNUM + ' ') if w % 2 else '') + a[::-1]


def repeated(rng, w):
  n = rng.choice([1, 2, 3, 4, max(1, w // 2), max(1, w // 3)])
  return (_letters(rng, n, rng.choice([UP, DIG, ALNUM])) + rng.choice(['', '', ' ', '/'])) * (w // n + 1)


def ordered(rng, w):
  t = sorted(_letters(rng, w, rng.choice([UP, DIG, ALNUM])))
  return ''.join(t if rng.random() < .5 else reversed(t))


def run(rng, w):
  a = rng.choice([UP, DIG, UP + DIG, 'ZYXWVUTSRQPONMLKJIHGFEDCBA', '9876543210'])
  k = rng.randrange(len(a))
  return (a * 6)[k:k + w]


def uniform(rng, w):
  t = rng.choice(ALNUM) * w
  if rng.random() < .5:
    k = rng.randrange(w)
    t = t[:k] + rng.choice(ALNUM + ' ') + t[k + 1:]
  return t


def alternating(rng, w):
  a, b = rng.choice([(UP, DIG), (UP, ' '), (DIG, ' '), (UP, '.'), (VOWELS, 'BCDFG'), (UP, UP.lower()), (UP, '/'), (UP, '-')])
  return ''.join(rng.choice(a if i % 2 == 0 else b) for i in range(w))


def padded(rng, w):
  k = rng.randint(1, w)
  c = rng.choice('0000 X.-9')
  t = _letters(rng, k, rng.choice([DIG, UP]))
  return t.rjust(w, c) if rng.random() < .7 else t.ljust(w, c)


def words(rng, w):
  t = [_letters(rng, rng.choice([1, 1, 2, 3, 4, 5]), rng.choice([UP, DIG, UP.lower(), ALNUM])) for _ in range(8)]
  how = rng.choice(['', 'same', 'up', 'down', 'cap'])
  if how == 'same':
    t = [t[0]] * 8
  elif how in ('up', 'down'):
    t.sort(reverse=how == 'down')
  elif how == 'cap':
    t = [x.capitalize() for x in t]
  return rng.choice([' ', ' ', '  ', '   ', '-', '/', ', ', '. ', ' / ', ' - ', '_', '+']).join(t)


def brackets(rng, w):
  a, b = rng.choice(['()', '[]', '{}', '<>', "''", '""', '--', '**', '__', '``', '//', '||', '##', '\\\\'])
  k = rng.randint(0, max(0, w - 2))
  n = rng.choice([1, 1, 2])
  t = a * n + _letters(rng, max(0, k - 2 * n + 2), ALNUM) + b * n
  return rng.choice(['', _letters(rng, rng.randint(0, 3))]) + t


def pattern(rng, w):
  """letters for A, digits for 9, other characters as they are"""
  p = rng.choice(['99:99', '99/99/99', '9999-99-99', '99.99', '9.99', '+99', '-99', '9E9', '99E99', '0x99', '0b11', '0o77', '1_000', '9,999', 'A9', 'AA99', '99A', '9A9A',
                  'A.A.A.', 'A-A', 'AAA/99', 'AA AA', 'A@A.AA', 'AA:A', '(AA)', '99%', '$99', '#99', '99TH', '1ST', '2ND', '3RD', '99FT', '99 FT', '99M', 'FL999', 'RW99A',
                  'N99999999', 'W999999999', '99999Z', 'H99', '.9', '9.', '..', '99-99', '9/9', 'A/9', 'AAAA', 'AAAAA', '*9', '1+1', 'A=9', 'A>9', 'A;A', 'A?A', 'A!A', '!A', 'A^A', 'A~A', '&A;', '%9A'])
  return ''.join(rng.choice(UP) if x == 'A' else rng.choice(DIG) if x == '9' else x for x in p)


def roman(rng, w):
  return _letters(rng, w, 'IVXLCDM')


def hexa(rng, w):
  return _letters(rng, w, '0123456789ABCDEF')


def spread(rng, w):
  """blanks at unusual places"""
  return ''.join(rng.choice(UP) if rng.random() < rng.choice([.2, .5, .8]) else ' ' for _ in range(w))


SHAPES = [mirrored, mirrored, repeated, repeated, ordered, run, uniform, alternating, padded, padded, words, words, words, brackets, brackets, pattern, pattern, pattern, roman, hexa,
          spread, spread]


def text(rng, w):
  """a text of w characters with some structure"""
  n = rng.choice([w, w, w, max(1, w - 1), rng.randint(1, w)])
  t = rng.choice(SHAPES)(rng, n)[:n]
  if len(t) < w:
    t = rng.choice([t.ljust, t.ljust, t.rjust, t.center])(w)
  return t
