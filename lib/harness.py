"""Runs a check's tasks in parallel, collects observations, writes evidence."""
import hashlib
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(EVID, 'replays')
FINDINGS = os.path.join(VERIF, 'known-findings.txt')
MAXV = 5


class Stop(Exception):
  """enough violations seen in this task"""


class Ctx:
  """what one task observed"""

  def __init__(self, prop, tier, seed, label):
    self.prop, self.tier, self.seed, self.label = prop, tier, seed, label
    self.n = Counter()
    self.distinct = set()
    self.samples = []
    self.violations = []
    self.findings = Counter()

  def ok(self, key, nontrivial=None, k=1):
    """one evaluation of the oracle; nontrivial: hashable identity of the case"""
    self.n['evaluations'] += k
    self.n[key] += k
    if nontrivial is not None:
      self.distinct.add(hash8(nontrivial))

  def sample(self, **kw):
    if len(self.samples) < 3:
      self.samples.append(kw)

  def known(self, fid):
    self.findings[fid] += 1

  def bad(self, what, **data):
    self.violations.append({'what': what, 'task': self.label, **data})
    if len(self.violations) >= MAXV:
      raise Stop


def hash8(x):
  return hashlib.blake2b(repr(x).encode('utf-8', 'surrogatepass'), digest_size=8).digest()


def _child(conn, prop, tier, seed, label, fn, args):
  c = Ctx(prop, tier, seed, label)
  err = None
  try:
    fn(c, *args)
  except Stop:
    pass
  except BaseException:
    err = traceback.format_exc()
  conn.send((c.n, c.distinct, c.samples, c.violations, c.findings, err))
  conn.close()
  sys.stdout.flush()
  os._exit(0)


def known_findings(prop):
  """{id: text} of the findings recorded for this property"""
  out = {}
  if os.path.exists(FINDINGS):
    for ln in open(FINDINGS):
      m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', ln.strip())
      if m and m[1] == prop:
        out[m[2]] = m[3]
  return out


def run(prop, tasks, rule, floors, assumptions=(), level='exploration', limit_s=None,
        death=False):
  """tasks: [(label, fn, args)]; floors: {counter: minimum} below which the run is inconclusive;
  death: a worker that dies is a violation"""
  tier = os.environ.get('VERIF_TIER', 'quick')
  seed = int(os.environ.get('VERIF_SEED', '1'))
  limit_s = limit_s or (600 if tier == 'quick' else 7200)
  jobs = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
  t0 = time.time()
  ctx = mp.get_context('fork')
  todo = list(tasks)[::-1]
  live = {}
  n, distinct, samples, viol, findings, errors = Counter(), set(), [], [], Counter(), []
  while todo or live:
    while todo and len(live) < jobs and len(viol) < MAXV:
      label, fn, args = todo.pop()
      a, b = ctx.Pipe(False)
      sys.stdout.flush()
      p = ctx.Process(target=_child, args=(b, prop, tier, seed, label, fn, args))
      p.start()
      b.close()
      live[a] = (p, label)
    if len(viol) >= MAXV:
      todo = []
    ready = mp.connection.wait(list(live), timeout=max(0.0, t0 + limit_s - time.time()))
    if not ready and time.time() >= t0 + limit_s:
      for p, label in live.values():
        errors.append(f'task {label}: still running after {limit_s} s')
        p.kill()
      break
    for a in ready:
      p, label = live.pop(a)
      try:
        r = a.recv()
      except EOFError:
        p.join()
        if death:
          viol.append({'what': f'the process running task {label} was ended (exit code {p.exitcode})', 'task': label})
        else:
          errors.append(f'task {label}: worker ended without a result (exit code {p.exitcode})')
        continue
      p.join()
      for key, val in r[0].items():
        n[key] = max(n[key], val) if key.startswith('max ') else n[key] + val
      distinct |= r[1]
      samples += r[2]
      viol += r[3]
      findings.update(r[4])
      if r[5]:
        errors.append(f'task {label}: {r[5]}')
  wall = time.time() - t0
  listed = known_findings(prop)
  unlisted = [f for f in findings if f not in listed]
  for f in unlisted:
    viol.append({'what': f'finding {f} observed but not listed in known-findings.txt'})
  os.makedirs(REPLAYS, exist_ok=True)
  paths = []
  for v in viol[:MAXV]:
    name = f'{prop}-{hash8(sorted(map(str, v.items()))).hex()}.json'
    path = os.path.join(REPLAYS, name)
    with open(path, 'w') as f:
      json.dump({'property': prop, 'tier': tier, 'seed': seed, **v}, f, indent=1, default=repr)
    paths.append(path)
  low = [f'{k}: {n.get(k, 0)} < {m}' for k, m in floors.items() if n.get(k, 0) < m]
  import random
  random.Random(seed).shuffle(samples)
  ev = {
    'property': prop, 'tier': tier, 'seed': seed, 'level': level,
    'coverage': {
      'evaluations': n.get('evaluations', 0),
      'distinct_nontrivial': len(distinct),
      'rule': rule,
      'samples': samples[:8],
      'counters': {k: v for k, v in sorted(n.items())},
      'known_findings_observed': dict(findings),
      'tasks': len(tasks),
    },
    'wall_s': round(wall, 2),
    'assumptions': list(assumptions),
    'violations': len(viol),
    'violation_details': [{'what': v['what'], 'replay': q} for v, q in zip(viol, paths)],
  }
  os.makedirs(EVID, exist_ok=True)
  with open(os.path.join(EVID, prop + '.json'), 'w') as f:
    json.dump(ev, f, indent=1, default=repr)
  for f in sorted(findings):
    if f in listed:
      print(f'KNOWN-FINDING: property={prop} {f}: {listed[f]} (seen {findings[f]} times)')
  print(f'{prop} {tier} seed={seed}: {n.get("evaluations", 0)} evaluations, '
        f'{len(distinct)} distinct cases, {len(viol)} violations, {wall:.1f} s')
  if viol:
    for v, q in zip(viol, paths):
      print(f'  {v["what"]}'[:400])
      print(f'VIOLATION property={prop} replay={q}')
    sys.exit(1)
  if errors or low:
    for e in errors:
      print('inconclusive:', e)
    for e in low:
      print('inconclusive: too few observations:', e)
    sys.exit(2)
  sys.exit(0)
