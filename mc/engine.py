"""Bounded exhaustive exploration engine.

A check module (mc/checks/cXX.py) defines

  ID       property id
  LEVEL    level of the evidence
  RULE     how cases are made
  BOUNDS   dict tier -> text
  cases(tier)      generator of JSON-able dicts, the complete bounded space, simplest first
  run(case, r)     executes the real code on one case and compares it with the oracle

Every case is executed (never sampled). `r` collects what was observed:
  r.state(x)       a canonical state of the explored space (hashed, distinct ones are counted)
  r.step(k=1)      transitions: operations of the real code whose result was compared with the oracle
  r.fail(msg)      a violation
  r.outcome(x)     an observed outcome (distinct ones are counted: a vacuity guard)
An exception leaving run() is a violation too (the code under test raised where the property forbids it).
"""
import os
import sys
import json
import time
import signal
import hashlib
import importlib
import traceback
import resource
import re
import io
import contextlib
import warnings
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool
import multiprocessing

from mc.env import VERIF

CASE_LIMIT = float(os.environ.get('MC_CASE_LIMIT', '120'))      # seconds for one case (a hang is a violation)
STOP = int(os.environ.get('MC_STOP', '20'))        # counterexamples after which the exploration stops
WORKERS = int(os.environ.get('MC_WORKERS', str(min(8, os.cpu_count() or 1))))


def h(x):
	if not isinstance(x, (bytes, str)):
		x = repr(x)
	if isinstance(x, str):
		x = x.encode()
	return hashlib.blake2b(x, digest_size=8).digest()


class CaseTimeout(BaseException):
	pass


class R(object):
	def __init__(self):
		self.states = set()
		self.outcomes = set()
		self.steps = 0
		self.fails = []
		self.notes = {}

	def state(self, x):
		"""returns True if x is new in this case"""
		k = h(x)
		if k in self.states:
			return False
		self.states.add(k)
		return True

	def outcome(self, x):
		self.outcomes.add(h(x))

	def step(self, k=1):
		self.steps += k

	def count(self, name, k=1):
		self.notes[name] = self.notes.get(name, 0) + k

	def fail(self, msg, site=None):
		if len(self.fails) < 5:
			self.fails.append((site or '', str(msg)[:4000]))


_deadline = [0., 0, 0.]


def _alarm(*_):
	# on a loaded machine, wait until the case has used its time on the processor (or 4 times its limit)
	cpu = sum(os.times()[:4]) - _deadline[0]
	_deadline[1] += 1
	if cpu < 0.7 * _deadline[2] and _deadline[1] < 4:
		signal.setitimer(signal.ITIMER_REAL, _deadline[2])
		return
	raise CaseTimeout()


_mod = None


def _init(modname):
	global _mod
	warnings.simplefilter('ignore')
	if os.environ.get('MC_COVER'):
		_cover(os.environ['MC_COVER'])
	_mod = importlib.import_module(modname)
	signal.signal(signal.SIGALRM, _alarm)
	try:
		resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
	except (ValueError, OSError):
		pass


def _cover(path):
	"""development aid: record the lines of fixif that are executed"""
	mon = sys.monitoring
	f = open(path, 'a', buffering=1)

	def line(code, no):
		if '/fixif/' in code.co_filename:
			f.write('%s:%d\n' % (code.co_filename.split('/fixif/', 1)[1], no))
		return mon.DISABLE
	mon.use_tool_id(3, 'mc')
	mon.register_callback(3, mon.events.LINE, line)
	mon.set_events(3, mon.events.LINE)


def _run_one(case):
	r = R()
	limit = getattr(_mod, 'CASE_LIMIT', CASE_LIMIT)
	buf = io.StringIO()
	try:
		_deadline[:] = [sum(os.times()[:4]), 0, limit]
		signal.setitimer(signal.ITIMER_REAL, limit)
		try:
			with contextlib.redirect_stdout(buf):
				_mod.run(case, r)
		finally:
			signal.setitimer(signal.ITIMER_REAL, 0)
	except CaseTimeout:
		r.fail('no answer within %g s' % limit)
	except MemoryError:
		r.fail('memory exhausted')
	except Exception as e:
		tb = traceback.extract_tb(e.__traceback__)
		where = [f for f in tb if '/fixif/' in f.filename]
		loc = '%s:%s' % (where[-1].filename.split('/fixif/', 1)[1], where[-1].name) if where else '%s:%d' % (tb[-1].filename, tb[-1].lineno)
		r.fail('unexpected %s in %s: %s' % (type(e).__name__, loc, str(e)[:300]), site='exception')
	return r


def _run_chunk(chunk):
	res = []
	for idx, case in chunk:
		res.append((idx, _run_one(case)))
	# merge to keep the pipe small
	m = R()
	fails = []
	for idx, r in res:
		m.states |= r.states
		m.outcomes |= r.outcomes
		m.steps += r.steps
		for k, v in r.notes.items():
			m.notes[k] = m.notes.get(k, 0) + v
		if r.fails:
			fails.append((idx, r.fails))
	return len(res), m.states, m.outcomes, m.steps, m.notes, fails


def load_known(pid):
	"""findings of this property: list of dicts with keys id, case (subset to match), fails (regex), what"""
	out = []
	path = os.path.join(VERIF, 'known_findings.txt')
	if os.path.exists(path):
		for line in open(path):
			m = re.match(r'finding: property=(\S+) (\{.*\})\s*$', line)
			if m and m.group(1) == pid:
				out.append(json.loads(m.group(2)))
	return out


def matches(known, case, msg):
	for k in known:
		if all(case.get(a) == b for a, b in k['case'].items()) and re.search(k['fails'], msg, re.S):
			return k
	return None


def _chunks(it, size):
	cur = []
	for x in enumerate(it):
		cur.append(x)
		if len(cur) >= size:
			yield cur
			cur = []
	if cur:
		yield cur


def main(modname, tier, seed, replay=None):
	t0 = time.time()
	mod = importlib.import_module(modname)
	pid = mod.ID
	known = load_known(pid)
	if replay:
		case = json.load(open(replay))['case']
		_init(modname)
		r = _run_one(case)
		for s, m in r.fails:
			print('FAIL', m)
		print('replayed: %d failure(s)' % len(r.fails))
		return 1 if r.fails else 0

	budget = float(os.environ.get('MC_BUDGET', '780' if tier == 'quick' else '100000'))
	if hasattr(mod, 'prepare'):
		mod.prepare(tier)
	allcases = list(mod.cases(tier))
	ncases = len(allcases)
	size = getattr(mod, 'CHUNK', None) or max(1, min(200, ncases // (WORKERS * 16) or 1))
	chunks = list(_chunks(allcases, size))
	states, outcomes, steps, notes, fails, done = set(), set(), 0, {}, [], 0
	exhaustive = True
	ctx = multiprocessing.get_context('fork')
	pending = chunks
	died = []

	def absorb(x):
		nonlocal steps, done
		n, s, o, st, no, f = x
		done += n
		states.update(s)
		outcomes.update(o)
		steps += st
		for k, v in no.items():
			notes[k] = notes.get(k, 0) + v
		fails.extend(f)

	try:
		with ProcessPoolExecutor(WORKERS, mp_context=ctx, initializer=_init, initargs=(modname,)) as ex:
			futs = [(c, ex.submit(_run_chunk, c)) for c in pending]
			todo = []
			for c, f in futs:
				try:
					left = budget - (time.time() - t0)
					absorb(f.result(timeout=max(1, left)))
				except BrokenProcessPool:
					todo.append(c)
				except TimeoutError:
					exhaustive = False
					for _, g in futs:
						g.cancel()
					for p in list(getattr(ex, '_processes', {}).values()):
						p.kill()
					break
				unlisted = [1 for i, fl in fails for s, m in fl if not matches(known, allcases[i], m)]
				if len(unlisted) > STOP and not os.environ.get('MC_VERBOSE'):
					# enough counterexamples: stop exploring
					exhaustive = False
					for _, g in futs:
						g.cancel()
					break
	except BrokenProcessPool:
		todo = todo if 'todo' in dir() else []
	# a worker process died (crash inside native code, or the kernel ended it): find the case, one process per chunk
	for c in todo:
		if len(fails) > 20:
			break
		for item in c:
			try:
				with ProcessPoolExecutor(1, mp_context=ctx, initializer=_init, initargs=(modname,)) as ex:
					absorb(ex.submit(_run_chunk, [item]).result(timeout=CASE_LIMIT + 60))
			except BrokenProcessPool:
				fails.append((item[0], [('crash', 'the process running this case died')]))
				done += 1
				break

	fails.sort()
	# sort out listed findings and violations
	violations = []
	shown = set()
	for i, fl in fails:
		for s, m in fl:
			k = matches(known, allcases[i], m)
			if k is not None:
				if k['id'] not in shown:
					shown.add(k['id'])
					print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
			else:
				violations.append((i, m))
	if hasattr(mod, 'coverage_ok') and not violations and exhaustive:
		bad = mod.coverage_ok(dict(states=len(states), outcomes=len(outcomes), steps=steps, notes=notes, cases=done))
		if bad:
			print('NOTE: %s' % bad)

	samples = []
	if allcases:
		for j in sorted(set([0, ncases // 2, ncases - 1])):
			samples.append(json.dumps(allcases[j], default=str)[:600])
	wall = time.time() - t0
	level = mod.LEVEL
	cov = dict(samples=samples, exhaustive=bool(exhaustive and done == ncases), rule=mod.RULE,
	           bounds=mod.BOUNDS.get(tier, ""), cases_in_space=ncases,
	           distinct_outcomes=len(outcomes), counters=notes, known_findings_seen=sorted(shown))
	if level == 'model_checking':
		cov.update(states=len(states), transitions=steps, traces_validated_against_impl=done)
	else:
		cov.update(evaluations=steps, distinct_nontrivial=len(states))
	ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(wall, 2),
	          assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), violations=len(violations))
	os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
	with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
		json.dump(ev, f, indent=1, default=str)
		f.write('\n')

	print('%s %s: %d/%d cases, %d states, %d steps, %d outcomes, %s in %.1f s' % (
		pid, tier, done, ncases, len(states), steps, len(outcomes), notes, wall))
	if os.environ.get('MC_VERBOSE'):
		for i, m in violations:
			print('  * %s -> %s' % (json.dumps(allcases[i], default=str)[:300], m[:400]))
	if violations:
		rdir = os.path.join(VERIF, 'replays')
		os.makedirs(rdir, exist_ok=True)
		for n, (i, m) in enumerate(violations[:5]):
			path = os.path.join(rdir, '%s-%d.json' % (pid, n))
			with open(path, 'w') as f:
				json.dump(dict(property=pid, case=allcases[i], message=m,
				               how='/verif/check.sh %s --replay %s' % (pid, path)), f, indent=1, default=str)
			print('  case %s\n  -> %s' % (json.dumps(allcases[i], default=str)[:800], m[:1500]))
			print('VIOLATION property=%s replay=%s' % (pid, path))
		return 1
	return 0
