"""
Runs seeded cases of one property in forked batches, minimises and replays violations, writes evidence.

A *case* is a JSON value; running it is a pure function of that value and the code under test. Cases run in batches:
each batch is a fresh forked process that runs BATCH consecutive cases, so that results do not depend on the number of
workers, and state the code under test leaks from one case to the next is part of a reproducible history.
"""
import hashlib
import io
import json
import os
import resource
import signal
import sys
import time
import traceback
import contextlib
from collections import Counter

from sim import env
from sim.prng import Prng, mix

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)
MAX_DIGITS = 640            # an interpreter may limit them to 640; by default it is 4300
CASE_WALL = float(os.environ.get('VERIF_CASE_WALL', '40'))     # suspicion of a hang, confirmed by a step budget
STEP_BUDGET = 40 * 1000 * 1000                                 # executed lines of the code under test


class Violation(Exception):
    def __init__(self, kind, detail=''):
        super().__init__('{}: {}'.format(kind, detail))
        self.kind = kind
        self.detail = detail


class Invalid(Exception):
    """The case makes no sense (can only come out of minimisation)"""


class HangSuspect(BaseException):
    pass


class StepBudget(BaseException):
    pass


class Raised(object):
    """An exception raised by the code under test"""

    def __init__(self, exc):
        self.exc = exc
        self.type = type(exc).__name__

    def __repr__(self):
        tb = self.exc.__traceback__
        where = ''
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(env.REPO):
                where = '{}:{}'.format(os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_frame.f_code.co_name)
            tb = tb.tb_next
        return '{}({}) in {}'.format(self.type, str(self.exc)[:160], where)


class Ctx(object):
    """What one run of a case leaves behind besides its verdict"""

    def __init__(self, verbose=False):
        self.faults = Counter()
        self.probes = Counter()
        self.simtime = 0.0
        self.nontrivial = False
        self._sig = hashlib.blake2b(digest_size=8)
        self._log = hashlib.blake2b(digest_size=8)
        self.events = 0
        self.verbose = verbose
        self.known = []

    def fault(self, kind, n=1):
        if n:
            self.faults[kind] += n

    def probe(self, name, n=1):
        if n:
            self.probes[name] += n

    def sig(self, *x):
        self._sig.update(repr(x).encode())

    def log(self, *x):
        self.events += 1
        self._log.update(repr(x).encode())
        if self.verbose:
            sys.__stderr__.write('   . ' + ' '.join(str(y) for y in x)[:300] + '\n')

    # ---- calls into the code under test
    def call(self, fn, *a, **k):
        """Returns the result or a Raised. Console output of the code goes to a sink."""
        sink = env.Sink()
        self.console = sink
        with contextlib.redirect_stdout(sink):
            # numbers of more digits cannot be written in decimal (the harness may)
            sys.set_int_max_str_digits(MAX_DIGITS)
            try:
                return fn(*a, **k)
            except RecursionError as e:
                return Raised(e)
            except Exception as e:
                if not env.in_repo(e.__traceback__):
                    raise
                return Raised(e)
            finally:
                sys.set_int_max_str_digits(0)

    def must(self, kind, fn, *a, **k):
        """As call, but an exception is a violation"""
        r = self.call(fn, *a, **k)
        if isinstance(r, Raised):
            raise Violation(kind + '-exception-' + r.type, repr(r))
        return r

    def require(self, cond, kind, detail=''):
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail)


# ------------------------------------------------------------------------------------------------ running one case
def run_case(check, case, verbose=False, step_budget=None):
    """-> dict(verdict, kind, detail, ctx...). verdict: ok | violation | invalid | harness | hang"""
    ctx = Ctx(verbose)
    res = {}
    env.ENTROPY.reset(0)
    env.WORLD.reset()
    monitor = None
    try:
        if step_budget:
            monitor = _count_steps(step_budget)
        try:
            with contextlib.redirect_stdout(env.Sink()):
                check.run(case, ctx)
        finally:
            if monitor:
                monitor()
        res = dict(verdict='ok')
    except Violation as v:
        res = dict(verdict='violation', kind=v.kind, detail=str(v.detail)[:2000])
    except Invalid as e:
        res = dict(verdict='invalid', detail=str(e))
    except StepBudget:
        res = dict(verdict='violation', kind='no-progress',
                   detail='more than {} lines of the code under test executed without finishing'.format(step_budget))
    except env.EntropyExhausted as e:
        res = dict(verdict='violation', kind='no-termination', detail=str(e))
    except HangSuspect:
        res = dict(verdict='hang')
    except (TypeError, ValueError, KeyError, IndexError) as e:
        # the judge could not read a result: on the code the checks were written for, no result is of that shape
        res = dict(verdict='violation', kind='malformed-result-' + type(e).__name__,
                   detail=' | '.join(traceback.format_exc().strip().split('\n')[-7:])[-1500:])
    except Exception as e:
        # raised by the library while the judge looked at a result: the same; anything else is a mistake of the harness
        res = dict(verdict='harness', detail=traceback.format_exc()[-3000:])
        if env.in_repo(e.__traceback__):
            res.update(verdict='violation', kind='malformed-result-' + type(e).__name__)
    res.update(faults=dict(ctx.faults), probes=dict(ctx.probes), simtime=ctx.simtime, nontrivial=ctx.nontrivial,
               sig=ctx._sig.hexdigest(), log=ctx._log.hexdigest() + ':' + str(ctx.events), known=ctx.known)
    return res


def _count_steps(budget, lines=True):
    mon = sys.monitoring
    tool = 3
    mon.use_tool_id(tool, 'verif-steps')
    n = [0]
    prefix = env.REPO + os.sep

    def on_start(code, off):
        if code.co_filename.startswith(prefix):
            mon.set_local_events(tool, code, (mon.events.LINE if lines else 0) | mon.events.JUMP)
        return mon.DISABLE

    def on_line(*_):
        n[0] += 1
        if n[0] > budget:
            raise StepBudget()

    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.register_callback(tool, mon.events.JUMP, on_line)
    mon.set_events(tool, mon.events.PY_START)

    def stop():
        mon.set_events(tool, 0)
        mon.free_tool_id(tool)
    return stop


def _limits():
    lim = 3 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    # as in a fresh interpreter, but for the frames the harness itself needs
    sys.setrecursionlimit(1040)
    sys.set_int_max_str_digits(0)


def _alarm(*_):
    raise HangSuspect()


def run_sequence(check, cases, verbose_last=False, step_budget=None, wall=None):
    """Runs the cases one after the other in this process; the result of the last one."""
    r = None
    for i, c in enumerate(cases):
        if wall:
            signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, wall, 5)
        try:
            r = run_case(check, c, verbose=verbose_last and i == len(cases) - 1, step_budget=step_budget)
        except HangSuspect:
            r = dict(verdict='hang')
        finally:
            if wall:
                signal.setitimer(signal.ITIMER_REAL, 0)
    return r


def in_fork(fn, wall=300):
    """Runs fn() in a forked child and returns its JSON result (None if the child died or took too long)"""
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rfd)
            _limits()
            data = json.dumps(fn()).encode()
            with os.fdopen(wfd, 'wb') as f:
                f.write(data)
            code = 0
        except BaseException:
            traceback.print_exc(file=sys.__stderr__)
        finally:
            os._exit(code)
    os.close(wfd)
    import select
    out = b''
    end = env.REAL_TIME() + wall
    while True:
        left = end - env.REAL_TIME()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            break
        if select.select([rfd], [], [], min(left, 1.0))[0]:
            b = os.read(rfd, 1 << 16)
            if not b:
                break
            out += b
    os.close(rfd)
    os.waitpid(pid, 0)
    try:
        return json.loads(out.decode())
    except ValueError:
        return None


def in_fork_pickled(fn, wall=200):
    r = in_fork(lambda: [fn()], wall)
    return None if r is None else r[0]


# ------------------------------------------------------------------------------------------------ a batch
def make_case(check, seed, index, tier):
    case = check.gen(Prng('case', check.ID, seed, index), index, tier)
    return json.loads(json.dumps(case))


def run_batch(check, seed, tier, lo, hi):
    """Child side: runs cases lo..hi-1, stops at the first that is not ok."""
    agg = dict(runs=0, faults=Counter(), probes=Counter(), simtime=0.0, sigs=[], logs=[], stop=None, sample=None,
               known=[])
    for i in range(lo, hi):
        case = make_case(check, seed, i, tier)
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, CASE_WALL, 5)
        try:
            r = run_case(check, case)
        except HangSuspect:
            r = dict(verdict='hang')
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if r['verdict'] == 'ok':
            agg['runs'] += 1
            agg['faults'].update(r['faults'])
            agg['probes'].update(r['probes'])
            agg['simtime'] += r['simtime']
            agg['logs'].append(r['log'])
            agg['known'] += r['known']
            if r['nontrivial']:
                agg['sigs'].append(r['sig'])
                if agg['sample'] is None:
                    agg['sample'] = dict(index=i, case=case, faults=r['faults'], probes=r['probes'])
        else:
            agg['stop'] = dict(index=i, lo=lo, **{k: r.get(k) for k in ('verdict', 'kind', 'detail')})
            break
    return agg


def run_all(check, seed, tier, n, workers=None, progress=None):
    """Parent side. Returns the aggregate and the stops (violations etc.) ordered by index."""
    import selectors
    workers = workers or WORKERS
    batch = getattr(check, 'BATCH', 25)
    todo = [(lo, min(lo + batch, n)) for lo in range(0, n, batch)]
    agg = dict(runs=0, faults=Counter(), probes=Counter(), simtime=0.0, sigs=set(), samples=[], known=set())
    logs = {}
    stops = []
    sel = selectors.DefaultSelector()
    live = {}
    t0 = env.REAL_TIME()
    todo.reverse()
    while todo or live:
        while todo and len(live) < workers and len(stops) < 3:
            lo, hi = todo.pop()
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(rfd)
                    _limits()
                    a = run_batch(check, seed, tier, lo, hi)
                    with os.fdopen(wfd, 'wb') as f:
                        f.write(json.dumps(a).encode())
                    code = 0
                except BaseException:
                    traceback.print_exc(file=sys.__stderr__)
                finally:
                    os._exit(code)
            os.close(wfd)
            live[rfd] = dict(pid=pid, lo=lo, hi=hi, out=b'', t=env.REAL_TIME())
            sel.register(rfd, selectors.EVENT_READ)
        if not live:
            break
        for key, _ in sel.select(1.0):
            b = os.read(key.fd, 1 << 16)
            l = live[key.fd]
            if b:
                l['out'] += b
                continue
            sel.unregister(key.fd)
            os.close(key.fd)
            _, status = os.waitpid(l['pid'], 0)
            del live[key.fd]
            try:
                a = json.loads(l['out'].decode())
            except ValueError:
                stops.append(dict(index=l['lo'], lo=l['lo'], verdict='harness',
                                  detail='batch process died, status {}'.format(status)))
                continue
            agg['runs'] += a['runs']
            agg['faults'].update(a['faults'])
            agg['probes'].update(a['probes'])
            agg['simtime'] += a['simtime']
            agg['sigs'].update(a['sigs'])
            agg['known'].update(a['known'])
            logs[l['lo']] = a['logs']
            if a['sample'] is not None:
                agg['samples'].append(a['sample'])
            if a['stop']:
                stops.append(a['stop'])
        for fd in list(live):
            if env.REAL_TIME() - live[fd]['t'] > 20 * CASE_WALL + 200:
                os.kill(live[fd]['pid'], signal.SIGKILL)
        if len(stops) >= 3:
            todo = []
    h = hashlib.blake2b(digest_size=16)
    for lo in sorted(logs):
        h.update(repr(logs[lo]).encode())
    agg['log_digest'] = h.hexdigest()
    agg['samples'].sort(key=lambda s: s['index'])
    agg['wall'] = env.REAL_TIME() - t0
    stops.sort(key=lambda s: s['index'])
    return agg, stops


# ------------------------------------------------------------------------------------------------ minimisation
def _json_shrinks(v, path=()):
    """Yields (path, replacement) of simpler values inside v, bigger steps first"""
    if isinstance(v, list):
        n = len(v)
        size = n
        while size >= 1:
            for s in range(0, n, size):
                if n - len(v[s:s + size]) >= 0:
                    yield path, v[:s] + v[s + size:]
            size //= 2
        for i in range(min(n, 400)):
            for p in _json_shrinks(v[i], path + (i,)):
                yield p
    elif isinstance(v, dict):
        for k in sorted(v):
            for p in _json_shrinks(v[k], path + (k,)):
                yield p
    elif isinstance(v, bool):
        if v:
            yield path, False
    elif isinstance(v, int):
        for c in (0, 1, v // 2, v - 1):
            if 0 <= c < v:
                yield path, c
    elif isinstance(v, float):
        for c in (0.0, 1.0, float(int(v))):
            if 0 <= c < v:
                yield path, c


def _replace(v, path, new):
    if not path:
        return new
    if isinstance(v, list):
        return [(_replace(x, path[1:], new) if i == path[0] else x) for i, x in enumerate(v)]
    return {k: (_replace(x, path[1:], new) if k == path[0] else x) for k, x in v.items()}


def minimise(check, cases, kind, runs=400, wall=45, step_budget=None):
    """Shrinks a sequence of cases whose last one fails with kind. Every attempt runs in its own fork."""
    t0 = env.REAL_TIME()
    used = [0]

    def fails(cs):
        if used[0] >= runs or env.REAL_TIME() - t0 > wall:
            return False
        used[0] += 1
        r = in_fork(lambda: run_sequence(check, cs, step_budget=step_budget,
                                         wall=None if step_budget else CASE_WALL), wall=120)
        return bool(r) and r['verdict'] == 'violation' and r.get('kind') == kind

    # history first
    if len(cases) > 1 and fails(cases[-1:]):
        cases = cases[-1:]
    size = max(1, (len(cases) - 1) // 2)
    while len(cases) > 1 and size >= 1:
        i = 0
        changed = False
        while i < len(cases) - 1:
            c = cases[:i] + cases[min(i + size, len(cases) - 1):]
            if fails(c):
                cases, changed = c, True
            else:
                i += size
        size = size // 2 if not changed or size > 1 else 0
    # then the last case
    progress = True
    while progress and used[0] < runs and env.REAL_TIME() - t0 < wall:
        progress = False
        last = cases[-1]
        gens = []
        if hasattr(check, 'shrink'):
            gens.append(check.shrink(last))
        gens.append(_replace(last, p, x) for p, x in _json_shrinks(last))
        for g in gens:
            for cand in g:
                if used[0] >= runs or env.REAL_TIME() - t0 > wall:
                    break
                if cand != last and fails(cases[:-1] + [cand]):
                    cases = cases[:-1] + [cand]
                    progress = True
                    break
            if progress:
                break
    return cases, used[0]
