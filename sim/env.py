"""
Imports the code under test (/repo) behind the simulator's seams.

Must be imported before anything of /repo: the random module and capstone's Cs are replaced first.
"""
import datetime
import io
import logging  # noqa: F401
import os
import random
import selectors  # noqa: F401
import subprocess  # noqa: F401
import sys
import threading  # noqa: F401
import time

import capstone  # noqa: E402
import capstone.arm_const  # noqa: E402,F401
import constraint  # noqa: E402,F401
import numpy  # noqa: E402,F401

REPO = os.environ.get('VERIF_REPO', '/repo')
# from here on, modules are compiled from their source: no stale byte code of the code under test
sys.pycache_prefix = '/nonexistent'
sys.dont_write_bytecode = True
for p in (REPO,):
    if p not in sys.path:
        sys.path.insert(0, p)
os.environ.setdefault('MPLBACKEND', 'Agg')

REAL_OPEN = io.open


# ---------------------------------------------------------------- entropy seam
class EntropyExhausted(BaseException):
    """The code under test drew more random numbers than any terminating run would"""


class SimRandom(random.Random):
    """
    Stands in for the module-level generator. A stream is a list of [mode, length] phases; afterwards (and by
    default) the numbers come from the Mersenne twister with the seed of the case.
    """
    def __init__(self):
        super().__init__(0)
        self.reset(0)

    def reset(self, seed, phases=(), budget=None):
        self.seed(seed)
        self.phases = [list(p) for p in phases]
        self.draws = 0
        self.forced = 0
        self.budget = budget

    def _next_forced(self, k):
        self.draws += 1
        if self.budget is not None and self.draws > self.budget:
            raise EntropyExhausted('more than {} random draws'.format(self.budget))
        while self.phases and self.phases[0][1] <= 0:
            self.phases.pop(0)
        if not self.phases:
            return None
        ph = self.phases[0]
        ph[1] -= 1
        self.forced += 1
        mode = ph[0]
        if mode == 'zeros':
            return 0
        if mode == 'ones':
            return (1 << k) - 1
        if mode == 'alternate':
            return 0 if ph[1] & 1 else (1 << k) - 1
        # 'const:<n>'
        return int(mode.split(':')[1]) & ((1 << k) - 1)

    def seed(self, a=None, version=2):
        # without a value, Python would ask the operating system
        super().seed(WORLD.entropy() if a is None else a, version)

    def getrandbits(self, k):
        v = self._next_forced(k) if k > 0 else None
        return super().getrandbits(k) if v is None else v

    def random(self):
        v = self._next_forced(53)
        return super().random() if v is None else v / float(1 << 53)


# ---------------------------------------------------------------- clock, process id and entropy of the operating system
REAL_TIME = time.time
_REAL = {n: getattr(time, n) for n in ('localtime', 'gmtime', 'strftime', 'ctime', 'asctime')}
_DATETIME, _DATE = datetime.datetime, datetime.date
EPOCH = 1000000000.


class World(object):
    """
    What the machine tells a program about itself: a clock that stands where the case says, runs as fast as the case says
    (or stands still, or jumps) and entropy.
    """

    def __init__(self):
        self.reset()

    def reset(self, start=0, tick=.001, jumps=(), seed=0):
        self.now_, self.tick, self.jumps, self.up = EPOCH + start, tick, dict((int(a), float(b)) for a, b in jumps), 0.
        self.reads = 0
        self.dice = random.Random('os{}'.format(seed))
        numpy.random.seed(seed % (1 << 32))

    def now(self):
        self.reads += 1
        self.now_ = max(0., self.now_ + self.tick + self.jumps.get(self.reads, 0.))
        return self.now_

    def uptime(self):
        self.reads += 1
        self.up += self.tick
        return self.up

    def sleep(self, seconds):
        self.now_ += seconds
        self.up += seconds

    def entropy(self, n=16):
        return self.dice.getrandbits(8 * n)

    def urandom(self, n):
        return self.dice.randbytes(n)


WORLD = World()


def _real_type(t, real):
    # instances of the real class are instances of ours, too
    return type(t.__name__, (type,), {'__instancecheck__': lambda cls, x: isinstance(x, real),
                                      '__subclasscheck__': lambda cls, x: issubclass(x, real)})


class SimDate(_DATE, metaclass=_real_type(_DATE, _DATE)):
    def __new__(cls, *a, **k):
        return _DATE(*a, **k)

    @classmethod
    def today(cls):
        return _DATE.fromtimestamp(WORLD.now())


class SimDatetime(_DATETIME, metaclass=_real_type(_DATETIME, _DATETIME)):
    def __new__(cls, *a, **k):
        return _DATETIME(*a, **k)

    @classmethod
    def now(cls, tz=None):
        return _DATETIME.fromtimestamp(WORLD.now(), tz)

    @classmethod
    def today(cls):
        return _DATETIME.fromtimestamp(WORLD.now())

    @classmethod
    def utcnow(cls):
        return _DATETIME.fromtimestamp(WORLD.now(), datetime.timezone.utc).replace(tzinfo=None)


time.time = WORLD.now
time.time_ns = lambda: int(WORLD.now() * 1e9)
time.monotonic = time.perf_counter = time.process_time = WORLD.uptime
time.monotonic_ns = time.perf_counter_ns = time.process_time_ns = lambda: int(WORLD.uptime() * 1e9)
time.sleep = WORLD.sleep
time.localtime = lambda s=None: _REAL['localtime'](WORLD.now() if s is None else s)
time.gmtime = lambda s=None: _REAL['gmtime'](WORLD.now() if s is None else s)
time.ctime = lambda s=None: _REAL['ctime'](WORLD.now() if s is None else s)
time.asctime = lambda t=None: _REAL['asctime'](time.localtime() if t is None else t)
time.strftime = lambda f, t=None: _REAL['strftime'](f, time.localtime() if t is None else t)
datetime.datetime, datetime.date = SimDatetime, SimDate
os.urandom = WORLD.urandom
random._urandom = WORLD.urandom

ENTROPY = SimRandom()
for _n in ('seed', 'random', 'uniform', 'triangular', 'randint', 'choice', 'randrange', 'sample', 'shuffle', 'choices',
           'normalvariate', 'expovariate', 'gauss', 'betavariate', 'getrandbits', 'randbytes', 'getstate', 'setstate'):
    if hasattr(ENTROPY, _n) and hasattr(random, _n):
        setattr(random, _n, getattr(ENTROPY, _n))

# ---------------------------------------------------------------- capstone, memoised (same results, much faster)
_RealCs = capstone.Cs
_MEMO = {}


class MemoCs(object):
    """capstone.Cs whose disassembly of one word at one address is computed once"""

    def __init__(self, arch, mode):
        object.__setattr__(self, '_am', (arch, mode))
        object.__setattr__(self, '_detail', False)
        object.__setattr__(self, '_real', None)

    def _materialise(self):
        if self._real is None:
            r = _RealCs(*self._am)
            r.detail = self._detail
            object.__setattr__(self, '_real', r)
        return self._real

    @property
    def detail(self):
        return self._detail

    def __setattr__(self, k, v):
        if k == 'detail' and self._real is None:
            object.__setattr__(self, '_detail', v)
        else:
            setattr(self._materialise(), k, v)

    def __getattr__(self, k):
        return getattr(self._materialise(), k)

    def disasm(self, code, offset, count=0):
        if self._real is not None:
            return self._real.disasm(code, offset, count)
        key = (self._am, self._detail, bytes(code), offset, count)
        r = _MEMO.get(key)
        if r is None:
            if len(_MEMO) > 150000:
                _MEMO.clear()
            cs = _SHARED.get((self._am, self._detail))
            if cs is None:
                cs = _RealCs(*self._am)
                cs.detail = self._detail
                _SHARED[(self._am, self._detail)] = cs
            r = _MEMO[key] = list(cs.disasm(code, offset, count))
        return iter(r)


_SHARED = {}
capstone.Cs = MemoCs


class Sink(io.TextIOBase):
    """Console of the simulated machine"""

    def __init__(self):
        self.parts = []

    def writable(self):
        return True

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def text(self):
        return ''.join(self.parts)


def in_repo(tb):
    """Does a traceback pass through the code under test?"""
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False
