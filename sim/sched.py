"""
Deterministic scheduler for threads of one process.

Every thread runs under a line tracer restricted to the code under test; exactly one thread runs at any time, and control
moves only at traced lines. The schedule is explicit: a list of quanta [thread, lines] or [thread, lines, file]: that thread runs
until it has executed that many lines (of that file), or ended (with `opcodes`,
byte code instructions instead of lines); after the last quantum the threads run to their end one after the other.
"""
import sys
import threading

from sim import env


class Scheduler(object):
    def __init__(self, tasks, quanta, wall=120, opcodes=False):
        self.tasks = tasks
        self.opcodes = opcodes
        self.unit = 'opcode' if opcodes else 'line'
        self.quanta = [list(q) for q in quanta]
        self.n = len(tasks)
        self.go = [threading.Semaphore(0) for _ in range(self.n)]
        self.main = threading.Semaphore(0)
        self.alive = [True] * self.n
        self.results = [None] * self.n
        self.errors = [None] * self.n
        self.left = 0
        self.focus = None
        self.lines = [0] * self.n
        self.switches = 0
        self.prefix = env.REPO + '/'
        self.wall = wall
        self.trace_log = []

    def _tracer(self, me):
        prefix, unit = self.prefix, self.unit

        def local(frame, event, arg):
            if event == unit:
                self.lines[me] += 1
                if self.focus is not None and not frame.f_code.co_filename.endswith(self.focus):
                    return local
                self.left -= 1
                if self.left <= 0:
                    self.trace_log.append((me, frame.f_code.co_name, frame.f_lineno))
                    self._yield(me)
            return local

        def glob(frame, event, arg):
            if not frame.f_code.co_filename.startswith(prefix):
                return None
            if unit == 'opcode':
                frame.f_trace_opcodes = True
            return local
        return glob

    def _yield(self, me):
        self.main.release()
        self.go[me].acquire()

    def _body(self, me):
        self.go[me].acquire()
        sys.settrace(self._tracer(me))
        try:
            self.results[me] = self.tasks[me]()
        except BaseException as e:
            self.errors[me] = e
        finally:
            sys.settrace(None)
            self.alive[me] = False
            self.main.release()

    def run(self):
        threads = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for t in threads:
            t.start()
        k = 0
        last = None
        while any(self.alive):
            if k < len(self.quanta):
                who, lines = self.quanta[k][:2]
                self.focus = '/' + self.quanta[k][2] if len(self.quanta[k]) > 2 else None
                k += 1
                who %= self.n
                if not self.alive[who]:
                    continue
                self.left = max(1, lines)
            else:
                who = next(i for i in range(self.n) if self.alive[i])
                self.left = 1 << 60
                self.focus = None
            if last is not None and last != who:
                self.switches += 1
            last = who
            self.go[who].release()
            if not self.main.acquire(timeout=self.wall):
                raise RuntimeError('a simulated thread blocks outside of the scheduler')
        for t in threads:
            t.join(10)
        return self.results, self.errors
