"""C30: trouble around a recovery run never changes its result"""
import contextlib
import errno
import io
import os
import re
import sys

from sim import env, progs
from sim.core import Invalid, Raised, Violation
from sim.prng import Prng
from sim.simfs import SimFS, SimCrash, gen_faults
from sim.checks import recovery as rc

ID = 'C30'
RUNS = dict(quick=13000, thorough=90000)
BATCH = 20
RULE = ('case = program, damage and a plan of console, disk and interruption faults: the real driver runs undisturbed, then '
        'disturbed, then again with the same objects on the disk the second run left; or one to three progress bars and a '
        'history of steps; non-trivial = a fault fired, or a bar was completed')
MEASURE = 'distinct (program, damage, fault plan, outcome, files left behind)'
REAL = ['recover_program.run_recovery', 'print_progress', 'recuperator', 'metadata_collector', 'corruptors', 'solution builders, '
        'quality, reader and writer', "Python's buffered and text I/O layers of the console and the files"]
STUB = ['console device (system-call layer)', 'disk (system-call layer)', 'network loss (drawn as a set of lost packets)',
        'module random', 'operator who interrupts (KeyboardInterrupt out of a console write)']
TIME_UNIT = 'console bytes'
MUST_FIRE = ['console-error', 'console-full', 'broken-pipe', 'console-charset', 'no-console', 'interrupt', 'console-short-write',
             'console-closed', 'again-after-failure', 'again-after-success', 'continued', 'bar-complete', 'bar-incomplete',
             'stale-outputs', 'bar-too-many-steps', 'bar-nothing-to-do', 'bar-console-error', 'two-bars', 'crash-restart', 'write-error',
             'disk-full', 'json-saved', 'random-damage', 'json-replay', 'failed-during-damage', 'failed-during-recovery', 'trouble-that-passes', 'line-KeyboardInterrupt', 'line-MemoryError',
             'line-anywhere', 'line-in-recuperator', 'line-in-metadata_collector', 'line-in-corruptors', 'line-in-recover_program']
ASSUMPTIONS = ['the undisturbed run succeeds (C08)', 'after an interruption inside a computation neither sys.stdout nor the program in '
               'memory are judged, only files, the caller\'s program and the next run']

KINDS = ['short', 'charset', 'none', 'epipe', 'enospc', 'eio', 'closed', 'interrupt', 'good', 'line', 'line', 'line', 'line']
DISK = dict(open=['eio', 'emfile'], write=['short', 'eio', 'enospc', 'crash'], close=['lost', 'eio'], read=['short', 'eio'])


def setup():
    global TextProgressBar
    rc.setup()
    from semantic_codec.report.print_progress import TextProgressBar


def gen_lines(r):
    """
    Where in the executed lines of the library: ['start' | 'end', n], ['part', thousandths of a thousandth], or at one line
    of the source, however seldom it is executed: ['spot', which and at which of its executions]
    """
    k = r.choice(['start', 'end', 'part', 'part', 'spot', 'spot', 'spot', 'spot'])
    return [k, r.below(1000000) if k in ('part', 'spot') else r.below(2 ** r.int(1, 14))]


def gen(r, i, tier):
    if r.chance(.4):
        bars = [dict(total=r.choice([0, 1, 2, 5, 9, 10, 11, 50, r.int(0, 400), r.int(0, 3000), 2 ** r.int(9, 16)]), dist=r.choice([4, 4, 10, 10, 5]),
                     decimals=r.choice([0, 0, 1, 2]), length=r.choice([50, 50, 100, 1, 7])) for _ in range(r.choice([1, 1, 2, 3]))]
        hist = []
        for b, x in enumerate(bars):
            n = r.choice([x['total'], x['total'], x['total'], x['total'] + r.int(1, 20), r.int(0, x['total'])])
            while n > 3000:
                k = r.int(1, n)
                hist.append([b, k])
                n -= k
            hist += [[b, 1]] * n
        if len(bars) > 1 and r.chance(.5):
            r.shuffle(hist)
        return dict(mode='bar', bars=bars, history=hist, errors=[r.below(20) for _ in range(r.choice([0, 0, 1, 3]))],
                    kind=r.choice(['epipe', 'enospc', 'eio', 'interrupt']))
    kind = r.weighted([('packets', 6), ('random', 2), ('json', 2)])
    case = rc.gen_case(r, 1, 30, 0.0 if kind == 'random' else .2, .3, 250 if tier == 'quick' else 700, 7)
    faults = gen_faults(r, ['open', 'write', 'write', 'close', 'read'], DISK, 1, r.choice([3, 10, 40]), 600) if r.chance(.35) else []
    case.update(mode='driver', stale=r.choice(SimFS.STALE) if r.chance(.25) else None, kind=kind, save=r.chance(.4), pct=min(r.choice([5, 20, 50]), max(1, 10000 // progs.count(case['fns']))), bits=r.int(1, 3), seed=r.below(1 << 30),
                console=dict(kind=r.choice(KINDS), at=r.choice([0, r.below(1000), r.below(1000), r.below(1000)]),
                             span=r.choice([0, 0, 1, 1, 2, 5]), buf=r.choice([1, 16, 256, 1024, 8192]), line=r.chance(.5),
                             lines=gen_lines(r), exc=r.choice(['KeyboardInterrupt', 'MemoryError']),
                             enc=r.choice(['ascii', 'latin-1', 'cp1252', 'iso8859-15', 'cp437'])),
                plan=dict(blksize=r.choice([8192, 512, 64]), capacity=None, faults=faults))
    return case


def shrink(case):
    if case['mode'] == 'bar':
        h = case['history']
        for part in (h[:len(h) // 2], h[len(h) // 2:]):
            if len(part) < len(h):
                yield dict(case, history=part)
        for j, (b, n) in enumerate(h):
            if n > 1:
                yield dict(case, history=h[:j] + [[b, n // 2]] + h[j + 1:])
                yield dict(case, history=h[:j] + [[b, n - 1]] + h[j + 1:])
            if j > 100:
                break
        if all(n == 1 for b, n in h):
            runs = []
            for b, n in h:
                if runs and runs[-1][0] == b:
                    runs[-1][1] += 1
                else:
                    runs.append([b, 1])
            if len(runs) < len(h):
                yield dict(case, history=runs)
        return
    for c in rc.shrink(case):
        yield c
    f = case['plan']['faults']
    for i in range(len(f)):
        yield dict(case, plan=dict(case['plan'], faults=f[:i] + f[i + 1:]))


class Device(io.RawIOBase):
    """The console as system calls see it"""

    def __init__(self, kind=None, at=0, ctx=None, span=0):
        super().__init__()
        self.kind, self.at, self.ctx, self.span = kind, at, ctx, span
        self.calls, self.data, self.fired = 0, bytearray(), 0

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        n = self.calls
        self.calls += 1
        if self.kind == 'short' and len(b) > 1:
            b = b[:1 + (n * 7 + self.at) % (len(b) - 1)]
            self.fire('console-short-write')
        elif self.kind in FAIL and n >= self.at and (not self.span or n < self.at + self.span):
            e, name = FAIL[self.kind]
            self.fire(name)
            if self.span and self.ctx is not None and self.fired == 1:
                self.ctx.probe('trouble-that-passes')
            if e is None:
                raise KeyboardInterrupt()
            raise OSError(e, os.strerror(e))
        self.data += b
        return len(b)

    def fire(self, name):
        self.fired += 1
        if self.ctx is not None and self.fired == 1:
            self.ctx.fault(name)


FAIL = dict(epipe=(errno.EPIPE, 'broken-pipe'), enospc=(errno.ENOSPC, 'console-full'), eio=(errno.EIO, 'console-error'),
            interrupt=(None, 'interrupt'))


class Text(io.TextIOWrapper):
    """The real text layer on the simulated device; closes it at a given write"""
    left = None
    closed_by_sim = False

    def write(self, s):
        if self.left is not None:
            if self.left <= 0 and not self.closed:
                self.closed_by_sim = True
                self.close()
            self.left -= 1
        Text.count += 1
        return super().write(s)


class Args(object):
    """Recuperator factory: records what it was built with"""

    def __init__(self):
        self.args = None
        self.first = None
        self.passes = 0
        self.sizes = []

    def __call__(self, *a, **k):
        program = a[1] if len(a) > 1 else k['program']
        self.args = (a, k)
        self.program = program
        self.passes += 1
        self.sizes.append(len(program))
        if self.first is None:
            self.first = rc.encs(program)
        if self.passes > 4 * sum(len(v) for v in self.first.values()) + 10:
            raise Violation('too-many-passes', str(self.passes))
        return rc.ProbabilisticRecuperator(*a, **k)


class Lines(object):
    """Counts the executed lines of the library; raises exc at one of them"""

    def __init__(self, at=None, exc=None):
        self.n, self.at, self.exc, self.where, self.codes = 0, at, exc, None, []
        # lines of the source -> number of its executions; number of the first, a middle and the last of them
        self.spots = {}

    def __enter__(self):
        mon, tool, prefix = sys.monitoring, 4, env.REPO + os.sep
        mon.use_tool_id(tool, 'verif-lines')

        def on_start(code, off):
            if code.co_filename.startswith(prefix):
                mon.set_local_events(tool, code, mon.events.LINE)
                self.codes.append(code)
            return mon.DISABLE

        def on_line(code, line):
            self.n += 1
            if self.at is None:
                x = self.spots.setdefault((code, line), [0, self.n - 1, self.n - 1, self.n - 1])
                x[0] += 1
                x[3] = self.n - 1
                if not x[0] & (x[0] - 1):
                    x[2] = self.n - 1
            if self.n - 1 == self.at:
                self.where = '{}:{}'.format(os.path.basename(code.co_filename), line)
                raise self.exc

        mon.restart_events()
        mon.register_callback(tool, mon.events.PY_START, on_start)
        mon.register_callback(tool, mon.events.LINE, on_line)
        mon.set_events(tool, mon.events.PY_START)
        return self

    def __exit__(self, *_):
        mon, tool = sys.monitoring, 4
        mon.set_events(tool, 0)
        for c in self.codes:
            mon.set_local_events(tool, c, 0)
        mon.register_callback(tool, mon.events.LINE, None)
        mon.register_callback(tool, mon.events.PY_START, None)
        mon.free_tool_id(tool)


def execute(case, fs, fns, corruptor, plan, ctx=None, lines=None):
    """-> (None or the exception, bytes on the console, number of console writes, factory, device, text layer)"""
    c = case['console']
    dev = Device(plan.get('kind'), plan.get('at', 0), ctx, plan.get('span', 0))
    buf = io.BufferedWriter(dev, c['buf'])
    enc = c['enc'] if plan.get('kind') == 'charset' else 'utf-8'
    text = Text(buf, encoding=enc, line_buffering=c['line'], newline='\n')
    if plan.get('kind') == 'closed':
        text.left = plan['at']
    Text.count = 0
    factory = Args()
    env.ENTROPY.reset(case['seed'], [], 400000)
    console = None if plan.get('kind') == 'none' else text
    if console is None and ctx is not None:
        ctx.fault('no-console')
    before, err, restored = sys.stdout, None, True
    sys.stdout = console
    try:
        with fs:
            try:
                with lines or contextlib.nullcontext():
                    rc.rp.run_recovery(fns, corruptor, factory)
            finally:
                restored = sys.stdout is console
            if console is not None:
                console.flush()
    except Violation:
        raise
    except SimCrash as e:
        err = e
    except (Exception, KeyboardInterrupt) as e:
        err = e
        if dev.kind is None and not (lines and lines.where) and not env.in_repo(e.__traceback__):
            raise
        e.__traceback__ = None
        e.__context__ = None
    finally:
        sys.stdout = before
        env.ENTROPY.reset(0)
        dev.kind = 'dead'
        with contextlib.suppress(Exception):
            text.detach().detach()
    return dict(err=err, data=bytes(dev.data), calls=dev.calls, writes=Text.count, factory=factory, dev=dev, text=text,
                restored=restored)


def name_of(e):
    return 'nothing' if e is None else type(e).__name__


PERCENT = re.compile(r'(\d+(?:\.\d+)?) ?%')


def watch(text, ctx):
    """Progress bars on an undisturbed console: percentages grow up to one 100 at the end -> completed bars"""
    done, last, where = 0, None, None
    for part in re.split(r'[\r\n]', text):
        m = PERCENT.search(part)
        if not m or '|' not in part:
            continue
        prefix = part[:part.index('|')]
        p = float(m.group(1))
        if prefix != where:
            ctx.require(last in (None, 100), 'bar-not-completed', lambda: '{!r} stopped at {}'.format(where, last))
            last, where = None, prefix
        if last == 100:
            last = None
        ctx.require(p <= 100, 'bar-beyond-100', lambda: part[:120])
        ctx.require(last is None or p >= last, 'bar-runs-backwards', lambda: '{} after {}: {!r}'.format(p, last, part[:100]))
        last = p
        done += p == 100
    ctx.require(last in (None, 100), 'bar-not-completed', lambda: '{!r} stopped at {}'.format(where, last))
    return done


def run_bars(case, ctx):
    bars, hist = case['bars'], case['history']
    if not bars or any(not 0 <= b < len(bars) or not 0 < n <= 1 << 20 for b, n in hist) or case['kind'] not in FAIL or \
            any(b['total'] < 0 or b['dist'] not in (4, 5, 10) or b['decimals'] not in (0, 1, 2) or not 1 <= b['length'] <= 100
                for b in bars):
        raise Invalid('bars')

    class Console(io.TextIOBase):
        encoding = 'utf-8'

        def __init__(self):
            self.n, self.bad, self.out = 0, set(case['errors']), []

        def writable(self):
            return True

        def write(self, s):
            self.n += 1
            if self.n - 1 in self.bad:
                ctx.fault('bar-console-error')
                if case['kind'] == 'interrupt':
                    raise KeyboardInterrupt()
                raise OSError(FAIL[case['kind']][0], 'console')
            self.out.append(s)
            return len(s)

        def flush(self):
            pass

    con = Console()
    objs = [TextProgressBar(iteration=0, total=b['total'], prefix='bar{}:'.format(j), decimals=b['decimals'],
                            bar_length=b['length'], print_dist=b['dist']) for j, b in enumerate(bars)]
    steps, shown, failed = [0] * len(bars), [[] for _ in bars], [False] * len(bars)
    before = sys.stdout
    sys.stdout = con
    try:
        for b in (b for b, n in hist for _ in range(n)):
            con.out = []
            try:
                objs[b].progress()
            except (OSError, KeyboardInterrupt):
                failed[b] = True
            text = ''.join(con.out)
            for j in range(len(bars)):
                if 'bar{}:'.format(j) in text and j != b:
                    raise Violation('bar-of-another', 'bar{} printed by bar{}'.format(j, b))
            ctx.require('\n' not in text or failed[b] or bars[b]['total'] - steps[b] <= bars[b]['dist'] + 1, 'bar-completed-early',
                        lambda: '{} at step {}'.format(bars[b], steps[b] + 1))
            for part in re.split(r'[\r\n]', text):
                m = PERCENT.search(part)
                if not m:
                    continue
                p = float(m.group(1))
                x, k = bars[b], steps[b]
                where = 'bar of {} (dist {}) at step {}: {!r}'.format(x['total'], x['dist'], k + 1, part)
                if shown[b] and not failed[b]:
                    ctx.require(shown[b][-1] < 100, 'bar-completed-twice', lambda: where)
                ctx.require(p <= 100, 'bar-beyond-100', lambda: where)
                ctx.require(not shown[b] or p >= shown[b][-1], 'bar-runs-backwards', lambda: where)
                near = x['total'] - k <= x['dist'] + 1
                ctx.require(near or p <= 100. * (k + 1) / x['total'] + .6, 'bar-ahead-of-the-work', lambda: where)
                ctx.require(near or p >= 100. * k / x['total'] - .6, 'bar-behind-the-work', lambda: where)
                m = re.search(r'\|(.*)\|', part)
                ctx.require(m and len(m.group(1)) == x['length'], 'bar-length', lambda: where)
                shown[b].append(p)
            steps[b] += 1
    finally:
        sys.stdout = before
    for j, x in enumerate(bars):
        k = steps[j]
        ctx.simtime += k
        if failed[j]:
            continue
        if k and k >= x['total']:
            ctx.probe('bar-complete')
            ctx.probe('bar-nothing-to-do', int(x['total'] == 0))
            ctx.probe('bar-too-many-steps', int(k > x['total']))
            ctx.require(shown[j] and shown[j][-1] == 100, 'bar-not-completed', lambda: '{} steps of {}: {}'.format(
                k, x['total'], shown[j][-3:]))
        elif k < x['total'] - x['dist'] - 1:
            ctx.probe('bar-incomplete')
            ctx.require(100 not in shown[j], 'bar-completed-early', lambda: '{} steps of {}'.format(k, x['total']))
        ctx.log(shown[j])
    ctx.probe('two-bars', int(len(bars) > 1))
    ctx.nontrivial = any(100 in s for s in shown)
    ctx.sig(bars, steps, shown)


def run(case, ctx):
    if case['mode'] == 'bar':
        return run_bars(case, ctx)
    flat = rc.check_program(case)
    n = len(flat)
    bits = rc.check_loss(case, n)
    c = case['console']
    if case['kind'] == 'random':
        if any(not progs.decodes(w) for _, w in flat) or not 1 <= case['bits'] <= 4 or not 0 <= case['pct'] <= 100:
            raise Invalid('random damage')
    elif rc.touched_invalid(flat, bits):
        raise Invalid('damaged word is no instruction')
    if case['stale'] not in [None] + SimFS.STALE or c['kind'] not in KINDS or c['at'] < 0 or c['buf'] < 1 or any(
            len(f) != 4 or f[2] not in DISK.get(f[0], []) for f in case['plan']['faults']) or \
            c['kind'] == 'line' and (c['lines'][0] not in ('start', 'end', 'part', 'spot') or c['lines'][1] < 0):
        raise Invalid('plan')
    order = rc.order_of(case, ctx)

    def corruptor():
        path = 'corrupted.json' if case['save'] else None
        if case['kind'] == 'random':
            k = rc.RandomCorruptor(case['pct'], case['bits'], case['save'])
            k.corrupted_program_path = path
            return k
        if case['kind'] == 'json':
            return rc.JSONCorruptor('damaged.json')
        return rc.packet_corruptor(case, order, n, path=path)

    def disk(plan=None, with_ctx=None):
        fs = SimFS(with_ctx, plan)
        if case['kind'] == 'json':
            fs.put('damaged.json', damaged)
        return fs

    if case['kind'] == 'json':
        first = SimFS()
        with first:
            ctx.must('damage', rc.packet_corruptor(case, order, n, path='damaged.json').corrupt,
                     rc.from_list(rc.instructions(flat)))
        damaged = bytes(first.get('damaged.json'))
        ctx.probe('json-replay')
    else:
        ctx.probe('json-saved', int(case['save']))
        ctx.fault('random-damage', int(case['kind'] == 'random'))
    # undisturbed
    fs0 = disk()
    count = Lines() if c['kind'] == 'line' else None
    ref = execute(case, fs0, rc.functions(case['fns']), corruptor(), {}, None, count)
    if ref['err'] is not None:
        ctx.probe('undisturbed-run-fails')
        return
    text = ref['data'].decode('utf-8')
    bars = watch(text, ctx)
    ctx.require(bars >= ref['factory'].passes, 'bar-not-completed', lambda: '{} completed bars in {} passes'.format(
        bars, ref['factory'].passes))
    # disturbed
    fs = disk(case['plan'], ctx)
    if case['stale']:
        fs.leave({k: v for k, v in fs0.files.items() if k not in fs.files}, case['stale'])
    G, C = rc.functions(case['fns']), corruptor()
    plan = dict(kind=c['kind'], at=c['at'], span=c.get('span', 0))
    if c['kind'] in FAIL:
        plan['at'] = c['at'] * ref['calls'] // 1000
    elif c['kind'] == 'closed':
        plan['at'] = c['at'] * ref['writes'] // 1000
    lines = None
    if count:
        how, at = c['lines']
        if how == 'spot':
            spots = list(count.spots.values())
            at = spots[at % len(spots)][1 + at // 1000 % 3] if spots else 0
            ctx.probe('line-anywhere')
        else:
            at = dict(start=at, end=count.n - 1 - at, part=at * count.n // 1000000)[how]
        lines = Lines(max(0, min(at, count.n - 1)), dict(KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError)[c['exc']]())
    got = execute(case, fs, G, C, plan, ctx, lines)
    if lines and lines.where:
        plan.update(line=lines.where, exc=c['exc'])
        ctx.fault('line-' + c['exc'])
        ctx.probe('line-in-' + lines.where.split('.')[0])
    err = got['err']
    ctx.simtime += len(ref['data']) + len(got['data'])
    ctx.fault('console-closed', int(got['text'].closed_by_sim))
    ctx.fault('console-charset', int(c['kind'] == 'charset'))
    cut = lines is not None and lines.where is not None
    hard = cut or fs.hard or (got['dev'].fired and c['kind'] != 'short') or got['text'].closed_by_sim
    ctx.log(name_of(err), fs.hard, fs.soft, sorted((k, len(v)) for k, v in fs.files.items()))
    ctx.require(not fs.escapes, 'writes-elsewhere', lambda: str(fs.escapes))
    # between opening the report and the try block nothing can put the console back
    ctx.require(cut or got['restored'], 'console-lost', lambda: 'after ' + name_of(err))
    if err is None:
        same_files(ctx, fs0, fs, 'file-differs-but-no-error', 'console {}, disk {}'.format(plan, case['plan']['faults']))
        if not hard and c['kind'] in ('short', 'good'):
            ctx.require(got['data'] == ref['data'], 'console-text-differs', '')
    else:
        ctx.require(hard, 'exception-without-a-fault', lambda: '{!r} with console {}'.format(err, plan))
        ctx.probe('failed-during-damage' if got['factory'].args is None else 'failed-during-recovery')
        if not cut:
            in_memory(ctx, flat, got['factory'])
    ctx.require(words_of(G) == words_of(rc.functions(case['fns'])), 'original-program-changed', lambda: name_of(err))
    trouble = bool(fs.hard or fs.soft or got['dev'].fired or err is not None or c['kind'] in ('none', 'charset'))
    # the same once more, on what was left behind
    dead = isinstance(err, SimCrash)
    fs.restart()
    fs.arm({})
    if dead:
        ctx.probe('crash-restart')
        G, C = rc.functions(case['fns']), corruptor()
    again = execute(case, fs, G, C, {})
    ctx.probe('again-after-success' if err is None else 'again-after-failure')
    why = 'the first run ended with {} (console {}, disk {})'.format(name_of(err), plan, case['plan']['faults'])
    ctx.require(again['err'] is None, 'again-fails', lambda: '{!r}; {}'.format(again['err'], why))
    same_files(ctx, fs0, fs, 'again-differs', why)
    if again['data'] != ref['data']:
        a, b = again['data'], ref['data']
        at = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
        raise Violation('again-differs', 'console: ...{!r} instead of ...{!r}; {}'.format(
            a[max(0, at - 60):at + 60], b[max(0, at - 60):at + 60], why))
    ctx.nontrivial = trouble
    ctx.sig(case['fns'], case['loss'], plan, case['plan'], name_of(err), sorted((k, bytes(v)) for k, v in fs.files.items()))


def words_of(fns):
    return [(i.address, i.encoding) for f in fns for i in f.instructions]


def same_files(ctx, fs0, fs, kind, why):
    for k in sorted(fs0.files):
        ctx.require(k in fs.files, kind, lambda: '{} is missing; {}'.format(k, why))
        ctx.require(fs.files[k] == fs0.files[k], kind, lambda: '{}: {} bytes instead of {}; {}'.format(
            k, len(fs.files[k]), len(fs0.files[k]), why))


def in_memory(ctx, flat, factory):
    """The program of the failed run can still be recovered"""
    if factory.args is None:
        return
    program, first = factory.program, factory.first

    def sound(when):
        now = rc.encs(program)
        ctx.require(sorted(now) == sorted(first), 'addresses-changed', lambda: when)
        for a, w in flat:
            if w not in first[a]:
                continue
            ctx.require(w in now[a], 'original-discarded', lambda: '{} {:#x}: {:#010x}'.format(when, a, w))
            left = set(now[a]) - set(first[a])
            ctx.require(not left, 'unknown-candidate', lambda: '{} {:#x}: {}'.format(when, a, sorted(left)[:5]))

    sound('after the failure')
    if any(i.score_function is rc.probabilistic_rules for v in program.values() for i in v):
        return                              # the eliminations were over
    a, k = factory.args
    limit = sum(len(v) for v in program.values()) + 2
    stable = False
    while not stable:
        limit -= 1
        ctx.require(limit > 0, 'continued-without-end', '')
        rec = rc.ProbabilisticRecuperator(*a, **k)
        ctx.must('continued', rec.recover)
        stable = sum([rc.rp.remove_bad_candidates_at_addr(v) for v in program.values()]) == 0
    ctx.probe('continued')
    sound('continued')
