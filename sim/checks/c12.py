"""C12: reports are complete or the failure is visible, and the console survives"""
import re
import sys

from sim import progs, env
from sim.core import Invalid, Raised, Violation
from sim.simfs import SimFS, SimCrash, gen_faults
from sim.checks import recovery as rc

ID = 'C12'
RUNS = dict(quick=16000, thorough=443000)
BATCH = 20
RULE = ('case = program, loss, disk fault plan and optionally a score that raises; the full driver or a single report runs on '
        'the simulated disk and is compared with a fault-free twin; non-trivial = a fault fired')
MEASURE = 'distinct (program, loss, fault plan, outcome, files left behind)'
REAL = ['recover_program.run_recovery', 'recover_program.print_report', 'SolutionWriter', 'recuperator',
        'Python buffered and text I/O layers']
STUB = ['disk (system-call layer)', 'network loss', 'console']
TIME_UNIT = 'bytes written'
MUST_FIRE = ['short-write', 'write-error', 'disk-full', 'write-lost-on-close', 'close-error', 'open-error', 'score-exception',
             'driver', 'report', 'console-checked-after-failure', 'console-checked-after-success', 'error-raised',
             'several-reports', 'interrupt', 'ambiguous-reported',
             'stale-outputs', 'tie', 'recovered-reported', 'lost-reported', 'bad-rule']
ASSUMPTIONS = ['transient faults and failures are those of the write path; the process itself survives']

KINDS = dict(open=['eio', 'emfile'], write=['short', 'short', 'short', 'eio', 'enospc'], close=['lost', 'lost', 'eio'])


def setup():
    rc.setup()


def gen(r, i, tier):
    c = rc.gen_case(r, 1, 14, .2, .3, 90, 5)
    c['mode'] = r.choice(['driver', 'driver', 'report'])
    c['plan'] = dict(blksize=r.choice([8192, 512, 64]), capacity=r.int(50, 8000) if r.chance(.15) else None,
                     faults=gen_faults(r, ['open', 'write', 'write', 'write', 'close', 'close'], KINDS, 3,
                                       r.choice([4, 12, 60]), 400) if r.chance(.85) else [])
    # which score computation raises, counted over the whole run
    c['bad_score'] = r.int(0, 60) if r.chance(.25) else None
    c['error'] = r.below(5)
    c['reports'] = r.int(1, 4)
    c['stale'] = r.choice(SimFS.STALE) if r.chance(.3) else None
    return c


shrink = rc.shrink


class ScoreError(Exception):
    pass


class ScoreInterrupt(KeyboardInterrupt):
    pass


# what a failing score raises: any kind of exception, an interrupt by the user too
ERRORS = [ScoreError, type('ScoreError', (ScoreError, RuntimeError), {}), type('ScoreError', (ScoreError, ValueError), {}),
          type('ScoreError', (ScoreError, ZeroDivisionError), {}), ScoreInterrupt]


def execute(case, ctx, fs, flat, bad_score):
    """-> (outcome, problems, passes). Outcome: None or the exception's type"""
    console = env.Sink()
    order = rc.order_of(case, ctx)
    corruptor = rc.packet_corruptor(case, order, len(flat))
    before = sys.stdout
    outcome = None
    passes = 0
    count = [0]

    def explode(scores, inst):
        count[0] += 1
        if count[0] - 1 == bad_score:
            raise ERRORS[case['error']]('score')
        return 0.5

    problems = []

    def after(what):
        if sys.stdout is not console:
            problems.append('after {} the standard output is {!r}'.format(what, sys.stdout))
            sys.stdout = console

    sys.stdout = console
    try:
        with fs:
            try:
                if case['mode'] == 'driver':
                    spy = recorder = rc.Spy()
                    if bad_score is not None:
                        inner = spy

                        def factory(*a, **k):
                            real = inner(*a, **k)
                            program = inner.program

                            class Wrap(object):
                                passes = 1

                                def recover(self):
                                    x = real.recover()
                                    for v in program.values():
                                        for i in v:
                                            f = i.score_function
                                            i.score_function = lambda s, inst, f=f: (explode(s, inst), f(s, inst))[1]
                                    return x
                            return Wrap()
                        spy = factory
                    rc.rp.run_recovery(rc.functions(case['fns']), corruptor, spy)
                    passes = len(recorder.passes)
                else:
                    program = corruptor.corrupt(rc.from_list(rc.instructions(flat)))
                    for n in range(case['reports']):
                        if bad_score is not None:
                            for v in program.values():
                                for i in v:
                                    i.score_function = explode
                        try:
                            rc.rp.print_report('report{}.txt'.format(n), rc.instructions(flat), rc.from_dict(program))
                        except (OSError, ScoreError, ScoreInterrupt):
                            after('a failed report')
                            print('next')          # later output belongs on the console
                            if not console.parts or 'next' not in ''.join(console.parts[-3:]):
                                problems.append('output after a failed report is lost')
                            raise
                        after('a report')
            except (ScoreError, ScoreInterrupt):
                outcome = 'ScoreError'
            except OSError as e:
                outcome = 'OSError'
            except Exception as e:
                if not env.in_repo(e.__traceback__):
                    raise
                outcome = type(e).__name__
        after('the run')
    finally:
        sys.stdout = before
    return outcome, problems, passes


def run(case, ctx):
    flat = rc.check_program(case)
    bits = rc.check_loss(case, len(flat))
    if rc.touched_invalid(flat, bits) or case['mode'] not in ('driver', 'report') or not 1 <= case['reports'] <= 9 or not 0 <= case['error'] < 5 or \
            case['stale'] not in [None] + SimFS.STALE:
        raise Invalid('arguments')
    for f in case['plan']['faults']:
        if len(f) != 4 or f[2] not in KINDS.get(f[0], []):
            raise Invalid('plan')
    clean = SimFS()
    o0, p0, passes = execute(case, ctx, clean, flat, None)
    ctx.require(not p0, 'console-lost', lambda: p0[0])
    if o0 is not None:
        # fault-free runs that fail are the business of other properties
        ctx.probe('fault-free-run-fails')
        return
    ctx.probe('console-checked-after-success')
    complete(case, ctx, clean, flat, passes)
    fs = SimFS(ctx, case['plan'])
    if case['stale']:
        fs.leave(clean.files, case['stale'])
    outcome, problems, _ = execute(case, ctx, fs, flat, case['bad_score'])
    ctx.simtime += fs.written
    ctx.probe('driver' if case['mode'] == 'driver' else 'report')
    ctx.probe('several-reports', int(case['reports'] > 1 and case['mode'] == 'report'))
    ctx.fault('score-exception', int(outcome == 'ScoreError'))
    ctx.fault('interrupt', int(outcome == 'ScoreError' and case['error'] == 4))
    ctx.log(outcome, fs.hard, fs.soft, sorted((k, len(v)) for k, v in fs.files.items()))
    ctx.require(not fs.escapes, 'writes-elsewhere', lambda: str(fs.escapes))
    ctx.require(not problems, 'console-lost', lambda: '{} (ended with {})'.format(problems[0], outcome))
    if outcome is None:
        if case['bad_score'] is None:
            ctx.require(sorted(fs.files) == sorted(clean.files), 'files-missing',
                        lambda: '{} instead of {}'.format(sorted(fs.files), sorted(clean.files)))
            for k in sorted(clean.files):
                ctx.require(fs.files[k] == clean.files[k], 'file-differs-but-no-error',
                            lambda: '{}: {} bytes instead of {}, faults {}'.format(k, len(fs.files[k]), len(clean.files[k]),
                                                                                  case['plan']['faults']))
    else:
        ctx.probe('console-checked-after-failure')
        ctx.probe('error-raised', int(outcome == 'OSError'))
        ctx.require(outcome == 'ScoreError' or fs.hard > 0, 'exception-without-a-fault', lambda: outcome)
    ctx.nontrivial = bool(fs.hard or fs.soft or outcome)
    ctx.sig(case['fns'], case['loss'], case['plan'], outcome, sorted((k, bytes(v)) for k, v in fs.files.items()))


LINE = re.compile(r'^(.*?)(0x[0-9a-f]+) (\+\+|--) \[(\d+)\] (.*?) : (-?[0-9.]+|nan|inf): -->(.*)', re.M)


def complete(case, ctx, clean, flat, passes):
    """Every report names every instruction; those of the damaged program list every candidate; totals agree with the listing"""
    program = rc.encs(rc.damaged(case, ctx, flat)[1])
    reports = [k for k in sorted(clean.files) if k.endswith('.txt')]
    want = case['reports'] if case['mode'] == 'report' else passes + 3
    ctx.require(len(reports) >= want, 'report-missing', lambda: str(sorted(clean.files)))
    for k in reports:
        text = clean.files[k].decode()
        parts = text.split('Original Instruction: ')[1:]
        ctx.require(len(parts) == len(flat), 'report-incomplete', lambda: '{} names {} of {} instructions'.format(
            k, len(parts), len(flat)))
        first = case['mode'] == 'report' or k.endswith('corrupted_program.txt')
        totals, ties, depths, rules = dict(FAIL=0, TIE=0, OK=0), [], {}, {}
        for (a, w), part in zip(flat, parts):
            name = str(rc.CAPS(w, a))
            ctx.require(part.split('\n')[0] == name, 'report-wrong-instruction', lambda: '{} {:#x}: {!r} instead of {!r}'.format(
                k, a, part[:60], name))
            lines = LINE.findall(part)
            got = [int(x[3]) for x in lines]
            ctx.require(len(set(got)) == len(got) and not set(got) - set(program[a]), 'report-wrong-candidates',
                        lambda: '{} {:#x}: {}'.format(k, a, got[:8]))
            if first:
                ctx.require(sorted(got) == sorted(program[a]) or not got and len(program[a]) == 1, 'report-incomplete',
                            lambda: '{} {:#x}: {} of {} candidates'.format(k, a, len(got), len(program[a])))
            if not got:
                continue
            ctx.probe('ambiguous-reported', int(first))
            where = '{} {:#x}'.format(k, a)
            scores = [float(x[5]) for x in lines]
            ctx.require(all(x >= y for x, y in zip(scores, scores[1:])), 'report-not-ranked', lambda: where)
            for x in lines:
                e = int(x[3])
                ctx.require(int(x[1], 16) == a and (x[2] == '++') == (e == w) and x[4] == str(rc.CAPS(e, a)), 'report-line-wrong',
                            lambda: '{}: {}'.format(where, x))
            if w in got:
                d = got.index(w)
                depths[d] = depths.get(d, 0) + 1
            if len(got) < 2:
                continue
            verdicts = re.findall(r'^ \* (FAIL|TIE|OK)', part, re.M)
            ctx.require(len(verdicts) == 1, 'report-verdict', lambda: '{}: {}'.format(where, verdicts))
            v = verdicts[0]
            totals[v] += 1
            if lines[0][4] != name:
                ok = v == 'FAIL'
            elif scores[0] != scores[1] or lines[0][4] == lines[1][4]:
                ok = v == 'OK'
            else:
                # equal in the six digits shown
                ok = v in ('TIE', 'OK')
            ctx.require(ok, 'report-verdict', lambda: '{}: {} but the best are {}'.format(where, v, lines[:2]))
            if v == 'TIE':
                n = int(re.search(r'TIE : (\d+)', part).group(1))
                ctx.probe('tie')
                ties.append(n)
                ctx.require(2 <= n <= scores.count(scores[0]), 'report-tie', lambda: '{}: {}'.format(where, n))
            shown = re.findall(r'^ -> (\w+): ([0-9.]+) vs\. ([0-9.]+) $', part, re.M)
            for x in shown:
                rules[x[0]] = rules.get(x[0], 0) + 1
            if v == 'FAIL' and w in got:
                # the rules that prefer the false winner
                win, ori = [dict(re.findall(r' (\w+): ([0-9.]+) -- ', x[6])) for x in (lines[0], lines[got.index(w)])]
                better = sorted((x, win[x], ori[x]) for x in win if x in ori and float(win[x]) > float(ori[x]))
                ctx.probe('bad-rule', len(better))
                g = sorted(x for x in shown if x[1] != x[2])
                ctx.require(g == better, 'report-comparison', lambda: '{}: {} instead of {}'.format(where, g, better))
        ctx.probe('recovered-reported', int(totals['OK'] > 0))
        ctx.probe('lost-reported', int(totals['FAIL'] > 0))
        tail = parts[-1]
        m = re.search(r'^ERRORS: (\d+) -- LOSING: (\d+) -- TIDE: (\d+) --RECOVERED: (\d+) -- RATIO: (\S+)', tail, re.M)
        ctx.require(m, 'report-totals', lambda: '{} has no totals: {!r}'.format(k, tail[-200:]))
        n = sum(totals.values())
        ctx.require([int(x) for x in m.groups()[:4]] == [n, totals['FAIL'], totals['TIE'], totals['OK']] and
                    abs(float(m.group(5)) - (totals['OK'] / n if n else 1)) < 1e-9, 'report-totals',
                    lambda: '{}: {} but it lists {}'.format(k, m.group(0), totals))
        m = re.search(r'^AVERAGE TIE COUNT: (\S+)', tail, re.M)
        ctx.require(not m or ties and abs(float(m.group(1)) - sum(ties) / len(ties)) < 1e-9, 'report-ties',
                    lambda: '{}: {} instead of {}'.format(k, m.group(1), ties))
        m = re.search(r'^DEPTHS: \{(.*)\}', tail, re.M)
        ctx.require(m, 'report-depths', lambda: '{} has no depths'.format(k))
        g = dict((int(x), int(y)) for x, y in re.findall(r'(\d+): (\d+)', m.group(1)))
        ctx.require(g == depths, 'report-depths', lambda: '{}: {} instead of {}'.format(k, g, depths))
        g = dict((x, int(y)) for x, y in re.findall(r'^(\w+) : (\d+)$', tail[tail.index('BAD RULES:'):], re.M))
        ctx.require(g == rules, 'report-rules', lambda: '{}: {} instead of {}'.format(k, g, rules))
