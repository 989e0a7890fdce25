"""C10: a saved solution reads back exactly; a torn one is never taken for real"""
import struct

from sim import progs
from sim.core import Invalid, Raised, Violation
from sim.simfs import SimFS, SimCrash, gen_faults
from sim.checks import recovery as rc

ID = 'C10'
RUNS = dict(quick=48000, thorough=1234000)
BATCH = 60
RULE = ('case = a history of saves and reads of solution files over one or two names on the simulated disk, each step with its '
        'own fault plan (short/failed/lost writes, full disk, process killed, short/failed reads); after every step the readable '
        'content is compared with the set of contents the history allows; non-trivial = a fault hit a save')
MEASURE = 'distinct (history of saves, fault plans, outcomes)'
REAL = ['solution_io.SolutionWriter', 'solution_io.SolutionReader', 'Python buffered and text I/O layers']
STUB = ['disk (system-call layer)']
TIME_UNIT = 'bytes written'
MUST_FIRE = ['short-write', 'write-error', 'disk-full', 'crash-in-write', 'crash-in-open', 'crash-in-close', 'open-error',
             'write-lost-on-close', 'close-error', 'short-read', 'read-error', 'save-over-longer', 'save-over-shorter',
             'save-acknowledged', 'save-failed', 'torn-file-rejected', 'old-content-read', 'high-address',
             'original-not-last', 'original-missing-rejected', 'many-entries', 'foreign-file', 'shared-reader', 'long-history']
ASSUMPTIONS = ['a killed process leaves what it had written in the page cache; power loss without fsync is not covered']

KINDS = dict(open=['eio', 'emfile', 'crash'], write=['short', 'short', 'eio', 'enospc', 'crash', 'crash'],
             close=['lost', 'eio', 'crash'], read=['short', 'short', 'eio'], rename=['eio', 'crash'])


def setup():
    rc.setup()


def gen_solution(r):
    n = r.choice([0, 1, 1, 2, 3, r.int(1, 12), r.int(1, 30)])
    if r.chance(.0005):
        n = r.int(30, 4000)
    base = r.choice([0, 0x8000, 0x10470, 0xffffff00, 0x7ffffff0])
    out = []
    addrs = r.sample(list(range(0, 4 * max(60, n), 4)), n)
    if r.chance(.7):
        addrs.sort()
    for a in addrs:
        k = r.choice([1, 1, 2, 3, 4, r.int(1, 20)])
        if n < 4 and r.chance(.05):
            k = r.choice([300, 1025])
        if n == 1 and r.chance(.002):
            k = 65536 + r.int(1, 40)
            first = r.bits(31)
            out.append([(base + a) & 0xfffffffc, list(range(first, first + k)), k - r.int(1, 41)])
            continue
        words = [r.choice([r.bits(32), 0, 0xffffffff]) for _ in range(k)]
        words = list(dict.fromkeys(words))
        out.append([(base + a) & 0xfffffffc, words, r.below(len(words))])
    seen = {}
    for a, w, o in out:
        seen[a] = [a, w, o]
    return list(seen.values())


def gen(r, i, tier):
    steps = []
    long = r.chance(.002)
    for _ in range(r.int(60, 90) if long else r.int(1, 5)):
        f = r.choice(['a.sol', 'a.sol', 'a.sol', 'b.sol'])
        if r.chance(.06):
            steps.append(dict(op='foreign', file=f, what=r.below(7), at=r.int(0, 63), plan=dict(blksize=8192, capacity=None, faults=[])))
            continue
        if r.chance(.9 if long else .75):
            plan = dict(blksize=r.choice([8192, 8192, 64, 16, 8, 5]), capacity=r.int(0, 400) if r.chance(.1) else None,
                        faults=gen_faults(r, ['open', 'write', 'write', 'write', 'close', 'rename'], KINDS, 2,
                                          r.choice([3, 12, 40])) if r.chance(.03 if long else .6) else [])
            steps.append(dict(op='save', file=f, solution=gen_solution(r), plan=plan, as_list=r.chance(.5),
                              bad=r.chance(.05)))
        else:
            steps.append(dict(op='read', file=f, plan=dict(
                blksize=r.choice([8192, 64, 16, 7]), capacity=None,
                faults=gen_faults(r, ['read', 'read', 'open', 'close'], dict(KINDS, open=['eio'], close=['eio']), 3, 10)
                if r.chance(.8) else [])))
    return dict(steps=steps, shared=r.chance(.3))


def check_case(case):
    for s in case['steps']:
        if s['op'] not in ('save', 'read', 'foreign') or s['op'] == 'foreign' and not (0 <= s['what'] < 7 and 0 <= s['at'] < 64):
            raise Invalid('operation')
        if s['op'] == 'save':
            seen = set()
            for a, w, o in s['solution']:
                if a in seen or not w or not 0 <= o < len(w) or len(set(w)) != len(w) or a % 4 or \
                        not 0 <= a < 1 << 32 or any(not 0 <= x < 1 << 32 for x in w):
                    raise Invalid('solution')
                seen.add(a)
        for f in s['plan']['faults']:
            if len(f) != 4 or f[2] not in KINDS[f[0]]:
                raise Invalid('plan')


def foreign(s, good):
    body = struct.pack('<LLLL', 1, 0x8000, 1, 0xe3a00000)
    magic = struct.pack('<Q', 0xA0C1E2F3A4C5E6F7)
    if s['what'] == 0:
        return bytes(s['at'] * 4)
    if s['what'] == 1:
        return b'{"32768": [3818913792]}\n'
    if s['what'] == 2:
        return b'.functions\n0x8000;f0\n\n.text\n0x8000;e3a00000;mov;r0, #0\n'
    if s['what'] == 3:
        # one bit of the first word is wrong
        return struct.pack('<Q', 0xA0C1E2F3A4C5E6F7 ^ 1 << s['at']) + (good[8:] if good and len(good) > 8 else body)
    if s['what'] == 4:
        return magic[::-1] + body
    if s['what'] == 5:
        return magic[:4] + body                                # half of the first word
    return (good or magic + body)[8:] + bytes(8)              # without the first word


def content(solution):
    """What a reader has to report: [(address, candidates up to the original)] in order"""
    return [(a, w[:o + 1]) for a, w, o in solution]


def run(case, ctx):
    check_case(case)
    fs = SimFS(ctx)
    ctx.probe('long-history', int(len(case['steps']) >= 60))
    # one reader and writer for everything, or a new one each time
    reader, writer = (rc.io_.SolutionReader(), rc.io_.SolutionWriter()) if case.get('shared') else (None, None)
    ctx.probe('shared-reader', int(bool(reader)))
    model = {}       # name -> list of contents a read may report (None: nothing there yet)
    size = {}

    def read(name, plan, must):
        fs.arm(plan)
        hard0 = fs.hard
        with fs:
            r = ctx.call((reader or rc.io_.SolutionReader()).read, name)
        allowed = model.get(name, [None])
        if isinstance(r, Raised):
            ctx.log('read', name, r.type)
            if must and not fs.hard:
                raise Violation('acknowledged-save-unreadable', '{}: {}'.format(name, r))
            if not fs.hard and len(allowed) > 1:
                ctx.probe('torn-file-rejected')
            return
        original, program = r
        got = [(a, [i.encoding for i in v]) for a, v in program.items()]
        ctx.log('read', name, got)
        ctx.require(all(i.address == a for a, v in program.items() for i in v), 'candidate-address')
        ok = [c for c in allowed if c is not None and c == got]
        if not ok:
            kind = 'wrong-content' if must and not plan_hits(fs) else 'torn-content'
            raise Violation(kind, '{}: read {} but only {} can be there'.format(
                name, _short(got), [_short(c) for c in allowed]))
        if len(allowed) > 1 and ok[0] == allowed[0]:
            ctx.probe('old-content-read')
        want = [(a, [w[-1]]) for a, w in got]
        ctx.require([(a, [i.encoding for i in v]) for a, v in original.items()] == want, 'wrong-original',
                    lambda: _short([(a, [i.encoding for i in v]) for a, v in original.items()]))

    for s in case['steps']:
        name = s['file']
        if s['op'] == 'read':
            read(name, s['plan'], len(model.get(name, [None])) == 1 and name in model and model[name][0] is not None)
            continue
        if s['op'] == 'foreign':
            # something else is put where the solution was: a reader has to say so
            good = fs.get(name)
            fs.put(name, foreign(s, good))
            ctx.probe('foreign-file')
            model[name] = [None]
            size.pop(name, None)
            read(name, None, False)
            continue
        sol = s['solution']
        program = {a: [rc.CAPS(x, a) for x in w] for a, w, o in sol}
        originals = [rc.CAPS(w[o], a) for a, w, o in sol]
        bad = s['bad'] and sol
        if bad:
            # the original is not among the candidates of the last address
            a, w, o = sol[-1]
            originals[-1] = rc.CAPS(next(x for x in (0x01020304, 0x11121314, 0x21222324) if x not in w) if len(w) < 3
                                    else (max(w) ^ 1 if (max(w) ^ 1) not in w else 0x5a5a5a5a), a)
        ctx.probe('high-address', int(any(a >= 1 << 31 for a, _, _ in sol)))
        ctx.probe('original-not-last', int(any(o + 1 < len(w) for _, w, o in sol)))
        ctx.probe('many-entries', int(any(len(w) > 255 for _, w, _ in sol)))
        new = content(sol)
        before = rc.encs(program)
        fs.arm(s['plan'])
        crashed = False
        r = None
        with fs:
            try:
                r = ctx.call((writer or rc.io_.SolutionWriter()).write_binary, name,
                             originals if s['as_list'] else {i.address: [i] for i in originals}, program)
            except SimCrash:
                crashed = True
        hard = fs.hard
        if hard or fs.soft:
            ctx.nontrivial = True
        fs.restart()
        ctx.require(not fs.escapes, 'writes-elsewhere', lambda: str(fs.escapes))
        ctx.require(rc.encs(program) == before, 'save-changes-program')
        if bad and not isinstance(r, Raised) and not crashed and \
                originals[-1].encoding not in [i.encoding for i in program[sol[-1][0]]]:
            raise Violation('bad-solution-saved', 'the original is not a candidate but the save returned normally')
        old = model.get(name, [None])
        if r is None and not crashed:
            ctx.probe('save-acknowledged')
            b = len(fs.get(name) or b'')
            if name in size:
                ctx.probe('save-over-longer', int(b < size[name]))
                ctx.probe('save-over-shorter', int(b > size[name]))
            size[name] = b
            model[name] = [new]
        elif isinstance(r, Raised):
            ctx.probe('save-failed')
            if bad:
                # nothing may be taken for this solution
                ctx.probe('original-missing-rejected')
                model[name] = list(old) + [None]
            else:
                ctx.require(hard > 0, 'save-exception-' + r.type, lambda: repr(r))
                model[name] = list(old) + [new]
        elif crashed:
            model[name] = list(old) + [new] if not bad else list(old) + [None]
        else:
            raise Violation('save-result', repr(r))
        ctx.log('save', name, crashed, repr(r)[:60], len(fs.get(name) or b''))
        ctx.simtime += fs.written
        fs.written = 0
        read(name, None, len(model[name]) == 1)
    ctx.sig(case)


def plan_hits(fs):
    return fs.hard or fs.soft


def _short(x):
    return repr(x)[:200]
