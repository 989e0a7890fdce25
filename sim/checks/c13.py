"""C13: recovery sessions in one process do not influence each other"""
import contextlib
import os

from sim import progs, env
from sim.core import Invalid, Raised, Violation
from sim.prng import Prng
from sim.sched import Scheduler
from sim.simfs import SimFS
from sim.checks import recovery as rc

ID = 'C13'
RUNS = dict(quick=1600, thorough=31000)
BATCH = 5
RULE = ('case = two to four sessions (transfer, damage, metadata, recovery, pruning, saving, reading) and a thread schedule '
        'of quanta in executed lines; every result is compared with the session run alone in a fresh process state; '
        'non-trivial = threads were switched at least twice')
MEASURE = 'distinct (sessions, schedule, lines at which threads were switched)'
REAL = ['interleaver2d', 'bits', 'corruptors', 'recuperator', 'metadata collectors', 'solution builders, quality, reader and '
        'writer', 'disassembler_readers', 'Python threads']
STUB = ['thread scheduler (line tracing)', 'disk', 'network loss', 'console']
TIME_UNIT = 'executed lines or byte code instructions'
MUST_FIRE = ['thread-switch', 'switch-every-line', 'long-quanta', 'switch-in-one-module', 'switch-inside-lines', 'sequential', 'same-program-twice', 'transfer', 'damage',
             'recover', 'constrain', 'save', 'read-listing', 'three-sessions', 'repeat-in-session', 'different-order',
             'error-list']
ASSUMPTIONS = ['the report writer redirects the process-wide standard output and is left out of concurrent sessions',
               'preemption happens between lines or byte code instructions of the code under test']

# modules that sessions run through
USED = ['interleaver2d.py', 'bits.py', 'corruption.py', 'corruptors.py', 'recuperator.py', 'metadata_collector.py',
        'solution_builders.py', 'solution_quality.py', 'solution_io.py', 'disassembler_readers.py', 'rules.py', 'functions.py',
        'capstone_instruction.py', 'instruction.py']

STEPS = ['transfer', 'damage', 'recover', 'constrain', 'save', 'read-listing', 'quality', 'solution']


def setup():
    global readers, bits_mod, FILES
    rc.setup()
    FILES = sorted(f for _, _, fs in os.walk(os.path.join(env.REPO, 'semantic_codec')) for f in fs if f.endswith('.py'))
    FILES = [f for f in FILES if f in USED] or FILES
    from semantic_codec.architecture import disassembler_readers as readers
    from semantic_codec.architecture import bits as bits_mod


def gen(r, i, tier):
    n = r.choice([2, 2, 2, 3, 4])
    sessions = []
    for k in range(n):
        if k and r.chance(.25):
            s = dict(sessions[0])
        else:
            s = rc.gen_case(r, 1, 12, .1, .3, 60, 4, scale=False)
        s['steps'] = ['transfer', 'damage'] + [x for x in STEPS[2:] if r.chance(.7)]
        if r.chance(.2):
            s['steps'] = s['steps'] + ['transfer', 'damage', 'recover']
        sessions.append(s)
    style = r.below(8)
    quanta = []
    if style == 0:
        quanta = [[t % n, 1] for t in range(r.int(50, 600))]
    elif style == 1:
        quanta = [[r.below(n), r.int(1, 30)] for _ in range(r.int(10, 200))]
    elif style == 2:
        quanta = [[r.below(n), r.int(1, 4000)] for _ in range(r.int(2, 30))]
    elif style == 3:
        quanta = []                               # one after the other
    elif style > 4:
        # preemptions in one module only
        f = r.choice(FILES)
        most = r.choice([1, 3, 20, 200])
        quanta = [[r.below(n), r.int(1, most), f] for _ in range(r.int(5, 300))]
    else:
        # a few preemptions, each somewhere else
        quanta = [[j % n, r.int(1, 6000)] for j in range(r.int(2, 5))] + [[r.below(n), r.int(1, 60)] for _ in range(6)]
    return dict(sessions=sessions, quanta=quanta, order=r.chance(.3), opcodes=r.chance(.3))


def shrink(case):
    s = case['sessions']
    for i in range(len(s)):
        if len(s) > 1:
            yield dict(case, sessions=s[:i] + s[i + 1:])
    for i in range(len(s)):
        for k in range(len(s[i]['steps']) - 1, 1, -1):
            yield dict(case, sessions=s[:i] + [dict(s[i], steps=s[i]['steps'][:k] + s[i]['steps'][k + 1:])] + s[i + 1:])
    q = case['quanta']
    for part in (q[:len(q) // 2], q[len(q) // 2:]):
        if len(part) < len(q):
            yield dict(case, quanta=part)
    for i in range(len(s)):
        for p in rc.shrink(s[i]):
            yield dict(case, sessions=s[:i] + [p] + s[i + 1:])


def attempt(fn, *a):
    try:
        return fn(*a)
    except Exception as e:
        if not env.in_repo(e.__traceback__):
            raise
        return 'raised ' + type(e).__name__


def session(s, name):
    """-> function running the session; its result is a list of plain values"""
    def go():
        out = []
        flat = progs.flat(s['fns'])
        l = s['loss']
        words = [w for _, w in flat]
        fns_addr = progs.ends(s['fns'])
        order = rc.il.build_2d_interleave_sp(l['packets'], flat=True)
        out.append([int(x) for x in order])
        program, meta = rc.from_list(rc.instructions(flat)), None
        for step in s['steps']:
            if step == 'transfer':
                packets = rc.il.interleave(words, order, l['ws'])
                lost = [order[p] for p in l['lost_pos']]
                got = {p: q for p, q in packets.items() if p not in lost}
                if got:
                    r = attempt(rc.il.deinterleave, got, order, l['ws'])
                    out.append(r if isinstance(r, str) else (list(r[0]), list(r[1])))
            elif step == 'damage':
                program = rc.from_list(rc.instructions(flat))
                r = attempt(rc.packet_corruptor(s, order, len(flat)).corrupt, program)
                out.append(r if isinstance(r, str) else [(a, [i.encoding for i in v]) for a, v in sorted(r.items())])
            elif step == 'recover':
                meta = rc.MetadataCollector()
                meta.collect(rc.instructions(flat))
                out.append((sorted(meta.condition_count.items()), sorted(meta.instruction_count.items()),
                            sorted(meta.storage_count.items()), sorted(meta.storage_min_dist.items()),
                            sorted(meta.storage_max_dist.items())))
                for p in range(2):
                    r = rc.ProbabilisticRecuperator(meta, program, functions=fns_addr)
                    attempt(r.recover)
                    out.append([(a, [(i.encoding, i.ignore or i.score()) for i in v]) for a, v in sorted(program.items())])
                    out.append([attempt(rc.rp.remove_bad_candidates_at_addr, program[a]) for a in sorted(program)])
            elif step == 'constrain':
                b = rc.builders.ForwardConstraintSolutionEnumerator(program, rc.instructions(flat))
                attempt(b.build)
                out.append((b.solution_size, b.solution, sorted(rc.encs(program).items())))
            elif step == 'solution':
                b = rc.builders.ForwardConstraintSolutionBuilder(program, rc.instructions(flat))
                attempt(b.build)
                out.append((b.solution_size, list(b.solution.get_bytes())))
            elif step == 'quality':
                q = rc.SolutionQuality(program, rc.instructions(flat))
                out.append((q.solution_count, q.solution_size, sorted(q.solution_count_bins.items()),
                            attempt(lambda: q.highest_depth)))
            elif step == 'save':
                r = attempt(rc.io_.SolutionWriter().write_binary, name + '.sol', rc.instructions(flat), program)
                out.append(r)
                r = attempt(rc.io_.SolutionReader().read, name + '.sol')
                out.append(r if isinstance(r, str) else [sorted(rc.encs(x).items()) for x in r])
                r = attempt(rc.corruption.save_corrupted_program_to_json, program, name + '.json')
                r = attempt(rc.corruption.load_corrupted_program_from_json, name + '.json')
                out.append(r if isinstance(r, str) else [(a, [i.encoding for i in v]) for a, v in r.items()])
            elif step == 'read-listing':
                r = attempt(readers.ElfioTextDisassembleReader(name + '.lst').read)
                out.append(r if isinstance(r, str) else
                           ([(str(f), [(i.address, i.encoding) for i in f.instructions]) for f in r[0]],
                            [(i.address, i.encoding, str(i)) for i in r[1]]))
            else:
                raise Invalid('step')
        return out
    return go


def listing(s):
    out = ['.functions'] + ['{:#x};f{}'.format(f['addr'], i) for i, f in enumerate(s['fns'])] + ['', '.text']
    out += ['{:#x};{:x};x;y'.format(a, w) for a, w in progs.flat(s['fns'])]
    return '\n'.join(out) + '\n'


def run(case, ctx):
    ss = case['sessions']
    if not ss:
        raise Invalid('sessions')
    for s in ss:
        flat = rc.check_program(s)
        bits = rc.check_loss(s, len(flat), 2000)
        if rc.touched_invalid(flat, bits) or not s['steps'] or any(x not in STEPS for x in s['steps']):
            raise Invalid('session')
        for x in s['steps']:
            ctx.probe(x)
        ctx.probe('repeat-in-session', int(len(set(s['steps'])) < len(s['steps'])))
    if any(len(q) not in (2, 3) or q[1] < 1 or q[0] < 0 for q in case['quanta']):
        raise Invalid('quanta')
    fs = SimFS(ctx)
    names = ['s{}'.format(i) for i in range(len(ss))]
    for n, s in zip(names, ss):
        fs.put(n + '.lst', listing(s).encode())
    # each one alone, in a process of its own (forked: nothing of it is left behind)
    from sim.core import in_fork_pickled
    alone = [in_fork_pickled(lambda s=s, n=n: alone_run(s, n)) for n, s in zip(names, ss)]
    idx = list(range(len(ss)))
    if case['order']:
        idx.reverse()
        ctx.probe('different-order')
    sch = Scheduler([session(ss[i], names[i]) for i in idx], case['quanta'], opcodes=case['opcodes'])
    with fs:
        results, errors = sch.run()
    for e in errors:
        if e is not None and not env.in_repo(e.__traceback__):
            raise e
    ctx.simtime += sum(sch.lines)
    ctx.fault('thread-switch', sch.switches)
    ctx.probe('switch-inside-lines', int(case['opcodes'] and sch.switches > 0))
    ctx.probe('switch-every-line', int(len(case['quanta']) > 40 and all(q[1] == 1 for q in case['quanta'])))
    ctx.probe('long-quanta', int(any(q[1] > 1000 for q in case['quanta'])))
    ctx.probe('switch-in-one-module', int(any(len(q) > 2 for q in case['quanta']) and sch.switches > 1))
    ctx.probe('sequential', int(not case['quanta']))
    ctx.probe('three-sessions', int(len(ss) > 2))
    ctx.probe('same-program-twice', int(len(set(repr(s['fns']) for s in ss)) < len(ss)))
    for k, i in enumerate(idx):
        want = alone[i]
        if want is None:
            raise RuntimeError('the session alone could not be run')
        got = repr(results[k]) if errors[k] is None else 'raised ' + type(errors[k]).__name__
        ctx.probe('error-list', int('raised' not in got))
        if got != want:
            at = next((j for j in range(min(len(got), len(want))) if got[j] != want[j]), 0)
            raise Violation('sessions-interfere', 'session {} of {} ({} switches): ...{}... alone ...{}...'.format(
                i, len(ss), sch.switches, got[max(0, at - 60):at + 60], want[max(0, at - 60):at + 60]))
        ctx.log(i, got)
    ctx.nontrivial = sch.switches >= 2
    ctx.sig(case['sessions'], sch.trace_log)


def alone_run(s, name):
    fs = SimFS()
    fs.put(name + '.lst', listing(s).encode())
    with contextlib.redirect_stdout(env.Sink()):
        with fs:
            try:
                return repr(session(s, name)())
            except Exception as e:
                if not env.in_repo(e.__traceback__):
                    raise
                return 'raised ' + type(e).__name__
