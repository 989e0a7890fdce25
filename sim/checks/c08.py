"""C08: the recovery driver always finishes and its results can be read back"""
import struct

from sim import progs, env
from sim.core import Invalid, Raised, Violation
from sim.prng import Prng
from sim.simfs import SimFS
from sim.checks import recovery as rc

ID = 'C08'
RUNS = dict(quick=8800, thorough=218000)
BATCH = 20
RULE = ('case = program and damage (lost packets, random damage, or a damaged program replayed from JSON); the real driver '
        'runs to its end on the simulated disk and both solution files are read back; non-trivial = some address was ambiguous')
MEASURE = 'distinct (program, damage, candidate lists after every pass)'
REAL = ['recover_program.run_recovery', 'recuperator', 'metadata_collector', 'solution builders, quality, reader and writer',
        'corruptors', 'interleaver2d', 'capstone']
STUB = ['network loss (drawn as a set of lost packets)', 'disk', 'console', 'module random']
TIME_UNIT = 'recovery passes'
MUST_FIRE = ['undecided-at-the-end', 'packet-loss', 'random-damage', 'json-replay', 'undecodable-undamaged', 'gap-program', 'single-instruction',
             'nothing-ambiguous', 'all-resolved', 'several-passes', 'several-functions', 'short-write', 'short-read',
             'passes-2', 'scripted-scores', 'earlier-outputs', 'huge-count']


def setup():
    rc.setup()


def gen(r, i, tier):
    kind = r.weighted([('packets', 6), ('random', 2), ('json', 2), ('scripted', 1)])
    case = rc.gen_case(r, 1, 40, 0.0 if kind == 'random' else .25, .35, 350 if tier == 'quick' else 900, 7,
                       long=.05 if kind == 'scripted' else None, alike=.002)
    if r.chance(.08):
        n = progs.count(case['fns'])
        n_p = n * 32 // case['loss']['ws'] + r.int(1, 8)
        case['loss'] = dict(packets=n_p, ws=case['loss']['ws'], lost_pos=[n_p - 1])
    if kind == 'scripted':
        styles = r.choice([['one', 'one', 'few', 'half', 'rest', 'certain'], ['one'], ['one', 'one', 'few']])
        case['script'] = [[[r.below(1000), r.choice(styles), r.below(1 << 20)] for _ in range(r.choice([1, 1, 2, 5]))]
                          for _ in range(r.choice([r.int(1, 6), r.int(1, 6), r.int(6, 80)]))]
    case.update(kind=kind, pct=min(r.choice([1, 10, 20, 50, 100]), max(1, 10000 // progs.count(case['fns']))), bits=r.int(1, 3), seed=r.below(1 << 30),
                passes=r.choice([1, 1, 2]), old=r.choice([0, 0, 0, 1, 2]),
                disk=dict(blksize=r.choice([8192, 512, 64, 16]),
                          faults=[['write', r.below(40), 'short', r.below(40)] for _ in range(r.below(4))] +
                                 [['read', r.below(20), 'short', r.below(20)] for _ in range(r.below(3))]))
    return case


def shrink(case):
    for c in rc.shrink(case):
        yield c
    for p in range(len(case.get('script', []))):
        yield dict(case, script=case['script'][:p] + case['script'][p + 1:])


class Scripted(rc.Spy):
    """A recuperator with scores of its own: who rules what out when is drawn, not computed"""

    def __init__(self, script, flat):
        super(Scripted, self).__init__()
        self.script, self.words = script, dict(flat)

    def __call__(self, *a, **k):
        real = super(Scripted, self).__call__(*a, **k)
        spy, program, words = self, self.program, self.words
        plan = self.script[len(self.passes) - 1] if len(self.passes) <= len(self.script) else []

        class R(object):
            passes = real.passes

            def recover(self):
                for v in program.values():
                    for i in v:
                        if not i.ignore:        # those score 0 anyway
                            i.score_function = lambda scores, inst: .5
                many = [a for a in sorted(program) if len(program[a]) > 1]
                for where, style, seed in plan:
                    if not many:
                        break
                    a = many[where % len(many)]
                    others = [i for i in program[a] if i.encoding != words[a] and not i.ignore]
                    Prng('script', seed).shuffle(others)
                    if style == 'certain':
                        # whoever is as certain as the original stays
                        for i in program[a]:
                            if i.encoding == words[a] or i in others[:seed % 2]:
                                i.score_function = lambda scores, inst: 1
                    else:
                        n = dict(one=1, few=3, half=len(others) // 2, rest=len(others))[style]
                        for i in others[:n]:
                            i.score_function = lambda scores, inst: 0
                spy.last = {a: [(i.encoding, i.score()) for i in v] for a, v in program.items() if len(v) > 1}
        return R()


def run(case, ctx):
    flat = rc.check_program(case)
    n = len(flat)
    bits = rc.check_loss(case, n)
    if case['kind'] == 'random':
        if any(not progs.decodes(w) for _, w in flat) or not 1 <= case['bits'] <= 4 or not 0 <= case['pct'] <= 100:
            raise Invalid('random damage')
    elif rc.touched_invalid(flat, bits):
        raise Invalid('damaged word is no instruction')
    if case['passes'] not in (1, 2) or case['old'] not in (0, 1, 2) or any(f[2] != 'short' for f in case['disk']['faults']):
        raise Invalid('arguments')
    ctx.probe('passes-2', int(case['passes'] == 2))
    ctx.probe('gap-program', int(any(b[0] - a[0] > 4 for a, b in zip(flat, flat[1:]))))
    ctx.probe('undecodable-undamaged', int(any(not progs.decodes(w) for _, w in flat)))
    ctx.probe('single-instruction', int(n == 1))
    ctx.probe('several-functions', int(len(case['fns']) > 1))
    fs = SimFS(ctx, case['disk'])
    if case['old']:
        # what an earlier run on another program left behind
        ctx.probe('earlier-outputs')
        body = struct.pack('<QL', 0xA0C1E2F3A4C5E6F7, n) + b''.join(struct.pack('<LLL', a, 1, w ^ 0x1000) for a, w in flat)
        for name in ('initial_solution.sol', 'final_solution.sol'):
            fs.put(name, body if case['old'] == 1 else b'old ' * 999)
    order = rc.order_of(case, ctx)
    corruptor = rc.packet_corruptor(case, order, n)
    if case['kind'] == 'random':
        ctx.fault('random-damage')
        env.ENTROPY.reset(case['seed'], [], 200000)
        corruptor = rc.RandomCorruptor(case['pct'], case['bits'], False)
    else:
        ctx.fault('packet-loss', len(case['loss']['lost_pos']))
    if case['kind'] == 'json':
        ctx.probe('json-replay')
        first = rc.packet_corruptor(case, order, n, path='damaged.json')
        with fs:
            ctx.must('damage', first.corrupt, rc.from_list(rc.instructions(flat)))
        corruptor = rc.JSONCorruptor('damaged.json')
    spy = rc.Spy()
    if case['kind'] == 'scripted':
        spy = Scripted(case['script'], flat)
        ctx.probe('scripted-scores')
    spy.limit = sum(1 << bin(b).count('1') for b in bits) + (1 << case['bits']) * n + 2
    r = rc.run_recovery(case, ctx, corruptor, spy, fs, case['passes'])
    env.ENTROPY.reset(0)
    ctx.simtime += len(spy.passes)
    if spy.passes:
        product = 1
        for v in spy.passes[0].values():
            product *= len(v)
        ctx.probe('huge-count', int(product.bit_length() > 2130))
    ctx.require(not isinstance(r, Raised), 'driver-exception-' + getattr(r, 'type', ''), lambda: repr(r))
    ctx.require(not fs.escapes, 'writes-elsewhere', lambda: str(fs.escapes))
    if spy.program is None:
        raise Violation('no-recovery', 'the recuperator was never built')
    states = list(spy.passes) + [rc.encs(spy.program)]
    ctx.require(len(spy.passes) <= sum(len(v) for v in states[0].values()) + 1, 'too-many-passes',
                lambda: '{} passes'.format(len(spy.passes)))
    for p in range(1, len(states)):
        for a in states[0]:
            x, y = states[p - 1].get(a), states[p].get(a)
            ctx.require(y is not None, 'address-lost', lambda: hex(a))
            left = list(x)
            for e in y:
                if e not in left:
                    raise Violation('candidates-grow', 'pass {} at {:#x}: {:#x} was not there before'.format(p, a, e))
                left.remove(e)
            ctx.require(y, 'candidates-empty', lambda: 'pass {} at {:#x}'.format(p, a))
        ctx.require(sorted(states[p]) == sorted(states[0]), 'addresses-changed')
        ctx.log(p, sorted(states[p].items()))
    # the driver only stops when the scores rule out nothing any more: the removals of a pass may make room for more
    for a, v in sorted(spy.last.items()):
        some = any(s == 1 for _, s in v)
        left = [e for e, s in v if s == 0 or some and s != 1]
        ctx.probe('undecided-at-the-end')
        ctx.require(not left, 'stopped-early', lambda: '{:#x}: {} of {} candidates were ruled out in the last pass'.format(
            a, len(left), len(v)))
    # both files read back
    for name, state in (('initial_solution.sol', states[0]), ('final_solution.sol', states[-1])):
        ctx.require(fs.get(name) is not None, 'file-missing', lambda: name)
        with fs:
            res = ctx.call(rc.io_.SolutionReader().read, name)
        ctx.require(not isinstance(res, Raised), 'file-unreadable', lambda: '{}: {}'.format(name, res))
        original, program = res
        got = {a: [i.encoding for i in v] for a, v in original.items()}
        ctx.require(got == {a: [w] for a, w in flat}, 'wrong-original',
                    lambda: '{}: {}'.format(name, [(hex(a), [hex(x) for x in got.get(a, [])], hex(w)) for a, w in flat
                                                   if got.get(a) != [w]][:4]))
        for a, v in program.items():
            extra = [i.encoding for i in v if i.encoding not in state[a]]
            ctx.require(not extra, 'unknown-candidate', lambda: '{} at {:#x}: {}'.format(name, a, extra[:5]))
        ctx.log(name, sorted(rc.encs(program).items()))
    amb = max(len(v) for v in states[0].values())
    ctx.probe('nothing-ambiguous', int(amb == 1))
    ctx.probe('all-resolved', int(amb > 1 and max(len(v) for v in states[-1].values()) == 1))
    ctx.probe('several-passes', int(len(spy.passes) > 2))
    ctx.nontrivial = amb > 1
    ctx.sig(flat, case['kind'], [sorted(s.items()) for s in states])
