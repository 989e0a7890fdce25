"""C19: constraint pruning never loses the original program"""
import math

from sim.core import Invalid, Violation
from sim.checks import recovery as rc, history
from sim.checks.c09 import recount, attributes
from sim.prng import Prng

ID = 'C19'
RUNS = dict(quick=20000, thorough=436000)
BATCH = 20
RULE = ('case = program, loss, elimination history; either the enumerator prunes the candidates (several times, in a drawn order '
        'of addresses) or the constraint problem of a small damaged program is solved; non-trivial = an address was ambiguous')
MEASURE = 'distinct (candidate lists before, after pruning / solutions)'
REAL = ['solution_builders.ForwardConstraintSolutionEnumerator', 'solution_builders.ProblemBuilder/ExactFieldSumConstraint',
        'MetadataCollector', 'python-constraint', 'recuperator and corruptor (history)', 'capstone']
STUB = ['network loss (drawn as a set of lost packets)', 'console']
TIME_UNIT = 'addresses decided'
MUST_FIRE = ['recovery-pass', 'eliminated', 'ignored', 'candidates-reordered', 'addresses-reordered', 'pruned',
             'pruned-to-one', 'problem-solved', 'several-solutions', 'unique-solution', 'pruned-again',
             'gap-program', 'undecodable-undamaged', 'repeated-words', 'same-text-candidates']
ASSUMPTIONS = ['damaged words are instructions', 'constraint problems of 2 or more addresses (python-constraint itself fails with one) and at most 1500 combinations are solved']


def setup():
    rc.setup()


def gen(r, i, tier):
    mode = r.choice(['prune', 'prune', 'problem'])
    if mode == 'prune':
        c = rc.gen_case(r, 1, 40, .2, .3, 400 if tier == 'quick' else 1200, 7)
    else:
        c = rc.gen_case(r, 2, r.choice([6, 12, 20]), .15, .3, 60, 4, scale=False)
    c.update(mode=mode, hist=history.gen_history(r), again=r.chance(.4), cap=r.below(1 << 20))
    return c


shrink = rc.shrink


def run(case, ctx):
    from sim import progs
    flat = rc.check_program(case)
    if case['mode'] not in ('prune', 'problem'):
        raise Invalid('mode')
    if rc.touched_invalid(flat, rc.check_loss(case, len(flat))):
        raise Invalid('damaged word is no instruction')
    original, program = rc.damaged(case, ctx, flat)
    words = dict(flat)
    if case['mode'] == 'problem':
        if len(program) < 2:
            raise Invalid('python-constraint cannot solve problems of one variable under Python 3')
        # keep the number of combinations small
        r = Prng('cap', case['cap'])
        product = 1
        for a in r.sample(sorted(program), len(program)):
            v = program[a]
            room = 1500 // product
            if len(v) > room:
                others = [c for c in v if c.encoding != words[a]]
                others = r.sample(others, max(0, room - 1)) if room > 1 else []
                keep = set(id(c) for c in others)
                v[:] = [c for c in v if c.encoding == words[a] or id(c) in keep]
            product *= len(v)
    if not history.apply(case['hist'], flat, case['fns'], program, ctx):
        ctx.probe('original-not-listed')
        return
    ctx.probe('gap-program', int(any(b[0] - a[0] > 4 for a, b in zip(flat, flat[1:]))))
    ctx.probe('undecodable-undamaged', int(any(not progs.decodes(w) for _, w in flat)))
    ctx.probe('repeated-words', int(len(set(w for _, w in flat)) < len(flat)))
    before = [(a, [i.encoding for i in v]) for a, v in program.items()]
    ctx.nontrivial = any(len(v) > 1 for _, v in before)
    ctx.probe('same-text-candidates', int(any(
        c.encoding != words[a] and not c.is_undefined and str(c) == str(rc.CAPS(words[a], a))
        for a, v in program.items() for c in v)))
    if case['mode'] == 'prune':
        for attempt in range(2 if case['again'] else 1):
            prev = rc.encs(program)
            e = ctx.must('new', rc.builders.ForwardConstraintSolutionEnumerator, program, rc.instructions(flat))
            ctx.must('build', e.build)
            after = rc.encs(program)
            check_pruned(prev, after, words, ctx)
            product = 1
            for v in prev.values():
                product *= len(v)
            ctx.require(isinstance(e.solution, int) and 1 <= e.solution <= product, 'solution-index',
                        lambda: '{} of {}'.format(e.solution, product))
            ctx.require(abs(e.solution_size - math.log2(e.solution)) < 1e-6, 'solution-size',
                        lambda: '{} for {}'.format(e.solution_size, e.solution))
            if after != prev:
                ctx.probe('pruned')
                ctx.probe('pruned-to-one', int(any(len(after[a]) == 1 < len(prev[a]) for a in after)))
            ctx.probe('pruned-again', int(attempt > 0))
            ctx.log(list(after.items()), e.solution)
            ctx.sig(before, list(after.items()))
            ctx.simtime += len(after)
        return
    # the constraint problem
    m = rc.MetadataCollector()
    m.collect(rc.instructions(flat))
    problem = ctx.must('build-problem', rc.builders.ProblemBuilder().build, program, m)
    solutions = ctx.must('solve', problem.getSolutions)
    ctx.require(rc.encs(program) == dict(before), 'problem-changed-program')
    true = recount(flat)
    combos = set()
    for s in solutions:
        ctx.require(sorted(s) == sorted(words), 'solution-addresses', lambda: str(sorted(map(hex, set(words) ^ set(s)))))
        got = ({}, {}, {})
        for a, c in s.items():
            ctx.require(any(c is x for x in program[a]), 'foreign-candidate')
            at = None if c.ignore else attributes(c.encoding, a)
            if at is None:
                continue
            for d, ks in zip(got, ([at[0]], [at[1]], at[2])):
                for k in ks:
                    d[k] = d.get(k, 0) + 1
        for name, g, t in zip(('conditions', 'opcodes', 'storages'), got, true):
            ctx.require(g == t, 'wrong-counts-in-solution', lambda: '{}: {} instead of {} in {}'.format(
                name, g, t, {hex(a): hex(c.encoding) for a, c in s.items() if c.encoding != words[a]}))
        combos.add(tuple(s[a].encoding for a in sorted(s)))
    want = tuple(words[a] for a in sorted(words))
    ctx.require(want in combos, 'original-not-a-solution', lambda: '{} solutions'.format(len(combos)))
    ctx.probe('problem-solved')
    ctx.probe('several-solutions', int(len(combos) > 1))
    ctx.probe('unique-solution', int(len(combos) == 1 and ctx.nontrivial))
    ctx.log(sorted(combos))
    ctx.sig(before, sorted(combos))
    ctx.simtime += len(words)


def check_pruned(prev, after, words, ctx):
    ctx.require(sorted(prev) == sorted(after), 'address-lost')
    for a in prev:
        ctx.require(after[a], 'list-emptied', lambda: hex(a))
        ctx.require(words[a] in after[a], 'original-pruned', lambda: '{:#x}: {:#010x} {}'.format(
            a, words[a], str(rc.CAPS(words[a], a))))
        extra = list(prev[a])
        for x in after[a]:
            ctx.require(x in extra, 'list-grew', lambda: '{:#x}: {:#010x}'.format(a, x))
            extra.remove(x)
