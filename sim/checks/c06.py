"""C06: random damage always terminates with exactly the damage asked for"""
import math
from fractions import Fraction

from sim import progs, env
from sim.core import Invalid
from sim.checks import recovery as rc

ID = 'C06'
RUNS = dict(quick=42000, thorough=1440000)
BATCH = 60
DRAWS = 200000
RULE = ('case = program, percentage, bits per instruction and a stream of random numbers (adversarial phases of zeros, ones, '
        'alternation or constants, then a seeded generator); non-trivial = at least one instruction is damaged with two bits or more')
MEASURE = 'distinct (program, percentage, bits, stream, candidate lists)'
REAL = ['corruptors.RandomCorruptor', 'corruption.corrupt_program/corrupt_bits', 'capstone']
STUB = ['module random (simulated entropy source)', 'console']
TIME_UNIT = 'random draws'
MUST_FIRE = ['entropy-zeros', 'entropy-ones', 'entropy-alternate', 'entropy-const', 'all-damaged', 'percent-0',
             'gap-program', 'single-instruction', 'bits-max', 'already-damaged', 'undecodable-word',
             'addresses-unordered', 'field-damage', 'several-fields', 'field-candidates']
ASSUMPTIONS = ['an adversarial phase ends after a bounded number of draws: no generator repeats one number for ever']


def setup():
    rc.setup()


def gen(r, i, tier):
    n = r.int(1, 40) if r.chance(.8) else r.int(1, 4)
    if r.chance(.003):
        n = r.int(40, 2000)
    fns = progs.gen_program(r, n, .2, .4)
    phases = []
    for _ in range(r.below(4)):
        phases.append([r.choice(['zeros', 'ones', 'alternate', 'const:{}'.format(r.bits(32))]),
                       r.choice([1, 3, 10, 100, 2000])])
    pct = r.choice([0, 100, 50, 1, 10, 20, 30, 33, r.int(0, 100), r.float() * 100])
    bits = r.choice([1, 1, 2, 2, 3, 4, 5, 8 if n < 10 else 3])
    field = None
    if r.chance(.15):
        field = dict(at=r.below(n), parts=[r.chance(.6), r.chance(.5), r.chance(.5)], amount=r.choice([0, 1, 2, 2, 3, 4, 6]),
                     repeat=r.choice([1, 1, 2]))
        if field['parts'][0] and r.chance(.3):
            field['parts'] = [True, False, False]
    return dict(field=field, fns=fns, pct=pct, bits=bits, phases=phases, seed=r.below(1 << 30), pre=min(r.below(3), n - 1) if r.chance(.2) else 0,
                scramble=r.choice([0, 0, r.int(1, 1 << 20)]))


shrink = rc.shrink


def run(case, ctx):
    flat = rc.check_program(case)
    n = len(flat)
    if not 0 <= case['pct'] <= 100 or not 1 <= case['bits'] <= 9 or case['pre'] >= max(1, n):
        raise Invalid('arguments')
    for m, length in case['phases']:
        if not (m in ('zeros', 'ones', 'alternate') or m.startswith('const:')) or length > 5000:
            raise Invalid('phases')
        ctx.fault('entropy-' + m.split(':')[0])
    ctx.probe('percent-0', int(case['pct'] == 0))
    ctx.probe('single-instruction', int(n == 1))
    ctx.probe('gap-program', int(any(b[0] - a[0] > 4 for a, b in zip(flat, flat[1:]))))
    ctx.probe('undecodable-word', int(any(not progs.decodes(w) for _, w in flat)))
    if case.get('field'):
        return field_damage(case, ctx, flat)
    program = rc.scrambled(rc.from_list(rc.instructions(flat)), case['scramble'])
    ctx.probe('addresses-unordered', int(list(program) != sorted(program)))
    # some addresses may be damaged already
    pre = [a for a, _ in flat[:case['pre']]]
    for a in pre:
        w = program[a][0].encoding
        program[a].append(rc.CAPS(w ^ 1, a))
    before = rc.encs(program)
    ctx.probe('already-damaged', int(bool(pre)))
    free = n - len(pre)
    c = rc.RandomCorruptor(case['pct'], case['bits'], False)
    env.ENTROPY.reset(case['seed'], case['phases'], DRAWS)
    try:
        got = ctx.must('corrupt', c.corrupt, program)
    finally:
        ctx.simtime += env.ENTROPY.draws
        env.ENTROPY.reset(0)
    ctx.require(isinstance(got, dict) and sorted(got) == [a for a, _ in flat], 'addresses-changed')
    exact = min(max(1, math.ceil(Fraction(case['pct']) * n / 100)), free)
    rounded = min(max(1, math.ceil(max(1, n * (case['pct'] / 100)))), free)
    after = rc.encs(got)
    new = [a for a in after if after[a] != before[a]]
    ctx.log('damaged', sorted(after.items()))
    ctx.require(len(new) in (exact, rounded), 'wrong-amount-damaged',
                lambda: '{} of {} instructions damaged, {} percent asked (expected {})'.format(len(new), n, case['pct'], exact))
    two = False
    for a, w in flat:
        if a not in new:
            continue
        e = after[a]
        ctx.require(a not in pre, 'already-damaged-address-damaged-again', lambda: hex(a))
        ctx.require(all(i.address == a for i in got[a]), 'candidate-address', lambda: hex(a))
        ctx.require(e[0] == w, 'original-not-first', lambda: '{:#x}: {}'.format(a, [hex(x) for x in e[:8]]))
        ctx.require(len(set(e)) == len(e), 'duplicate-candidates', lambda: hex(a))
        ctx.require(all(0 <= x < 1 << 32 for x in e), 'candidate-no-word', lambda: hex(a))
        m = 0
        for x in e:
            m |= x ^ w
        k = bin(m).count('1')
        ctx.require(1 <= k <= case['bits'], 'too-many-bits-flipped', lambda: '{:#x}: {} bits, {} allowed'.format(a, k, case['bits']))
        ctx.require(len(e) == 1 << k, 'combinations-missing', lambda: '{:#x}: {} candidates for {} bits'.format(a, len(e), k))
        two = two or k > 1
        ctx.probe('bits-max', int(k == case['bits'] and k > 1))
    ctx.probe('all-damaged', int(len(new) == n))
    ctx.nontrivial = two
    ctx.sig(flat, case['pct'], case['bits'], sorted(after.items()))


FIELDS = [0xf0000000, 0x000007ff, 0x0ff00000]     # condition, registers, opcode


def field_damage(case, ctx, flat):
    """Damage confined to some fields of one instruction"""
    f = case['field']
    if not 0 <= f['at'] < len(flat) or len(f['parts']) != 3 or not 0 <= f['amount'] <= 8 or not 1 <= f['repeat'] <= 3:
        raise Invalid('field')
    program = rc.scrambled(rc.from_list(rc.instructions(flat)), case['scramble'])
    a, w = flat[f['at']]
    before = rc.encs(program)
    allowed = sum(m for m, on in zip(FIELDS, f['parts']) if on)
    ctx.probe('field-damage')
    ctx.probe('several-fields', int(sum(f['parts']) > 1))
    env.ENTROPY.reset(case['seed'], case['phases'], DRAWS)
    try:
        for _ in range(1 if f['repeat'] == 1 else 2):
            listed = list(before[a])
            got = ctx.must('corrupt', rc.corruption.corrupt_instruction, program, rc.CAPS(w, a), a, *(bool(x) for x in f['parts']),
                           amount=f['amount'])
            ctx.require(got is program[a], 'other-result')
            after = rc.encs(program)
            ctx.log(sorted(after.items()))
            ctx.require({k: v for k, v in after.items() if k != a} == {k: v for k, v in before.items() if k != a},
                        'other-addresses-changed')
            e = after[a]
            ctx.require(e[:len(listed)] == listed, 'listed-candidates-changed')
            new = e[len(listed):]
            ctx.probe('field-candidates', int(len(new) > 0))
            ctx.require(len(set(new)) == len(new) and w not in new, 'duplicate-candidates', lambda: '{:#x}: {}'.format(w, new))
            for x in new:
                ctx.require(0 <= x < 1 << 32 and not (x ^ w) & ~allowed, 'other-bits-flipped',
                            lambda: '{:#x}: {:#x}, fields {:#x}'.format(w, x, allowed))
                ctx.require(bin(x ^ w).count('1') <= f['amount'], 'too-many-bits-flipped',
                            lambda: '{:#x}: {:#x}, {} bits allowed'.format(w, x, f['amount']))
                ctx.require(progs.decodes(x), 'undecodable-candidate', lambda: hex(x))
            before = after
            ctx.nontrivial = ctx.nontrivial or len(new) > 1
    finally:
        ctx.simtime += env.ENTROPY.draws
        env.ENTROPY.reset(0)
    ctx.sig(flat, f, before[a])
