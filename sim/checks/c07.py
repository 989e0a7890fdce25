"""C07: recovery never discards the original instruction"""
from sim import progs
from sim.core import Raised
from sim.simfs import SimFS
from sim.checks import recovery as rc

ID = 'C07'
RUNS = dict(quick=7200, thorough=162000)
BATCH = 20
RULE = ('case = program and packet loss; the real driver recovers it on the simulated disk; the candidate lists are recorded '
        'at every pass; non-trivial = candidates were eliminated')
MEASURE = 'distinct (program, loss, candidate lists after every pass)'
REAL = ['recover_program.run_recovery', 'recuperator', 'metadata_collector', 'solution builders and quality', 'corruptors',
        'interleaver2d', 'capstone']
STUB = ['network loss (drawn as a set of lost packets)', 'disk', 'console']
TIME_UNIT = 'recovery passes'
MUST_FIRE = ['packet-loss', 'burst-loss', 'elimination', 'several-passes', 'undecodable-undamaged', 'gap-program',
             'push-pop-damaged', 'branch-damaged', 'several-functions']


def setup():
    rc.setup()


def gen(r, i, tier):
    return rc.gen_case(r, 1, 45, .2, .3, 400 if tier == 'quick' else 900, 7)


shrink = rc.shrink


def simulate(case, ctx, keep_scores=False):
    flat = rc.check_program(case)
    bits = rc.check_loss(case, len(flat))
    from sim.core import Invalid
    if rc.touched_invalid(flat, bits):
        raise Invalid('damaged word is no instruction')
    order = rc.order_of(case, ctx)
    l = case['loss']
    ctx.fault('packet-loss', len(l['lost_pos']))
    ctx.fault('burst-loss', int(len(l['lost_pos']) > 1))
    ctx.probe('gap-program', int(any(b[0] - a[0] > 4 for a, b in zip(flat, flat[1:]))))
    ctx.probe('undecodable-undamaged', int(any(not progs.decodes(w) for _, w in flat)))
    ctx.probe('several-functions', int(len(case['fns']) > 1))
    ctx.probe('single-instruction', int(len(flat) == 1))
    fs = SimFS(ctx)
    spy = rc.Spy(keep_scores)
    total = sum(1 << bin(b).count('1') for b in bits)
    spy.limit = 4 * total + 10
    r = rc.run_recovery(case, ctx, rc.packet_corruptor(case, order, len(flat)), spy, fs)
    for i, (a, w) in enumerate(flat):
        if bits[i] and (w & 0x0fff0000) in (0x092d0000, 0x08bd0000):
            ctx.probe('push-pop-damaged')
        if bits[i] and (w >> 25 & 7) == 5:
            ctx.probe('branch-damaged')
    ctx.simtime += len(spy.passes)
    return flat, bits, fs, spy, r


def run(case, ctx):
    flat, bits, fs, spy, r = simulate(case, ctx)
    states = list(spy.passes)
    if spy.program is not None:
        states.append(rc.encs(spy.program))
    for p, s in enumerate(states):
        for i, (a, w) in enumerate(flat):
            have = s.get(a)
            ctx.require(have is not None, 'address-lost', lambda: '{:#x} in pass {}'.format(a, p))
            if p == 0 and w not in have:
                return          # the damage itself lost it; not a matter of the recovery
            ctx.require(w in have, 'original-discarded',
                        lambda: '{:#x}: {:#010x} ({}) was discarded in pass {} of {}; left: {}'.format(
                            a, w, rc.CAPS(w, a), p, len(spy.passes), [hex(x) for x in have[:6]]))
            if not bits[i]:
                ctx.require(have == [w], 'undamaged-address-changed', lambda: '{:#x}: {}'.format(a, have[:5]))
        ctx.log(p, sorted(s.items()))
    if states:
        a, b = sum(map(len, states[0].values())), sum(map(len, states[-1].values()))
        ctx.probe('elimination', int(b < a))
        ctx.probe('several-passes', int(len(spy.passes) > 2))
        ctx.nontrivial = b < a
    if isinstance(r, Raised):
        ctx.probe('driver-raised')
    ctx.sig(flat, case['loss'], [sorted(s.items()) for s in states])
