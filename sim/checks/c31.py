"""C31: sender and receiver stay in step, and the side information completes the program"""
import copy

from sim import net, progs
from sim.core import Invalid, Raised, Violation
from sim.prng import Prng
from sim.simfs import SimFS
from sim.checks import recovery as rc, transfer
from sim.checks.c18 import bits_for

ID = 'C31'
RUNS = dict(quick=4500, thorough=110000)
BATCH = 20
RULE = ('case = program, packet configuration, network fault plan and receiver restarts; sender and receiver run as two nodes: '
        'transfer, loss report, metadata, recovery on both sides, side information, reconstruction; non-trivial = packets '
        'with data were lost and the side information had bits')
MEASURE = 'distinct (program, arrival order, loss, candidate lists after every pass, side information)'
REAL = ['interleaver2d (both ends)', 'bits.BitQueue', 'corruptors.PacketCorruptor (both ends)', 'corruption JSON save and load',
        'metadata_collector', 'recuperator (both ends)', 'recover_program.remove_bad_candidates_at_addr',
        'solution_builders.ForwardConstraintSolutionBuilder', 'capstone']
STUB = ['network (virtual-time event queue with explicit fault plan)', 'receiver disk', 'decoder of the side information '
        '(the repository has none)', 'console']
TIME_UNIT = 'virtual seconds'
MUST_FIRE = ['reorder', 'duplicate', 'delay', 'loss', 'receiver-restart', 'restart-during-recovery', 'short-write', 'short-read',
             'stream-used', 'resolved-without-stream', 'undecodable-zeroed', 'several-passes', 'gap-program',
             'retransmission', 'several-functions']
ASSUMPTIONS = ['damaged words are instructions', 'metadata, addresses, loss reports and side information arrive (they are sent '
               'reliably)', 'the receiver orders addresses by candidate count, ties in program order']


def setup():
    rc.setup()
    transfer.setup()


def gen(r, i, tier):
    case = rc.gen_case(r, 1, 40, .15, .3, 300 if tier == 'quick' else 900, 7)
    n = case['loss']['packets']
    plan = net.gen_plan(r, n, False) if r.chance(.85) else dict(net.EMPTY, drop=[], burst=[], cut=[], dup=[], delay=[], restart=[])
    case.update(plan=plan, reported=r.choice([0, r.int(1, 1 << 20)]), sent_loss=r.choice([0, r.int(1, 1 << 20)]),
                restarts=r.choice([[], [0], [1], [1], [1], [0, 1], [1, 2], [1, 2, 3], sorted(r.below(6) for _ in range(3))]), extra=[r.below(n) for _ in range(r.choice([0, 0, 0, 1, 2]))],
                mark=r.chance(.3),
                disk=dict(blksize=r.choice([8192, 512, 64]),
                          faults=[['write', r.below(6), 'short', r.below(60)] for _ in range(r.below(3))] +
                                 [['read', r.below(6), 'short', r.below(60)] for _ in range(r.below(3))]))
    return case


def shrink(case):
    for c in rc.shrink(case):
        yield c
    if case['restarts']:
        yield dict(case, restarts=case['restarts'][1:])
    if case['extra']:
        yield dict(case, extra=case['extra'][1:])


def shuffled(xs, seed):
    xs = list(xs)
    if seed:
        Prng('report', seed).shuffle(xs)
    return xs


class Node(object):
    """One side's view of the damaged program"""

    def __init__(self, ctx, name, words, addrs, meta, fns):
        self.ctx, self.name, self.addrs = ctx, name, addrs
        self.words, self.meta, self.fns = words, meta, fns
        self.program = None

    def damage(self, order, loss, lost):
        n = len(self.addrs)
        c = rc.PacketCorruptor(loss['packets'], n, interleave=order, packets_lost=lost, bits_per_interleave=loss['ws'])
        self.program = self.ctx.must(self.name + '-damage', c.corrupt,
                                     rc.from_list([rc.CAPS(w, a) for a, w in zip(self.addrs, self.words)]))

    def one_pass(self):
        """-> scores of the pass, number of eliminated candidates"""
        r = rc.ProbabilisticRecuperator(self.meta, self.program, functions=self.fns)
        self.ctx.must(self.name + '-recover', r.recover)
        scores = [(a, [(i.encoding, i.score(), sorted(i.scores_by_rule.items()) if len(self.program[a]) > 1 else 0) for i in self.program[a]]) for a in sorted(self.program)]
        gone = sum([self.ctx.must(self.name + '-remove', rc.rp.remove_bad_candidates_at_addr, self.program[a])
                    for a in self.program])
        return scores, gone

    def lists(self):
        return [(a, [i.encoding for i in self.program[a]]) for a in sorted(self.program)]


def run(case, ctx):
    flat = rc.check_program(case)
    n, l = len(flat), case['loss']
    bits = rc.check_loss(case, n)
    if rc.touched_invalid(flat, bits):
        raise Invalid('damaged word is no instruction')
    if any(f[2] != 'short' for f in case['disk']['faults']) or any(not 0 <= p < l['packets'] for p in case['extra']):
        raise Invalid('plan')
    transfer.check_shape(ctx, dict(ws=l['ws'], n=l['packets'], plan=dict(case['plan'], drop=[], burst=[], cut=[])))
    ctx.probe('gap-program', int(any(b[0] - a[0] > 4 for a, b in zip(flat, flat[1:]))))
    ctx.probe('several-functions', int(len(case['fns']) > 1))
    addrs, words = [a for a, _ in flat], [w for _, w in flat]
    # ---- transfer
    order = rc.order_of(case, ctx)
    packets = ctx.must('interleave', rc.il.interleave, list(words), order, l['ws'])
    lost = sorted(int(order[p]) for p in l['lost_pos'])
    # some packets are lost at first and arrive when they are sent again
    again = sorted(set(case['extra']) - set(lost))
    plan = dict(case['plan'], drop=[], burst=[[p, 1] for p in lost + again], cut=[], restart=[], deadline=None)
    rx = net.transfer(packets, plan, ctx)
    ctx.fault('loss', len(lost))
    if again:
        ctx.probe('retransmission')
        for p in again:
            rx.arrive(p, copy.deepcopy(packets[p]), None)
    missing = [p for p in range(l['packets']) if p not in rx.packets]
    if missing != lost:
        raise Invalid('plan')
    if not rx.packets:
        raise Invalid('nothing arrived')
    inbox = {p: rx.packets[p] for p in rx.order}
    if case['mark']:
        for p in missing:
            inbox[p] = None
    got, errors = ctx.must('receive', rc.il.deinterleave, inbox, order, l['ws'])
    got = list(got)
    got = (got + [0] * n)[:n]
    # ---- metadata, damage on both sides
    def metadata():
        m = rc.MetadataCollector()
        ctx.must('metadata', m.collect, [rc.CAPS(w, a) for a, w in flat])
        return m

    fns = progs.ends(case['fns'])
    S = Node(ctx, 'sender', words, addrs, metadata(), dict(fns))
    R = Node(ctx, 'receiver', got, addrs, metadata(), dict(fns))
    ctx.probe('undecodable-zeroed', int(any(b and not progs.decodes(w) for b, w in zip(bits, got))))
    S.damage(order, l, shuffled(missing, case['reported']))
    R.damage(order, l, shuffled(missing, case['sent_loss']))

    def in_step(when):
        a, b = S.lists(), R.lists()
        if a != b:
            k = next(j for j in range(max(len(a), len(b))) if a[j:j + 1] != b[j:j + 1])
            raise Violation('out-of-step', '{}: sender {} receiver {}'.format(
                when, *[str([(hex(x), [hex(y) for y in v[:6]]) for x, v in s[k:k + 1]]) for s in (a, b)]))

    in_step('after the loss')
    # ---- recovery on both sides
    fs = SimFS(ctx, case['disk'])
    restarts = list(case['restarts'])
    passes, limit = 0, sum(len(v) for v in S.program.values()) + 2
    while True:
        while restarts and restarts[0] <= passes:
            restarts.pop(0)
            with fs:
                ctx.must('save', rc.corruption.save_corrupted_program_to_json, R.program, 'received.json')
                R.program = ctx.must('load', rc.corruption.load_corrupted_program_from_json, 'received.json')
            ctx.fault('receiver-restart')
            ctx.probe('restart-during-recovery', int(passes > 0))
            in_step('after a restart')
        sa, ga = S.one_pass()
        sb, gb = R.one_pass()
        if sa != sb:
            k = next(j for j in range(len(sa)) if sa[j] != sb[j])
            raise Violation('scores-out-of-step', 'pass {}: {:#x}: sender {} receiver {}'.format(
                passes, sa[k][0], sa[k][1][:5], sb[k][1][:5]))
        in_step('after pass {}'.format(passes))
        passes += 1
        ctx.require(passes <= limit, 'no-end', str(passes))
        if ga == gb == 0:
            break
    ctx.probe('several-passes', int(passes > 1))
    # ---- side information and reconstruction
    b = ctx.must('side-information', rc.builders.ForwardConstraintSolutionBuilder, S.program, rc.instructions(flat))
    ctx.must('side-information', b.build)
    size = b.solution_size
    q, stream = b.solution, []
    want = sum(bits_for(len(v)) for v in R.program.values())
    ctx.require(size == want, 'wrong-size', lambda: 'stated size {}, the receiver needs {}'.format(size, want))
    for _ in range(want):
        ctx.require(not q.empty(), 'side-information-too-short', lambda: '{} of {} bits'.format(len(stream), want))
        q.word_size = 1
        stream.append(ctx.must('read', q.dequeue, 0, 0) & 1)

    def rebuild(lists):
        pos, out = 0, {}
        for a, v in sorted(lists, key=lambda x: len(x[1])):
            k = bits_for(len(v))
            i = sum(x << j for j, x in enumerate(stream[pos:pos + k]))
            out[a] = v[i] if i < len(v) else None
            pos += k
        return out

    def wrong(built):
        return [(a, built[a], w) for a, w in flat if built.get(a) is None or str(rc.CAPS(built[a], a)) != str(rc.CAPS(w, a))]

    lists = [(a, [i.encoding for i in v]) for a, v in R.program.items()]
    bad = wrong(rebuild(lists))
    if bad and not wrong(rebuild(sorted(lists))):
        bad = []
    ctx.require(not bad, 'program-not-reconstructed', lambda: '{} of {} words, first {:#x}: {} instead of {:#010x}'.format(
        len(bad), n, bad[0][0], bad[0][1] if bad[0][1] is None else hex(bad[0][1]), bad[0][2]))
    damaged = any(len(v) > 1 for v in S.lists()) or any(bits)
    ctx.probe('stream-used', int(want > 0))
    ctx.probe('resolved-without-stream', int(any(bits) and want == 0))
    ctx.nontrivial = bool(damaged and want)
    ctx.log(S.lists(), stream, passes, errors)
    ctx.sig(flat, rx.order, missing, S.lists(), stream)
