"""Shared by the checks that damage programs and recover them"""
import contextlib
import sys

from sim import env, progs
from sim.core import Invalid, Raised, Violation
from sim.simfs import SimFS, SimCrash


def setup():
    global CAPS, ElfFunction, PacketCorruptor, RandomCorruptor, JSONCorruptor, MetadataCollector
    global CorruptedProgramMetadataCollector, ProbabilisticRecuperator, probabilistic_rules, rp, il, io_
    global SolutionQuality, builders, from_list, from_dict, corruption
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction as CAPS
    from semantic_codec.architecture.functions import ElfFunction
    from semantic_codec.corruption import corruption
    from semantic_codec.corruption.corruptors import PacketCorruptor, RandomCorruptor, JSONCorruptor
    from semantic_codec.metadata.metadata_collector import MetadataCollector, CorruptedProgramMetadataCollector
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator, probabilistic_rules
    from semantic_codec.metadata.probabilistic_rules.rules import from_instruction_list_to_dict as from_list, \
        from_instruction_dict_to_list as from_dict
    from semantic_codec.solution import solution_builders as builders
    from semantic_codec.solution import solution_io as io_
    from semantic_codec.solution.solution_quality import SolutionQuality
    from semantic_codec.interleaver import interleaver2d as il
    import recover_program as rp
    # helper modules are loaded before the simulated disk takes over
    import tempfile, shutil, json, struct  # noqa: F401


def check_program(case):
    fns = case['fns']
    if not any(f['words'] for f in fns) or any(f['addr'] % 4 or f['addr'] < 0 or (f.get('gap') or [0, 0])[1] < 0 for f in fns):
        raise Invalid('program')
    seen = set()
    for f in fns:
        for i, w in enumerate(f['words']):
            a = progs.at(f, i)
            if a in seen or not 0 <= w < 1 << 32 or a > 0xfffffffc:
                raise Invalid('program')
            seen.add(a)
    return progs.flat(fns)


def check_loss(case, n_words, max_total=6000):
    l = case['loss']
    if l['ws'] not in (1, 2, 4, 8, 16) or l['packets'] < 1 or not l['lost_pos'] or \
            any(not 0 <= p < l['packets'] for p in l['lost_pos']) or \
            len(set(l['lost_pos'])) != len(l['lost_pos']):
        raise Invalid('loss')
    bits = progs.predicted_model(n_words, l['packets'], l['ws'], l['lost_pos'])
    if sum(1 << bin(b).count('1') for b in bits) > max_total + n_words:
        raise Invalid('too much')
    return bits


def functions(fns):
    out = []
    for i, f in enumerate(fns):
        e = ElfFunction('f{}'.format(i))
        for j, w in enumerate(f['words']):
            e.instructions.append(CAPS(w, progs.at(f, j)))
        out.append(e)
    return out


def instructions(flat):
    return [CAPS(w, a) for a, w in flat]


def scrambled(program, seed):
    """The same program with its addresses inserted in another order"""
    if not seed:
        return program
    from sim.prng import Prng
    keys = list(program)
    Prng('scramble', seed).shuffle(keys)
    return {a: program[a] for a in keys}


def encs(program):
    return {a: [i.encoding for i in v] for a, v in program.items()}


def order_of(case, ctx):
    order = ctx.must('order', il.build_2d_interleave_sp, case['loss']['packets'], flat=True)
    ctx.require(sorted(int(x) for x in order) == list(range(case['loss']['packets'])), 'order-not-a-permutation')
    return order


def lost_packets(case, order):
    lost = [int(order[p]) for p in case['loss']['lost_pos']]
    perm = case.get('perm')
    if perm:
        from sim.prng import Prng
        Prng(perm).shuffle(lost)
    return lost


def packet_corruptor(case, order, n_words, give_order=True, path=None):
    l = case['loss']
    return PacketCorruptor(l['packets'], n_words, interleave=order if give_order else None,
                           packets_lost=lost_packets(case, order), bits_per_interleave=l['ws'],
                           save_corrupted_path=path)


def damaged(case, ctx, flat=None):
    """The damaged program by simulated packet loss -> (original list, {addr: [inst]})"""
    flat = flat or progs.flat(case['fns'])
    order = order_of(case, ctx)
    c = packet_corruptor(case, order, len(flat))
    program = ctx.must('corrupt', c.corrupt, from_list(instructions(flat)))
    return instructions(flat), program


def listed(originals, program):
    """Are all originals among the candidates?"""
    return all(i.address in program and any(c.encoding == i.encoding for c in program[i.address]) for i in originals)


def touched_invalid(flat, bits):
    """Damaged words that are no instruction (such programs are outside of most properties)"""
    return [i for i, (a, w) in enumerate(flat) if bits[i] and not progs.decodes(w)]


class Spy(object):
    """Recuperator factory that records what each pass sees"""

    def __init__(self, keep_scores=False):
        self.passes = []
        self.scores = []
        self.last = {}
        self.keep_scores = keep_scores
        self.program = None
        self.limit = None

    def __call__(self, *a, **k):
        program = a[1] if len(a) > 1 else k['program']
        self.program = program
        self.passes.append(encs(program))
        if self.limit is not None and len(self.passes) > self.limit:
            raise Violation('too-many-passes', '{} passes'.format(len(self.passes)))
        spy = self

        class R(ProbabilisticRecuperator):
            def recover(self):
                r = super(R, self).recover()
                # nothing is impossible any more in the last pass
                spy.last = {a: [(i.encoding, i.score()) for i in v] for a, v in program.items() if len(v) > 1}
                if spy.keep_scores:
                    spy.scores.append({a: [(i.encoding, i.ignore, None if i.ignore else i.score(),
                                            dict(i.scores_by_rule)) for i in v] for a, v in program.items()})
                return r
        return R(*a, **k)


def run_recovery(case, ctx, corruptor, spy, fs, passes=1):
    """The real driver on the simulated disk -> None or Raised"""
    with fs:
        return ctx.call(rp.run_recovery, functions(case['fns']), corruptor, spy, passes)


def gen_case(r, lo=1, hi=40, undecodable=0.0, gaps=0.3, max_total=500, max_bits=7, ws=(1, 2, 2, 2, 4), scale=True,
             long=None, alike=.0005):
    """Program and loss; damaged words are valid instructions"""
    n = r.int(lo, hi) if r.chance(.8) else r.int(lo, min(hi, lo + 4))
    if scale and r.chance(.02 if hi >= 40 else .004):
        # larger programs with about as much damage
        n = r.int(hi, 260) if r.chance(.9) else r.int(260, 2500)
        max_total += n
    fns = progs.gen_program(r, n, undecodable, gaps)
    flat = progs.flat(fns)
    allow = [i for i, (a, w) in enumerate(flat) if progs.decodes(w)]
    if not allow:
        next(f for f in fns if f['words'])['words'][0] = 0xe3a00001
        flat = progs.flat(fns)
        allow = [i for i, (a, w) in enumerate(flat) if progs.decodes(w)]
    if scale and r.chance(long or (.0025 if max_bits >= 7 else .001)):
        # one word loses much more than the others
        n = r.int(1, 8)
        fns = [dict(f, words=f['words'][:max(1, n // len(fns))]) for f in fns if f['words']][:n]
        flat = progs.flat(fns)
        allow = [i for i, (a, w) in enumerate(flat) if progs.decodes(w)]
        if not allow:
            next(f for f in fns if f['words'])['words'][0] = 0xe3a00001
            flat, allow = progs.flat(fns), [0]
        w, k = r.choice(allow), r.choice([8, 9, 9, 10, 10, 11, 12])
        lost = sorted(32 * w + b for b in r.sample(list(range(31)), k))    # bit 31 would touch the next word
        loss = dict(packets=32 * len(flat) + r.choice([0, 0, 5, 32]), ws=1, lost_pos=lost)
        return dict(fns=fns, loss=loss, perm=r.choice([0, 0, r.int(1, 1 << 20)]))
    if scale and r.chance(alike):
        # every word loses the same bits
        fns = progs.gen_program(r, r.int(1030, 1600) if r.chance(.5) else r.int(40, 400), 0, gaps)
        k = r.int(1, 30)
        loss = dict(packets=32, ws=1, lost_pos=[k]) if r.chance(.5) else dict(packets=32, ws=1, lost_pos=[k - 1, k])
        return dict(fns=fns, loss=loss, perm=r.choice([0, 0, r.int(1, 1 << 20)]))
    loss = progs.gen_loss(r, n, max_total, max_bits, ws, allow if len(allow) < n else None)
    return dict(fns=fns, loss=loss, perm=r.choice([0, 0, r.int(1, 1 << 20)]))


def shrink(case):
    """Drop whole functions / words and simplify the loss"""
    fns = case['fns']
    for i in range(len(fns)):
        if len(fns) > 1:
            yield dict(case, fns=fns[:i] + fns[i + 1:])
    for i, f in enumerate(fns):
        for cut in (f['words'][:len(f['words']) // 2], f['words'][len(f['words']) // 2:]):
            if cut and len(cut) < len(f['words']):
                yield dict(case, fns=fns[:i] + [dict(f, words=cut)] + fns[i + 1:])
    if 'loss' in case:
        l = case['loss']
        for j in range(len(l['lost_pos'])):
            if len(l['lost_pos']) > 1:
                yield dict(case, loss=dict(l, lost_pos=l['lost_pos'][:j] + l['lost_pos'][j + 1:]))
