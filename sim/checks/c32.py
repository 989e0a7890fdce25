"""C32: recovery removes exactly the candidates that the metadata rules out"""
import sys

import capstone
import capstone.arm

from sim import progs
from sim.core import Invalid, Raised, Violation
from sim.simfs import SimFS
from sim.prng import Prng
from sim.checks import recovery as rc
from sim.checks.c09 import CORE, attributes, recount, recount_damaged

ID = 'C32'
RUNS = dict(quick=9000, thorough=120000)
BATCH = 20
RULE = ('case = program, packet loss and a history: the real driver recovers it, or its passes are run one by one with candidates '
        'ignored beforehand, passes interrupted and repeated, addresses inserted in another order; after every pass the scores '
        'and the candidates left are compared with a reference model of the elimination; non-trivial = candidates were removed')
MEASURE = 'distinct (program, loss, history, candidates left after every pass)'
REAL = ['ProbabilisticRecuperator', 'MetadataCollector', 'CorruptedProgramMetadataCollector', 'recover_program.run_recovery and '
        'remove_bad_candidates_at_addr', 'PacketCorruptor', 'interleaver2d']
STUB = ['network loss (drawn as a set of lost packets)', 'disk', 'console', 'operator who interrupts (KeyboardInterrupt out of a '
        'console write)']
TIME_UNIT = 'recovery passes'
MUST_FIRE = ['packet-loss', 'interrupt', 'pass-repeated', 'ignored-candidates', 'ruled-out-by-condition', 'ruled-out-by-opcode',
             'ruled-out-by-storage', 'ruled-out-by-needed-storage', 'ruled-out-by-certainty', 'two-certain', 'several-passes',
             'gap-program', 'undecodable-undamaged', 'driver', 'branch-this-function', 'high-branch', 'branch-other-function',
             'branch-outside', 'branch-elsewhere', 'nothing-ruled-out', 'addresses-reordered', 'ranked']
ASSUMPTIONS = ['the disassembler (capstone) decodes one word correctly']

NAMES = ['pc', 'po', 'pr']


def setup():
    rc.setup()


def gen(r, i, tier):
    c = rc.gen_case(r, 1, 40, .2, .3, 350 if tier == 'quick' else 900, 7)
    c.update(mode=r.choice(['driver', 'steps', 'steps']), ignore=r.below(1 << 20), share=r.choice([0, 0, .1, .4]),
             order=r.choice([0, r.int(1, 1 << 20)]),
             steps=[r.choice(['good', 'good', 'twice', ['interrupt', r.below(40)]]) for _ in range(r.choice([0, 1, 2, 4]))])
    return c


def shrink(case):
    for c in rc.shrink(case):
        yield c
    for k in range(len(case['steps'])):
        yield dict(case, steps=case['steps'][:k] + case['steps'][k + 1:])
    if case['share']:
        yield dict(case, share=0)
    if case['order']:
        yield dict(case, order=0)


_kinds = {}


def kind(word):
    """'branch', 'stack' or 'plain'"""
    if word not in _kinds:
        if len(_kinds) > 50000:
            _kinds.clear()
        md = capstone.Cs(capstone.CS_ARCH_ARM, capstone.CS_MODE_ARM)
        md.detail = True
        i = list(md.disasm(word.to_bytes(4, 'little'), 0x8000))[-1]
        regs = []
        for o in i.operands:
            if o.type == capstone.arm.ARM_OP_REG:
                regs.append(CORE.get(o.value.reg))
            elif o.type == capstone.arm.ARM_OP_MEM:
                regs += [CORE[x] for x in (o.value.mem.base, o.value.mem.index) if x]
        stack = i.mnemonic.startswith(('push', 'pop'))
        if i.mnemonic.startswith('pop'):
            jumps = 15 in regs
        elif stack:
            jumps = False
        else:
            jumps = regs[:1] == [15]
        a = capstone.arm
        jumps = jumps or i.id in (a.ARM_INS_B, a.ARM_INS_BL, a.ARM_INS_BX, a.ARM_INS_BLX)
        _kinds[word] = 'branch' if jumps else 'stack' if stack else 'plain'
    return _kinds[word]


def target(word, addr):
    """Where a b or bl goes"""
    if word >> 28 == 15 or (word >> 25 & 7) != 5:
        return None
    off = word & 0xffffff
    t = addr + 8 + 4 * (off - (1 << 24) if off >> 23 else off)
    return t & 0xffffffff


class Model(object):
    """What the metadata says about the candidates listed right now"""

    def __init__(self, meta, cands):
        self.meta = meta
        self.cands = cands
        self.count = recount_damaged(cands)

    def needed(self, a):
        """Storages that some instruction at the address uses for sure"""
        out = set()
        for w, ign in self.cands[a]:
            at = None if ign else attributes(w, a)
            for s in at[2] if at else ():
                if self.meta[2].get(s) == self.count[2][s]:
                    out.add(s)
        return out

    def address(self, a):
        """-> [(word, shares, kept, why not)]"""
        need = self.needed(a)
        rows, certain = [], 0
        for w, ign in self.cands[a]:
            at = None if ign else attributes(w, a)
            if at is None:
                rows.append([w, None, False, 'ignored'])
                continue
            shares = [(self.meta[0].get(at[0], 0), self.count[0][at[0]]), (self.meta[1].get(at[1], 0), self.count[1][at[1]])]
            why = 'condition' if not shares[0][0] else 'opcode' if not shares[1][0] else None
            if kind(w) == 'plain':
                pr = min(((self.meta[2].get(s, 0), self.count[2][s]) for s in at[2]), key=lambda x: x[0] / x[1])
                if not need.issubset(at[2]):
                    pr = (0, 1)
                    why = why or 'needed-storage'
                elif not pr[0]:
                    why = why or 'storage'
                shares.append(pr)
            sure = why is None and (shares[0][0] == shares[0][1] or shares[1][0] == shares[1][1])
            certain += sure
            rows.append([w, shares, sure, why])
        for row in rows:
            sure, row[2] = row[2], row[3] is None
            if len(rows) == 1:
                row[2] = True
            elif certain and row[2] and not sure:
                row[2], row[3] = False, 'certainty'
        return rows, certain


def snapshot(program):
    return {a: [(i.encoding, bool(i.ignore)) for i in v] for a, v in program.items()}


def scores(program):
    return {a: [(i.encoding, None if i.ignore else i.score(), dict(i.scores_by_rule)) for i in v] for a, v in program.items()}


class Spy(object):
    """Recuperator factory: the program before and after every pass"""

    def __init__(self):
        self.passes = []
        self.program = None

    def __call__(self, *a, **k):
        program = a[1] if len(a) > 1 else k['program']
        self.program = program
        spy = self

        class R(rc.ProbabilisticRecuperator):
            def recover(self):
                before = snapshot(program)
                if len(spy.passes) > sum(map(len, before.values())) + sum(map(len, spy.passes[0][0].values()
                                                                              if spy.passes else [])) + 5:
                    raise Violation('too-many-passes', str(len(spy.passes)))
                r = super(R, self).recover()
                spy.passes.append((before, scores(program)))
                return r
        return R(*a, **k)


class Console(object):
    encoding = 'utf-8'

    def __init__(self, after, ctx):
        self.left, self.ctx = after, ctx

    def write(self, s):
        self.left -= 1
        if self.left < 0:
            self.ctx.fault('interrupt')
            raise KeyboardInterrupt()
        return len(s)

    def flush(self):
        pass


def check_scores(ctx, p, flat, fns, meta, before, after):
    """-> what the model keeps"""
    m = Model(meta, before)
    keep = {}
    words = dict(flat)
    ranges = list(progs.ends(fns).values())
    jumps = {}
    for a in sorted(before):
        rows, certain = m.address(a)
        keep[a] = [w for w, _, k, _ in rows if k]
        if words[a] not in keep[a]:
            raise Violation('model', 'the model removes the original at {:#x}'.format(a))
        if len(rows) > 1:
            ctx.probe('two-certain', int(certain > 1))
            for _, _, k, why in rows:
                if not k and why != 'ignored':
                    ctx.probe('ruled-out-by-' + why)
        ctx.require([w for w, _, _ in after[a]] == [w for w, _ in before[a]], 'scoring-changes-candidates', lambda: hex(a))
        for (w, shares, kept, why), (_, score, rules) in zip(rows, after[a]):
            where = 'pass {} {:#x} {:#010x}'.format(p, a, w)
            if shares is None:
                continue
            for name, (x, y) in zip(NAMES, shares):
                if name in rules:
                    ctx.require(abs(rules[name] - x / y) < 1e-9, 'wrong-share', lambda: '{}: {} is {} instead of {}/{}'.format(
                        where, name, rules[name], x, y))
            if len(rows) > 1:
                gone = why in ('condition', 'opcode', 'storage', 'needed-storage')
                ctx.require((score == 0) == gone, 'wrong-verdict', lambda: '{}: score {}, but {}'.format(
                    where, score, 'ruled out by its ' + why if gone else 'nothing rules it out'))
                ctx.require((score == 1) == (kept and bool(certain)), 'wrong-verdict', lambda:
                            '{}: score {}, {} certain candidates, {}'.format(where, score, certain, why or 'possible'))
            product(ctx, w, score, rules, where)
            t = target(w, a) if kind(w) == 'branch' else None
            if t is not None and 'pbd' in rules:
                own = [x for x in ranges if x[0] <= a <= x[1]][0]
                if own[0] <= t <= own[1]:
                    j = 'this-function'
                elif any(t == x[0] for x in ranges):
                    j = 'other-function'
                elif t < flat[0][0] or t > flat[-1][0]:
                    j = 'outside'
                else:
                    j = 'elsewhere'
                ctx.probe('branch-' + j)
                ctx.probe('high-branch', int(t >> 31))
                jumps.setdefault(j, rules['pbd'])
                ctx.require(jumps[j] == rules['pbd'], 'wrong-branch-score', lambda: '{} to {:#x} ({}): {} and {}'.format(
                    where, t, j, rules['pbd'], jumps[j]))
    for x in ('this-function', 'other-function'):
        for y in ('outside', 'elsewhere'):
            ctx.require(x not in jumps or y not in jumps or jumps[x] > jumps[y], 'wrong-branch-score', lambda: str(jumps))
    ctx.require(not {'outside', 'elsewhere'} <= set(jumps) or jumps['outside'] <= jumps['elsewhere'], 'wrong-branch-score',
                lambda: str(jumps))
    return keep


def product(ctx, w, score, rules, where):
    """A score strictly between 0 and 1 is the product of its listed parts"""
    k = kind(w)
    parts = dict(branch=('pc', 'po', 'pcfg', 'pbd'), plain=('pc', 'po', 'pcfg', 'pr', 'prd')).get(k)
    if parts is None or not 0 < score < 1 or not set(rules) <= set(parts):
        return
    want = 1.0
    for x in parts:
        want *= rules.get(x, 1)
    ctx.probe('ranked')
    ctx.require(abs(score - want) <= 1e-9 * max(want, 1e-9) + 1e-15, 'score-is-not-the-product', lambda: '{}: {} of {}'.format(
        where, score, rules))


def compare(ctx, p, program_now, keep):
    for a in sorted(keep):
        have = [w for w, _ in program_now[a]]
        extra = [w for w in have if w not in keep[a]]
        lost = [w for w in keep[a] if w not in have]
        ctx.require(not lost, 'removed-without-reason', lambda: 'pass {} {:#x}: {}'.format(p, a, [hex(w) for w in lost[:5]]))
        ctx.require(not extra, 'ruled-out-but-kept', lambda: 'pass {} {:#x}: {}'.format(p, a, [hex(w) for w in extra[:5]]))


def run(case, ctx):
    flat = rc.check_program(case)
    bits = rc.check_loss(case, len(flat))
    if rc.touched_invalid(flat, bits):
        raise Invalid('damaged word is no instruction')
    if case['mode'] not in ('driver', 'steps') or not 0 <= case['share'] <= 1 or any(
            s not in ('good', 'twice') and not (isinstance(s, list) and len(s) == 2 and s[0] == 'interrupt')
            for s in case['steps']):
        raise Invalid('history')
    ctx.probe('gap-program', int(any(b[0] - a[0] > 4 for a, b in zip(flat, flat[1:]))))
    ctx.probe('undecodable-undamaged', int(any(not progs.decodes(w) for _, w in flat)))
    ctx.fault('packet-loss', len(case['loss']['lost_pos']))
    meta = recount(flat)
    fns = case['fns']
    if case['mode'] == 'driver':
        ctx.probe('driver')
        spy = Spy()
        order = rc.order_of(case, ctx)
        res = rc.run_recovery(case, ctx, rc.packet_corruptor(case, order, len(flat)), spy, SimFS(ctx))
        if not spy.passes or not rc.listed(rc.instructions(flat), {a: [rc.CAPS(w, a) for w, _ in v]
                                                                  for a, v in spy.passes[0][0].items()}):
            ctx.probe('original-not-listed')
            return
        states = [b for b, _ in spy.passes]
        for p, (before, after) in enumerate(spy.passes):
            keep = check_scores(ctx, p, flat, fns, meta, before, after)
            if p + 1 < len(states):
                compare(ctx, p, states[p + 1], keep)
            elif not isinstance(res, Raised):
                left = [a for a in keep if len(keep[a]) != len(before[a])]
                ctx.require(not left, 'stopped-early', lambda: 'pass {} {:#x}: {} of {} candidates are left by the model'.format(
                    p, left[0], len(keep[left[0]]), len(before[left[0]])))
        if not isinstance(res, Raised):
            for a, v in spy.program.items():
                for i in v:
                    if not i.ignore:
                        product(ctx, i.encoding, i.score(), dict(i.scores_by_rule), 'final {:#x} {:#010x}'.format(a, i.encoding))
    else:
        states = run_steps(case, ctx, flat, meta)
        if states is None:
            return
    ctx.simtime += len(states)
    first, last = ({a: [w for w, _ in v] for a, v in s.items()} for s in (states[0], states[-1]))
    ctx.nontrivial = first != last
    ctx.probe('nothing-ruled-out', int(first == last and any(len(v) > 1 for v in first.values())))
    ctx.probe('several-passes', int(len(states) > 2))
    for s in states:
        ctx.log(sorted(s.items()))
    ctx.sig(flat, case['loss'], case['mode'], case['steps'], [sorted(s.items()) for s in states])


def run_steps(case, ctx, flat, meta):
    original, program = rc.damaged(case, ctx, flat)
    if not rc.listed(original, program):
        ctx.probe('original-not-listed')
        return None
    words = dict(flat)
    r = Prng('ignore', case['ignore'])
    for a in sorted(program):
        for c in program[a]:
            if case['share'] and c.encoding != words[a] and r.chance(case['share']):
                c.ignore = True
                ctx.fault('ignored-candidates')
    if case['order']:
        program = rc.scrambled(program, case['order'])
        ctx.probe('addresses-reordered')
    collector = rc.MetadataCollector()
    ctx.must('collect', collector.collect, original)
    ends = progs.ends(case['fns'])
    states, steps = [], list(case['steps'])
    limit = sum(map(len, program.values())) + len(steps) + 2
    while True:
        limit -= 1
        ctx.require(limit > 0, 'too-many-passes', '')
        step = steps.pop(0) if steps else 'good'
        before = snapshot(program)
        states.append(before)
        if step != 'good':
            rec = rc.ProbabilisticRecuperator(collector, program, functions=ends)
            if step == 'twice':
                ctx.must('recover', rec.recover)
                ctx.probe('pass-repeated')
            else:
                out = sys.stdout
                sys.stdout = Console(step[1] % (len(flat) + 2), ctx)
                try:
                    rec.recover()
                except KeyboardInterrupt:
                    pass
                finally:
                    sys.stdout = out
                ctx.require(snapshot(program) == before, 'scoring-changes-candidates', 'after an interruption')
        rec = rc.ProbabilisticRecuperator(collector, program, functions=ends)
        ctx.must('recover', rec.recover)
        keep = check_scores(ctx, len(states) - 1, flat, case['fns'], meta, before, scores(program))
        removed = sum([ctx.must('remove', rc.rp.remove_bad_candidates_at_addr, v) for v in program.values()])
        now = snapshot(program)
        compare(ctx, len(states) - 1, now, keep)
        was = sum(map(len, before.values())) - sum(map(len, now.values()))
        ctx.require(removed == was, 'wrong-number-removed', lambda: '{} instead of {}'.format(removed, was))
        if not was and not steps:
            return states
