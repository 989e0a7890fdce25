"""C09: metadata counts are exact and every score is a probability"""
import capstone
import capstone.arm

from sim import progs
from sim.core import Invalid, Raised, Violation
from sim.simfs import SimFS
from sim.prng import Prng
from sim.checks import recovery as rc, c07

ID = 'C09'
RUNS = dict(quick=5100, thorough=131000)
BATCH = 20
RULE = ('case = program, packet loss, ignored candidates; counts are compared with a recount over fresh instructions, and the '
        'scores of every candidate are read after every pass of the real driver; non-trivial = some address was ambiguous')
MEASURE = 'distinct (program, loss, scores after every pass)'
REAL = ['MetadataCollector', 'CorruptedProgramMetadataCollector', 'ProbabilisticRecuperator', 'recover_program.run_recovery']
STUB = ['network loss (drawn as a set of lost packets)', 'disk', 'console']
TIME_UNIT = 'recovery passes'
MUST_FIRE = ['packet-loss', 'ignored-candidates', 'gap-program', 'undecodable-undamaged', 'several-passes', 'repeated-words',
             'collected-twice', 'memory-at-r0']
ASSUMPTIONS = ['the disassembler (capstone) decodes one word correctly']


def setup():
    rc.setup()


def gen(r, i, tier):
    c = rc.gen_case(r, 1, 40, .25, .3, 350 if tier == 'quick' else 800, 7)
    c.update(ignore=r.below(1 << 20), share=r.choice([0, 0, .1, .3, .6]))
    return c


shrink = rc.shrink


# the core registers as capstone numbers them
CORE = dict(zip(range(66, 79), range(13)))
CORE.update({12: 13, 10: 14, 11: 15})
MEMORY, NONE, OTHER = 16, 18, 20
_memo = {}


def attributes(word, addr):
    """Condition, opcode and storages of a word, straight from the decoder"""
    if word not in _memo:
        if len(_memo) > 50000:
            _memo.clear()
        _memo[word] = decode(word, addr)
    return _memo[word]


def decode(word, addr):
    md = capstone.Cs(capstone.CS_ARCH_ARM, capstone.CS_MODE_ARM)
    md.detail = True
    found = list(md.disasm(word.to_bytes(4, 'little'), addr))
    if not found:
        return None
    i = found[-1]
    used = {13} if i.mnemonic.startswith(('push', 'pop')) else set()
    for o in i.operands:
        if o.type == capstone.arm.ARM_OP_REG:
            used.add(CORE.get(o.value.reg, OTHER + o.value.reg))
        elif o.type == capstone.arm.ARM_OP_MEM:
            used.update(CORE[x] for x in (o.value.mem.base, o.value.mem.index) if x)
            used.add(MEMORY)
    return i.cc - 1, i.id, sorted(used or {NONE})


def recount(flat):
    cond, op, sto = {}, {}, {}
    for a, w in flat:
        at = attributes(w, a)
        if at is None:
            continue
        cond[at[0]] = cond.get(at[0], 0) + 1
        op[at[1]] = op.get(at[1], 0) + 1
        for s in at[2]:
            sto[s] = sto.get(s, 0) + 1
    return cond, op, sto


def recount_damaged(cands):
    """{addr: [(word, ignored)]}"""
    out = ({}, {}, {})
    for a, v in cands.items():
        seen = (set(), set(), set())
        for w, ign in v:
            at = None if ign else attributes(w, a)
            if at is None:
                continue
            seen[0].add(at[0])
            seen[1].add(at[1])
            seen[2].update(at[2])
        for d, s in zip(out, seen):
            for x in s:
                d[x] = d.get(x, 0) + 1
    return out


def positive(d):
    return {k: v for k, v in d.items() if v}


def run(case, ctx):
    if not 0 <= case['share'] <= 1:
        raise Invalid('share')
    flat = rc.check_program(case)
    ctx.probe('repeated-words', int(len(set(w for _, w in flat)) < len(flat)))
    names = ('conditions', 'opcodes', 'storages')
    m = rc.MetadataCollector()
    ctx.must('collect', m.collect, rc.instructions(flat))
    true = recount(flat)
    ctx.probe('memory-at-r0', sum(1 for a, w in flat if '[r0' in str(rc.CAPS(w, a))))
    for name, got, want in zip(names, (m.condition_count, m.instruction_count, m.storage_count), true):
        ctx.require(positive(got) == want, 'wrong-count', lambda: '{}: {} instead of {}'.format(
            name, {k: got.get(k) for k in set(got) | set(want) if got.get(k) != want.get(k)},
            {k: want.get(k) for k in set(got) | set(want) if got.get(k) != want.get(k)}))
    # the damaged program, with some candidates ignored already
    original, program = rc.damaged(case, ctx, flat)
    r = Prng('ignore', case['ignore'])
    words = dict(flat)
    if case['share']:
        for a in sorted(program):
            for c in program[a]:
                if c.encoding != words[a] and r.chance(case['share']):
                    c.ignore = True
                    ctx.fault('ignored-candidates')
    cands = {a: [(c.encoding, bool(c.ignore)) for c in v] for a, v in program.items()}
    cm = rc.CorruptedProgramMetadataCollector()
    ctx.must('collect-damaged', cm.collect, program)
    want = recount_damaged(cands)
    for attempt in range(2):
        got3 = (cm.address_with_cond, cm.address_with_op, cm.address_with_reg)
        for name, got, w in zip(names, got3, want):
            ctx.require(positive(got) == w, 'wrong-address-count', lambda: '{}: {} instead of {}'.format(
                name, {k: got.get(k) for k in set(got) | set(w) if got.get(k) != w.get(k)},
                {k: w.get(k) for k in set(got) | set(w) if got.get(k) != w.get(k)}))
        for name, got, t in zip(names, got3, true):
            low = {k: (got.get(k, 0), v) for k, v in t.items() if got.get(k, 0) < v}
            ctx.require(not low, 'below-true-count', lambda: '{}: {}'.format(name, low))
        ctx.must('collect-damaged', cm.collect, program)
        ctx.probe('collected-twice')
    ctx.log('counts', [sorted(positive(x).items()) for x in want])

    # scores in the real driver
    flat, bits, fs, spy, res = c07.simulate(case, ctx, True)
    ctx.probe('several-passes', int(len(spy.passes) > 2))
    for p, state in enumerate(spy.scores):
        for a in sorted(state):
            present = any(e == words[a] for e, _, _, _ in state[a])
            for e, ign, score, rules in state[a]:
                for k in sorted(rules):
                    v = rules[k]
                    ctx.require(isinstance(v, (int, float)) and 0 <= v <= 1, 'score-outside-0-1',
                                lambda: 'pass {} {:#x} {:#010x} {} = {}'.format(p, a, e, k, v))
                if score is None:
                    continue
                ctx.require(0 <= score <= 1, 'score-outside-0-1',
                            lambda: 'pass {} {:#x} {:#010x}: {}'.format(p, a, e, score))
                if e == words[a]:
                    ctx.require(score > 0, 'original-scores-0', lambda: 'pass {} {:#x} {:#010x} {}'.format(p, a, e, rules))
        ctx.log(p, sorted((a, [(e, s) for e, _, s, _ in v]) for a, v in state.items()))
    # the continuous score used for the final ranking
    if spy.program is not None and not isinstance(res, Raised):
        for a, v in spy.program.items():
            for i in v:
                if not i.ignore:
                    s = ctx.must('score', i.score)
                    ctx.require(0 <= s <= 1, 'score-outside-0-1', lambda: 'final {:#x} {:#010x}: {}'.format(a, i.encoding, s))
                    if i.encoding == words[a]:
                        ctx.require(s > 0, 'original-scores-0', lambda: 'final {:#x} {:#010x}'.format(a, i.encoding))
    elif isinstance(res, Raised) and 'probab' in str(res.exc).lower():
        raise Violation('score-outside-0-1', repr(res))
    ctx.nontrivial = any(len(v) > 1 for v in cands.values())
    ctx.sig(flat, case['loss'], [sorted((a, [(e, s) for e, _, s, _ in v]) for a, v in st.items()) for st in spy.scores])
