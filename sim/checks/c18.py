"""C18: the solution side information resolves every ambiguity left by a loss"""
from sim.core import Invalid, Violation
from sim.checks import recovery as rc, history

ID = 'C18'
RUNS = dict(quick=21000, thorough=472000)
BATCH = 30
RULE = ('case = programs, losses and elimination histories; the sender builds the streams one after the other, then a receiver '
        'that sees only candidate lists and stream bits decodes each one; non-trivial = the stream had bits')
MEASURE = 'distinct (candidate lists, streams)'
REAL = ['solution_builders.ForwardConstraintSolutionBuilder', 'bits.BitQueue', 'recuperator and corruptor (history)', 'capstone']
STUB = ['receiver (reference decoder)', 'network loss (drawn as a set of lost packets)', 'console']
TIME_UNIT = 'bits of side information'
MUST_FIRE = ['recovery-pass', 'eliminated', 'candidates-reordered', 'addresses-reordered', 'several-streams', 'several-words',
             'count-not-power-of-2', 'same-text-candidates', 'gap-program', 'undecodable-undamaged', 'index-not-first',
             'equal-counts', 'long-list']
ASSUMPTIONS = ['damaged words are instructions', 'the receiver orders addresses by candidate count, ties in program order, '
               'and reads the smallest whole number of bits that tells the candidates apart']


def setup():
    rc.setup()


def gen(r, i, tier):
    big = 400 if tier == 'quick' else 1200
    return dict(progs=[dict(rc.gen_case(r, 1, 40, .2, .3, big, 7), hist=history.gen_history(r))
                       for _ in range(r.choice([1, 1, 1, 2]))])


def shrink(case):
    ps = case['progs']
    for i, p in enumerate(ps):
        for q in rc.shrink(p):
            yield dict(case, progs=ps[:i] + [q] + ps[i + 1:])


def bits_for(n):
    b = 0
    while 1 << b < n:
        b += 1
    return b


def run(case, ctx):
    sent = []
    if not case['progs']:
        raise Invalid('programs')
    for p in case['progs']:
        flat = rc.check_program(p)
        bits = rc.check_loss(p, len(flat))
        from sim import progs
        if rc.touched_invalid(flat, bits):
            raise Invalid('damaged word is no instruction')
        original, program = rc.damaged(p, ctx, flat)
        if not history.apply(p['hist'], flat, p['fns'], program, ctx):
            ctx.probe('original-not-listed')
            continue
        ctx.probe('long-list', int(any(len(v) > 256 for v in program.values())))
        ctx.probe('gap-program', int(any(b[0] - a[0] > 4 for a, b in zip(flat, flat[1:]))))
        ctx.probe('undecodable-undamaged', int(any(not progs.decodes(w) for _, w in flat)))
        before = [(a, [i.encoding for i in v]) for a, v in program.items()]
        b = ctx.must('new', rc.builders.ForwardConstraintSolutionBuilder, program, original)
        ctx.must('build', b.build)
        ctx.require([(a, [i.encoding for i in v]) for a, v in program.items()] == before, 'candidates-changed')
        sent.append((flat, before, b))
    ctx.probe('several-streams', int(len(sent) > 1))
    for flat, lists, b in sent:
        words = dict(flat)
        counts = [len(v) for _, v in lists if len(v) > 1]
        ctx.probe('equal-counts', int(len(set(counts)) < len(counts)))
        want = sum(bits_for(n) for n in counts)
        ctx.require(b.solution_size == want, 'wrong-size',
                    lambda: 'stated size {} instead of {} (candidate counts {})'.format(b.solution_size, want, sorted(counts)[-9:]))
        q = b.solution
        stream = []
        for _ in range(want):
            ctx.require(not q.empty(), 'stream-too-short', lambda: '{} of {} bits'.format(len(stream), want))
            q.word_size = 1
            stream.append(ctx.must('read', q.dequeue, 0, 0) & 1)
        ctx.require(bool(q.empty()), 'stream-too-long')
        ctx.probe('several-words', int(want > 32))
        # the receiver. Addresses with equal counts come in program order: as listed or by address
        def decode(lists):
            pos = 0
            for a, v in sorted(lists, key=lambda x: len(x[1])):
                n = len(v)
                if n > 1:
                    k = bits_for(n)
                    yield a, v, n, k, sum(x << j for j, x in enumerate(stream[pos:pos + k]))
                    pos += k

        def right(lists):
            return all(i < n and str(rc.CAPS(v[i], a)) == str(rc.CAPS(words[a], a)) for a, v, n, k, i in decode(lists))

        if not right(lists) and right(sorted(lists)):
            lists = sorted(lists)
        for a, v, n, k, index in decode(lists):
            ctx.probe('count-not-power-of-2', int(n != 1 << k))
            ctx.require(index < n, 'index-outside-list', lambda: '{:#x}: {} of {}'.format(a, index, n))
            got, ori = str(rc.CAPS(v[index], a)), str(rc.CAPS(words[a], a))
            ctx.require(got == ori, 'wrong-instruction', lambda: '{:#x}: "{}" ({:#010x}) instead of "{}" ({:#010x})'.format(
                a, got, v[index], ori, words[a]))
            ctx.probe('same-text-candidates', int(v[index] != words[a]))
            ctx.probe('index-not-first', int(index > 0))
        if want:
            ctx.nontrivial = True
        ctx.simtime += want
        ctx.log(lists, stream)
        ctx.sig(lists, stream)
