"""C05: damaged words get every possible value, undamaged words are untouched"""
from sim import progs
from sim.core import Invalid
from sim.checks import recovery as rc

ID = 'C05'
RUNS = dict(quick=18000, thorough=500000)
BATCH = 50
RULE = ('case = program, packet count, chunk size, lost packets; the real corruptor grows the candidates from the sent words '
        'and from the zero-filled words the receiver holds; non-trivial = at least one word is damaged')
MEASURE = 'distinct (program, packets, chunk size, lost packets, candidate lists)'
REAL = ['corruptors.PacketCorruptor', 'corruption.predict_corruption/corrupt_all_bits_tuples', 'interleaver2d', 'capstone']
STUB = ['network loss (drawn as a set of lost packets)', 'console']
MUST_FIRE = ['packet-loss', 'burst-loss', 'no-data-hit', 'gap-program', 'undecodable-word', 'several-ranges-in-word',
             'bit31', 'zero-fill-start', 'lost-order-shuffled', 'corruptor-reused', 'addresses-unordered', 'second-loss', 'overlapping-losses',
             'third-loss']
ASSUMPTIONS = ['at most 2^9 candidates per address', 'the words of a program are sent in ascending order of their addresses']


def setup():
    rc.setup()


def gen(r, i, tier):
    n = r.int(1, 60) if r.chance(.8) else r.int(1, 3)
    large = r.chance(.004)
    if large:
        n = r.int(60, 2500)
    fns = progs.gen_program(r, n, .3, .4)
    if r.chance(.2):
        for f in fns:
            f['words'] = [r.bits(32) for _ in f['words']]
    loss = progs.gen_loss(r, n, 1000 + n * large, 9)
    if r.chance(.08):
        # a lost packet that carries nothing
        n_p = n * 32 // loss['ws'] + r.int(1, 8)
        loss = dict(packets=n_p, ws=loss['ws'], lost_pos=[n_p - 1])
    return dict(fns=fns, loss=loss, perm=r.choice([0, r.int(1, 1 << 20)]), give=r.chance(.5), again=r.chance(.3),
                scramble=r.choice([0, 0, r.int(1, 1 << 20)]),
                later=[[r.below(loss['packets']) for _ in range(r.int(1, 2))] for _ in range(r.choice([0, 0, 1, 1, 2]))])


shrink = rc.shrink


def run(case, ctx):
    flat = rc.check_program(case)
    n = len(flat)
    l = case['loss']
    rc.check_loss(case, n)
    lost_bits = progs.lost_bits(n, l['packets'], l['ws'], l['lost_pos'])
    order = rc.order_of(case, ctx)
    ctx.fault('packet-loss', len(l['lost_pos']))
    ctx.fault('burst-loss', int(len(l['lost_pos']) > 1))
    ctx.probe('lost-order-shuffled', int(bool(case['perm']) and len(l['lost_pos']) > 1))
    ctx.probe('gap-program', int(any(b[0] - a[0] > 4 for a, b in zip(flat, flat[1:]))))
    ctx.probe('undecodable-word', int(any(not progs.decodes(w) for _, w in flat)))
    lost = rc.lost_packets(case, order)
    predicted = ctx.must('predict', rc.corruption.predict_corruption, l['packets'], l['ws'], n, order, list(lost))
    bits = [0] * n
    per_word = [0] * n
    for t in predicted:
        length = t[2] if len(t) == 3 else l['ws']
        if t[0] < n:
            bits[t[0]] |= ((1 << length) - 1) << t[1]
            per_word[t[0]] += 1
    ctx.probe('several-ranges-in-word', int(any(x > 1 for x in per_word)))
    ctx.probe('bit31', int(any(b >> 31 for b in bits)))
    ctx.probe('no-data-hit', int(not any(bits)))
    if any(bin(b).count('1') > 12 for b in bits):
        raise Invalid('too many bits')
    for w in range(n):
        ctx.require(lost_bits[w] & ~bits[w] == 0, 'lost-bit-not-predicted', lambda: 'word {}'.format(w))

    def expected(word, mask):
        vals = [word & ~mask]
        b = 0
        for b in range(32):
            if mask >> b & 1:
                vals += [v | 1 << b for v in vals]
        return sorted(vals)

    want = {a: expected(w, bits[i]) for i, (a, w) in enumerate(flat)}

    def check(got, what):
        ctx.require(isinstance(got, dict) and sorted(got) == sorted(want), what + 'addresses-changed',
                    lambda: '{} instead of {}'.format(sorted(got)[:8], sorted(want)[:8]))
        for i, (a, w) in enumerate(flat):
            e = [c.encoding for c in got[a]]
            ctx.require(all(c.address == a for c in got[a]), what + 'candidate-address', lambda: hex(a))
            if e == want[a]:
                continue
            d = lambda: 'address {:#x} word {:#010x} damaged bits {:#010x}: {} candidates instead of {}: {}'.format(
                a, w, bits[i], len(e), len(want[a]), [hex(x) for x in e[:8]])
            if not bits[i]:
                ctx.require(e == [w], what + 'undamaged-word-changed', d)
            ctx.require(w in e, what + 'original-missing', d)
            ctx.require(len(set(e)) == len(e), what + 'duplicate-candidates', d)
            ctx.require(set(e) == set(want[a]), what + 'wrong-candidates', d)
            ctx.require(e == sorted(e), what + 'not-ascending', d)

    def program(words):
        p = rc.scrambled(rc.from_list(rc.instructions(words)), case['scramble'])
        ctx.probe('addresses-unordered', int(list(p) != sorted(p)))
        return p

    c = rc.packet_corruptor(case, order, n, give_order=case['give'])
    got = ctx.must('corrupt', c.corrupt, program(flat))
    check(got, '')
    ctx.log(sorted(rc.encs(got).items()))
    # the receiver only knows zeros where bits are missing
    zeroed = [(a, w & ~lost_bits[i]) for i, (a, w) in enumerate(flat)]
    if case['again']:
        ctx.probe('corruptor-reused')
        c2 = c
    else:
        c2 = rc.packet_corruptor(case, order, n, give_order=True)
    got2 = ctx.must('corrupt', c2.corrupt, program(zeroed))
    ctx.probe('zero-fill-start')
    check(got2, 'from-zeroed-')
    # more packets of the same transmission turn out to be lost
    for j, pos in enumerate(case['later']):
        if any(not 0 <= p < l['packets'] for p in pos) or not pos:
            raise Invalid('later')
        more = progs.predicted_model(n, l['packets'], l['ws'], pos)
        union = [a | b for a, b in zip(bits, more)]
        if any(bin(b).count('1') > 9 for b in union) or sum(1 << bin(b).count('1') for b in union) > 3000 + n:
            break
        lost = [int(order[p]) for p in pos]
        for t in ctx.must('predict', rc.corruption.predict_corruption, l['packets'], l['ws'], n, order, list(lost)):
            if t[0] < n:
                m = ((1 << (t[2] if len(t) == 3 else l['ws'])) - 1) << t[1]
                ctx.probe('overlapping-losses', int(bool(bits[t[0]] & m)))
                bits[t[0]] |= m
        ctx.fault('second-loss' if j == 0 else 'third-loss')
        want.update((a, expected(w, bits[i])) for i, (a, w) in enumerate(flat))
        c = rc.PacketCorruptor(l['packets'], n, interleave=order, packets_lost=lost, bits_per_interleave=l['ws'])
        got = ctx.must('corrupt', c.corrupt, got)
        check(got, 'later-')
    ctx.nontrivial = any(bits)
    ctx.sig(flat, l, sorted(rc.encs(got).items()))
