"""C03: the packet order is a permutation that disperses every burst loss"""
from sim import net
from sim.core import Invalid
from sim.checks import transfer
from sim.checks.transfer import setup

ID = 'C03'
RUNS = dict(quick=24000, thorough=3031000)
BATCH = 30
RULE = ('case = packet count 1..2500, seldom up to 70000 (thorough: 300000), all small ones, powers of four and neighbours biased, and a burst of 4^k aligned '
        'consecutive packets dropped by the channel; non-trivial = count is a power of four and the burst is proper')
MEASURE = 'distinct (packet count, burst)'
REAL = ['interleaver2d.build_2d_interleave_sp', 'interleaver2d.sucesive_packing', 'numpy']
STUB = ['network (drops one burst)']
MUST_FIRE = ['burst-loss', 'power-of-four', 'not-a-power', 'many-packets']


def gen(r, i, tier):
    if i < 260:
        n = i + 1
    elif i in (300, 1500, 3000) or tier == 'thorough' and r.chance(.001):
        n = 4 ** (7 if i == 1500 or tier == 'thorough' and r.chance(.5) else 6)
    elif i in (400, 2100, 2800) or r.chance(.0015):
        n = {400: 65536, 2100: 65537, 2800: 33001}.get(i) or r.choice([65536, 32768, r.int(2500, 20000), r.int(16385, 70000)])
        if tier == 'thorough' and r.chance(.05):
            n = r.choice([4 ** 9, 2 ** 17, r.int(65537, 300000)])
    elif r.chance(.65):
        n = 4 ** r.weighted([(1, 1), (2, 3), (3, 4), (4, 3), (5, .35)])
    else:
        n = r.choice([r.int(1, 600), r.int(260, 2500), 4 ** r.int(1, 5) + r.choice([-1, 1, 4, 16]),
                      4 ** r.int(1, 4) * r.int(2, 3) + r.int(0, 5)])
    m = 0
    while 4 ** (m + 1) <= n:
        m += 1
    k = r.int(0, m)
    return dict(n=n, k=k, at=r.below(max(1, n // 4 ** k)))


def run(case, ctx):
    n, k = case['n'], case['k']
    if n < 1 or 4 ** k > n or case['at'] >= max(1, n // 4 ** k):
        raise Invalid('burst')
    order = ctx.must('order', transfer.il.build_2d_interleave_sp, n, flat=True)
    ctx.require(isinstance(order, (list, tuple)) and len(order) == n, 'order-length', lambda: repr(len(order)))
    ctx.require(all(float(x) == int(x) for x in order), 'order-not-integer')
    o = [int(x) for x in order]
    ctx.require(sorted(o) == list(range(n)), 'order-not-a-permutation',
                lambda: 'n={} missing {}'.format(n, sorted(set(range(n)) - set(o))[:5]))
    rows = ctx.must('order', transfer.il.build_2d_interleave_sp, n)
    ctx.require([int(x) for r in rows for x in r] == o, 'flat-differs-from-matrix')
    ctx.log('order', o)
    burst = set(range(case['at'] * 4 ** k, (case['at'] + 1) * 4 ** k))
    ctx.fault('burst-loss', len(burst))
    ctx.sig(n, sorted(burst)[:1], k)
    m = 0
    while 4 ** m < n:
        m += 1
    ctx.probe('many-packets', int(n > 32768))
    ctx.probe('power-of-four', int(4 ** m == n))
    ctx.probe('not-a-power', int(4 ** m != n))
    if 4 ** m == n:
        side, squares = 2 ** m, 2 ** k
        size = side // squares
        hit = {}
        for pos, p in enumerate(o):
            if p in burst:
                region = (pos // side // size, pos % side // size)
                hit[region] = hit.get(region, 0) + 1
        ctx.require(len(hit) == 4 ** k and all(v == 1 for v in hit.values()), 'burst-not-dispersed',
                    lambda: 'n={} burst of {} from {}: {}'.format(n, 4 ** k, min(burst), sorted(hit.items())[:8]))
        ctx.nontrivial = 0 < k
