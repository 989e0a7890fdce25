"""Shared by C01 and C02: one simulated transfer"""
import copy

from sim import net
from sim.core import Violation, Invalid, Raised

REAL = ['interleaver2d.build_2d_interleave_sp', 'interleaver2d.interleave', 'interleaver2d.deinterleave',
        'architecture.bits.BitQueue/Bits', 'numpy']
STUB = ['network (virtual-time event queue with explicit fault plan)']


def setup():
    global il
    import semantic_codec.interleaver.interleaver2d as il


def words(spec):
    return [int(w) & 0xffffffff for w in spec]


def gen_words(r, n):
    style = r.below(5)
    if style == 0:
        return [r.bits(32) for _ in range(n)]
    if style == 1:
        return [0xffffffff] * n
    if style == 2:
        return [1 << r.below(32) for _ in range(n)]
    if style == 3:
        return [(0x01010101 * (i + 1)) & 0xffffffff for i in range(n)]
    return [r.choice([0, 0xffffffff, 0x80000001, r.bits(32)]) for _ in range(n)]


def gen_size(r, huge=True):
    """number of words, packet count, chunk size"""
    ws = r.choice([1, 2, 2, 4, 8, 16, 32])
    c = 32 // ws
    style = r.below(6)
    if huge and r.chance(.0015):
        ws = max(ws, 2)
        return r.int(1200, 6000), r.choice([r.int(1, 40), r.int(1000, 5000), 4096]), ws
    if huge and r.chance(.0003):
        return r.int(65530, 66100), r.int(3, 300), r.choice([16, 32])
    if r.chance(.03):
        # large messages and packet counts
        nw = r.int(100, 1200)
        n = min(1100, r.choice([r.int(1, 8), r.int(100, 1100), 256, 1024, 1023, 1025, max(1, nw * c // r.int(1, 12))]))
        return nw, n, ws
    if style == 0:
        nw = r.int(0, 6)
        n = r.int(1, 12)
    elif style == 1:
        nw = r.int(1, 40)
        n = r.choice([1, 2, 3, 4, 5, 15, 16, 17, 20, 21, 63, 64, 65, 80, 84])
    elif style == 2:
        nw = r.int(1, 30)
        n = max(1, nw * c // r.int(1, 6) + r.int(-1, 1))      # nearly even
    elif style == 3:
        nw = r.int(1, 10)
        n = nw * c + r.int(0, 9)                              # more packets than chunks
    elif style == 4:
        nw = r.int(20, 90)
        n = r.int(2, 40)
    else:
        nw = r.int(1, 60)
        n = r.int(1, 130)
    return nw, min(n, 400), ws


def check_shape(ctx, case):
    if case['ws'] not in (1, 2, 4, 8, 16, 32) or case['n'] < 1:
        raise Invalid('shape')
    n = case['n']
    p = case['plan']
    for k in ('drop',):
        if any(not 0 <= x < n for x in p[k]):
            raise Invalid('plan')
    for k in ('dup', 'delay', 'burst', 'cut'):
        if any(len(x) != 2 for x in p[k]):
            raise Invalid('plan')


def send(case, ctx):
    """-> (order as ints, words, packets)"""
    n, ws = case['n'], case['ws']
    data = words(case['words'])
    order = ctx.must('order', il.build_2d_interleave_sp, n, flat=True)
    ctx.require(sorted(int(x) for x in order) == list(range(n)), 'order-not-a-permutation',
                lambda: 'n={} order={}'.format(n, [int(x) for x in order]))
    copy_in = list(data)
    packets = ctx.must('interleave', il.interleave, data, order, ws)
    ctx.require(data == copy_in, 'sender-changes-message')
    ctx.require(isinstance(packets, dict) and sorted(packets) == list(range(n)), 'packet-numbers',
                lambda: 'n={} packets={}'.format(n, sorted(packets)[:20]))
    sizes = {}
    for p in sorted(packets):
        q = copy.deepcopy(packets[p])
        k = 0
        while not q.empty():
            if k > len(data) * (32 // ws) + 1:
                raise Violation('packet-size', 'packet {} never runs empty'.format(p))
            ctx.must('packet-content', q.dequeue, 0, 0)
            k += 1
        sizes[p] = k
    ctx.require(max(sizes.values()) - min(sizes.values()) <= 1, 'packet-size', lambda: str(sizes))
    ctx.require(sum(sizes.values()) == len(data) * (32 // ws), 'packet-size', lambda: 'total {}'.format(sizes))
    ctx.log('sizes', sorted(sizes.items()))
    return order, data, packets


def receive(case, ctx, order, packets, received):
    """Calls the receiver's deinterleave with what arrived. marks: lost packets may be absent or None"""
    inbox = {}
    for p in received.order:
        inbox[p] = received.packets[p]
    if case.get('mark_missing'):
        for p in range(case['n']):
            if p not in inbox:
                inbox[p] = None
    return ctx.call(il.deinterleave, inbox, order, case['ws'])


def check_words(r, what):
    if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], (list, tuple)) and
            isinstance(r[1], (list, tuple))):
        raise Violation(what + '-shape', repr(r)[:300])
    return list(r[0]), [tuple(e) for e in r[1]]
