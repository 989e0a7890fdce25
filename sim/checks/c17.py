"""C17: a bit queue is a first-in first-out stream of bits"""
from sim.core import Invalid, Violation
from sim.checks import recovery as rc

ID = 'C17'
RUNS = dict(quick=70000, thorough=2191000)
BATCH = 150
RULE = ('case = an interleaved history of puts and gets by a producer and a consumer, with chunk size, source or target offset and '
        'value of each operation; every step is compared with a list of bits; non-trivial = a chunk crossed a word boundary')
MEASURE = 'distinct histories'
REAL = ['bits.BitQueue', 'bits.Bits']
STUB = ['producer/consumer schedule (explicit operation list)']
TIME_UNIT = 'queue operations'
MUST_FIRE = ['put-crosses-word', 'get-crosses-word', 'size-32', 'size-1', 'drained', 'refilled', 'offset-put', 'offset-get',
             'size-changes', 'long-backlog', 'target-bits-set', 'several-queues', 'ends-at-word', 'long-history']
ASSUMPTIONS = ['a consumer takes only as many bits as are queued', 'values have at most 32 bits and offset + size <= 32']


def setup():
    global BitQueue
    rc.setup()
    from semantic_codec.architecture.bits import BitQueue


def gen(r, i, tier):
    ops = []
    style = r.below(5)
    fixed = r.int(1, 32)
    pool = [fixed] if style == 0 else [1, 2, 4, 8, 16, 32] if style == 1 else [31, 32, 1, 17] if style == 2 else None
    nq = r.choice([1, 1, 2])
    have = [0] * nq
    bias = r.choice([.5, .6, .9])
    for _ in range(r.int(400, 900) if r.chance(.01) else r.int(3000, 9000) if r.chance(.0015) else r.int(1, 70)):
        q = r.below(nq)
        ws = r.choice(pool) if pool else r.int(1, 32)
        if have[q] < ws and pool is None and have[q] and r.chance(.5):
            ws = r.int(1, min(32, have[q]))
        if have[q] < ws or r.chance(bias):
            ops.append([q, 'put', ws, r.choice([0, r.int(0, 32 - ws)]), r.choice([r.bits(32), 0xffffffff, 0])])
            have[q] += ws
        else:
            ops.append([q, 'get', ws, r.choice([0, r.int(0, 32 - ws)]), r.choice([0, 0, r.bits(32), 0xffffffff])])
            have[q] -= ws
        if r.chance(.03):
            # drain
            while have[q]:
                ws = min(32, have[q], r.int(1, 32))
                ops.append([q, 'get', ws, 0, 0])
                have[q] -= ws
    return dict(ops=ops, first=r.choice([1, 2, 8, 32]))


def run(case, ctx):
    qs, model, pos, sizes = {}, {}, {}, {}
    drained = set()
    for q, op, ws, off, value in case['ops']:
        if not 1 <= ws <= 32 or not 0 <= off <= 32 - ws or not 0 <= value < 1 << 32 or case['first'] not in range(1, 33):
            raise Invalid('operation')
        if q not in qs:
            qs[q] = ctx.must('new', BitQueue, case['first'])
            model[q] = []
            pos[q] = [0, 0]
            ctx.require(qs[q].empty(), 'not-empty-at-first')
        b, m = qs[q], model[q]
        b.word_size = ws
        ctx.probe('size-32', int(ws == 32))
        ctx.probe('size-1', int(ws == 1))
        if q in sizes and sizes[q] != ws:
            ctx.probe('size-changes')
        sizes[q] = ws
        if op == 'put':
            if q in drained:
                ctx.probe('refilled')
            ctx.must('put', b.enqueue, value, off)
            m += [value >> (off + i) & 1 for i in range(ws)]
            if pos[q][0] % 32 + ws > 32:
                ctx.probe('put-crosses-word')
                ctx.nontrivial = True
            pos[q][0] += ws
            ctx.probe('ends-at-word', int(pos[q][0] % 32 == 0))
            ctx.probe('offset-put', int(off > 0))
            ctx.probe('long-backlog', int(len(m) > 200))
        elif op == 'get':
            if len(m) < ws:
                raise Invalid('nothing to get')
            want = value
            for i in range(ws):
                want = want & ~(1 << (off + i)) | m[i] << (off + i)
            del m[:ws]
            got = ctx.must('get', b.dequeue, value, off)
            if got != want:
                mask = ((1 << ws) - 1) << off
                raise Violation('wrong-bits' if (got ^ want) & mask else 'other-bits-changed',
                                'get {} bits at {} into {:#x}: {:#x} instead of {:#x}'.format(ws, off, value, got, want))
            if pos[q][1] % 32 + ws > 32:
                ctx.probe('get-crosses-word')
            pos[q][1] += ws
            ctx.probe('offset-get', int(off > 0))
            ctx.probe('target-bits-set', int(value not in (0,)))
            if not m:
                ctx.probe('drained')
                drained.add(q)
        else:
            raise Invalid('operation')
        ctx.simtime += 1
        e = ctx.must('empty', b.empty)
        ctx.require(bool(e) == (not m), 'wrong-empty', lambda: 'empty() is {} with {} bits queued'.format(e, len(m)))
    ctx.probe('long-history', int(len(case['ops']) > 350))
    ctx.probe('several-queues', int(len(qs) > 1))
    # whatever is left comes out in order, whatever the consumer's chunk size
    for q in sorted(qs):
        b, m = qs[q], model[q]
        while m:
            ws = min(len(m), 7)
            b.word_size = ws
            got = ctx.must('get', b.dequeue, 0, 0)
            want = sum(x << i for i, x in enumerate(m[:ws]))
            ctx.require(got == want, 'wrong-bits', lambda: 'final get {:#x} instead of {:#x}'.format(got, want))
            del m[:ws]
        ctx.require(b.empty(), 'wrong-empty', 'not empty at the end')
    ctx.log(len(case['ops']))
    ctx.sig(case)
