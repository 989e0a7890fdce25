"""C04: the predicted damage covers what the receiver actually missed"""
from sim import net
from sim.core import Invalid, Raised, Violation
from sim.checks import transfer

ID = 'C04'
RUNS = dict(quick=8000, thorough=137000)
BATCH = 60
RULE = ('case = data size, packet count, chunk size, loss plan; the same loss is applied to a real transfer of an all-ones '
        'message and to the prediction; non-trivial = something was lost and something arrived')
MEASURE = 'distinct (words, packets, chunk size, lost packets in list order)'
REAL = ['corruption.predict_corruption', 'interleaver2d', 'architecture.bits']
STUB = ['network (virtual-time event queue with explicit fault plan)']
MUST_FIRE = ['loss', 'burst-loss', 'partition-loss', 'late', 'unsorted-loss-list', 'last-bit-lost', 'no-data-lost',
             'chunk-over-word-end', 'first-listed-ends-first', 'beyond-4096-words']


def setup():
    global predict
    transfer.setup()
    from semantic_codec.corruption.corruption import predict_corruption as predict


def gen(r, i, tier):
    if r.chance(.004):
        # a long message in many packets
        ws = r.choice([2, 4, 8, 16, 32])
        nw, n = r.int(1500, 10000) if r.chance(.9) else r.int(65530, 66100), r.int(200, 1000)
        if nw > 60000:
            ws, n = 32, 4 * n
        k = max(1, min(4, 1200 * n // (nw * 32 // ws)))
        return dict(size=nw, n=n, ws=ws, plan=dict(net.EMPTY, drop=sorted(r.sample(list(range(n)), k))), perm=r.int(0, 3),
                    seed=r.below(1 << 30))
    nw, n, ws = transfer.gen_size(r, False)
    if ws == 32 and r.chance(.5):
        ws = 2
    return dict(size=nw, n=n, ws=ws, plan=net.gen_plan(r, n, True), perm=r.int(0, 3), seed=r.below(1 << 30))


def run(case, ctx):
    transfer.check_shape(ctx, case)
    n, ws, size = case['n'], case['ws'], case['size']
    order, data, packets = transfer.send(dict(case, words=[0xffffffff] * size), ctx)
    iorder = [int(x) for x in order]
    rx = net.transfer(packets, case['plan'], ctx)
    received = set(rx.order)
    lost = [p for p in range(n) if p not in received]
    if not lost:
        return
    if case['perm'] == 1:
        lost.reverse()
    elif case['perm'] >= 2:
        from sim.prng import Prng
        Prng(case['seed']).shuffle(lost)
    ctx.probe('unsorted-loss-list', int(lost != sorted(lost)))
    # what really went missing: message bits that do not come back as ones
    if received:
        r = transfer.receive(case, ctx, order, packets, rx)
        ctx.require(not isinstance(r, Raised), 'receive-exception-' + getattr(r, 'type', ''), lambda: repr(r))
        got, errors = transfer.check_words(r, 'receive')
        got = (got + [0] * size)[:size]
    else:
        got, errors = [0] * size, []
    missing = set(w * 32 + b for w in range(size) for b in range(32) if not got[w] >> b & 1)
    predicted = ctx.must('predict', predict, n, ws, size, order, list(lost))
    ctx.require(isinstance(predicted, (list, tuple)), 'predict-shape', lambda: repr(predicted)[:100])
    bits = set()
    for t in predicted:
        ctx.require(len(t) in (2, 3), 'predict-shape', lambda: repr(t))
        length = t[2] if len(t) == 3 else ws
        ctx.require(length > 0, 'empty-range', lambda: repr(t))
        ctx.require(0 <= t[1] < 32 and t[1] + length <= 32, 'range-outside-word', lambda: repr(t))
        bits.update(range(t[0] * 32 + t[1], t[0] * 32 + t[1] + length))
    ctx.log('predicted', sorted(bits))
    ctx.require(missing <= bits, 'missed-bits-not-predicted',
                lambda: 'size={} n={} ws={} lost={} not predicted {}'.format(
                    size, n, ws, lost[:10], [(b // 32, b % 32) for b in sorted(missing - bits)[:8]]))
    extra = [b for b in bits if b not in missing and b - 1 not in missing]
    ctx.require(not extra, 'undamaged-bits-predicted',
                lambda: 'size={} n={} ws={} lost={} extra {}'.format(
                    size, n, ws, lost[:10], [(b // 32, b % 32) for b in sorted(extra)[:8]]))
    # the receiver's own error list starts the same chunks
    for w, b in errors:
        if w < size:
            ctx.require(w * 32 + b in bits, 'receiver-error-not-predicted', lambda: repr((w, b)))
    ctx.probe('beyond-4096-words', int(bool(missing) and max(missing) >= 32 * 4096))
    ctx.probe('last-bit-lost', int(any(b % 32 == 31 for b in missing)))
    ctx.probe('no-data-lost', int(not missing))
    ctx.probe('chunk-over-word-end', int(any(b not in missing for b in bits)))
    ctx.probe('first-listed-ends-first', int(len(lost) > 1 and iorder.index(lost[0]) > min(iorder.index(p) for p in lost)))
    ctx.nontrivial = bool(missing and received)
    ctx.sig(size, n, ws, lost)
