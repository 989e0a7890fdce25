"""C02: lost packets are zero-filled, reported exactly, and never shift other data"""
from sim import net
from sim.core import Raised
from sim.checks import transfer
from sim.checks.transfer import setup, REAL, STUB

ID = 'C02'
RUNS = dict(quick=20000, thorough=582000)
BATCH = 60
RULE = ('case = message, packet count 1..400, chunk size, delivery plan with loss, bursts, partition, deadline, receiver '
        'restart, reordering and duplicates; non-trivial = some but not all packets lost and the message has chunks')
MEASURE = 'distinct (words, packets, chunk size, set of received packets)'
MUST_FIRE = ['loss', 'burst-loss', 'partition-loss', 'late', 'receiver-restart', 'all-lost', 'last-of-order-lost',
             'first-of-order-lost', 'one-left', 'tail-chunk-lost', 'reorder', 'duplicate']


def gen(r, i, tier):
    nw, n, ws = transfer.gen_size(r)
    case = dict(words=transfer.gen_words(r, nw), n=n, ws=ws, plan=net.gen_plan(r, n, True), mark_missing=r.chance(.5),
                lose_pos=[])
    if r.chance(.35):
        # positions in the order of the interleave (0 = first, -1 = last)
        case['lose_pos'] = [r.choice([0, n - 1, n - 1, r.below(n)]) for _ in range(r.int(1, 2))]
    return case


def run(case, ctx):
    transfer.check_shape(ctx, case)
    order, data, packets = transfer.send(case, ctx)
    n, ws = case['n'], case['ws']
    iorder = [int(x) for x in order]
    plan = dict(case['plan'])
    plan['burst'] = plan['burst'] + [[iorder[p], 1] for p in case['lose_pos'] if p < n]
    rx = net.transfer(packets, plan, ctx)
    received = set(rx.order)
    r = transfer.receive(case, ctx, order, packets, rx)
    ctx.probe('first-of-order-lost', int(iorder[0] not in received and received != set()))
    ctx.probe('last-of-order-lost', int(iorder[-1] not in received and received != set()))
    ctx.probe('one-left', int(len(received) == 1 and n > 1))
    ctx.sig(len(data), n, ws, sorted(received))
    if not received:
        ctx.probe('all-lost')
        ctx.require(isinstance(r, Raised), 'no-error-when-nothing-arrived', lambda: repr(r)[:200])
        ctx.require(r.type not in ('AttributeError', 'KeyError', 'IndexError', 'TypeError', 'UnboundLocalError',
                                   'NameError', 'ZeroDivisionError', 'StopIteration'),
                    'error-not-explicit', lambda: repr(r))
        return
    ctx.require(not isinstance(r, Raised), 'receive-exception-' + getattr(r, 'type', ''), lambda: repr(r))
    got, errors = transfer.check_words(r, 'receive')
    ctx.log('got', got, errors)

    # the model: chunk i travels in packet order[i mod n]
    chunks = len(data) * 32 // ws
    mask = (1 << ws) - 1
    known = 0                       # chunks of rounds in which something arrived
    for k in range((chunks + n - 1) // n):
        if any(iorder[j] in received for j in range(min(n, chunks - k * n))):
            known = min(chunks, (k + 1) * n)
    expected = list(data)
    lost = []
    for i in range(chunks):
        if iorder[i % n] not in received:
            w, b = i * ws // 32, i * ws % 32
            expected[w] &= ~(mask << b)
            if i < known:
                lost.append((w, b))
    ctx.probe('tail-chunk-lost', int(chunks > 0 and iorder[(chunks - 1) % n] not in received))
    # a message whose last round got lost completely may come out short; what is missing reads as nothing
    full = got + [0] * max(0, len(data) - len(got))
    ctx.require(full[:len(data)] == expected, 'words-differ', lambda: 'received {} expected {} got {}'.format(
        sorted(received)[:20], [hex(x) for x in expected][:12], [hex(x) for x in got][:12]))
    ctx.require(len(got) * 32 >= known * ws, 'words-missing', lambda: '{} words'.format(len(got)))
    ctx.require(not any(got[len(data):]), 'padding-not-zero', lambda: repr(got[len(data):][:5]))
    ctx.require(len(got) <= len(data) + n * ws // 32 + 2, 'padding-too-long')
    inside = [e for e in errors if e[0] * 32 + e[1] < chunks * ws]
    # chunks of a round that was lost completely can be reported or not
    inside_known = [e for e in inside if e[0] * 32 + e[1] < known * ws]
    beyond = [e for e in inside if e[0] * 32 + e[1] >= known * ws]
    ctx.require(sorted(inside_known) == lost, 'errors-differ', lambda: 'received {} of {} ws={} expected {} got {}'.format(
        sorted(received)[:20], n, ws, lost[:10], sorted(inside_known)[:10]))
    ctx.require(all(iorder[(e[0] * 32 + e[1]) // ws % n] not in received for e in beyond), 'errors-differ')
    ctx.nontrivial = bool(chunks and len(received) < n)
