"""C01: a transfer in which every packet arrives is lossless"""
from sim import net
from sim.core import Raised
from sim.checks import transfer
from sim.checks.transfer import setup, REAL, STUB

ID = 'C01'
RUNS = dict(quick=18000, thorough=432000)
BATCH = 60
RULE = ('case = message (0..90 words), packet count 1..400, chunk size, and a delivery plan (delay per packet, '
        'duplicates) that loses nothing; non-trivial = at least two packets arrived out of order or duplicated')
MEASURE = 'distinct (words, packets, chunk size, arrival order) of non-trivial runs'
MUST_FIRE = ['reorder', 'duplicate', 'delay', 'uneven', 'more-packets-than-chunks']


def gen(r, i, tier):
    nw, n, ws = transfer.gen_size(r)
    return dict(words=transfer.gen_words(r, nw), n=n, ws=ws, plan=net.gen_plan(r, n, False), again=r.chance(.3))


def run(case, ctx):
    transfer.check_shape(ctx, case)
    order, data, packets = transfer.send(case, ctx)
    n, ws = case['n'], case['ws']
    for round in range(2 if case.get('again') else 1):
        rx = net.transfer(packets, dict(case['plan'], drop=[], burst=[], cut=[], restart=[], deadline=None), ctx)
        r = transfer.receive(case, ctx, order, packets, rx)
        ctx.require(not isinstance(r, Raised), 'receive-exception-' + getattr(r, 'type', ''), lambda: repr(r))
        got, errors = transfer.check_words(r, 'receive')
        ctx.log('got', got, errors)
        ctx.require(got[:len(data)] == data, 'words-differ',
                    lambda: 'sent {} got {}'.format([hex(x) for x in data][:20], [hex(x) for x in got][:20]))
        ctx.require(not any(got[len(data):]), 'padding-not-zero', lambda: repr(got[len(data):][:5]))
        ctx.require(len(got) <= len(data) + n * ws // 32 + 2, 'padding-too-long',
                    lambda: '{} words for {}'.format(len(got), len(data)))
        ctx.require(errors == [], 'false-errors', lambda: repr(errors[:5]))
    c = len(data) * 32 // ws
    ctx.probe('uneven', int(c % n != 0))
    ctx.probe('even', int(c % n == 0))
    ctx.probe('more-packets-than-chunks', int(n > c))
    ctx.nontrivial = bool(ctx.faults['reorder'] or ctx.faults['duplicate']) and n > 1 and c > 0
    ctx.sig(len(data), n, ws, rx.order)
