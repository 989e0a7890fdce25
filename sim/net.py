"""
Discrete-event network between one sender and one receiver.

The fault plan is explicit: {"drop": [packet...], "burst": [[first, length]...], "cut": [[t0, t1]...] (partition),
"dup": [[packet, delay]...], "delay": [[packet, delay]...], "restart": [t...] (the receiver loses what it got so far),
"deadline": t or None}. Packet p is sent at time p (one virtual millisecond each) and takes 0.5 to arrive.
"""
import copy
import heapq

EMPTY = dict(drop=[], burst=[], cut=[], dup=[], delay=[], restart=[], deadline=None)


class Loop(object):
    """Event queue with a virtual clock; ties are broken by insertion order"""

    def __init__(self):
        self.now = 0.0
        self.q = []
        self.n = 0

    def at(self, t, fn, *a):
        self.n += 1
        heapq.heappush(self.q, (t, self.n, fn, a))

    def run(self, until=None, steps=200000):
        while self.q and steps > 0:
            t, _, fn, a = self.q[0]
            if until is not None and t > until:
                self.now = until
                return
            heapq.heappop(self.q)
            self.now = max(self.now, t)
            fn(*a)
            steps -= 1
        if steps <= 0:
            raise RuntimeError('simulation too long')


class Receiver(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.packets = {}
        self.order = []

    def arrive(self, p, queue, last):
        # last: number of the newest packet that arrived before, to notice reordering
        if p in self.packets:
            self.ctx.fault('duplicate')
            return
        if self.order and p < max(self.order):
            self.ctx.fault('reorder')
        self.packets[p] = queue
        self.order.append(p)
        self.ctx.log('arrive', p)

    def restart(self):
        if self.packets:
            self.ctx.fault('receiver-restart')
        self.packets = {}
        self.order = []
        self.ctx.log('restart')


def transfer(packets, plan, ctx):
    """
    packets: {number: payload}. Returns the Receiver after the deadline (or when the network is idle).
    """
    loop = Loop()
    rx = Receiver(ctx)
    dropped = set(plan['drop'])
    burst = set()
    for first, length in plan['burst']:
        burst.update(range(first, first + length))
    delays = {}
    for p, d in plan['delay']:
        delays[p] = d
    arrivals = []
    for p in sorted(packets):
        t = float(p)
        copies = [t + 0.5 + delays.get(p, 0)]
        if delays.get(p):
            ctx.fault('delay')
        for q, d in plan['dup']:
            if q == p:
                copies.append(copies[0] + d)
        if p in dropped:
            ctx.fault('loss')
            copies = copies[1:] if len(copies) > 1 and p not in burst else []
        if p in burst:
            ctx.fault('burst-loss')
            copies = []
        if any(a <= t < b for a, b in plan['cut']):
            ctx.fault('partition-loss')
            copies = []
        for c in copies:
            if plan['deadline'] is not None and c > plan['deadline']:
                ctx.fault('late')
            arrivals.append((c, p))
    for c, p in arrivals:
        loop.at(c, rx.arrive, p, copy.deepcopy(packets[p]), None)
    for t in plan['restart']:
        loop.at(float(t), rx.restart)
    loop.run(until=plan['deadline'])
    ctx.simtime += loop.now / 1000.0
    return rx


def gen_plan(r, n, lossy):
    """A fault plan for n packets. lossy=False: everything arrives eventually"""
    plan = dict(drop=[], burst=[], cut=[], dup=[], delay=[], restart=[], deadline=None)
    every = list(range(n))
    if r.chance(.7):
        plan['dup'] = [[r.below(n), r.int(0, 3 * n) + r.choice([0.0, .25])] for _ in range(r.int(1, 4))]
    style = r.below(4)
    if style == 1:
        plan['delay'] = [[p, float(r.int(0, n))] for p in every]
    elif style == 2:
        plan['delay'] = [[p, float(2 * (n - p))] for p in every]       # complete reversal
    elif style == 3:
        plan['delay'] = [[p, float(r.int(1, 2 * n))] for p in r.sample(every, r.int(1, n))]
    if not lossy:
        return plan
    kinds = r.sample(['drop', 'burst', 'cut', 'late', 'restart', 'almost', 'ends'], r.int(1, 2))
    if 'drop' in kinds:
        plan['drop'] = sorted(r.sample(every, r.int(1, max(1, n // r.choice([1, 2, 4, 8])))))
    if 'burst' in kinds:
        plan['burst'] = [[r.below(n), r.int(1, max(1, n // 2))]]
    if 'cut' in kinds:
        a = r.below(n)
        plan['cut'] = [[float(a), float(a + r.int(1, max(1, n // 2)))]]
    if 'late' in kinds:
        plan['deadline'] = float(r.int(0, n + n // 2)) + .75
    if 'restart' in kinds:
        plan['restart'] = [float(r.int(0, n)) + .6]
    if 'almost' in kinds:
        keep = r.below(n)
        plan['drop'] = [p for p in every if p != keep]
        plan['burst'], plan['cut'] = [], []
    if 'ends' in kinds:
        plan['drop'] = sorted(set(plan['drop']) | set(r.sample([0, n - 1, n // 2], r.int(1, 3))))
    return plan
