"""Elimination histories: what a damaged program went through before it is handed to the solution code"""
from sim import progs
from sim.core import Invalid, Raised
from sim.prng import Prng
from sim.checks import recovery as rc


def gen_history(r):
    """Steps: pass (a real recovery pass), drop (some wrong candidates eliminated), order (candidates / addresses reordered)"""
    out = []
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        k = r.choice(['pass', 'drop', 'drop', 'order', 'addr-order', 'ignore'])
        out.append([k, r.below(1 << 20), r.choice([.1, .3, .6, .9])])
    return out


def one(step, flat, fns, program, ctx, meta=None):
    """Applies one step to {addr: [inst]} in place; the originals stay listed"""
    kind, seed, p = step
    if not 0 <= p <= 1:
        raise Invalid('history')
    words = dict(flat)
    r = Prng('history', seed)
    if kind == 'pass':
        m = rc.MetadataCollector()
        m.collect(rc.instructions(flat))
        addrs = progs.ends(fns)
        rec = rc.ProbabilisticRecuperator(m, program, functions=addrs)
        res = ctx.call(rec.recover)
        if isinstance(res, Raised):
            raise Invalid('recovery pass: ' + res.type)
        for v in program.values():
            if len(v) > 1:
                ctx.call(rc.rp.remove_bad_candidates_at_addr, v)
        ctx.fault('recovery-pass')
    elif kind == 'drop':
        for a in sorted(program):
            keep = [c for c in program[a] if c.encoding == words[a] or not r.chance(p)]
            if len(keep) < len(program[a]):
                program[a][:] = keep
                ctx.fault('eliminated')
    elif kind == 'ignore':
        for a in sorted(program):
            for c in program[a]:
                if c.encoding != words[a] and r.chance(p):
                    c.ignore = True
                    ctx.fault('ignored')
    elif kind == 'order':
        for a in sorted(program):
            r.shuffle(program[a])
        ctx.fault('candidates-reordered')
    elif kind == 'addr-order':
        keys = list(program)
        r.shuffle(keys)
        items = [(a, program[a]) for a in keys]
        program.clear()
        program.update(items)
        ctx.fault('addresses-reordered')
    else:
        raise Invalid('history')


def apply(steps, flat, fns, program, ctx):
    for s in steps:
        one(s, flat, fns, program, ctx)
    return rc.listed(rc.instructions(flat), program)
