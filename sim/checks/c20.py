"""C20: the ambiguity reported for a damaged program is the true one"""
import math

from sim.core import Invalid, Violation
from sim.prng import Prng
from sim.checks import recovery as rc, history

ID = 'C20'
RUNS = dict(quick=18000, thorough=563000)
BATCH = 30
RULE = ('case = program, loss, and a history of elimination steps with queries of the metrics in a drawn order by one or more '
        'quality objects between the steps; non-trivial = an address was ambiguous')
MEASURE = 'distinct (candidate lists, queries, answers)'
REAL = ['solution_quality.SolutionQuality', 'recuperator and corruptor (history)', 'capstone']
STUB = ['network loss (drawn as a set of lost packets)', 'console']
TIME_UNIT = 'queries'
MUST_FIRE = ['recovery-pass', 'eliminated', 'candidates-reordered', 'addresses-reordered', 'ask-count', 'ask-size', 'ask-bins',
             'ask-depth', 'ask-report', 'ask-evaluate', 'ask-rescore', 'evaluated-again', 'depth-1', 'depth-inner', 'nothing-ambiguous', 'shrunk',
             'huge-product', 'gap-program', 'undecodable-undamaged', 'zero-word', 'thousand-ambiguous', 'huge-count-reported']
ASSUMPTIONS = ['damaged words are instructions', 'every step is followed by a new quality object, as in the driver, or by evaluate() of the one before']

ASK = ['count', 'size', 'bins', 'depth', 'report', 'evaluate']


def setup():
    rc.setup()


def gen(r, i, tier):
    c = rc.gen_case(r, 1, 40, .2, .3, 400 if tier == 'quick' else 1500, 7, alike=.0015)
    steps = []
    for k in range(r.int(1, 4)):
        steps.append(dict(hist=[] if k == 0 and r.chance(.5) else history.gen_history(r),
                          keep=k > 0 and r.chance(.4), seed=r.below(1 << 20),
                          ask=[r.choice(ASK + ['rescore'] * (r.chance(.3))) for _ in range(r.int(1, 7))]))
    c['steps'] = steps
    return c


def shrink(case):
    s = case['steps']
    for i in range(len(s)):
        if len(s) > 1:
            yield dict(case, steps=s[:i] + s[i + 1:])
    for x in rc.shrink(case):
        yield x


def run(case, ctx):
    from sim import progs
    flat = rc.check_program(case)
    if rc.touched_invalid(flat, rc.check_loss(case, len(flat))) or not case['steps']:
        raise Invalid('damaged word is no instruction')
    original, program = rc.damaged(case, ctx, flat)
    words = dict(flat)
    ctx.probe('thousand-ambiguous', int(sum(len(v) > 1 for v in program.values()) > 1024))
    ctx.probe('gap-program', int(any(b[0] - a[0] > 4 for a, b in zip(flat, flat[1:]))))
    ctx.probe('undecodable-undamaged', int(any(not progs.decodes(w) for _, w in flat)))
    last = q = None
    for step in case['steps']:
        if not history.apply(step['hist'], flat, case['fns'], program, ctx):
            ctx.probe('original-not-listed')
            return
        counts = [len(v) for v in program.values()]
        product = 1
        for n in counts:
            product *= n
        bins = {}
        for n in counts:
            bins[n] = bins.get(n, 0) + 1
        size = sum(math.log2(n) for n in counts)
        ctx.probe('nothing-ambiguous', int(product == 1))
        ctx.probe('huge-product', int(product > 1 << 64))
        ctx.nontrivial |= product > 1
        before = {a: sorted(v) for a, v in rc.encs(program).items()}
        order = list(program)
        if step['keep'] and q is not None:
            # an older object that is asked to look again
            ctx.probe('evaluated-again')
            ctx.must('evaluate', q.evaluate)
        else:
            q = ctx.must('new', rc.SolutionQuality, program, original)
        answers = []
        for k, ask in enumerate(step['ask']):
            ctx.probe('ask-' + ask)
            ctx.simtime += 1
            if ask == 'count':
                got = ctx.must('count', lambda: q.solution_count)
                ctx.require(got == product, 'wrong-count', lambda: '{} instead of {}'.format(got, product))
                answers.append(got)
            elif ask == 'size':
                got = ctx.must('size', lambda: q.solution_size)
                ctx.require(isinstance(got, (int, float)) and abs(got - size) <= 1e-6 * max(1, size), 'wrong-size',
                            lambda: '{} instead of {}'.format(got, size))
                answers.append(round(got, 6))
            elif ask == 'bins':
                got = ctx.must('bins', lambda: q.solution_count_bins)
                ctx.require(isinstance(got, dict) and {k: v for k, v in got.items() if v} == bins, 'wrong-bins',
                            lambda: '{} instead of {}'.format(got, bins))
                answers.append(sorted(got.items()))
            elif ask == 'depth':
                got = ctx.must('depth', lambda: q.highest_depth)
                check_depth(got, flat, words, program, ctx)
                answers.append(got)
            elif ask == 'rescore':
                dice = Prng('rescore', step['seed'], k)
                for v in program.values():
                    for i in v:
                        i.score_function = lambda scores, inst, x=dice.below(9) / 8.: x
                ctx.must('evaluate', q.evaluate)
            elif ask in ('report', 'evaluate'):
                ctx.probe('huge-count-reported', int(ask == 'report' and product.bit_length() > 2130))
                ctx.must(ask, getattr(q, ask))
            else:
                raise Invalid('query')
            ctx.require({a: sorted(v) for a, v in rc.encs(program).items()} == before and list(program) == order,
                        'candidates-changed', lambda: 'by asking for ' + ask)
        if last is not None:
            ctx.require(product <= last, 'ambiguity-grew')
            ctx.probe('shrunk', int(product < last))
        last = product
        ctx.log(list(rc.encs(program).items()), step['ask'], answers)
        ctx.sig(list(rc.encs(program).items()), step['ask'], answers)


def check_depth(got, flat, words, program, ctx):
    """The candidate lists are in the order in which they were ranked"""
    worst = 0
    some = False
    for a, w in flat:
        o = rc.CAPS(w, a)
        if o.ignore:
            continue
        some = True
        v = program[a]
        low = min(i.encoding for i in v)
        ctx.probe('zero-word', int(low == 0))
        i = 0
        while i < len(v) and str(v[i]) != str(o):
            i += 1
        ctx.require(i < len(v), 'original-not-found', lambda: hex(a))
        worst = max(worst, (i + 1) / len(v))
        if low:
            scores = [c.score() for c in v]
            for x, y in zip(range(len(v)), range(1, len(v))):
                ctx.require(scores[x] >= scores[y] - 1e-6, 'not-ranked-by-score',
                            lambda: '{:#x}: {}'.format(a, scores))
    if not some:
        return
    ctx.require(isinstance(got, (int, float)), 'no-depth', lambda: repr(got))
    ctx.require(abs(got - worst) < 1e-9 and 0 < got <= 1, 'wrong-depth', lambda: '{} instead of {}'.format(got, worst))
    ctx.probe('depth-1', int(got == 1))
    ctx.probe('depth-inner', int(got < 1))
