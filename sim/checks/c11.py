"""C11: a damaged program saved as JSON is replayed exactly"""
from sim import progs, env
from sim.core import Invalid, Raised, Violation
from sim.simfs import SimFS, SimCrash, gen_faults
from sim.checks import recovery as rc

ID = 'C11'
RUNS = dict(quick=16000, thorough=500000)
BATCH = 30
RULE = ('case = damaged programs and a history of saves (directly, by the packet corruptor, by the random corruptor) to one or '
        'two files with fault plans; every file is loaded again both ways after every step and the recovery of the loaded '
        'program is compared with the one in memory; non-trivial = a fault hit a save or a recovery was compared')
MEASURE = 'distinct (history, damaged programs, outcomes)'
REAL = ['corruption.save_corrupted_program_to_json/load_corrupted_program_from_json', 'corruptors', 'recuperator',
        'recover_program.remove_bad_candidates_at_addr', 'json', 'Python buffered and text I/O layers']
STUB = ['disk (system-call layer)', 'network loss', 'module random', 'console']
TIME_UNIT = 'bytes written'
MUST_FIRE = ['short-write', 'write-error', 'disk-full', 'crash-in-write', 'crash-in-open', 'crash-in-close', 'open-error',
             'write-lost-on-close', 'short-read', 'read-error', 'packet-corruptor-save', 'random-corruptor-save',
             'direct-save', 'recovery-compared', 'save-acknowledged', 'save-failed', 'torn-file-rejected',
             'unsorted-candidates', 'unsorted-addresses', 'long-history']
ASSUMPTIONS = ['a killed process leaves what it had written in the page cache; power loss without fsync is not covered']

KINDS = dict(open=['eio', 'emfile', 'crash'], write=['short', 'short', 'eio', 'enospc', 'crash', 'crash'],
             close=['lost', 'eio', 'crash'], read=['short', 'short', 'eio'], rename=['eio', 'crash'])


def setup():
    rc.setup()


def gen(r, i, tier):
    steps = []
    long = r.chance(.004)
    for _ in range(r.int(20, 30) if long else r.int(1, 3)):
        c = rc.gen_case(r, 1, 3 if long else 14, .2, .3, 80, 5)
        faulty = r.chance(.1 if long else .5)
        steps.append(dict(file=r.choice(['x.json', 'x.json', 'y.json']), prog=c,
                          how=r.choice(['direct', 'direct', 'packets', 'random']), shuffle=r.choice([0, 0, r.int(1, 1 << 20)]),
                          seed=r.below(1 << 30), compare=r.chance(.5),
                          plan=dict(blksize=r.choice([8192, 512, 64, 16]), capacity=r.int(0, 900) if r.chance(.1) else None,
                                    faults=gen_faults(r, ['open', 'write', 'write', 'write', 'close', 'rename'], KINDS, 2,
                                                      r.choice([2, 10, 40])) if faulty else []),
                          read=dict(blksize=r.choice([8192, 64, 16]), capacity=None,
                                    faults=gen_faults(r, ['read'], KINDS, 2, 8) if r.chance(.4) else [])))
    return dict(steps=steps)


def shrink(case):
    for i, s in enumerate(case['steps']):
        if len(case['steps']) > 1:
            yield dict(steps=case['steps'][:i] + case['steps'][i + 1:])
    for i, s in enumerate(case['steps']):
        for p in rc.shrink(s['prog']):
            yield dict(steps=case['steps'][:i] + [dict(s, prog=p)] + case['steps'][i + 1:])


def listing(program):
    return [(a, [i.encoding for i in v]) for a, v in program.items()]


def recover(flat, fns_addr, program, ctx):
    """A short recovery -> its trace"""
    m = rc.MetadataCollector()
    m.collect(rc.instructions(flat))
    trace = []
    for p in range(2):
        rec = rc.ProbabilisticRecuperator(m, program, functions=fns_addr)
        r = ctx.call(rec.recover)
        if isinstance(r, Raised):
            trace.append(r.type)
            break
        trace.append([(a, [(i.encoding, None if i.ignore else i.score()) for i in v]) for a, v in program.items()])
        removed = [ctx.call(rc.rp.remove_bad_candidates_at_addr, v) for v in program.values()]
        trace.append([repr(x) if isinstance(x, Raised) else x for x in removed])
    q = rc.SolutionQuality(program, rc.instructions(flat))
    trace.append(repr(ctx.call(lambda: (q.solution_count, sorted(q.solution_count_bins.items())))))
    return trace, listing(program)


def run(case, ctx):
    fs = SimFS(ctx)
    ctx.probe('long-history', int(len(case['steps']) >= 20))
    model = {}
    for s in case['steps']:
        flat = rc.check_program(s['prog'])
        rc.check_loss(s['prog'], len(flat))
        if s['how'] not in ('direct', 'packets', 'random'):
            raise Invalid('how')
        for f in s['plan']['faults'] + s['read']['faults']:
            if len(f) != 4 or f[2] not in KINDS[f[0]]:
                raise Invalid('plan')
        fns_addr = progs.ends(s['prog']['fns'])
        name = s['file']
        order = rc.order_of(s['prog'], ctx)
        path_c = rc.packet_corruptor(s['prog'], order, len(flat), path=name)
        program = rc.from_list(rc.instructions(flat))
        if s['how'] == 'random':
            c = rc.RandomCorruptor(50, 2, True)
            c.corrupted_program_path = name
            ctx.probe('random-corruptor-save')
        elif s['how'] == 'packets':
            c = path_c
            ctx.probe('packet-corruptor-save')
        else:
            ctx.probe('direct-save')
            plain = rc.packet_corruptor(s['prog'], order, len(flat))
            program = ctx.must('corrupt', plain.corrupt, program)
            if s['shuffle']:
                from sim.prng import Prng
                r = Prng(s['shuffle'])
                keys = list(program)
                r.shuffle(keys)
                for v in program.values():
                    r.shuffle(v)
                program = {a: program[a] for a in keys}
                ctx.probe('unsorted-addresses')
                ctx.probe('unsorted-candidates', int(any(len(v) > 1 for v in program.values())))
        fs.arm(s['plan'])
        crashed, r = False, None
        env.ENTROPY.reset(s['seed'], [], 200000)
        with fs:
            try:
                if s['how'] == 'direct':
                    r = ctx.call(rc.corruption.save_corrupted_program_to_json, program, name)
                else:
                    r = ctx.call(c.corrupt, program)
            except SimCrash:
                crashed = True
        env.ENTROPY.reset(0)
        hard, soft = fs.hard, fs.soft
        fs.restart()
        ctx.require(not fs.escapes, 'writes-elsewhere', lambda: str(fs.escapes))
        if hard or soft:
            ctx.nontrivial = True
        want = listing(program)          # the corruptors damage the program in place
        old = model.get(name, [None])
        if crashed or isinstance(r, Raised):
            ctx.require(hard > 0, 'save-exception-' + getattr(r, 'type', ''), lambda: repr(r))
            model[name] = list(old) + [want]
            ctx.probe('save-failed')
        else:
            if s['how'] != 'direct':
                ctx.require(listing(r) == want, 'corruptor-result')
            model[name] = [want]
            ctx.probe('save-acknowledged')
        ctx.log('save', name, s['how'], crashed, repr(r)[:40] if isinstance(r, Raised) else '', len(fs.get(name) or b''))
        ctx.simtime += fs.written
        fs.written = 0
        loaded = None
        for way, plan in (('load', None), ('replay', s['read'])):
            fs.arm(plan)
            with fs:
                if way == 'load':
                    r = ctx.call(rc.corruption.load_corrupted_program_from_json, name)
                else:
                    r = ctx.call(rc.JSONCorruptor(name).corrupt, rc.from_list(rc.instructions(flat)))
            if isinstance(r, Raised):
                ctx.log(way, r.type)
                ctx.require(fs.hard or len(model[name]) > 1, 'acknowledged-save-unreadable', lambda: repr(r))
                if not fs.hard:
                    ctx.probe('torn-file-rejected')
                continue
            ctx.require(isinstance(r, dict), 'load-shape', lambda: repr(r)[:100])
            got = listing(r)
            ctx.log(way, got)
            if got not in [m for m in model[name] if m is not None]:
                only_order = any(m is not None and dict(m) == dict(got) for m in model[name])
                raise Violation('torn-content' if len(model[name]) > 1 else 'wrong-order' if only_order else 'wrong-content',
                                '{} by {}: {} instead of {}'.format(name, way, repr(got)[:250],
                                                                    [repr(m)[:250] for m in model[name]]))
            ctx.require(all(i.address == a and isinstance(i, rc.CAPS) for a, v in r.items() for i in v),
                        'candidate-address')
            if way == 'replay' or plan is None:
                loaded = r
        fs.arm(None)
        if loaded is not None and s['compare'] and model[name] == [want] and listing(loaded) == want:
            a = recover(flat, fns_addr, program, ctx)
            b = recover(flat, fns_addr, loaded, ctx)
            ctx.probe('recovery-compared')
            ctx.nontrivial = True
            ctx.require(a == b, 'recovery-differs', lambda: '{} / {}'.format(repr(a)[:300], repr(b)[:300]))
            ctx.log('recovered', b)
    ctx.sig(case)
