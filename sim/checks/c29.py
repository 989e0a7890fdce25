"""C29: the command-line programs deliver complete results or fail visibly"""
import os
import sys

from sim import progs, env
from sim.core import Invalid, Raised, Violation
from sim.simfs import SimFS, SimCrash, ROOT, gen_faults
from sim.checks import recovery as rc

ID = 'C29'
RUNS = dict(quick=3000, thorough=30000)
BATCH = 20
RULE = ('case = a listing, the arguments and a disk fault plan; store_packets or recover_program runs as a whole process '
        '(__main__) on the simulated disk; non-trivial = the program has several packets or a fault fired')
MEASURE = 'distinct (listing, fault plan, outcome, files left behind)'
REAL = ['store_packets.py', 'recover_program.py', 'disassembler_readers', 'interleaver2d', 'corruptors', 'shiftcompressor',
        'recuperator', 'solution builders, reader and writer', 'bitarray', 'Python buffered and text I/O layers']
STUB = ['disk (system-call layer)', 'console', 'process (run in this one, with its own argv, exit code and standard output)']
TIME_UNIT = 'bytes written'
MUST_FIRE = ['stale-outputs', 'store', 'recover', 'short-write', 'short-read', 'write-error', 'read-error', 'disk-full', 'open-error',
             'close-error', 'write-lost-on-close', 'source-missing', 'source-no-listing', 'wrong-arguments', 'uneven-packets',
             'single-instruction', 'losses-predicted', 'output-replaced', 'crash-in-write', 'instructions-before-symbols', 'data-symbols', 'listing-style',
             'other-directories']
ASSUMPTIONS = ['a program has at least one instruction (recover_program: at least 97, it loses packet 3)',
               'recover_program: every word is an instruction']

# names as they may be given on the command line
NAMES = ['prog.lst', './prog.lst', 'in put/prog file.lst', ROOT + '/prog.lst', 'sub/../prog.lst', 'prog', '-']
OUTPUTS = ['out.pkt', './out.pkt', 'sub/out.pkt', ROOT + '/sub/out', 'out put', 'sub/../out.pkt', 'prog.lst.out', 'out.pkt.a100']
EMPTY = [b'', b'\n\n', b'.text\nthis is no listing\n;;;\n', b'.functions\n8000;main\n', b'.text\n', b'\0' * 100, b'.data\n8000;e3a00001;mov\n']

KINDS = dict(open=['eio', 'emfile'], write=['short', 'short', 'eio', 'enospc', 'crash'], close=['lost', 'eio'],
             read=['short', 'short', 'eio'])
SOURCE = 'basicmath_small.disam'


def setup():
    rc.setup()
    import semantic_codec.compressor.shiftcompressor  # noqa: F401
    import bitarray  # noqa: F401


def gen(r, i, tier):
    mode = 'recover' if i % 100 in (3, 53) else 'store'
    if mode == 'recover':
        n = r.int(500, 900)
        fns = progs.gen_program(r, n, 0, .3)
    else:
        n = r.choice([1, 2, 3, 4, 5, r.int(1, 30), r.int(1, 120), r.int(1, 400)])
        fns = progs.gen_program(r, n, .2, .4)
    fns.sort(key=lambda f: f['addr'])
    if r.chance(.15):
        # instructions before the first symbol
        k = next(i for i, f in enumerate(fns) if f['words'])
        fns[k]['loose'] = 1
    faults = gen_faults(r, ['open', 'write', 'write', 'close', 'read', 'read'], KINDS, 2, r.choice([2, 4, 20]), 600) \
        if r.chance(.6) else []
    return dict(mode=mode, fns=fns, plan=dict(blksize=r.choice([8192, 8192, 512, 64]),
                                              capacity=None, faults=faults),
                source=r.weighted([('good', 20), ('missing', 1), ('no-listing', 1), ('arguments', 1)]) if mode == 'store' else 'good',
                variant=r.below(12), style=[int(r.chance(.2)) for _ in range(5)], names=[r.below(len(NAMES)), r.below(len(OUTPUTS))],
                old=r.choice([0, 0, 10, 5000, 'same']), stale=r.choice(SimFS.STALE + [None]))


shrink = rc.shrink


def listing(fns, style=(0, 0, 0, 0, 0)):
    crlf, plain, upper, open_end, blank = style
    h = '{:x}' if plain else '{:#x}'
    out = ['.functions'] + [h.format(f['addr']) + ';f{}'.format(i) for i, f in enumerate(fns) if not f.get('loose')] + ['', '.text']
    for a, w in progs.flat(fns):
        out.append((h + ';{:' + 'xX'[upper] + '};mov;r0, r1').format(a, w))
        if blank and a % 28 == 0:
            out.append('')
    return ('\r\n' if crlf else '\n').join(out + [''] * (not open_end)).encode()


def process(script, argv, fs):
    """Runs a script as a process -> outcome: 'exit:N', 'raised:Type', 'killed'; and its console"""
    src = env.REAL_OPEN(os.path.join(env.REPO, script)).read()
    code = compile(src, os.path.join(env.REPO, script), 'exec')
    console, old, old_argv = env.Sink(), sys.stdout, sys.argv
    sys.stdout, sys.argv = console, [script] + argv
    problem = None
    try:
        with fs:
            try:
                exec(code, {'__name__': '__main__', '__file__': os.path.join(ROOT, script), '__builtins__': __builtins__,
                            'exit': sys.exit, 'quit': sys.exit})
                outcome = 'exit:0'
            except SystemExit as e:
                outcome = 'exit:{}'.format(0 if e.code is None else e.code)
            except SimCrash:
                outcome = 'killed'
            except Exception as e:
                if not env.in_repo(e.__traceback__):
                    raise
                outcome = 'raised:' + type(e).__name__
                problem = Raised(e)
        left = sys.stdout
    finally:
        sys.stdout, sys.argv = old, old_argv
    if left is not console:
        raise Violation('console-lost', 'after {} ({})'.format(script, outcome))
    return outcome, problem, console.text()


def run(case, ctx):
    flat = rc.check_program(case)
    n = len(flat)
    if case['mode'] not in ('store', 'recover') or case['stale'] not in [None] + SimFS.STALE or case['source'] not in ('good', 'missing', 'no-listing', 'arguments') or \
            any(len(f) != 4 or f[2] not in KINDS.get(f[0], []) for f in case['plan']['faults']):
        raise Invalid('arguments')
    if not 0 <= case['variant'] < 100 or len(case['style']) != 5 or any(x not in (0, 1) for x in case['style']) or \
            not (0 <= case['names'][0] < len(NAMES) and 0 <= case['names'][1] < len(OUTPUTS)):
        raise Invalid('style')
    ctx.probe('instructions-before-symbols', int(any(f.get('loose') and f['words'] for f in case['fns'])))
    ctx.probe('data-symbols', int(any(not f['words'] for f in case['fns'])))
    ctx.probe('listing-style', int(any(case['style'])))
    if case['mode'] == 'store':
        store(case, ctx, flat)
    else:
        if n < 450 or any(not progs.decodes(w) for _, w in flat):
            raise Invalid('program')
        recover(case, ctx, flat)


def store(case, ctx, flat):
    ctx.probe('store')
    n = len(flat)
    argv = [NAMES[case['names'][0]], OUTPUTS[case['names'][1]]]
    given, target = (os.path.normpath(os.path.join(ROOT, x))[len(ROOT) + 1:] for x in argv)
    ctx.probe('other-directories', int('/' in given + target))
    fs = SimFS(ctx, case['plan'])
    fs.dirs |= {ROOT + '/sub', ROOT + '/in put'}
    text = listing(case['fns'], case['style'])
    v = case['variant']
    if case['source'] == 'missing':
        argv[0] = ['other.lst', 'sub', 'nowhere/prog.lst', ''][v % 4]
    elif case['source'] == 'no-listing':
        text = EMPTY[v % len(EMPTY)]
    elif case['source'] == 'arguments':
        argv = [argv[:1], [], argv + ['more']][v % 3]
    fs.put(given, text)
    if case['old']:
        size = 4 * n if case['old'] == 'same' else case['old']
        fs.put(target, bytes(size))
        fs.put(target + 'a100', bytes(size))
        ctx.probe('stale-outputs', int(case['old'] == 'same'))
    outcome, problem, shown = process('store_packets.py', argv, fs)
    ctx.simtime += fs.written
    hard, soft = fs.hard, fs.soft
    ctx.require(not fs.escapes, 'writes-elsewhere', lambda: str(fs.escapes))
    ctx.log(outcome, hard, soft, sorted((k, len(v)) for k, v in fs.files.items()))
    ctx.sig(case, outcome, sorted((k, bytes(v)) for k, v in fs.files.items()))
    ctx.nontrivial = bool(n > 4 or hard or soft)
    ctx.require(fs.get(given) == text, 'source-changed')
    others = sorted(set(fs.files) - {ROOT + '/' + x for x in (given, target, target + 'a100')})
    ctx.require(not others, 'writes-elsewhere', lambda: str(others))
    if case['source'] != 'good':
        ctx.probe('source-missing' if case['source'] == 'missing' else
                  'wrong-arguments' if case['source'] == 'arguments' else 'source-no-listing')
        ctx.require(outcome != 'exit:0', 'failure-not-visible', lambda: 'source: {}'.format(case['source']))
        if not case['old'] and case['source'] != 'no-listing':
            ctx.require(fs.get(target) is None, 'output-without-source')
        return
    if outcome == 'killed':
        return
    if outcome != 'exit:0':
        ctx.require(hard, 'fails-without-a-fault', lambda: '{} {} ({} instructions): {}'.format(outcome, problem, n, shown[-200:]))
        return
    # ended normally
    words = b''.join(w.to_bytes(4, 'little') for _, w in flat)
    full, part = fs.get(target + 'a100'), fs.get(target)
    ctx.probe('output-replaced', int(bool(case['old'])))
    ctx.require(full is not None and part is not None, 'output-missing', lambda: str(sorted(fs.files)))
    ctx.require(full == words, 'program-stored-wrong', lambda: _diff(full, words))
    packets = -(-n // 4)
    ctx.probe('uneven-packets', int(n % 4 != 0))
    ctx.probe('single-instruction', int(n == 1))
    order = ctx.must('order', rc.il.build_2d_interleave_sp, packets, flat=True)
    pos = [j for j, p in enumerate(order) if int(p) < packets // 5]
    lost = progs.lost_bits(n, packets, 2, pos) if pos else [0] * n
    ctx.probe('losses-predicted', int(any(lost)))
    mask = b''.join(m.to_bytes(4, 'little') for m in lost)
    ctx.require(len(part) == len(words), 'packets-length', lambda: '{} bytes instead of {}'.format(len(part), len(words)))
    for j in range(len(words)):
        if part[j] != words[j]:
            ctx.require(mask[j], 'kept-byte-changed', lambda: 'byte {}: {:#x} instead of {:#x}'.format(j, part[j], words[j]))
            ctx.require(part[j] & ~words[j] == 0, 'stored-bit-invented', lambda: 'byte {}: {:#x} / {:#x}'.format(
                j, part[j], words[j]))


def recover(case, ctx, flat):
    ctx.probe('recover')
    n = len(flat)
    data = listing(case['fns'], case['style'])

    def once(fs, stale=()):
        fs.dirs |= {ROOT + '/tests', ROOT + '/tests/data'}
        for name in sorted(os.listdir(os.path.join(env.REPO, 'tests', 'data'))):
            fs.put('tests/data/' + name, data)
        given = set(fs.files)
        if stale:
            fs.leave({ROOT + '/' + k: v for k, v in files.items()}, case['stale'])
        r = process('recover_program.py', [], fs)
        return r, {k[len(ROOT) + 1:]: bytes(v) for k, v in fs.files.items() if k not in given}

    clean = SimFS()
    (o0, p0, text), files = once(clean)
    ctx.simtime += clean.written
    ctx.require(not clean.escapes, 'writes-elsewhere', lambda: str(clean.escapes))
    ctx.require(o0 == 'exit:0', 'fails-without-a-fault', lambda: '{} {}'.format(o0, p0))
    # the damaged program that was kept, against the model of the loss
    packets = -(-n // 32)
    order = ctx.must('order', rc.il.build_2d_interleave_sp, packets, flat=True)
    pos = [j for j, p in enumerate(order) if int(p) == 3]
    lost = progs.lost_bits(n, packets, 2, pos)
    most = progs.predicted_model(n, packets, 2, pos)
    kept = None
    if 'corrupted.json' in files:
        with clean:
            kept = ctx.must('load', rc.corruption.load_corrupted_program_from_json, 'corrupted.json')
        kept = {a: [c.encoding for c in v] for a, v in kept.items()}
        allowed(ctx, 'corrupted.json', kept, flat, lost, most)
        for i, (a, w) in enumerate(flat):
            ctx.require(w in kept[a], 'original-missing', lambda: hex(a))
            ctx.require(len(kept[a]) >= 1 << bin(lost[i]).count('1'), 'wrong-damage',
                        lambda: '{:#x}: {} candidates, lost bits {:#x}'.format(a, len(kept[a]), lost[i]))
    for name in ('initial_solution.sol', 'final_solution.sol'):
        ctx.require(name in files, 'file-missing', lambda: name)
        with clean:
            original, program = ctx.must('read', rc.io_.SolutionReader().read, name)
        ctx.require({a: [i.encoding for i in v] for a, v in original.items()} == {a: [w] for a, w in flat},
                    'wrong-original', lambda: name)
        program = {a: [i.encoding for i in v] for a, v in program.items()}
        allowed(ctx, name, program, flat, lost, most)
        ctx.require(all(program[a] for a, _ in flat), 'nothing-left', name)
        if name.startswith('initial'):
            ctx.require(all(w in program[a] for a, w in flat), 'original-missing', name)
    reports = [k for k in files if k.endswith('.txt')]
    for k in reports:
        ctx.require(files[k].count(b'Original Instruction:') == n, 'report-incomplete',
                    lambda: '{} names {} of {} instructions'.format(k, files[k].count(b'Original Instruction:'), n))
    ctx.require('corrupted_program.txt' in reports, 'file-missing', lambda: str(sorted(files)))
    ctx.nontrivial = True
    ctx.log(sorted(files.items()))
    if case['plan']['faults'] or case['stale']:
        fs = SimFS(ctx, case['plan'])
        (o, p, _), got = once(fs, case['stale'])
        ctx.log(o, fs.hard, fs.soft)
        if o == 'exit:0':
            ctx.require(got == files, 'file-differs-but-no-error', lambda: str(
                [k for k in set(files) | set(got) if files.get(k) != got.get(k)]))
        elif o != 'killed':
            ctx.require(fs.hard, 'fails-without-a-fault', lambda: '{} {}'.format(o, p))
    ctx.sig(case)


def allowed(ctx, name, program, flat, lost, most):
    ctx.require(sorted(program) == [a for a, _ in flat], 'addresses-changed', name)
    for i, (a, w) in enumerate(flat):
        bad = [x for x in program[a] if (x ^ w) & ~(most[i] | lost[i])]
        ctx.require(not bad, 'unknown-candidate', lambda: '{} {:#x}: {:#x} of {:#x}, lost bits {:#x}'.format(
            name, a, bad[0], w, most[i]))


def _diff(g, w):
    j = next((j for j in range(min(len(g), len(w))) if g[j] != w[j]), min(len(g), len(w)))
    return '{} bytes instead of {}; first difference at {}'.format(len(g), len(w), j)
