"""C15: disassembly listings are read completely or the failure is visible"""
from sim import progs
from sim.core import Invalid, Raised, Violation
from sim.simfs import SimFS, gen_faults
from sim.checks import recovery as rc

ID = 'C15'
RUNS = dict(quick=60000, thorough=1728000)
BATCH = 50
RULE = ('case = a generated listing in one of the two formats (sections, symbols, gaps, blank lines, repeated symbols) and fault '
        'plans of several reads; the result is compared with the listing that was generated; non-trivial = at least one '
        'instruction was read or a fault fired')
MEASURE = 'distinct (listing, fault plans, outcomes)'
REAL = ['disassembler_readers.ElfioTextDisassembleReader/TextDisassembleReader', 'functions.ElfFunction',
        'Python buffered and text I/O layers', 'capstone']
STUB = ['disk (system-call layer)']
TIME_UNIT = 'listing reads'
MUST_FIRE = ['short-read', 'read-error', 'open-error', 'elfio', 'text', 'no-final-newline', 'other-section', 'unnamed-start',
             'two-symbols-one-address', 'read-again', 'unicode-symbol', 'undecodable-word', 'error-after-first-buffer',
             'big-listing', 'data-symbol', 'other-lines', 'leading-blank-lines', 'listing-of-64k', 'crlf', 'long-line', 'many-reads']

KINDS = dict(read=['short', 'short', 'eio'], open=['eio', 'emfile'])
NAMES = ['main', '_start', '$a', '$d', '$t', 'call_weak_fn', 'frame_dummy', '__libc_csu_init', 'f.part.0', 'swi_1', 'x',
         'mûr', 'init', 'fn.text', 'x\u2028y', 'p\x1cq', 'r\x85s']
NOTES = dict(elfio=['--', '# padding', '0x40000000', 'literal pool'],
             text=['Disassembly of section .text:', '; literal pool', '.text:00010330 ; note', '# 0x1: a b', '*** ***'])


def setup():
    global readers
    rc.setup()
    from semantic_codec.architecture import disassembler_readers as readers


def gen(r, i, tier):
    fmt = r.choice(['elfio', 'text'])
    n = r.choice([0, 1, 2, r.int(1, 40), r.int(1, 40), r.int(1, 120)])
    if r.chance(.003):
        n = r.int(900, 4000)
    words = [r.choice([r.bits(32), w]) if r.chance(.1) else w for w in (progs.gen_words(r, n) if n else [])]
    addr = r.choice([0x10330, 0x8000, 0x1000, 0xfffffe00 - 4 * n if r.chance(.3) else 0x10470])
    secs = []
    names = ['init', 'plt', 'text', 'fini', 'text.startup', 'plt.got']
    names = r.sample(names, r.int(1, 4)) if r.chance(.8) else ['text']
    k = 0
    for s in names:
        ln = n - k if s == names[-1] else r.below(n - k + 1)
        lines = []
        for j in range(ln):
            sym = []
            if (j == 0 and r.chance(.8)) or r.chance(.12):
                sym = [r.choice(NAMES) for _ in range(r.choice([1, 1, 1, 2]))]
            lines.append(dict(addr=addr, word=words[k], sym=sym, blank=int(r.chance(.08))))
            k += 1
            addr += 4
        secs.append(dict(name=s, lines=lines))
        addr += 4 * r.choice([0, 0, 1, 9])
    if fmt == 'elfio' and r.chance(.3):
        secs.insert(r.below(len(secs) + 1), dict(name=r.choice(['data', 'rodata', 'bss']), lines=[
            dict(addr=0x40000000 + 4 * j, word=r.bits(32), sym=[], blank=0) for j in range(r.int(1, 4))]))
    far = [[0x50000000 + 4 * j, r.choice(NAMES)] for j in range(r.below(4))]
    reads = []
    long = n < 20 and r.chance(.004)
    for _ in range(r.int(60, 80) if long else r.int(1, 4)):
        reads.append(dict(what=r.choice(['functions', 'instructions', 'both']), fresh=r.chance(.5),
                          plan=dict(blksize=r.choice([8192, 8192, 256, 64, 16, 5]), capacity=None,
                                    faults=gen_faults(r, ['read', 'read', 'read', 'open'], KINDS, 3, r.choice([2, 10, 60]),
                                                      200) if r.chance(.7) else [])))
    # lines that are no instructions, before or among them
    notes = [[r.below(n + 1), r.below(len(NOTES[fmt]))] for _ in range(r.below(4))] if r.chance(.3) else []
    return dict(fmt=fmt, secs=secs, far=far, final=r.chance(.7), pad=r.below(3), reads=reads, notes=notes, lead=r.below(3),
                style=[r.chance(.1), r.chance(.1), r.chance(.1)],
                # the line of an instruction, and a name, that are very long
                long=[r.below(n + 1), r.choice([60, 100, 250, 500, 1000, 3000, 9000]) + r.below(80), r.below(3)] if r.chance(.05) else None)


def render(case):
    """-> text, expected instructions [(addr, word)], expected functions [(names, [(addr, word)])]; functions: instructions
    that precede every symbol of their section are ambiguous and listed apart"""
    more, tail = '', ''
    if case['long']:
        far = case['far'][-1] if case['far'] else None
        more = '_Z9container' + 'I' * case['long'][1]
        tail = [' ', ';', '; 0x8000;e3a00001;mov;'][case['long'][2]] * case['long'][1]
    else:
        far = None
    out, insts, fns, loose = [''] * case['lead'], [], [], set()
    count = 0
    if case['fmt'] == 'elfio':
        out.append('.functions')
        syms = [[a, n] for a, n in case['far']]
        for s in case['secs']:
            for l in s['lines']:
                syms += [[l['addr'], n] for n in l['sym']]
        # symbol tables are not ordered
        syms.sort(key=lambda x: (x[1], x[0]))
        for a, n in syms:
            out.append('{:#x};{}'.format(a, n + more if far and a == far[0] else n))
        out.append('')
    known = {}
    for s in case['secs']:
        code = s['name'].split('.')[0] in ('init', 'plt', 'text', 'fini')
        if case['fmt'] == 'elfio':
            out += ['', '.' + s['name']]
        named = False
        for l in s['lines']:
            if code:
                out += [NOTES[case['fmt']][b] for a, b in case['notes'] if a == count]
                count += 1
                insts.append((l['addr'], l['word']))
                if l['sym']:
                    named = True
                    fns.append([list(l['sym']), []])
                if fns and named:
                    fns[-1][1].append((l['addr'], l['word']))
                elif not named:
                    loose.add((l['addr'], l['word']))
            if case['fmt'] == 'elfio':
                upper, spaced = case['style'][:2]
                h = ('{:X}' if upper else '{:x}').format(l['word'])
                out.append(('{:#x} ; {} ; mov ; r0' if spaced else '{:#x};{};mov;r0, r1').format(l['addr'], h))
                out[-1] += tail if case['long'] and count - 1 == case['long'][0] else ''
                out += [''] * l['blank']
            else:
                for n in l['sym'][-1:]:
                    out += ['', '.{}:{:08x} <{}>:'.format(s['name'].split('.')[0], l['addr'], n)]
                b = l['word'].to_bytes(4, 'little')
                out.append('{}.{}:{:08x} {}                      mov\tr{}, r1 ; 0x0001 <$d>'.format(
                    ' ' * (1 + 13 * case['pad']), s['name'].split('.')[0], l['addr'], ' '.join(('{:02X}' if case['style'][0] else '{:02x}').format(x) for x in b),
                    l['addr'] % 7))
                out[-1] += tail if case['long'] and count - 1 == case['long'][0] else ''
                out += [''] * l['blank']
    return ('\r\n' if case['style'][2] else '\n').join(out + [''] * bool(case['final'])), insts, fns, loose


def run(case, ctx):
    if case['fmt'] not in ('elfio', 'text'):
        raise Invalid('format')
    seen = set()
    for s in case['secs']:
        for l in s['lines']:
            if l['addr'] in seen or not 0 <= l['word'] < 1 << 32 or not 0 <= l['addr'] < 1 << 32 or l['addr'] % 4:
                raise Invalid('listing')
            seen.add(l['addr'])
            if case['fmt'] == 'text' and any(not (n[0] == '$' or n[0].isalnum() or n[0] == '_') for n in l['sym']):
                raise Invalid('symbol')
    if not 0 <= case['lead'] < 9 or len(case['style']) != 3 or any(len(x) != 2 or not 0 <= x[1] < len(NOTES[case['fmt']]) for x in case['notes']):
        raise Invalid('notes')
    if case['long'] and not (len(case['long']) == 3 and 0 <= case['long'][1] < 20000 and 0 <= case['long'][2] < 3):
        raise Invalid('long')
    text, insts, fns, loose = render(case)
    ctx.probe('long-line', int(any(len(x) > 600 for x in text.split('\n'))))
    ctx.probe('crlf', int(bool(case['style'][2])))
    ctx.probe('other-lines', int(any(x[0] < len(insts) for x in case['notes'])))
    ctx.probe('leading-blank-lines', int(case['lead'] > 0))
    fs = SimFS(ctx)
    fs.put('prog.lst', text.encode('utf-8'))
    size = len(text.encode())
    ctx.probe(case['fmt'])
    ctx.probe('no-final-newline', int(not case['final']))
    ctx.probe('other-section', int(any(s['name'] in ('data', 'rodata', 'bss') for s in case['secs'])))
    ctx.probe('two-symbols-one-address', int(case['fmt'] == 'elfio' and any(len(set(n)) > 1 for n, _ in fns)))
    ctx.probe('unicode-symbol', int(any(ord(c) > 127 for c in text)))
    ctx.probe('undecodable-word', int(any(not progs.decodes(w) for _, w in insts)))
    ctx.probe('big-listing', int(size > 4000))
    ctx.probe('listing-of-64k', int(size > 1 << 16))
    ctx.probe('data-symbol', int(bool(case['far'])))
    ctx.probe('unnamed-start', int(bool(loose)))
    cls = readers.ElfioTextDisassembleReader if case['fmt'] == 'elfio' else readers.TextDisassembleReader
    reader = None
    ctx.probe('many-reads', int(len(case['reads']) >= 60))
    for n, rd in enumerate(case['reads']):
        if rd['what'] not in ('functions', 'instructions', 'both'):
            raise Invalid('what')
        for f in rd['plan']['faults']:
            if len(f) != 4 or f[2] not in KINDS.get(f[0], []):
                raise Invalid('plan')
        if reader is None or rd['fresh']:
            reader = cls('prog.lst')
        else:
            ctx.probe('read-again')
        fs.arm(rd['plan'])
        with fs:
            if rd['what'] == 'functions':
                r = ctx.call(reader.read_functions)
            elif rd['what'] == 'instructions':
                r = ctx.call(reader.read_instructions)
            else:
                r = ctx.call(reader.read)
        ctx.simtime += 1
        if isinstance(r, Raised):
            ctx.log(rd['what'], r.type)
            ctx.require(fs.hard, 'read-exception-' + r.type, lambda: repr(r))
            ctx.probe('error-after-first-buffer', int(fs.counts.get('read', 0) > 1))
            ctx.nontrivial = True
            continue
        ctx.require(not fs.hard, 'read-error-swallowed',
                    lambda: 'faults {} but {} returned normally'.format(rd['plan']['faults'], rd['what']))
        got_f = r if rd['what'] == 'functions' else None
        got_i = r if rd['what'] == 'instructions' else None
        if rd['what'] == 'both':
            ctx.require(isinstance(r, tuple) and len(r) == 2, 'read-shape', lambda: repr(r)[:100])
            # (functions, instructions) or the other way round, each format has its own
            for part in r:
                if part and hasattr(part[0], 'instructions'):
                    got_f = part
                elif part:
                    got_i = part
                elif part is not None:
                    if got_i is None and case['fmt'] == 'text':
                        got_i = part
            if got_i is None:
                got_i = []
            if got_f is None:
                got_f = []
        if got_i is not None:
            g = [(x.address, x.encoding) for x in got_i]
            ctx.require(g == insts, 'wrong-instructions', lambda: _diff(g, insts))
        if got_f is not None:
            g = [(str(f), [(x.address, x.encoding) for x in f.instructions]) for f in got_f]
            body = [(nm, [x for x in v if x not in loose]) for nm, v in g]
            body = [(nm, v) for nm, v in body if v]
            want = [(nm, v) for nm, v in fns if v]
            flat = [x for _, v in body for x in v]
            ctx.require(len(flat) == len(set(flat)), 'instruction-in-two-functions')
            missing = [x for _, v in want for x in v if x not in flat]
            ctx.require(not missing, 'instruction-missing', lambda: str([hex(a) for a, _ in missing[:5]]))
            body.sort(key=lambda x: x[1][0])
            want = sorted(want, key=lambda x: x[1][0])
            ctx.require([v for _, v in body] == [v for _, v in want], 'wrong-function',
                        lambda: _diff([v for _, v in body], [v for _, v in want]))
            for (nm, v), (names, _) in zip(body, want):
                ctx.require(any(x in nm for x in names), 'wrong-function-name', lambda: '{} instead of {}'.format(nm, names))
            for f in got_f:
                if f.instructions and not any((x.address, x.encoding) in loose for x in f.instructions):
                    v = [(x.address, x.encoding) for x in f.instructions]
                    ctx.require(f.start_addr() == v[0][0], 'function-start', lambda: '{:#x}'.format(f.start_addr()))
                    if all(b[0] - a[0] == 4 for a, b in zip(v, v[1:])):
                        ctx.require(f.final_addr() == v[-1][0], 'function-end', lambda: '{:#x}'.format(f.final_addr()))
        ctx.log(rd['what'], len(insts))
        ctx.nontrivial = ctx.nontrivial or bool(insts)
    ctx.sig(text, [x['plan'] for x in case['reads']])


def _diff(g, w):
    for i, (a, b) in enumerate(zip(g, w)):
        if a != b:
            return 'at {}: {} instead of {}'.format(i, repr(a)[:120], repr(b)[:120])
    return '{} instead of {} entries'.format(len(g), len(w))
