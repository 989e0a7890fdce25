"""Generated programs and losses (independent of the code under test)"""
import json
import os

CORPUS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'corpus.json')))['functions']

# words that are no ARM instruction
UNDECODABLE = [0xffffffff, 0x41414141, 0x91b7584a, 0x1027c4d1, 0x414c343c, 0xa6cecc1b, 0x612e7696, 0xc324c985,
               0xe6c3f339, 0x07d4bedc, 0xa648a7dd]
import capstone  # noqa: E402

_cs = None


def decodes(word):
    global _cs
    if _cs is None:
        _cs = capstone.Cs(capstone.CS_ARCH_ARM, capstone.CS_MODE_ARM)
    return bool(list(_cs.disasm(word.to_bytes(4, 'little'), 0x8000)))


UNDECODABLE = [w for w in UNDECODABLE if not decodes(w)]

AL = 14


def _regs(r):
    return r.sample(list(range(0, 13)), r.int(2, 4))


def _word(r, regs, conds, ops):
    """One instruction out of a small vocabulary"""
    c = r.choice(conds) << 28
    k = r.choice(ops)
    rd, rn, rm = r.choice(regs), r.choice(regs), r.choice(regs)
    imm = r.choice([0, 1, 2, 4, 8, 0x10, 0xff])
    if k == 'mov':
        return c | 0x03a00000 | rd << 12 | imm
    if k == 'movr':
        return c | 0x01a00000 | rd << 12 | rm
    if k == 'add':
        return c | 0x02800000 | rn << 16 | rd << 12 | imm
    if k == 'addr':
        return c | 0x00800000 | rn << 16 | rd << 12 | rm
    if k == 'sub':
        return c | 0x02400000 | rn << 16 | rd << 12 | imm
    if k == 'subs':
        return c | 0x02500000 | rn << 16 | rd << 12 | imm
    if k == 'and':
        return c | 0x02000000 | rn << 16 | rd << 12 | imm
    if k == 'orr':
        return c | 0x01800000 | rn << 16 | rd << 12 | rm
    if k == 'cmp':
        return c | 0x03500000 | rn << 16 | imm
    if k == 'cmpr':
        return c | 0x01500000 | rn << 16 | rm
    if k == 'tst':
        return c | 0x03100000 | rn << 16 | imm
    if k == 'lsl':
        return c | 0x01a00000 | rd << 12 | r.choice([1, 2, 3, 31]) << 7 | rm
    if k == 'ldr':
        return c | 0x05900000 | rn << 16 | rd << 12 | r.choice([0, 4, 8, 0x2c])
    if k == 'ldrpc':
        return c | 0x059f0000 | rd << 12 | r.choice([4, 8, 0x2c])
    if k == 'ldrr':
        return c | 0x07900000 | rn << 16 | rd << 12 | rm
    if k == 'str':
        return c | 0x05800000 | rn << 16 | rd << 12 | r.choice([0, 4, 8])
    if k == 'strsp':
        return c | 0x058d0000 | rd << 12 | r.choice([0, 4, 8])
    if k == 'b':
        return c | 0x0a000000 | ((r.int(-6, 6)) & 0xffffff)
    if k == 'bl':
        return c | 0x0b000000 | ((r.int(-200, 200)) & 0xffffff)
    if k == 'bx':
        return c | 0x012fff10 | r.choice([14] + regs)
    if k == 'push':
        return c | 0x092d0000 | r.choice([0x4010, 0x4008, 0x4070, 0x0ff0, 0x4000, 1 << rd | 1 << 14])
    if k == 'pop':
        return c | 0x08bd0000 | r.choice([0x8010, 0x8008, 0x8070, 0x4010, 0x8000, 1 << rd])
    if k == 'stm':
        return c | 0x08800000 | rn << 16 | r.choice([3, 6, 0x14, 0x4010])
    if k == 'stmsp':
        return c | 0x08ad0000 | r.choice([0x4010, 0x10, 0x4000])
    if k == 'ldm':
        return c | 0x08900000 | rn << 16 | r.choice([3, 6, 0x14, 0x4010])
    if k == 'mul':
        return c | 0x00000090 | rd << 16 | rm << 8 | rn
    if k == 'svc':
        return c | 0x0f000000 | imm
    if k == 'nop':
        return c | 0x01a00000
    return c | 0x03e00000 | rd << 12 | imm  # mvn


OPS = ['mov', 'movr', 'add', 'addr', 'sub', 'subs', 'and', 'orr', 'cmp', 'cmpr', 'tst', 'lsl', 'ldr', 'ldrpc', 'ldrr',
       'str', 'strsp', 'b', 'bl', 'bx', 'push', 'pop', 'stm', 'stmsp', 'ldm', 'mul', 'svc', 'nop', 'mvn']


def gen_words(r, n):
    """n words that are all valid instructions"""
    mode = r.weighted([('corpus', 3), ('synthetic', 4), ('mixed', 2), ('repeat', 1)])
    out = []
    if mode in ('corpus', 'mixed'):
        while len(out) < n:
            f = r.choice(CORPUS)
            s = r.int(0, max(0, len(f) - 2))
            out += f[s:s + r.int(1, 30)]
        out = out[:n]
    regs, conds = _regs(r), [AL] * r.int(1, 4) + r.sample(list(range(0, 14)), r.int(0, 3))
    ops = r.sample(OPS, r.int(2, 10))
    if mode == 'synthetic':
        out = [_word(r, regs, conds, ops) for _ in range(n)]
    elif mode == 'mixed':
        out = [w if r.chance(.5) else _word(r, regs, conds, ops) for w in out]
    elif mode == 'repeat':
        few = [_word(r, regs, conds, ops) for _ in range(r.int(1, 4))]
        out = [r.choice(few) for _ in range(n)]
    if n >= 4 and r.chance(.5):
        out[0] = 0xe92d4000 | r.choice([0x10, 0x30, 0x8, 0x70])
        out[-1] = r.choice([0xe8bd8000 | (out[0] & 0xfff), 0xe12fff1e, 0xe8bd8010])
        if r.chance(.5):
            out[r.int(1, n - 2)] = r.choice([out[0], 0xe8ad4010, out[-1]])
    return [w if decodes(w) else 0xe1a00000 for w in out]


# also around the signs and ends of narrower integers
BASES = [0x7fffff00, 0x7ffffff8, 0x80000000, 0xffe0, 0x1fff0, 0xfffff0, 0xc0000000, 0xfff00000, 0x4]


def gen_program(r, n, undecodable=0.0, gaps=0.0):
    """-> [{'addr': A, 'words': [...]}, ...]: functions in address order"""
    words = gen_words(r, n)
    if undecodable and r.chance(undecodable):
        for _ in range(r.int(1, max(1, n // 6))):
            words[r.below(n)] = r.choice(UNDECODABLE)
    fns = []
    addr = r.choice(BASES) if r.chance(.3) else r.choice([0x8000, 0x1000, 0x10000, 0x10470, 0x0])
    gap = r.chance(gaps)
    i = 0
    while i < n:
        ln = n - i if r.chance(.3) else r.int(1, n - i)
        fns.append(dict(addr=addr, words=words[i:i + ln]))
        i += ln
        addr += 4 * ln
        if gap and ln > 1 and r.chance(.25):
            fns[-1]['gap'] = [r.int(1, ln - 1), r.int(1, 20)]
            if fns[-1]['gap'][1] == 20 and addr < 1 << 31:
                # as between the flash and the memory of a small machine
                fns[-1]['gap'][1] = (1 << 28) + 99
            addr += 4 * fns[-1]['gap'][1]
        if gap and r.chance(.6):
            addr += 4 * r.int(1, 40)
    if r.chance(.1 if fns[0]['addr'] else .5):
        # symbols without instructions, as most of those in a real listing
        fns += [dict(addr=0x40000000 + 16 * k, words=[]) for k in range(r.int(1, 3))]
    if len(fns) > 1 and r.chance(.15):
        r.shuffle(fns)
    return fns


def flat(fns):
    """[(address, word)] in address order"""
    return sorted((at(f, i), w) for f in fns for i, w in enumerate(f['words']))


def at(f, i):
    """Address of the i-th word of a function, which may have a gap: [index of the word behind it, missing words]"""
    k, n = f.get('gap') or (0, 0)
    return f['addr'] + 4 * (i + (n if 0 < k <= i else 0))


def ends(fns):
    """First and last address of the functions that have instructions"""
    return {f['addr']: (f['addr'], at(f, len(f['words']) - 1)) for f in fns if f['words']}


def count(fns):
    return sum(len(f['words']) for f in fns)


def lost_bits(n_words, packets, ws, lost_pos):
    """Model of the loss: bits of each word whose chunk travelled in a lost packet (given by position in the order)"""
    lost = set(lost_pos)
    c = 32 // ws
    out = [0] * n_words
    for i in range(n_words * c):
        if i % packets in lost:
            out[i // c] |= ((1 << ws) - 1) << ((i % c) * ws)
    return out


def predicted_model(n_words, packets, ws, lost_pos):
    """Upper bound of what the sender may predict: the lost bits and the bit after a chunk at the end of a word"""
    bits = lost_bits(n_words, packets, ws, lost_pos)
    out = list(bits)
    for w in range(1, n_words):
        if bits[w - 1] >> 31:
            out[w] |= 1
    return out


def gen_loss(r, n_words, max_total=1200, max_bits=9, ws_choices=(1, 2, 2, 2, 4, 8), allow=None):
    """A packet configuration and lost positions that leave at most max_total candidates
    -> dict(packets, ws, lost_pos); allow: words that may be damaged (None = all)"""
    best = None
    for attempt in range(60):
        ws = r.choice(ws_choices)
        chunks = n_words * 32 // ws
        style = r.below(4)
        if style == 0:
            n = r.int(2, max(3, chunks))
        elif style == 1:
            n = r.choice([4, 7, 16, 17, 20, 32, 48, 64, 100])
        elif style == 2:
            n = max(2, chunks // r.int(1, 8) + r.int(-1, 1))
        else:
            n = r.int(16, 128)
        k = r.weighted([(1, 4), (2, 3), (3, 2), (5, 2), (8, 1)])
        k = min(k, n)
        if r.chance(.4):
            s = r.below(n)
            pos = sorted(set((s + j) % n for j in range(k)))
        else:
            pos = sorted(r.sample(list(range(n)), k))
        bits = predicted_model(n_words, n, ws, pos)
        counts = [1 << bin(b).count('1') for b in bits]
        damaged = [i for i, b in enumerate(bits) if b]
        if max(counts) > 1 << max_bits or sum(counts) > max_total:
            continue
        if allow is not None and [i for i in damaged if i not in allow]:
            continue
        best = dict(packets=n, ws=ws, lost_pos=pos)
        if damaged:
            return best
    return best or dict(packets=4 * n_words * 32, ws=1, lost_pos=[32 * (0 if not allow else min(allow))])
