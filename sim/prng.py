"""The only source of randomness of the simulator (xorshift64* seeded through splitmix64)."""
import hashlib

M = (1 << 64) - 1


def mix(*parts):
    """A 64-bit number out of any sequence of strings and integers (independent of the hash seed)."""
    h = hashlib.blake2b(repr(parts).encode(), digest_size=8)
    return int.from_bytes(h.digest(), 'little')


class Prng(object):
    def __init__(self, *seed):
        self.s = mix(*seed) or 0x9E3779B97F4A7C15

    def u64(self):
        x = self.s
        x ^= x >> 12
        x ^= (x << 25) & M
        x ^= x >> 27
        self.s = x
        return (x * 2685821657736338717) & M

    def below(self, n):
        return ((self.u64() >> 11) * n) >> 53

    def int(self, a, b):
        """Uniform integer in [a, b]"""
        return a + self.below(b - a + 1)

    def float(self):
        return (self.u64() >> 11) / float(1 << 53)

    def chance(self, p):
        return self.float() < p

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        total = sum(w for _, w in pairs)
        x = self.float() * total
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]

    def shuffle(self, seq):
        for i in range(len(seq) - 1, 0, -1):
            j = self.below(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def sample(self, seq, k):
        s = list(seq)
        self.shuffle(s)
        return s[:k]

    def bits(self, n):
        v = 0
        got = 0
        while got < n:
            v |= (self.u64() >> 32) << got
            got += 32
        return v & ((1 << n) - 1)
