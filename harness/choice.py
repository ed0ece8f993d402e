"""Choice sequences: every generator draws all its decisions from a Src.

A case is completely determined by the sequence of bounded integers drawn, so a
failing case is shrunk by shrinking that sequence (delete / zero / lower
entries) and regenerating; any sequence yields a well-formed case, because an
exhausted sequence continues with zeros and generators make 0 the simplest
choice."""
import random


class Src:
    def __init__(self, seed=None, prefix=None, limit=60000):
        self.rng = random.Random(seed) if prefix is None else None
        self.prefix = list(prefix) if prefix is not None else None
        self.seq = []
        self.limit = limit

    # the only primitive
    def below(self, n):
        if n <= 1:
            return 0
        i = len(self.seq)
        if self.rng is not None:
            v = self.rng.randrange(n)
        else:
            v = self.prefix[i] if i < len(self.prefix) else 0
            if v >= n:
                v = n - 1
        if i > self.limit:
            raise Overrun()
        self.seq.append(v)
        return v

    def int(self, lo, hi):
        """uniform in [lo,hi]; simplest value is lo"""
        return lo + self.below(hi - lo + 1)

    def chance(self, num, den=100):
        """true with probability num/den; false is the simplest"""
        return self.below(den) >= den - num

    def pick(self, xs):
        return xs[self.below(len(xs))]

    def weighted(self, pairs):
        """pairs: list of (weight, value); first is simplest"""
        tot = sum(w for w, _ in pairs)
        k = self.below(tot)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        return pairs[-1][1]

    def shuffle(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1, 0, -1):
            j = i - self.below(i + 1)  # 0 -> no swap
            xs[i], xs[j] = xs[j], xs[i]
        return xs

    def sample(self, xs, k):
        return self.shuffle(xs)[:k]


class Overrun(Exception):
    pass


def shrink(seq, still_fails, deadline):
    """seq -> smaller seq for which still_fails(candidate) returns the actually
    used sequence (or None). Ordered by (len, lexicographic)."""
    import time
    best = list(seq)

    def attempt(cand):
        nonlocal best
        if time.time() > deadline:
            return False
        r = still_fails(cand)
        if r is not None and (len(r), r) < (len(best), best):
            best = list(r)
            return True
        return False

    improved = True
    while improved and time.time() < deadline:
        improved = False
        # delete chunks
        k = max(1, len(best) // 2)
        while k >= 1 and time.time() < deadline:
            i = 0
            while i < len(best) and time.time() < deadline:
                if attempt(best[:i] + best[i + k:]):
                    improved = True
                else:
                    i += k
            k //= 2
        # zero chunks
        for k in (16, 8, 4, 2, 1):
            i = 0
            while i < len(best) and time.time() < deadline:
                if any(best[i:i + k]):
                    if attempt(best[:i] + [0] * len(best[i:i + k]) + best[i + k:]):
                        improved = True
                i += k
        # lower single values
        i = 0
        while i < len(best) and time.time() < deadline:
            v = best[i]
            lo = 0
            while lo < v and time.time() < deadline:
                mid = (lo + v) // 2
                if i < len(best) and attempt(best[:i] + [mid] + best[i + 1:]):
                    improved = True
                    if i >= len(best):
                        break
                    v = best[i]
                else:
                    lo = mid + 1
            i += 1
    return best
