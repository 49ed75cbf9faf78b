"""One integer decides everything: derivation of seeds and PRNGs."""
import hashlib
import random


def derive(*parts):
    """A 63-bit integer that depends on all the parts."""
    text = '/'.join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], 'big') >> 1


class Rng(random.Random):
    def chance(self, p):
        return self.random() < p

    def pick(self, weighted):
        """Pick from a list of (weight, value)."""
        total = sum(w for (w, _) in weighted)
        x = self.random() * total
        for (w, v) in weighted:
            x -= w
            if x < 0:
                return v
        return weighted[-1][1]


def rng(*parts):
    return Rng(derive(*parts))
