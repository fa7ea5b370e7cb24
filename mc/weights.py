"""Weights a batch verifier must not use.

A batch is sound only if the weight of every entry depends on all of the batch.
Each function below gives weights that depend on less; a pair of invalid
signatures whose errors cancel under them must still be refused.  Which weights
the library really uses does not matter: such a batch is invalid anyway."""

from hashlib import sha256
from itertools import combinations

from mc import drbg


def _draws(n, seed, count, limb):
    g = drbg.Hmac("SHA256", seed)
    limbs = (n.bit_length() + limb - 1) // limb
    mask = (1 << n.bit_length()) - 1
    out = []
    while len(out) < count:
        a = int.from_bytes(g.generate(limbs * limb // 8), "little") & mask
        if 0 < a < n:
            out.append(a)
    return out


def weak(n, items, split):
    """(description, positions free to change, weights); items are (message,
    signature, key) and split(signature) gives (R, s)"""
    ln = len(items)
    every = list(range(ln))
    for a in list(range(1, 18)) + [1 << 8, 1 << 16, 1 << 32, 1 << 64,
                                     1 << 128]:
        yield "powers of %x" % a, every, [pow(a, i, n) for i in every]
        yield "constant %x" % a, every, [1] + [a] * (ln - 1)
    yield "count", every, [i + 1 for i in every]

    seeds = [("none", every, b""), ("zero", every, bytes(32)),
             ("empty", every, sha256(b"").digest())]
    fields = [lambda m, s, p: sha256(m).digest(), lambda m, s, p: split(s)[0],
              lambda m, s, p: p]
    for k in range(1, 4):
        for fs in combinations(range(3), k):
            raw = b"".join(fields[f](*it) for it in items for f in fs)
            seeds.append(("fields %r" % (fs,), every, sha256(raw).digest()))
    full = [sha256(m).digest() + s + p for m, s, p in items]
    for i in every:
        rest = [j for j in every if j != i]
        seeds.append(("entry %d only" % i, rest, sha256(full[i]).digest()))
        for cut in {tuple(every[:i]), tuple(every[i:])}:
            free = [j for j in every if j not in cut]
            seeds.append(("entries %r" % (cut,), free,
                          sha256(b"".join(full[j] for j in cut)).digest()))
    for name, free, seed in seeds:
        for limb in (64, 32):
            w = _draws(n, seed, ln, limb)
            yield name, free, [1] + w[:-1]
            yield name + ", all drawn", free, w


def forgeries(n, items, split, shift):
    """(description, batch): invalid entries whose errors cancel; shift(item, d)
    adds d to the scalar of a signature"""
    for name, free, w in weak(n, items, split):
        for i, j in combinations(free, 2):
            b = list(items)
            b[i] = shift(b[i], 3 * w[j] % n)
            b[j] = shift(b[j], -3 * w[i] % n)
            yield (name, i, j), b
