"""SHA-512 (FIPS 180-4) and BLAKE2b (RFC 7693) written from their definitions over an abstract word algebra (words.Words).

The constants are derived here (square and cube roots of primes) rather than copied from the code under analysis."""
from math import isqrt


def primes(n):
    r = []
    k = 2
    while len(r) < n:
        if all(k % p for p in r):
            r.append(k)
        k += 1
    return r


def cbrt(n):
    lo, hi = 0, 1 << (n.bit_length() // 3 + 2)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** 3 <= n:
            lo = m
        else:
            hi = m - 1
    return lo


M64 = (1 << 64) - 1
IV = [isqrt(p << 128) & M64 for p in primes(8)]
K512 = [cbrt(p << 192) & M64 for p in primes(80)]

SIGMA = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4], [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13], [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11], [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5], [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0]]


def word_le(W, bs):
    return W.join(bs)


def sha512_block(W, h, block):
    """block: 128 byte forms; h: 8 word forms"""
    c = lambda v: W.const(v, 64)
    w = [word_le(W, block[8 * i:8 * i + 8][::-1]) for i in range(16)]
    x = W.xor
    for t in range(16, 80):
        s0 = x(x(W.rotr(w[t - 15], 1), W.rotr(w[t - 15], 8)), W.shr(w[t - 15], 7))
        s1 = x(x(W.rotr(w[t - 2], 19), W.rotr(w[t - 2], 61)), W.shr(w[t - 2], 6))
        w.append(W.add(s1, w[t - 7], s0, w[t - 16]))
    a, b, cc, d, e, f, g, hh = h
    for t in range(80):
        S1 = x(x(W.rotr(e, 14), W.rotr(e, 18)), W.rotr(e, 41))
        ch = x(W.band(e, f), W.band(W.bnot(e), g))
        S0 = x(x(W.rotr(a, 28), W.rotr(a, 34)), W.rotr(a, 39))
        maj = x(x(W.band(a, b), W.band(a, cc)), W.band(b, cc))
        t1 = W.add(hh, S1, ch, c(K512[t]), w[t])
        t2 = W.add(S0, maj)
        hh, g, f, e, d, cc, b, a = g, f, e, W.add(d, t1), cc, b, a, W.add(t1, t2)
    return [W.add(p, q) for p, q in zip(h, (a, b, cc, d, e, f, g, hh))]


def sha512(W, msg, chain=None, before=None):
    """msg: byte forms -> 64 byte forms; chain, before: chaining value and number of bytes (a 64-bit word, multiple of 128) absorbed earlier"""
    by = lambda v: W.const(v, 8)
    n = len(msg)
    length = W.total([(before, 8)] if before is not None else [], 8 * n, 64)
    data = list(msg) + [by(0x80)] + [by(0)] * ((111 - n) % 128) + [by(0)] * 8 + [W.byte(length, k) for k in reversed(range(8))]
    h = list(chain) if chain is not None else [W.const(v, 64) for v in IV]
    for i in range(0, len(data), 128):
        h = sha512_block(W, h, data[i:i + 128])
    return [W.byte(x, k) for x in h for k in reversed(range(8))]


def blake2b_block(W, h, block, t, last):
    m = [word_le(W, block[8 * i:8 * i + 8]) for i in range(16)]
    c = lambda v: W.const(v, 64)
    v = list(h) + [c(x) for x in IV]
    v[12] = W.xor(v[12], t)
    if last:
        v[14] = W.xor(v[14], c(M64))

    def g(a, b, cc, d, p, q):
        v[a] = W.add(v[a], v[b], p)
        v[d] = W.rotr(W.xor(v[d], v[a]), 32)
        v[cc] = W.add(v[cc], v[d])
        v[b] = W.rotr(W.xor(v[b], v[cc]), 24)
        v[a] = W.add(v[a], v[b], q)
        v[d] = W.rotr(W.xor(v[d], v[a]), 16)
        v[cc] = W.add(v[cc], v[d])
        v[b] = W.rotr(W.xor(v[b], v[cc]), 63)
    for r in range(12):
        s = SIGMA[r % 10]
        for i, (a, b, cc, d) in enumerate(((0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15),
                                           (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14))):
            g(a, b, cc, d, m[s[2 * i]], m[s[2 * i + 1]])
    return [W.xor(W.xor(h[i], v[i]), v[i + 8]) for i in range(8)]


def blake2b(W, msg, outlen, chain=None, before=None):
    """as sha512; the byte counter stays below 2^64"""
    if chain is None:
        h = [W.const(v, 64) for v in IV]
        h[0] = W.xor(h[0], W.const(0x01010000 ^ outlen, 64))
    else:
        h = list(chain)
    by = W.const(0, 8)
    n = len(msg)
    blocks = max(1, (n + 127) // 128)
    for i in range(blocks):
        b = list(msg[128 * i:128 * i + 128])
        last = i == blocks - 1
        t = W.total([(before, 1)] if before is not None else [], n if last else 128 * (i + 1), 64)
        h = blake2b_block(W, h, b + [by] * (128 - len(b)), t, last)
    return [W.byte(x, k) for x in h for k in range(8)][:outlen]
