"""Curve arithmetic for making inputs (never for judging results)."""
class Curve:
    def __init__(s, p, a, b, n, gx, gy, name=''):
        s.p, s.a, s.b, s.n, s.gx, s.gy, s.name = p, a, b, n, gx, gy, name
        s.m = p.bit_length() - 1
        s.G = (gx, gy)
        s.taps = [i for i in range(s.m) if p >> i & 1]
    def mul_(s, x, y):
        if x == y: return s.sqr(x)
        t = [0] * 16; t[1] = x
        for i in range(2, 16): t[i] = t[i >> 1] << 1 ^ (x if i & 1 else 0)
        r = 0
        for ch in hex(y)[2:]:
            r = r << 4 ^ t[int(ch, 16)]
        return s.red(r)
    def sqr(s, x):
        return s.red(int(bin(x)[2:], 4))
    def red(s, r):
        m = s.m
        mask = (1 << m) - 1
        while r >> m:
            h = r >> m; r &= mask
            for i in s.taps: r ^= h << i
        return r
    def inv(s, x):
        u, v, g, h = x, s.p, 1, 0
        while u > 1:
            j = u.bit_length() - v.bit_length()
            if j < 0: u, v, g, h, j = v, u, h, g, -j
            u ^= v << j; g ^= h << j
        return s.red(g)
    def on(s, P):
        if P is None: return True
        x, y = P; x2 = s.mul_(x, x)
        return s.mul_(y, y) ^ s.mul_(x, y) == s.mul_(x2, x) ^ s.mul_(s.a, x2) ^ s.b
    def neg(s, P):
        return None if P is None else (P[0], P[0] ^ P[1])
    def add(s, P, Q):
        if P is None: return Q
        if Q is None: return P
        if P[0] == Q[0]:
            if P[1] != Q[1] or P[0] == 0: return None
            l = P[0] ^ s.mul_(P[1], s.inv(P[0])); x = s.mul_(l, l) ^ l ^ s.a
            return x, s.mul_(P[0], P[0]) ^ s.mul_(l ^ 1, x)
        l = s.mul_(P[1] ^ Q[1], s.inv(P[0] ^ Q[0])); x = s.mul_(l, l) ^ l ^ P[0] ^ Q[0] ^ s.a
        return x, s.mul_(l, P[0] ^ x) ^ x ^ P[1]
    def mul(s, k, P):
        R = None
        for c in bin(k)[2:]:
            R = s.add(R, R)
            if c == '1': R = s.add(R, P)
        return R
    def tr(s, z):
        t = z
        for _ in range(s.m - 1):
            z = s.mul_(z, z); t ^= z
        return t
    def sqrt(s, z):
        for _ in range(s.m - 1): z = s.mul_(z, z)
        return z
    def halftrace(s, z):
        t = z
        for _ in range((s.m - 1) // 2):
            z = s.mul_(z, z); z = s.mul_(z, z); t ^= z
        return t
    def compress(s, P):
        if P[0] == 0: return 0
        return (P[0] & ~1) | s.tr(s.mul_(P[1], s.inv(P[0])))
    def points(s):
        """all affine points (small fields)"""
        out = [(0, s.sqrt(s.b))]
        for x in range(1, 1 << s.m):
            x2 = s.mul_(x, x)
            w = s.mul_(s.mul_(x2, x) ^ s.mul_(s.a, x2) ^ s.b, s.inv(x2))
            if s.tr(w): continue
            h = s.halftrace(w)
            out += [(x, s.mul_(h, x)), (x, s.mul_(h ^ 1, x))]
        return out
    @property
    def fb(s): return (s.m + 7) // 8
    @property
    def nb(s): return (s.n.bit_length() + 7) // 8
    def rec(s):
        le = lambda v: list(v.to_bytes((v.bit_length() + 7) // 8, 'little'))
        return dict(p=le(s.p), a=le(s.a), b=le(s.b), n=le(s.n), gx=le(s.gx), gy=le(s.gy))
