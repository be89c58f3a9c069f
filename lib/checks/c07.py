"""C07: verification accepts exactly the valid signatures."""
from ..keys import *

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ signer/verifier model (TLC, exhaustive on tiny curves); verification answers compared with the specification'
NOTE = 'as C06; every (r, s) pair of the smallest curves is shown to the implementation, and on all curves valid signatures, near misses (r, s plus or minus one, swapped, negated, plus n, zero), other hashes and keys, raw and DER forms, truncated, padded and corrupted encodings; each answer must be the specification\'s. The memory-checked build is used for the malformed ones. Trusted: TLC, the Java evaluation of octet-level operators (compared with the TLA+ definitions by SelfTest), the driver.'
ASSUMPTIONS = ['TLC and the Java evaluation of the octet-level operators (compared with their TLA+ definitions by SelfTest) are trusted',
               'constructed and indefinite-length BER forms of the signature OCTET STRING are not explored', 'a hash has at least one octet',
               'the public point is a multiple of the base point']

def make(cv, d, h, e):
    """a signature, for use as an input"""
    z = int.from_bytes(h, 'little') & ((1 << cv.m) - 1) or 1
    R = cv.mul(e, cv.G)
    if R is None or R[0] == 0: return None
    r = cv.mul_(z, R[0]) & ((1 << (cv.n.bit_length() - 1)) - 1)
    s = (e + d * r) % cv.n
    return (r, s) if r and s else None

def shapes(c, cv, le, r, s):
    """encodings of one pair, good and bad"""
    w = cv.nb
    body = sig_der(le, cv, r, s, raw=True)
    out = [oct(body), body, oct(body) + b'\0', oct(body) + c.rb(3), body + b'\0\0', b'\0\0' + body, b'\0' + body, body + b'\0',
           b'', b'\x04', b'\x04\x00', b'\x04\x01', oct(b''), oct(body[:-1]), oct(body[1:]), oct(body[:-2]), oct(body[:w]), body[:-1], body[:-2], body[1:],
           tlv(3, body), tlv(48, body), seq(oct(body)), tlv(5, body), oct(body + b'\0'), oct(b'\0\0' + body), oct(body + b'\0\0'),
           b'\x04' + bytes([len(body) - 1]) + body, b'\x04' + bytes([min(127, len(body) + 1)]) + body, b'\x04\x81' + bytes([len(body)]) + body,
           b'\x04\x82\0' + bytes([len(body)]) + body, b'\x04\x82\xff\xff' + body, b'\x04\x83\xff\xff\xff' + body, oct(oct(body)),
           bytes(2 * w), oct(bytes(2 * w)), b'\xff' * (2 * w), oct(b'\xff' * (2 * w))]
    for ww in (w + 1, w + 2, w + 7):
        b = sig_der(le, cv, r, s, raw=True, w=ww); out += [b, oct(b) if 2 * ww < 128 else b]
    i = c.rng.randrange(len(body))
    x = bytearray(body); x[i] ^= 1 << c.rng.randrange(8); out += [bytes(x), oct(bytes(x))]
    return [o for o in out if not (len(o) > 1 and (o[0] == 0x24 or o[1] == 0x80 and o[0] in (0x24, 4)))]

def run(c):
    c.model('MCSig', None if c.quick else 'MCSigBig.cfg', workers=8)
    plans, mem = [], []
    # every pair of the smallest curves
    for cv in ([TINYC[0], TINYC[1], TINYC[2]] if c.quick else TINYC[:4]):
        for le in (True, False):
            P = KeyPlan(c)
            d = c.rng.randrange(1, cv.n); Q = cv.neg(cv.mul(d, cv.G))
            P.load('pub', pub_der(le, cv, Q), s=0)
            for h in ([c.rb(32)] if cv.n > 20 and c.quick else [c.rb(32), bytes(8), c.rb(1)]):
                lim = cv.n + 2 if cv.n > 20 else 1 << cv.n.bit_length()
                for r in range(lim):
                    for s in range(lim):
                        P.verify(0, h, sig_der(le, cv, r, s, raw=(r + s) % 2))
            plans.append(P.end())
    for cv in NAMED + (TINYC[4:] if not c.quick else TINYC[4:6]):
        P, M = KeyPlan(c), KeyPlan(c)
        for le in (True, False):
            for rep in range(c.pick(1, 8)):
                d = c.rng.randrange(1, cv.n); Q = cv.neg(cv.mul(d, cv.G))
                d2 = c.rng.randrange(1, cv.n); Q2 = cv.neg(cv.mul(d2, cv.G))
                sb = c.rb(64) if rep % 2 else None
                for X in (P, M): X.load('pub', pub_der(le, cv, Q, sb), s=0)
                P.load('pub', pub_der(le, cv, Q2, sb), s=1); P.load('priv', priv_der(le, cv, d, sb), s=2)
                sg = None
                while not sg:
                    h = c.rng.choice([c.rb(32), c.rb(32), c.rb(20), c.rb(64), bytes(32), c.rb(1), c.rb(100)])
                    sg = make(cv, d, h, c.rng.choice([1, 2, cv.n - 1, c.rng.randrange(1, cv.n), c.rng.randrange(1, cv.n)]))
                r, s = sg; n = cv.n
                P.verify(2, h, sig_der(le, cv, r, s)); P.verify(1, h, sig_der(le, cv, r, s))
                near = [(r, s), (r, s + 1), (r, s - 1), (r + 1, s), (r - 1, s), (s, r), (n - r, s), (r, n - s), (n - r, n - s), (r, 0), (0, s), (0, 0),
                        (r, n), (n, s), (n - 1, s), (r, n - 1), (r + n, s), (r, s + n), (r ^ 1 << (n.bit_length() - 1), s), (1, 1)]
                for a, b in near:
                    if 0 <= a < 1 << 8 * cv.nb and 0 <= b < 1 << 8 * cv.nb:
                        P.verify(0, h, sig_der(le, cv, a, b))
                    elif a >= 0 and b >= 0:
                        P.verify(0, h, sig_der(le, cv, a, b, raw=True, w=cv.nb + 1))
                good = sig_der(le, cv, r, s)
                x = bytearray(h); x[0] ^= 1; P.verify(0, bytes(x), good)
                x = bytearray(h); x[-1] ^= 0x80; P.verify(0, bytes(x), good)
                P.verify(0, h + b'\0', good); P.verify(0, h + b'\1', good); P.verify(0, b'\0' + h, good); P.verify(0, h[:-1] or b'\5', good)
                P.verify(0, h[::-1], good)
                for hl in (c.rb(c.rng.randrange(55, 80)), c.rb(c.rng.choice([100, 128, 129, 256, 1000])), bytes(60) + c.rb(20)):
                    g2 = make(cv, d, hl, c.rng.randrange(1, cv.n))
                    if g2:
                        P.verify(0, hl, sig_der(le, cv, *g2)); P.verify(0, hl[:32], sig_der(le, cv, *g2)); P.verify(0, hl[-32:], sig_der(le, cv, *g2))
                P.verify(0, h, sig_der(not le, cv, r, s))
                for o in shapes(c, cv, le, r, s):
                    M.verify(0, h, o)
                for X in (P, M): X.free(0)
                P.free(1); P.free(2)
        plans.append(P.end()); mem.append(M.end())
    run_sessions(c, plans, 'verification', parallel=5)
    run_sessions(c, mem, 'verification of malformed signatures', variant='asan', parallel=4)
