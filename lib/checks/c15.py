"""C15: PKCS#12 containers."""
from ..stores import *
from ..drv import Drv

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification of PKCS#12 down to the octets, its MAC over SHA-1 and DSTU 34.311 and its PBES2 over the DSTU algorithms (TLC: all small containers, written, damaged and read); containers built from it read by the implementation, each answer compared with what the specification says the octets hold'
NOTE = 'Stores.tla and Pbes2.tla say of every octet string and password whether it must be refused or which keys and certificates it holds, in which order. MACs over DSTU 34.311 and PBES2-DSTU ciphertexts are computed by TLC from the specification; parts encrypted by other algorithms (3DES, AES) are opaque: their maker says what they open to. Trusted: TLC, the Java evaluation of octet-level operators (compared with the TLA+ definitions by SelfTest), the driver.'
ASSUMPTIONS = ['a container changed at random and sealed again may be refused for a change in parts the specification does not look at; if read, its content is the specified one',
               'TLC and the Java evaluation of the octet-level operators (compared with their TLA+ definitions by SelfTest) are trusted',
               'DER forms the specification does not follow, MACs over other digests, empty passwords and passwords that are not UTF-8 may be accepted or refused; for containers with such MACs only "refused or unchanged content" is required',
               'OpenSSL 3.0.13 encrypts with 3DES and AES as it decrypts']
PWS = [b'testplat2021', b'1', b'\xd0\xba\xd0\xbb\xd1\x8e\xd1\x87', b'p' * 64, b'a\xe2\x82\xac\xf0\x9f\x94\x91', b'long password ' * 6, b'\xd1\x8f' * 130]
SB = bytes.fromhex('a9d6eb45f13c708280c4967b231f5eadf658eba4c037291d38d96bf025ca4e17f8e9720dc615b43a28975f0bc1dea36438b564ea2c179fd0123e6db8fac57904')

class Maker:
    """containers; what needs the algorithms is asked of OpenSSL's driver or of TLC"""
    def __init__(self, c, d): self.c, self.d, self.todo = c, d, []
    def seal(self, P, mode, pw, plain):
        """-> (algorithm, ciphertext); mode 0 3DES, 1 AES, 3 DSTU made from the specification"""
        c = self.c
        if mode == 3:
            k = ('pbe', pw, plain, c.rb(c.rng.choice([8, 32])), c.rng.choice([1, 2, 100, 2048]), c.rb(8), c.rng.choice([SB, c.rb(64)]))
            alg, enc = made([dict(op='pbe', pw=k[1], plain=k[2], salt=k[3], iter=k[4], iv=k[5], sb=k[6])])[0]
            return alg, enc
        r = self.d('pbe', mode, pw, plain, c.rng.choice([1, 5, 2048]), c.rb(8))
        P.blobs.append({'alg': r['alg'], 'enc': r['enc'], 'pw': pw, 'plain': plain})
        return r['alg'], r['enc']
    def bag(self, P, t, pw, cvs, depth=0):
        c = self.c
        at = c.rng.choice([b'', b'', attr(bytes([42, 134, 72, 134, 247, 13, 1, 9, 21]), oct(c.rb(4)))])
        def key():
            cv = c.rng.choice(cvs); d = c.rng.randrange(1, cv.n)
            if c.rng.random() < .06: cv = c.rng.choice(NAMED); d = c.rng.randrange(1, cv.n)
            a = c.rng.choice([None, None, b'', second(c, cv, c.rng.randrange(1, cv.n))])
            return p8(c.rng.random() < .5, cv, d, c.rng.choice([None, None, c.rb(64)]), c.rng.random() < .3, a)
        if t == 'k': return bag(1, key(), at)
        if t == 'f': x = c.rng.choice([EC_KEY, ED_KEY]); P.good.append(x); return bag(1, x, at)
        if t in 'stue': # shrouded
            x = key()
            if t == 'e': x = c.rng.choice([EC_KEY, ED_KEY]); P.good.append(x)
            alg, enc = self.seal(P, {'s': 0, 't': 1, 'u': 3, 'e': 1}[t], pw, x)
            return bag(2, seq(alg, oct(enc)), at)
        if t in 'cC': x = cert(c, c.rng.choice([0, 0, 120] if t == 'c' else [1000, 3000])); P.good.append(x); return bag(3, seq(oid(X509T), ctx0(oct(x))), at)
        if t == 'o': return bag(5, seq(oid(b'\x2a\3\4'), ctx0(oct(b'secret'))), at)
        raise KeyError(t)
    def bags(self, P, spec, pw, cvs):
        """'k', 'c', ..., or a list for a nested safe"""
        out = []
        for t in spec:
            out.append(bag(6, seq(*self.bags(P, t, pw, cvs))) if isinstance(t, list) else self.bag(P, t, pw, cvs))
        return out
    def safe(self, P, how, spec, pw, cvs):
        b = self.bags(P, spec, pw, cvs)
        if how == 'd': return safe_data(*b)
        if how == 'x': return seq(oid(b'\x2a\3\4'), ctx0(oct(b'')))
        alg, enc = self.seal(P, {'0': 0, '1': 1, '3': 3}[how], pw, seq(*b))
        return safe_enc(alg, enc)

def run(c):
    c.model('MCStore', 'MCP12.cfg' if c.quick else 'MCP12Big.cfg', workers=8)
    plans = []; tiny = TINYC[:4]; big = [NAMED[6], NAMED[0]] if c.quick else NAMED
    pats = [[('d', 'k')], [('d', 'c')], [('d', 's')], [('d', 'u')], [('d', 'kcsc'), ('0', 'cc')], [('1', 'kc'), ('d', 't')], [('d', ['k', ['c', 's', ['k']], 'c'])], [('3', 'ckc'), ('d', 'uf')], [('d', 'f')], [('d', 'e'), ('d', ''), ('d', 'c')],
            [('d', ''), ('0', '')], [], [('d', 'o')], [('d', 'koc'), ('x', ''), ('d', 'k')], [('x', '')], [('d', [[]]), ('d', [['k']])], [('0', [['c'], 'k', ['s']]), ('1', 'c'), ('3', 'k')], [('d', 'kkkkkkkkcccccccc')], [('d', 'kc' * 20), ('0', 'cc' * 10)], [('d', 'k')] * 5 + [('1', 'c')] + [('d', 'ck')] * 6, [('d', 'kC'), ('1', 'Ck'), ('d', 'C')]]
    for _ in range(c.pick(10, 100)):
        def some(n, depth): return [some(c.rng.randrange(3), depth + 1) if depth < 3 and c.rng.random() < .2 else c.rng.choice('kkccstufeo') for _ in range(n)]
        pats.append([(c.rng.choice('ddd013'), some(c.rng.randrange(5), 0)) for _ in range(c.rng.randrange(1, 5))])
    with Drv('plain') as d:
        M = Maker(c, d)
        # containers: bodies first, their DSTU MACs in one run of TLC
        L = []
        for n, pat in enumerate(pats):
            P = StorePlan(c); pw = c.rng.choice(PWS)
            body = seq(*[M.safe(P, h, sp, pw, tiny if n % 3 else big + tiny[:1]) for h, sp in pat])
            other = int(any(h == 'x' or 'o' in str(sp) for h, sp in pat))
            salt, it = c.rb(c.rng.choice([0, 1, 8, 20, 32, 64, 65])), c.rng.choice([1, 1, 2, 1000, 10000])
            L.append([P, pw, body, other, salt, it, None])
        macs = made([dict(op='mac', hash=OID_DSTUMD, pw=x[1], salt=x[4], iter=x[5], body=x[2]) for x in L])
        bad = []
        for n, (P, pw, body, other, salt, it, _) in enumerate(L):
            a = p12(None, pw, salt, it, body=body, noit=it == 1 and c.rng.random() < .5)
            b = p12(None, pw, salt, it, alg=DSTUA, body=body, m=macs[n][0])
            R = lambda x, w=pw, **k: P.read('p12', x, w, other=other, **k)
            for x in (a, b):
                for h in 'mfbd': R(x, how=h)
            x = c.rng.choice([a, b])
            for w in [pw[:-1], pw + b'1', pw + b'\0', pw.upper(), pw[::-1], b'', b' ' + pw, c.rng.choice([b'\xff', b'ab\xc3', b'\xed\xa0\x80'])]: R(x, w)
            # single octets of the sealed part, and of the MAC
            j0 = x.index(body)
            for j in c.rng.sample(range(len(x)), min(len(x), c.pick(25, 200))) + list(range(len(x) - 30, len(x))) + [j0, j0 + len(body) - 1]:
                y = bytearray(x); y[j] ^= 1 << c.rng.randrange(8); R(bytes(y))
            for j in c.rng.sample(range(len(x)), c.pick(10, 80)) + [0, 1, len(x) - 1]: R(x[:j])
            R(x + b'\0'); R(p12(None, pw, body=body, mac=False)); R(p12(None, pw, body=body, ver=2)); R(p12(None, pw, salt, it, body=body, alg=seq(oid(OID_SHA1))))
            R(p12(None, b'~' + pw, salt, it, body=body))        # MAC by one password, parts by another
            P.read('p12', p12(None, b'~' + pw, salt, it, body=body), b'~' + pw, other=other)
            # changed, then sealed again
            for _ in range(c.pick(20, 200)):
                y = bytearray(body)
                if not y: break
                j = c.rng.randrange(len(y)); k = c.rng.randrange(3)
                if k == 0: y[j] ^= 1 << c.rng.randrange(8)
                elif k == 1: y[j] = c.rng.choice([0, 1, 2, 4, 0x30, 0xa0, 127, 128, 255])
                else: del y[j:j + c.rng.choice([1, 2, 10])]
                P.read('p12', p12(None, pw, salt, 1, body=bytes(y)), pw, other=2)
            plans.append(P.end())
        # the container the repository ships
        fx = fixture('Key-6.pfx')
        P = StorePlan(c)
        if fx:
            for h in 'mfbd': P.read('p12', fx, b'testplat2021', how=h)
            for w in (b'testplat202', b'testplat20211', b'', b'Testplat2021'): P.read('p12', fx, w)
            for j in c.rng.sample(range(len(fx)), 40): P.read('p12', fx[:j] + bytes([fx[j] ^ 1 << c.rng.randrange(8)]) + fx[j+1:], b'testplat2021')
        plans.append(P.end())
    run_sessions(c, plans, 'p12', mod='TraceStore', parallel=8)
    c.sample('safes: plain, 3DES, AES, PBES2-DSTU; nested bags; keys plain, shrouded, of other kinds; MAC over SHA-1 and DSTU 34.311; other passwords; every kind of single damage')
