"""C21: HMAC, PBKDF2, PBES2 and CMS encryption over the DSTU algorithms."""
from .. import tlc
from ..msgs import *

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification of HMAC contexts (TLC, exhaustively on a small instance), PBKDF2, PBES2 and CMS EncryptedData from octets; TLC-generated call sequences and specification-made messages executed against the library with the engine, every result compared with the specification'
NOTE = 'HmacSpec is model-checked over DigestSpec with free terms; TraceMsg replays HMAC sessions and judges derived keys, encrypted keys and messages octet by octet: what the engine encrypts is decrypted by the specification, what the specification encrypts by the engine. Trusted: TLC, the Java evaluation of octet-level operators (compared with the TLA+ definitions by SelfTest), the driver, libcrypto.'
ASSUMPTIONS = ['TLC and the Java evaluation of the octet-level operators (compared with their TLA+ definitions by SelfTest) are trusted',
               'the key wrapping of enveloped data (AES, by libcrypto) is not specified: only that the right secret gives the content back',
               'encodings of messages the specification does not follow may be accepted or refused']

def run(c):
    c.model('MCHmac', 'MCHmac.cfg' if c.quick else 'MCHmacBig.cfg', workers=8)
    plans = []
    # HMAC contexts
    beh = tlc.simulate('GenHmac', 'GenHmac.cfg', c.pick(60, 800), 60, c.seed + 2100)
    c.sample({'generated_behaviour': beh[0][:12]})
    for b in beh: plans.append(hmac_plan(b, c.rng))
    P = MsgPlan(c)
    for n in list(range(0, 70)) + [95, 96, 97, 128, 200, 1000]:
        k, d = c.rb(n), c.rb(c.rng.choice([0, 1, 31, 32, 33, 64, 100]))
        P.ev((c.rng.choice(['hmac', 'hmacp']) if n else 'hmac', k, d, c.rng.randrange(len(d) + 1)), op='hmac', key=k, data=d)
        k, d = c.rb(c.rng.choice([1, 20, 32, 33])), c.rb(n)
        P.ev((c.rng.choice(['hmac', 'hmacp']), k, d, c.rng.randrange(len(d) + 1)), op='hmac', key=k, data=d)
    plans.append(P.end())
    # PBKDF2
    P = MsgPlan(c)
    for pl in c.pick([0, 1, 5, 31, 32, 33, 64, 100], list(range(0, 70)) + [100, 200]):
        for sl in c.pick([0, 1, 8, 28, 29, 60], [0, 1, 4, 8, 16, 27, 28, 29, 31, 32, 60, 100]):
            for n in c.rng.sample([1, 31, 32, 33, 63, 64, 65, 100, 320], 3):
                a, s, it = c.rb(pl), c.rb(sl), c.rng.choice([1, 1, 2, 3, 10])
                P.ev(('pbkdf2', a, s, it, n), op='pbkdf2', **{'pass': a}, salt=s, iter=it, len=n)
    for it in (100, 1000, 2048, 10000):
        a, s = c.rb(9), c.rb(8); P.ev(('pbkdf2', a, s, it, 64), op='pbkdf2', **{'pass': a}, salt=s, iter=it, len=64)
    # more than 255 blocks
    a, s = c.rb(7), c.rb(8); P.ev(('pbkdf2', a, s, 1, 32 * 260 + 5), op='pbkdf2', **{'pass': a}, salt=s, iter=1, len=32 * 260 + 5)
    plans.append(P.end())
    # encrypted private keys
    PW = [b'', b'p', b'pass word', b'\xd0\xbf\xd0\xb0\xd1\x80', b'x' * 32, b'x' * 33, b'a\0b', c.rb(80)]
    def key(small=True):
        cv = c.rng.choice(TINYC[:6] if small else NAMED); le = c.rng.random() < .5
        d = c.rng.choice([1, cv.n - 1, c.rng.randrange(1, cv.n), c.rng.randrange(1, cv.n)])
        return le, cv, d, c.rng.choice([None, None, c.rb(64)])
    for rep in range(c.pick(4, 30)):
        P = MsgPlan(c)
        for s in range(6):
            le, cv, d, sb = key(s > 2)
            P.load(s, 'priv', priv_der(le, cv, d, sb), le)
            for w in c.rng.sample(PW, 3):
                salt, it = c.rb(c.rng.choice([8, 8, 16, 20])), c.rng.choice([1, 2, 50, 300])
                P.ev(('p8enc', s, w, it, salt), op='p8enc', s=s, **{'pass': w}, iter=it, salt=salt)
                for w2 in [w, w + b'\0' if w else b'q', w[:-1] + bytes([(w[-1] if w else 0) ^ 1]), w + w + b'1']:
                    def f(out, w2=w2, w=w):
                        m = [e for e in out if e['op'] == 'p8enc']
                        x = m[-1]['res'].get('out') if m else None
                        return None if not x else ({'op': 'p8dec', 'der': x, 'pass': w2}, ('p8dec', x, w2))
                    P.later(f)
            if s in (0, 3):
                w = c.rng.choice(PW[1:])
                P.ev(('p8pem', s, w), op='p8pem', s=s, **{'pass': w})
        plans.append(P.end())
    # made by the specification
    reqs, meta = [], []
    for _ in range(c.pick(40, 300)):
        le, cv, d, sb = key(c.rng.random() < .7)
        w = c.rng.choice(PW); iv = c.rng.choice([c.rb(8), bytes(8), b'\xff' * 8]); t = c.rng.choice([DEF, c.rb(64)])
        plain = c.rng.choice([priv_der(le, cv, d, sb), priv_der(le, cv, d, sb), priv_der(le, cv, d, sb, True), priv_der(le, cv, d, sb) + b'\0' * 5, priv_der(le, cv, 0, sb), priv_der(le, cv, cv.n, sb), b'', c.rb(40), priv_der(le, cv, d, sb)[:-1]])
        reqs.append(dict(op='pbe', pw=w, salt=c.rb(c.rng.choice([0, 1, 8, 20, 64])), iter=c.rng.choice([1, 2, 17, 300]), iv=iv, sb=t, plain=plain)); meta.append(('pbe', w))
    for _ in range(c.pick(60, 400)):
        k, iv, t = c.rb(32), c.rng.choice([c.rb(8), bytes(8), b'\xff' * 8]), c.rng.choice([DEF, c.rb(64)])
        n = c.rng.choice([0, 1, 7, 8, 9, 15, 16, 17, 40, 100, 255, 256, 1000, 1023, 1024, 1025, 1032, 2000, 2049] if c.rng.random() < .9 else [4095, 4096, 4100, 9000])
        reqs.append(dict(op='cfb', key=k, iv=iv, sb=t, plain=c.rb(n))); meta.append(('cfb', k, iv, t))
    outs = made(reqs)
    P = MsgPlan(c); Q = MsgPlan(c)
    def dec(x, w): P.ev(('p8dec', x, w), op='p8dec', der=x, **{'pass': w})
    def opn(x, k): Q.ev(('cms_dec', x, k), op='cms_dec', der=x, key=k)
    for o, m in zip(outs, meta):
        if m[0] == 'pbe':
            x = seq(o[0], oct(o[1])); dec(x, m[1]); dec(x, m[1] + b'x')
            for _ in range(c.pick(3, 10)):
                y = bytearray(x); j = c.rng.randrange(len(y)); y[j] ^= 1 << c.rng.randrange(8); dec(bytes(y), m[1])
        else:
            _, k, iv, t = m; x = enc_data(iv, t, o[0]); opn(x, k); opn(x, c.rb(32))
            for z in (iv[:7], iv + b'\0', b''): opn(enc_data(z, t, o[0]), k)
            for z in (t[:63], t + b'\0', b''): opn(enc_data(iv, z, o[0]), k)
            for _ in range(2):
                y = bytearray(x); j = c.rng.randrange(len(y)); y[j] ^= 1 << c.rng.randrange(8); opn(bytes(y), k)
    plans += [P.end(), Q.end()]
    # made by the engine
    P = MsgPlan(c)
    for n in c.pick([0, 1, 7, 8, 9, 16, 31, 100, 1000, 1024, 1025, 4096, 5001], list(range(0, 40)) + [1023, 1024, 1025, 4095, 4096, 4097, 8192, 20000]):
        k, d = c.rb(32), c.rb(n)
        P.ev(('cms_enc', d, k), op='cms_enc', data=d, key=k)
        def f(out, k=k):
            x = out[-1]['res'].get('out')
            return None if not x else ({'op': 'cms_dec', 'der': x, 'key': k}, ('cms_dec', x, k))
        P.later(f)
        for kind in 'kp':
            s = c.rb(c.rng.choice([16, 24, 32]) if kind == 'k' else c.rng.randrange(1, 40))
            P.ev(('cms_env', kind, d, s), op='cms_env', kind=kind, data=d, secret=s)
            for sec, ok in ((s, 1), (bytes([s[0] ^ 1]) + s[1:], 0)):
                def f(out, sec=sec, ok=ok, kind=kind, d=d):
                    m = [e for e in out if e['op'] == 'cms_env']; x = m[-1]['res'].get('out')
                    return None if not x else ({'op': 'cms_denv', 'data': d, 'right': ok}, ('cms_denv', kind, x, sec))
                P.later(f)
    for n in (1, 16, 31, 33, 64): P.ev(('cms_enc', b'data', c.rb(n)), op='cms_enc', data=b'data', key=bytes(n))
    plans.append(P.end())
    run_sessions(c, plans, 'encryption', mod='TraceMsg', parallel=8)
    c.sample('HMAC keys 0..70 octets and long; PBKDF2 passwords and salts around block lengths, up to 260 blocks; encrypted keys both ways, wrong passwords; EncryptedData of 0..9000 octets both ways')
