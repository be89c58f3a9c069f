"""C20: certificates, requests, PKCS#7 and CMS signed messages."""
import random
from ..msgs import *

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification of what certificates, requests and signed messages say, octet by octet (TLC: every small message made, altered at every octet and judged); messages made by the engine judged by the specification, messages made by the specification and altered ones judged by the engine, every answer compared'
NOTE = 'MsgSpec is model-checked on a 163-bit curve: what was made is accepted, no alteration of signed octets and no other key is. TraceMsg recomputes the hashes and the DSTU 4145 equation for every certificate, request and message shown to libcrypto with the engine. Trusted: TLC, the Java evaluation of octet-level operators (compared with the TLA+ definitions by SelfTest), the driver, libcrypto\'s structures.'
ASSUMPTIONS = ['TLC and the Java evaluation of the octet-level operators (compared with their TLA+ definitions by SelfTest) are trusted',
               'the content of a message is hashed with the default table (libcrypto hashes it before it knows the signer)',
               'structures the specification does not follow (several signers, non-DER forms) may be accepted or refused']
KNOWN = 'PKCS#7 messages with signed attributes by a key with a table of its own are made but not verified (libcrypto verifies the attributes without the key)'

class Own:
    """randomness of one step, the same when it is executed again"""
    def __init__(self, seed): self.rng = random.Random(seed)
    def rb(self, n): return self.rng.randbytes(n)

class K:
    def __init__(self, c, cv, sb):
        self.le, self.cv, self.sb = c.rng.random() < .5, cv, sb
        self.d = c.rng.randrange(1, cv.n)
        self.priv = priv_der(self.le, cv, self.d, sb)
        self.pub = pub_der(self.le, cv, cv.neg(cv.mul(self.d, cv.G)), sb)

def flips(c, x, n, lo=0, hi=None):
    for _ in range(n):
        y = bytearray(x); j = c.rng.randrange(lo, hi or len(y)); y[j] ^= 1 << c.rng.randrange(8); yield bytes(y)

def run(c):
    c.model('MCMsg', 'MCMsg.cfg' if c.quick else 'MCMsgBig.cfg', workers=8)
    plans = []
    def xv(P, x, k, must=0): P.ev(('x_verify', x, k), op='x_verify', der=x, k=k, must=must)
    def rv(P, x, k, must=0): P.ev(('req_verify', x, k), op='req_verify', der=x, k=k, must=must)
    def mv(P, w, x, data, det, slot, cert, must=0): P.ev((w + '_verify', x, data, det, slot), op='m_verify', kind=w, der=x, data=data, det=det, cert=cert, must=must)
    nf = c.pick(6, 30)
    # ---- made by the engine
    for rep in range(c.pick(14, 100)):
        cvs = TINYC[:6] if rep % 3 == 0 else NAMED[:4] if rep % 3 == 1 else NAMED
        cv = c.rng.choice(cvs)
        tab = [c.rb(64), None, c.rb(64), None]
        A = K(c, cv, tab[rep % 4]); B = K(c, cv, c.rng.choice([A.sb, None, c.rb(64)]))
        if rep % 5 == 0: B.d = A.d; B.le = not A.le; B.priv = priv_der(B.le, cv, B.d, B.sb); B.pub = pub_der(B.le, cv, cv.neg(cv.mul(B.d, cv.G)), B.sb)
        P = MsgPlan(c)
        P.load(0, 'priv', A.priv, A.le); P.load(1, 'priv', B.priv, B.le); P.load(2, 'pub', A.pub, A.le); P.load(3, 'pub', B.pub, B.le)
        ca, sub = b'ca %d' % rep, c.rng.choice([b'\xd0\x86\xd0\xbc', b'subject', b's' * 200])
        md = lambda: c.rng.choice('md')
        # certificates: 0 the root, 1 a leaf by it, 2 the other key's with the same name and number, 3 a false leaf, 5 another root of the same name
        def make(slot, subj, iss, s, i, n, isca):
            P.ev(('x_make', slot, subj, iss, s, i, n, md(), isca), op='x_make', slot=slot, subj=subj, k=iss)
        make(0, 0, 0, ca, ca, 1, 1); make(1, 1, 0, sub, ca, 7, 0); make(2, 1, 1, ca, ca, 1, 1); make(3, 1, 1, sub, ca, 7, 0); make(4, 0, 2, sub, ca, 9, 0)
        def certs(out): return {e['slot']: e['res'].get('out', b'') for e in out if e['op'] == 'x_make'}
        def xs(out, sd=c.rng.random()):
            c = Own(sd); Q = MsgPlan(c); Q.p = []; C = certs(out)
            for s, x in C.items():
                if not x: continue
                for k in (0, 1, 2, 3): xv(Q, x, k, 1)
                Q.ev(('x_key', x), op='x_key', der=x, must=1)
                for y in flips(c, x, nf): xv(Q, y, c.rng.choice([0, 2] if s in (0, 1) else [1, 3])); Q.ev(('x_key', y), op='x_key', der=y, must=0)
                xv(Q, x[:-1], 0); xv(Q, x + b'\0', 0)
            for l in (1, 3):
                for r in (0, 2): Q.ev(('x_chain', l, r), op='x_chain', leaf=C[l], ca=C[r]) if l != r and C.get(l) and C.get(r) else None
            return Q.p
        # functions that give several events
        P.later(('many', xs))
        for k in (0, 1, 2): P.ev(('req_make', k, sub, md()), op='req_make', k=k)
        def rs(out, sd=c.rng.random()):
            c = Own(sd); Q = MsgPlan(c); Q.p = []; R = [e['res'].get('out', b'') for e in out if e['op'] == 'req_make']
            for n, x in enumerate(R):
                if not x: continue
                for k in (-1, 0, 1, 2, 3): rv(Q, x, k, 1)
                for y in flips(c, x, nf): rv(Q, y, c.rng.choice([-1, n, n]))
            return Q.p
        P.later(('many', rs))
        datas = [c.rb(c.rng.choice([0, 1, 31, 32, 33, 100])), b'Content-Type: text/plain\r\n\r\n', c.rb(c.rng.choice([1000, 5000]))]
        for w in ('cms', 'p7'):
            for det in (0, 1):
                for na in (0, 1):
                    d = c.rng.choice(datas)
                    def sg(out, w=w, det=det, na=na, d=d):
                        C = certs(out)
                        return ({'op': 'm_sign', 'kind': w, 'k': 0, 'data': d, 'det': det, 'noattr': na, 'cert': C[0]}, (w + '_sign', 0, 0, d, det, na)) if C.get(0) else None
                    P.later(sg)
        def ms(out, sd=c.rng.random(), A=A):
            c = Own(sd); Q = MsgPlan(c); Q.p = []; C = certs(out)
            M = [e for e in out if e['op'] == 'm_sign' and e['res'].get('out')]
            for e in M:
                w, x, d, det = e['kind'], e['res']['out'], e['data'], e['det']
                mv(Q, w, x, d, det, -1, b'', 1); mv(Q, w, x, d, det, 0, C[0], 1)
                if C.get(2): mv(Q, w, x, d, det, 2, C[2])
                if C.get(1): mv(Q, w, x, d, det, 1, C[1])
                # the other reading of the same octets
                mv(Q, 'p7' if w == 'cms' else 'cms', x, d, det, 0, C[0])
                if det:
                    for y in [d + b'\0', d[:-1], b'', *flips(c, d or b'x', 3)]: mv(Q, w, x, y, 1, 0, C[0], int(y == d))
                else:
                    i = x.find(d) if d else -1
                    if i > 0:
                        for y in flips(c, x, 3, i, i + len(d)): mv(Q, w, y, d, 0, 0, C[0])
                i = x.rfind(C[0]) + len(C[0]) if C[0] in x else 0
                for y in flips(c, x, 2 * nf, i): mv(Q, w, y, d, det, 0, C[0])
                for y in flips(c, x, nf): mv(Q, w, y, d, det, -1, b'')
                o = c.rng.choice(M)
                if o is not e and len(o['res']['out']) > 80:     # the end of another message: its signature
                    n = 2 + 2 * A.cv.nb; mv(Q, w, x[:-n] + o['res']['out'][-n:], d, det, 0, C[0])
            return Q.p
        P.later(('many', ms))
        plans.append(P.end())
    # ---- made by the specification
    jobs = []
    for rep in range(c.pick(24, 160)):
        cv = c.rng.choice(TINYC[:6] if rep % 3 == 0 else NAMED[:5] if rep % 3 == 1 else NAMED)
        A = K(c, cv, c.rng.choice([None, c.rb(64)])); data = c.rb(c.rng.choice([0, 1, 32, 33, 200, 2000]))
        jobs.append((rep, cv, A, data))
    dig = made([dict(op='hash', sb=b'', msg=d) for _, _, _, d in jobs])
    reqs = []
    for (rep, cv, A, data), h in zip(jobs, dig):
        A.at = attrs_of(h[0], c.rng.sample([seq(oid(P9 + b'\5'), tlv(49, tlv(23, b'230101120000Z'))), seq(oid(P9 + b'\x10\2\x2f'), tlv(49, seq(seq(seq(oct(c.rb(32)))))))], c.rng.randrange(3)))
        A.tbs = tbs_cert(A.le, 1000 + rep, b'ca', b'ca', A.pub); A.rq = tbs_req(b'who', A.pub)
        for own, m in ((1, A.tbs), (1, A.rq), (1, tlv(49, A.at)), (0, data), (0, tlv(49, A.at))):
            reqs.append(dict(op='sign', priv=A.priv, nonce=c.rng.randrange(1, cv.n).to_bytes(cv.nb, 'little'), own=own, msg=m))
    sig = [x[0] for x in made(reqs)]
    for n, (rep, cv, A, data) in enumerate(jobs):
        s = sig[5*n:5*n+5]
        if not all(s): continue                     # a nonce that cannot be used (small curves)
        P = MsgPlan(c)
        P.load(0, 'pub', A.pub, A.le)
        for par in (b'', NULL):
            x = sealed(A.tbs, A.le, s[0], par); xv(P, x, 0, int(not par))
        x = sealed(A.tbs, A.le, s[0])
        xv(P, sealed(A.tbs, not A.le, s[0]), 0); xv(P, sealed(A.tbs, A.le, s[0][2:]), 0); xv(P, sealed(A.tbs, A.le, s[0] + b'\0'), 0); xv(P, sealed(A.tbs, A.le, b''), 0)
        xv(P, sealed(tbs_cert(not A.le, 1000 + rep, b'ca', b'ca', A.pub), A.le, s[0]), 0); xv(P, seq(A.tbs, seq(oid(OID_LE if A.le else OID_BE)), tlv(3, b'\1' + s[0])), 0)
        r = sealed(A.rq, A.le, s[1]); rv(P, r, 0, 1); rv(P, r, -1, 1)
        for y in flips(c, x, nf): xv(P, y, 0)
        P.raw(('x_load', 0, x)); P.ev(('x_key', x), op='x_key', der=x, must=1)
        for w in ('cms', 'p7'):
            for att in (True, False):
                det = 0 if att else 1
                own = 2 if w == 'cms' else 4
                m1 = signed_data(data, x, b'ca', 1000 + rep, A.at, A.le, s[own], att); m2 = signed_data(data, x, b'ca', 1000 + rep, None, A.le, s[3], att)
                for m in (m1, m2):
                    mv(P, w, m, data, det, -1, b'', 1); mv(P, w, m, data, det, 0, x, 1)
                    if det: mv(P, w, m, data + b'1', det, 0, x)
                    for y in flips(c, m, nf, m.find(x) + len(x)): mv(P, w, y, data, det, 0, x)
                # attributes left out, another digest, two digests, no digest, signature of something else
                bad = [signed_data(data, x, b'ca', 1000 + rep, None, A.le, s[own], att), signed_data(data, x, b'ca', 1000 + rep, A.at, A.le, s[3], att), signed_data(data, x, b'ca', 1000 + rep, b'', A.le, s[own], att),
                       signed_data(data + b'x', x, b'ca', 1000 + rep, A.at, A.le, s[own], True), signed_data(data + b'x', x, b'ca', 1000 + rep, None, A.le, s[3], True), signed_data(tlv(49, A.at), x, b'ca', 1000 + rep, None, A.le, s[4], True)]
                for y in bad: mv(P, w, y, data, det, 0, x)
        plans.append(P.end())
    run_sessions(c, plans, 'signed structures', mod='TraceMsg', parallel=8)
    if c.extra.pop('p7_own_table', 0): c.known.append(KNOWN)
    c.sample('certificates, requests, CMS and PKCS#7 (attached, detached, with and without attributes), both byte orders, tables, named and small curves; altered and re-combined ones')
