"""Messages: plans for the driver."""
from .keys import *
from .stores import made, P7, OID_DSTUMD, ctx0

OID_CFB = bytes([42, 134, 36, 2, 1, 1, 1, 1, 1, 1, 3])
NULL = tlv(5)

class MsgPlan:
    def __init__(self, c):
        self.c, self.p = c, []
        self.raw(('rnd', 'prng', c.rng.randrange(1, 1 << 30)))
    def raw(self, cmd): self.p.append(({'op': 'nop'}, cmd))
    def ev(self, cmd, **e): self.p.append((e, cmd))
    def later(self, f): self.p.append(f)
    def load(self, s, kind, der, le=True):
        self.ev(('k_load', s, KIND[kind], 'le' if le else 'be', der), op='load', s=s, kind=kind, der=der)
    def end(self): return self.p

def hmac_plan(beh, rng):
    out = []
    for e in beh:
        ev = dict(e); op = ev['op']; s = ev['s']
        if op in ('hm_init', 'hm_upd'):
            n = ev.pop('len'); d = bytes(n) if rng.random() < .1 else rng.randbytes(n)
            ev['key' if op == 'hm_init' else 'data'] = d
            cmd = (op, s, d)
        elif op == 'hm_copy': cmd = (op, s, ev['from'])
        else: cmd = (op, s)
        out.append((ev, cmd))
    return out

def enc_data(iv, sb, enc, ctype=P7 + b'\1', alg=OID_CFB):
    return seq(oid(P7 + b'\6'), ctx0(seq(dint(0), seq(oid(ctype), seq(oid(alg), seq(oct(iv), oct(sb))), tlv(0x80, enc)))))

# ---- signed structures, built here; hashes and signatures come from the specification
def name(b): return seq(tlv(49, seq(oid(b'\x55\4\3'), tlv(12, b))))
def tbs_cert(le, serial, issuer, subject, spki, ca=True, times=(b'200101000000Z', b'490101000000Z')):
    ext = tlv(0xa3, seq(seq(oid(b'\x55\x1d\x13'), tlv(1, b'\xff'), oct(seq(tlv(1, b'\xff')))))) if ca else b''
    return seq(ctx0(dint(2)), dint(serial), seq(oid(OID_LE if le else OID_BE)), name(issuer), seq(tlv(23, times[0]), tlv(23, times[1])), name(subject), spki, ext)
def tbs_req(subject, spki): return seq(dint(0), name(subject), spki, tlv(0xa0))
def sealed(tbs, le, sig, par=b''): return seq(tbs, seq(oid(OID_LE if le else OID_BE), par), bits(sig))
P9 = bytes([42, 134, 72, 134, 247, 13, 1, 9])
def attrs_of(digest, extra=()):
    return b''.join(sorted([seq(oid(P9 + b'\3'), tlv(49, oid(P7 + b'\1'))), seq(oid(P9 + b'\4'), tlv(49, oct(digest)))] + list(extra)))
def signed_data(content, cert, issuer, serial, attrs, le, sig, att=True, digalg=OID_DSTUMD):
    da = seq(oid(digalg), NULL)
    return seq(oid(P7 + b'\2'), ctx0(seq(dint(1), tlv(49, da), seq(oid(P7 + b'\1'), ctx0(oct(content)) if att else b''), tlv(0xa0, cert) if cert else b'',
               tlv(49, seq(dint(1), seq(name(issuer), dint(serial)), da, tlv(0xa0, attrs) if attrs is not None else b'', seq(oid(OID_LE if le else OID_BE), NULL), oct(sig))))))
