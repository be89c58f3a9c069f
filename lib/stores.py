"""Containers: making them (inputs only), reading plans."""
import hashlib, hmac, struct
from .keys import *

IIT = bytes([43, 6, 1, 4, 1, 129, 151, 70, 1, 1])
OID_ATTR_CURVE, OID_ATTR_KEY, OID_KEY6 = IIT + b'\2\2', IIT + b'\2\3', IIT + b'\1\2'
OID_PROT = bytes([43, 6, 1, 4, 1, 42, 2, 17, 1, 1])
OID_PBES1 = bytes([43, 6, 1, 4, 1, 42, 2, 19, 1])
EC_KEY = bytes.fromhex('308187020100301306072a8648ce3d020106082a8648ce3d030107046d306b0201010420b0d6fbe3bdce3ffb40e99e48fb0b59c9f1dd006107b44bd957e638ffb10a99ffa144034200044b3331f14c376a4e93538e96935198591417ec7dd61ca024bd8ba628c687d9a1a685c2ba6edb321cae49fdb10ad0d946c8444282ee66bd1c4265f593e006864e')
ED_KEY = bytes.fromhex('302e020100300506032b657004220420153962f98a284630ca494a6abe95694aa577fa111ae4883d14ef4635cb3a7490')

def cert(c, extra=0):
    """a small certificate (contents of no importance)"""
    alg = seq(oid(OID_LE + b''))
    name = seq(tlv(49, seq(oid(b'\x55\4\3'), tlv(12, b'n%d' % c.rng.randrange(1000)))))
    t = tlv(23, b'200101000000Z')
    key = seq(seq(oid(OID_LE), tlv(5)), bits(c.rb(8)))
    return seq(seq(dint(c.rng.getrandbits(40)), alg, name, seq(t, t), name, key), alg, bits(c.rb(6 + extra)))

# ---- PKCS#8 with a second key in its attributes
def rbits(b):
    return bytes(int('{:08b}'.format(x)[::-1], 2) for x in b)
def attr(o, *vals): return seq(oid(o), tlv(49, *vals))
def curve_val(c, cv, dke=None, spec=None): return seq(spec or custom_der(False, cv), oct(dke if dke is not None else c.rb(64)), oct(c.rb(8)))
def key_val(d, w, bit=False): 
    v = rbits(d.to_bytes(w, 'little'))
    return bits(v) if bit else oct(v)
def second(c, cv, d, bit=False, pre=(), post=(), kpre=(), kpost=(), order=0):
    """attributes carrying the key d on curve cv"""
    a = [attr(OID_ATTR_CURVE, *pre, curve_val(c, cv), *post), attr(OID_ATTR_KEY, *kpre, key_val(d, cv.nb, bit), *kpost)]
    o = attr(b'\x2a\3\4', oct(b'other'))
    if order == 1: a = a[::-1]
    if order == 2: a = [o, a[0], o, a[1], o]
    return b''.join(a)
def p8(le, cv, d, sb=None, explicit=False, attrs=None):
    return seq(dint(0), alg_der(le, cv, sb, explicit), oct(d.to_bytes((d.bit_length() + 7) // 8, 'little')), tlv(0xa0, attrs) if attrs is not None else b'')

# ---- JKS
JKS, JCEKS = b'\xfe\xed\xfe\xed', b'\xce' * 4
def u16(pw): return pw.decode('utf-8').encode('utf-16-be') if isinstance(pw, bytes) else pw
def protect(pw, salt, x):
    p = u16(pw); k, h = b'', salt
    while len(k) < len(x):
        h = hashlib.sha1(p + h).digest(); k += h
    return salt + bytes(a ^ b for a, b in zip(x, k)) + hashlib.sha1(p + x).digest()
def epki(pw, salt, x, o=OID_PROT, par=tlv(5)): return seq(seq(oid(o), par), oct(protect(pw, salt, x)))
def jcert(x, typ=b'X.509'): return struct.pack('>H', len(typ)) + typ + struct.pack('>I', len(x)) + x
def jname(n, t=b'\0' * 8): return struct.pack('>H', len(n)) + n + t
def jkey(name, blob, certs, typ=b'X.509', t=b'\0' * 8):
    return b'\0\0\0\1' + jname(name, t) + struct.pack('>I', len(blob)) + blob + struct.pack('>I', len(certs)) + b''.join(jcert(x, typ) for x in certs)
def jtrust(name, x, typ=b'X.509', t=b'\0' * 8): return b'\0\0\0\2' + jname(name, t) + jcert(x, typ)
def jseal(body, pw): return body + hashlib.sha1(u16(pw) + b'Mighty Aphrodite' + body).digest()
def jks(entries, pw, magic=JKS, ver=2, count=None):
    return jseal(magic + struct.pack('>II', ver, len(entries) if count is None else count) + b''.join(entries), pw)

# ---- Key-6 (the encryption is done by the driver's cipher: see key6_make)
def key6_wrap(c, data, pad=None, typ=OID_KEY6, mac=None):
    return seq(seq(oid(typ), seq(oct(c.rb(4) if mac is None else mac), b'' if pad is None else oct(pad))), oct(data))

# ---- PKCS#12
P7 = bytes([42, 134, 72, 134, 247, 13, 1, 7])
BAG = bytes([42, 134, 72, 134, 247, 13, 1, 12, 10, 1])
X509T = bytes([42, 134, 72, 134, 247, 13, 1, 9, 22, 1])
def ctx0(*b): return tlv(0xa0, *b)
def bag(t, val, attrs=b''): return seq(oid(BAG + bytes([t])), ctx0(val), tlv(49, attrs) if attrs else b'')
def bcert(x): return bag(3, seq(oid(X509T), ctx0(oct(x))))
def safe_data(*bags): return seq(oid(P7 + b'\1'), ctx0(oct(seq(*bags))))
def safe_enc(alg, enc): return seq(oid(P7 + b'\6'), ctx0(seq(dint(0), seq(oid(P7 + b'\1'), alg, tlv(0x80, enc)))))
def p12_mac_key(pw, salt, it):
    p = u16(pw) + b'\0\0'
    fill = lambda s: (s * (64 // max(1, len(s)) + 2))[:64 * ((len(s) + 63) // 64)] if len(s) <= 64 else (s * 2)[:64 * ((len(s) + 63) // 64)]
    h = b'\3' * 64 + fill(salt) + fill(p)
    for _ in range(it): h = hashlib.sha1(h).digest()
    return h
SHA1A = seq(oid(bytes([43, 14, 3, 2, 26])), tlv(5))
OID_SHA1, OID_DSTUMD = bytes([43, 14, 3, 2, 26]), bytes([42, 134, 36, 2, 1, 1, 1, 1, 2, 1])
DSTUA = seq(oid(OID_DSTUMD), tlv(5))
def p12(safes, pw, salt=b'saltsalt', it=1, ver=3, alg=SHA1A, mac=True, body=None, noit=False, m=None):
    body = seq(*safes) if body is None else body
    if m is None: m = hmac.new(p12_mac_key(pw, salt, it), body, hashlib.sha1).digest()
    return seq(dint(ver), seq(oid(P7 + b'\1'), ctx0(oct(body))), seq(seq(alg, oct(m)), oct(salt), b'' if noit else dint(it)) if mac else b'')

# ---- parts made by TLC from the specification
def made(reqs):
    from . import tlc
    rep, _ = tlc.trace('Make', reqs, cfg='Trace.cfg')
    out = {r['i']: [bytes(x) for x in r['out']] for r in rep if r.get('k') == 'out'}
    return [out[i + 1] for i in range(len(reqs))]

# ---- reading
def reader(kind, data, p1, p2, how, slot=0, keep=False, mem=False):
    k = {'jks': 'jks', 'p12': 'p12', 'key6': 'key6'}[kind]
    def once(d):
        r = d('ks', k, how, slot, data, p1, p2)
        if 'crash' in r: return r
        out = {'ok': r['r'] if r['r'] in (0, 1) else 9, 'same': r['same'], 'keys': [], 'certs': [], 'ptrs': []}
        if r['ok'] and not r['same']:
            for i in range(r['nk']):
                x = d('ks_key', slot, i)
                if 'crash' in x: return x
                out['keys'].append({'priv': x.get('priv', b''), 'pub': x.get('pub', b'')}); out['ptrs'].append(x.get('ptr', 0))
            for i in range(r['nc']):
                x = d('ks_cert', slot, i)
                if 'crash' in x: return x
                out['certs'].append(x.get('out', b'')); out['ptrs'].append(x.get('ptr', 0))
        return out
    def fn(d):
        out = once(d)
        if 'crash' in out: return out
        def free():
            return d('ks_free', slot) if out['ok'] == 1 and not out['same'] else {}
        if not keep:
            x = free()
            if 'crash' in x: return x
        if mem:
            a = d('mem'); o2 = once(d)
            if 'crash' in o2: return o2
            if o2['ok'] == 1: d('ks_free', slot)
            b = d('mem')
            if 'crash' in b: return b
            out['grow'] = b['n'] - a['n']
        return out
    return fn

def fixture(name):
    import os
    from . import build
    p = os.path.join(build.REPO, 'tests', name)
    return open(p, 'rb').read() if os.path.exists(p) else None
def jks_certs(x):
    """the certificates of a sound store"""
    out, i = [], 12
    for _ in range(struct.unpack('>I', x[8:12])[0]):
        t = struct.unpack('>I', x[i:i+4])[0]; i += 4
        i += 2 + struct.unpack('>H', x[i:i+2])[0] + 8
        n = 1
        if t == 1:
            i += 4 + struct.unpack('>I', x[i:i+4])[0]; n = struct.unpack('>I', x[i:i+4])[0]; i += 4
        for _ in range(n):
            i += 2 + struct.unpack('>H', x[i:i+2])[0]; k = struct.unpack('>I', x[i:i+4])[0]; out.append(x[i+4:i+4+k]); i += 4 + k
    return out

class StorePlan:
    def __init__(self, c, mem=False):
        self.c, self.p, self.mem = c, [], mem
        self.good, self.blobs = [], []
        self.n = 0
        self.first = {}
    def raw(self, cmd): self.p.append(({'op': 'nop'}, cmd))
    def read(self, kind, data, p1, p2=b'', how=None, good=None, blobs=None, other=0, s=0, keep=False):
        how = how or self.c.rng.choice(['m', 'm', 'f', 'b', 'd'])
        self.p.append(({'op': 'read', 'kind': kind, 'data': data, 'p1': p1, 'p2': p2, 'how': how, 'keep': int(keep), 's': s,
                        'good': good if good is not None else self.good, 'blobs': blobs if blobs is not None else self.blobs, 'other': other},
                       reader(kind, data, p1, p2, how, s, keep, self.mem)))
    def damaged(self, kind, data, p1, p2, keys, certs, how='m'):
        self.p.append(({'op': 'damaged', 'kind': kind, 'data': data, 'p1': p1, 'p2': p2, 'how': how, 'keys': keys, 'certs': certs},
                       reader(kind, data, p1, p2, how, 0, False, self.mem)))
    def end(self): return self.p

def cut(b, n):
    """the first n octets, in a buffer that goes on"""
    return b[:n]
