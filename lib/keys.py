"""Key sessions: DER of keys (inputs only), plans for the driver, the curves."""
import os, re
from . import tlc
from .frame import session
from .gf2 import Curve
from .tiny import TINY
from . import build

OID_LE = bytes([42, 134, 36, 2, 1, 1, 1, 1, 3, 1, 1])
OID_BE = OID_LE + bytes([1, 1])
DEF = bytes([169,214,235,69,241,60,112,130,128,196,150,123,35,31,94,173,246,88,235,164,192,55,41,29,56,217,107,240,37,202,78,23,
             248,233,114,13,198,21,180,58,40,151,95,11,193,222,163,100,56,181,100,234,44,23,159,208,18,62,109,184,250,197,121,4])

def named():
    """the ten curves, from the specification's table"""
    txt = open(os.path.join(build.ROOT, 'specs', 'Curves.tla')).read()
    out = []
    for m in re.finditer(r'\[ p \|-> <<([\d,]*)>>,\s*a \|-> <<([\d,]*)>>,\s*b \|-> <<([\d,]*)>>,\s*n \|-> <<([\d,]*)>>,\s*gx \|-> <<([\d,]*)>>,\s*gy \|-> <<([\d,]*)>> \]', txt):
        v = [int.from_bytes(bytes(int(t) for t in g.split(',') if t), 'little') for g in m.groups()]
        out.append(Curve(*v, name='uacurve%d' % len(out)))
    assert len(out) == 10
    return out
NAMED = named()
TINYC = [Curve(*t[1:], name=t[0]) for t in TINY]

# ---- DER (making inputs)
def dlen(n):
    if n < 128: return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([128 + len(b)]) + b
def tlv(tag, *body):
    b = b''.join(body)
    return bytes([tag]) + dlen(len(b)) + b
def dint(v):
    return tlv(2, v.to_bytes(v.bit_length() // 8 + 1, 'big'))
def oct(b): return tlv(4, b)
def seq(*b): return tlv(48, *b)
def oid(b): return tlv(6, b)
def bits(b): return tlv(3, b'\0' + b)
def num(le, v, w): return v.to_bytes(w, 'little' if le else 'big')

def field_der(p):
    t = [i for i in range(p.bit_length()) if p >> i & 1][::-1]
    return seq(dint(t[0]), dint(t[1]) if len(t) == 3 else seq(dint(t[3]), dint(t[2]), dint(t[1])))
def custom_der(le, c, bp=None, b=None):
    w = c.fb
    return seq(field_der(c.p), dint(c.a), oct(num(le, c.b, w) if b is None else b), dint(c.n), oct(num(le, c.compress(c.G), w) if bp is None else bp))
def params_der(le, c, sb=None, explicit=False):
    i = next((i for i, k in enumerate(NAMED) if k is c), None)
    cv = custom_der(le, c) if i is None or explicit else oid(OID_LE + bytes([2, i]))
    return seq(cv, oct(sb) if sb is not None else b'')
def alg_der(le, c, sb=None, explicit=False):
    return seq(oid(OID_LE if le else OID_BE), params_der(le, c, sb, explicit))
def priv_der(le, c, d, sb=None, explicit=False):
    return seq(dint(0), alg_der(le, c, sb, explicit), oct(d.to_bytes((d.bit_length() + 7) // 8, 'little')))
def pub_der(le, c, Q, sb=None, explicit=False):
    return seq(alg_der(le, c, sb, explicit), bits(oct(num(le, c.compress(Q), c.fb))))
def sig_der(le, c, r, s, raw=False, w=None):
    w = w or c.nb
    b = s.to_bytes(w, 'big') + r.to_bytes(w, 'big')
    if le: b = b[::-1]
    return b if raw else oct(b)

KIND = {'pub': 'u', 'priv': 'r', 'par': 'm', 'auto': 'a'}
class KeyPlan:
    """a session with keys"""
    def __init__(self, c, seed=None):
        self.c, self.p, self.n = c, [], 0
        self.raw(('rnd', 'prng', c.rng.randrange(1, 1 << 30) if seed is None else seed))
    def raw(self, cmd):
        self.p.append(({'op': 'nop'}, cmd))
    def load(self, kind, der, le=True, s=0):
        k = 'priv' if kind == 'auto' else kind
        self.p.append(({'op': 'load', 's': s, 'kind': k, 'der': der, 'le': int(le)}, ('k_load', s, KIND[kind], 'le' if le else 'be', der)))
        return s
    def free(self, s=0):
        self.p.append(({'op': 'free', 's': s}, ('k_free', s)))
    def cmp(self, s, t): self.p.append(({'op': 'cmp', 's': s, 't': t}, ('k_cmp', s, t)))
    def pcmp(self, s, t): self.p.append(({'op': 'pcmp', 's': s, 't': t}, ('k_pcmp', s, t)))
    def sign(self, s, h, buf=-2): self.p.append(({'op': 'sign', 's': s, 'hash': h, 'buf': buf}, ('sign', s, h, buf)))
    def verify(self, s, h, sig): self.p.append(({'op': 'verify', 's': s, 'hash': h, 'sig': sig}, ('verify', s, h, sig)))
    def dsign(self, s, m): self.p.append(({'op': 'dsign', 's': s, 'msg': m}, ('dsign', s, m, self.c.rng.randrange(len(m) + 1))))
    def dverify(self, s, m, sig): self.p.append(({'op': 'dverify', 's': s, 'msg': m, 'sig': sig}, ('dverify', s, m, self.c.rng.randrange(len(m) + 1), sig)))
    def back(self, s, h, m=None):
        """show the signature just made to the verifier with key s"""
        def f(out):
            r = out[-1]['res']
            if 'out' not in r: return None
            if m is not None:
                return {'op': 'dverify', 's': s, 'msg': m, 'sig': r['out']}, ('dverify', s, m, len(m) // 3, r['out'])
            return {'op': 'verify', 's': s, 'hash': h, 'sig': r['out']}, ('verify', s, h, r['out'])
        self.p.append(f)
    def show(self, s): self.p.append(({'op': 'show', 's': s}, ('k_show', s)))
    def copyp(self, s, t): self.p.append(({'op': 'copyp', 's': s, 't': t}, ('k_copyp', s, t)))
    def text(self, s, what, indent=0):
        self.p.append(({'op': 'text', 's': s, 'what': what}, lambda d: read_text(d('k_text', s, {'par': 'a', 'pub': 'u', 'priv': 'r'}[what], indent), indent)))
    def cut(self, s, what, limit):
        """printed to an output that takes no more than limit octets"""
        self.p.append(({'op': 'cut', 's': s, 'what': what}, ('k_text', s, {'par': 'a', 'pub': 'u', 'priv': 'r'}[what], 0, limit)))
    def end(self): return self.p

def read_text(r, indent):
    """split a printed key into [name, octets] (numbers big-endian)"""
    if 'out' not in r: return r
    out, cur = [], None
    for l in r.pop('out').decode('latin1').split('\n'):
        l = l[indent:] if not l[:indent].strip() else l
        m = re.match(r'(\S[^:]*):\s*(.*)$', l)
        if m and l[0] != ' ':
            cur = [m.group(1).split(' (')[0].split(' ')[0] if m.group(1).startswith('Generator') else m.group(1), b'']
            v = re.search(r'\(0x([0-9a-fA-F]+)\)', m.group(2))
            if v: cur[1] = bytes.fromhex(('0' + v.group(1))[len(v.group(1)) % 2 == 0:])
            elif m.group(2).strip() not in ('', '0'): cur[0] = '-' + cur[0]       # words
            out.append(cur)
        elif cur and re.fullmatch(r'\s+([0-9a-fA-F]{2}:?)+', l): cur[1] += bytes.fromhex(l.strip().replace(':', ''))
        elif l.strip(): out.append(['?', l.encode()])
    r['text'] = out
    return r

def run_sessions(c, plans, label, variant='plain', mod='TraceKeys', parallel=4, args=()):
    """execute, then validate in a few parallel TLC runs"""
    from concurrent.futures import ThreadPoolExecutor
    import itertools
    with ThreadPoolExecutor(8) as ex:
        traces = list(ex.map(lambda p: session(p, variant, args), plans))
    groups = [list(range(i, len(plans), parallel)) for i in range(parallel)]
    groups = [g for g in groups if g]
    def one(g):
        sub = [traces[i] for i in g]
        return c.validate(mod, sub, redo=lambda n: session(plans[g[n]], variant, args), label=label)
    with ThreadPoolExecutor(len(groups) or 1) as ex:
        for f in [ex.submit(one, g) for g in groups]:
            f.result()
    return traces
