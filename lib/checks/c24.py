"""C24: sessions at the same time."""
from concurrent.futures import ThreadPoolExecutor
import re
from .. import build, ciphers, digests, tlc
from ..drv import Drv
from ..keys import *
from ..threads import alone, together
from ..stores import StorePlan, p8, jks, jkey, jtrust, epki, cert, p12, safe_data, bag, bcert, key6_wrap, made, second
from ..msgs import hmac_plan
from .c08 import GenPlan
from .c10 import hurt

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ model of threads whose operations are not atomic (TLC exhaustive over all programs and interleavings: each gives what it gives alone; with a scratch variable in common it does not); mixes of sessions run together in threads, each judged by its own specification; the same under the thread sanitizer, where an access in conflict is a step the model does not have'
NOTE = 'ThreadSpec.tla: operations of several steps on own objects, the generator under its lock, shared read-only keys, tables filled at first use. Eight sessions at a time (digests, ciphers, HMAC, signing and verifying on tiny and named curves, with one public key in common, key generation, decoding of good and malformed keys, containers) start at a barrier in a fresh process, the first use of the algorithms included; every recorded result is judged by the specification of its family, as if the session had run alone. Under the thread sanitizer no two threads may touch the same memory of engine or key library unordered.'
ASSUMPTIONS = ['TLC and the Java evaluation of the octet-level operators (compared with their TLA+ definitions by SelfTest) are trusted',
               'interleavings of the implementation are those the scheduler gives; unordered accesses are found by the thread sanitizer whatever the schedule',
               'libcrypto is not instrumented: accesses reported inside of it are not counted']

class Pub:
    """a public key all threads verify with"""
    def __init__(self, c, cv, le):
        self.cv, self.le, self.d = cv, le, c.rng.randrange(1, cv.n)
        self.Q = cv.neg(cv.mul(self.d, cv.G)); self.der = pub_der(le, cv, self.Q, c.rb(64)); self.priv = None

def digest_plan(c, beh): 
    out = []
    for b in beh: out += digests.plan_from(b, c.rng)
    return out
def cipher_plan(c, beh):
    out = []
    for b in beh: out += ciphers.plan_from(b, c.rng)
    return out
def hmac_many(c, beh):
    out = []
    for b in beh:
        out += hmac_plan(b, c.rng); live = set()
        for e in b: (live.discard if e['op'] == 'hm_free' else live.add)(e['s'])
        out += [({'op': 'hm_free', 's': s}, ('hm_free', s)) for s in sorted(live)]
    return out

def key_plan(c, cvs, n, pub=None, res=None):
    """signing, verifying, comparing, decoding"""
    P = KeyPlan(c)
    if pub is not None:
        P.p.append(({'op': 'load', 's': 9, 'kind': 'pub', 'der': pub.der, 'le': int(pub.le)}, lambda d: dict(res) if d('k_take', 9, 0).get('ok') == 1 else {'crash': 'shared key'}))
        P.load('priv', priv_der(pub.le, pub.cv, pub.d, None), s=8)
    for _ in range(n):
        cv, le = c.rng.choice(cvs), c.rng.random() < .5
        d = c.rng.randrange(1, cv.n); Q = cv.neg(cv.mul(d, cv.G)); sb = c.rng.choice([None, c.rb(64)])
        h = c.rb(32); m = c.rb(c.rng.randrange(0, 80))
        P.load('priv', priv_der(le, cv, d, sb), s=0); P.load('pub', pub_der(le, cv, Q, sb), s=1)
        P.cmp(0, 1)
        P.sign(0, h); P.back(1, h); P.dsign(0, m); P.back(1, h, m)
        P.verify(1, h, c.rb(c.rng.choice([0, 1, 2 * cv.nb + 2])))
        P.verify(1, c.rb(32), sig_der(le, cv, c.rng.randrange(1, cv.n), c.rng.randrange(1, cv.n)))
        if pub is not None:
            P.sign(8, h); P.back(9, h); P.verify(9, c.rb(32), sig_der(pub.le, pub.cv, 5, 7))
        for kind, x in (('pub', pub_der(le, cv, Q, sb)), ('priv', priv_der(le, cv, d, sb)), ('par', params_der(le, cv, sb))):
            for y in hurt(c, x, 2): P.load(kind, y, le, s=2); P.free(2)
        P.free(0); P.free(1)
    if pub is not None: P.free(9); P.free(8)
    return P.end()

def gen_plan(c, cvs, n):
    P = GenPlan(c)
    for _ in range(n):
        P.new(0, c.rng.random() < .5); P.init(0)
        k = c.rng.randrange(4)
        if k == 0: P.cstr(0, b'uacurve%d' % c.rng.choice([0, 1, 6]))
        elif k == 1: P.grp(0, c.rng.choice(cvs))
        elif k == 2: P.grp(0, c.rng.choice(cvs)); P.sbox(0, c.rb(64))
        P.gen(0, back=False); P.gfree(0)
    return P.end()

def store_plan(c, cvs, n):
    P = StorePlan(c)
    key = lambda at=None: (lambda cv: p8(c.rng.random() < .5, cv, c.rng.randrange(1, cv.n), c.rng.choice([None, c.rb(64)]), True, at))(c.rng.choice(cvs))
    C = [cert(c) for _ in range(4)]; P.good = C
    def sec(): cv = c.rng.choice(cvs); return second(c, cv, c.rng.randrange(1, cv.n))
    k6 = key(); k6 += b'\0' * (-len(k6) % 8)
    enc = made([dict(op='key6', pw=b'pw', plain=[k6], rounds=10000)])[0]
    for i in range(n):
        pw = b'pw%d' % i
        x = jks([jkey(b'a', epki(pw, c.rb(20), key(sec() if i % 2 else None)), C[:2]), jtrust(b't', C[2])], b's')
        P.read('jks', x, b's', pw); P.read('jks', x, b's', b'other'); P.read('jks', x, b'x', pw)
        y = bytearray(x); y[c.rng.randrange(len(y))] ^= 4; P.read('jks', bytes(y), b's', pw)
        z = p12([safe_data(bag(1, key()), bcert(C[3]), bag(1, key()))], pw); P.read('p12', z, pw); P.read('p12', z, b'q')
        if i % 4 == 0: P.read('key6', key6_wrap(c, enc[0]), b'pw', b''); 
    return P.end()

def mixes(c):
    """(name, pre, sessions with their trace specification)"""
    cvs = TINYC[2:5] + [NAMED[0]]; big = [NAMED[0], NAMED[6]]; q = c.quick
    N = lambda a, b: c.pick(a, b)
    dig = tlc.simulate('GenDigest', 'GenDigest.cfg', N(40, 400), 60, c.seed + 2400)
    cip = tlc.simulate('GenCipher', 'GenCipher.cfg', N(40, 400), 60, c.seed + 2410)
    hm = tlc.simulate('GenHmac', 'GenHmac.cfg', N(20, 200), 60, c.seed + 2420)
    def part(l, i, n): return l[i::n]
    pub = Pub(c, NAMED[6], True)
    D = lambda i: ('TraceDigest', digest_plan(c, part(dig, i, 8)))
    C = lambda i: ('TraceCipher', cipher_plan(c, part(cip, i, 8)))
    H = lambda i: ('TraceMsg', hmac_many(c, part(hm, i, 4)))
    K = lambda l, n: (lambda pub, res: ('TraceKeys', key_plan(c, l, n, pub, res)))
    G = lambda n: ('TraceKeys', gen_plan(c, cvs, n))
    S = lambda n: ('TraceStore', store_plan(c, TINYC[2:5], n))
    out = [('digests', [D(i) for i in range(8)]),
           ('ciphers', [C(i) for i in range(8)]),
           ('keys', [K(cvs, N(6, 40)) for i in range(6)] + [G(N(6, 40)), G(N(6, 40))]),
           ('keys, named curves', [K(big, N(2, 12)) for i in range(8)]),
           ('containers', [S(N(3, 20)) for i in range(8)]),
           ('all kinds', [D(0), C(1), H(0), K(cvs, N(5, 40)), K(cvs, N(5, 40)), G(N(5, 30)), S(N(2, 12)), K(big, N(2, 10))]),
           ('all kinds', [D(2), D(3), C(3), H(1), K(cvs, N(5, 40)), G(N(5, 30)), S(N(2, 12)), S(N(2, 12))])]
    return out, pub

def races(text):
    """data races in which both accesses are the repository's own"""
    out = set()
    for rep in text.split('WARNING: ThreadSanitizer: ')[1:]:
        if not rep.startswith('data race'): continue
        rep = rep.split('==================')[0]
        tops = []
        for part in re.split(r'\n(?=  (?:Write|Read|Previous|Atomic|As if))', rep):
            if not re.match(r'\s*(Write|Read|Previous|Atomic)', part): continue
            fr = re.findall(r'#\d+ (\S+) [^\n]*?\(([\w.+-]+)\+0x', part)
            fr = [(f, lib) for f, lib in fr]
            while fr and (fr[0][1].startswith(('libtsan', 'libc.so', 'libc-')) or fr[0][1] == 'drv' and fr[0][0] in ('malloc', 'calloc', 'realloc', 'free', 'memcpy', 'memset', 'memmove')): fr.pop(0)
            if fr: tops.append(fr[0])
        own = [t for t in tops if t[1].startswith(('dstu.so', 'libkeylib'))]
        if len(own) >= 2: out.add(tuple(sorted(t[0] for t in own[:2])))
    return sorted(out)

def run(c):
    c.model('MCThread', None if c.quick else 'MCThreadBig.cfg', workers=8)
    c.model('MCThread', 'MCThreadLive.cfg', workers=8)
    rc, o = tlc.run('MCThread', 'MCThreadBad.cfg', ['-workers', '8'])
    if 'Invariant AsAlone is violated' not in o: raise tlc.TlcError('a scratch variable in common went unnoticed by the model')
    mx, pub = mixes(c)
    # the shared key: loaded by the main thread, recorded as every thread's load
    with Drv() as d: shown = d('k_load', 0, 'u', 'le' if pub.le else 'be', pub.der)
    pre0 = [('k_load', 0, 'u', 'le' if pub.le else 'be', pub.der), ('k_share', 0)]
    names, fixed, mods = [], [], []
    def prep(m):
        name, l = m
        l = [x(pub, shown) if callable(x) else x for x in l]
        def solo(p):
            # alone, the shared key is an own one
            q = [(e, (lambda d, e=e: d('k_load', 9, 'u', 'le' if pub.le else 'be', pub.der))) if isinstance(e, dict) and e.get('s') == 9 and e['op'] == 'load' else (e, x) for e, x in [i if isinstance(i, tuple) else (i, None) for i in p]]
            return alone([e if x is None else (e, x) for e, x in q])
        with ThreadPoolExecutor(8) as ex: f = list(ex.map(lambda x: solo(x[1]), l))
        # in the threads it is taken
        g = []
        for p in f:
            r = []
            for e, cmd, cmds in p:
                if e.get('s') == 9 and e['op'] == 'load': r.append((e, (lambda d: dict(shown) if d('k_take', 9, 0).get('ok') == 1 else {'crash': 'shared key'}), [('k_take', 9, 0)]))
                else: r.append((e, cmd, cmds))
            g.append(r)
        return name, g, [x[0] for x in l]
    runs = []
    for name, f, md in map(prep, mx):
        for k in range(c.pick(3, 12)):
            pre = pre0 + [[('rnd', 'prng', c.rng.randrange(1 << 30))], [('rnd', 'engine')], []][k % 3]
            runs.append((name, f, md, pre))
    with ThreadPoolExecutor(2) as ex: got = list(ex.map(lambda r: together(r[1], r[3]), runs))
    # each thread's session, judged by itself
    by = {}
    for n, (evs, err) in enumerate(got):
        for t, e in enumerate(evs): by.setdefault(runs[n][2][t], []).append((n, t, e))
    jobs = []
    for mod, l in sorted(by.items()):
        seen, keep = set(), []
        for n, t, e in l:
            s = repr([(x['op'], x.get('data'), x['res']) for x in e])
            if s not in seen: seen.add(s); keep.append((n, t, e))
        c.count('sessions_together', len(l)); c.count('distinct_outcomes', len(keep))
        for i in range(c.pick(4, 8)):
            if keep[i::c.pick(4, 8)]: jobs.append((mod, keep[i::c.pick(4, 8)]))
    def judge(j):
        mod, l = j
        def redo(i):
            """the same mix again and again; what this thread gave each time"""
            n, t, e = l[i]; out = []
            for k in range(40):
                out += [{'op': 'begin'}] + together(runs[n][1], runs[n][3])[0][t]
            return out
        c.validate(mod, [e for _, _, e in l], redo=redo, label='together')
    with ThreadPoolExecutor(c.pick(6, 4)) as ex:
        for f in [ex.submit(judge, j) for j in jobs]: f.result()
    # the accesses themselves
    try: 
        with Drv('tsan') as d: ok = 'ok' in d('md_info') or True
    except build.BuildError as e:
        c.extra['thread_sanitizer'] = 'not usable here: ' + str(e)[-200:]; ok = False
    if ok:
        seen = {}
        trs = [(n, r) for n, r in enumerate(runs) if n % c.pick(3, 12) < c.pick(2, 3)]
        with ThreadPoolExecutor(3) as ex: res = list(ex.map(lambda x: together(x[1][1], x[1][3], 'tsan', alarm=600), trs))
        evs = []
        for (n, r), (ev, err) in zip(trs, res):
            evs.append({'op': 'race', 'mix': r[0], 'res': {'conflicts': [' / '.join(x) for x in races(err)], **({'crash': 'crash'} if any('crash' in e['res'] for t in ev for e in t) else {})}})
        def again(i):
            ev, err = together(trs[i][1][1], trs[i][1][3], 'tsan', alarm=600)
            return [{'op': 'race', 'mix': trs[i][1][0], 'res': {'conflicts': [' / '.join(x) for x in races(err)], **({'crash': 'crash'} if any('crash' in e['res'] for t in ev for e in t) else {})}}]
        c.validate('TraceRace', [[e] for e in evs], redo=again, label='accesses')
        c.extra['mixes_under_thread_sanitizer'] = len(evs)
    c.sample({'mixes': [m[0] for m in mx], 'threads': 8, 'runs': len(runs)})
