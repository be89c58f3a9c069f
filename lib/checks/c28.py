"""C28: running out of memory."""
from concurrent.futures import ThreadPoolExecutor
import hashlib, random
from .. import tlc
from ..drv import Drv
from ..keys import *
from ..stores import *

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ model of operations as sequences of acquisitions any of which may be refused, asked again and used afterwards (TLC exhaustive over all programs and refusals; five kinds of mistake violate it); every operation of engine and key library replayed with each of its allocations refused in turn, alone and with all that follow, the outcomes judged by the specification'
NOTE = 'MemSpec.tla: refused means nothing is held and the source is as it was; done means the whole product and nothing else. The driver interposes malloc and refuses the chosen requests among those made by, or on behalf of, the engine and the key library (found on the call stack). For every operation the number of the first refused request runs over all of its requests (operations with thousands of them: over the first, the last and a sample), one refusal or all from there on. No attempt may crash; one that does its job gives what it gives with ample memory; one that refuses gives that when asked again; objects it only reads stay as they were; no allocation is left.'
ASSUMPTIONS = ['TLC is trusted', 'allocations libcrypto makes outside of calls of or into engine and key library are not refused',
               'an answer "different" or "not valid" from comparing and verifying counts as a refusal',
               'a second key carried in the attributes of a first one may be left out when memory is short']

def dig(r, skip=('hit', 'ok', 'r', 'stderr', 'ptr', 'nk', 'same')):
    return hashlib.sha1(repr(sorted((k, bytes(v) if isinstance(v, (list, bytes, bytearray)) else v) for k, v in r.items() if k not in skip)).encode()).hexdigest()[:12]

class Item:
    """pre: commands before; op; use: commands showing the product and what was read; clean: commands giving all back;
    seen: the result of op is judged itself (else only what use shows); norm: commands bringing an encoding to its usual form"""
    def __init__(self, name, pre, op, use, clean, soft=0, seen=1, norm=None, slow=False, one=0):
        self.name, self.pre, self.op, self.use, self.clean, self.soft, self.seen, self.norm, self.slow, self.one = name, pre, op, use, clean, soft, seen, norm, slow, one

def items(c):
    R = []
    h = c.rb(32)
    def add(*a, **k): R.append(Item(*a, **k))
    cvs = [NAMED[0], TINYC[2]] if c.quick else [NAMED[0], NAMED[6], NAMED[9], TINYC[2], TINYC[4]]
    for cv in cvs:
        for le in (True, False):
            sb = c.rb(64); d = c.rng.randrange(2, cv.n); Q = cv.neg(cv.mul(d, cv.G))
            al = 'le' if le else 'be'; nm = ' %s%d' % (al, cv.m)
            pub, priv, par = pub_der(le, cv, Q, sb, True), priv_der(le, cv, d, sb, True), params_der(le, cv, sb, True)
            K = [('k_priv', 0, priv)]; F = [('k_free', 0)]
            show = [('k_privder', 0), ('k_pubder', 0), ('k_paramder', 0)]
            for kind, der in (('r', priv), ('a', priv), ('u', pub), ('m', par), ('r', priv_der(le, cv, d))):
                add('load ' + kind + nm, [], {'r': ('k_priv', 0, der), 'a': ('k_auto', 0, der), 'u': ('k_pub', 0, der), 'm': ('k_params', 0, al, der)}[kind], [('k_pubder', 0)] if kind != 'm' else [('k_paramder', 0)], F)
            for op in show + [('sign', 0, h, -2), ('k_text', 0, 'r', 0), ('k_text', 0, 'u', 0), ('k_text', 0, 'a', 0), ('dsign', 0, b'abc', 1), ('p8enc', 0, b'pw', 3, b'salt1234'), ('req_make', 0, b'me', 'm')]:
                if op[0] in ('p8enc', 'req_make') and cv.m > 160: continue      # (an encoding with the curve spelled out is as good)
                back = {'k_privder': ('k_priv',), 'k_pubder': ('k_pub',), 'k_paramder': ('k_params', al)}.get(op[0])
                add(op[0] + (op[2] if op[0] == 'k_text' else '') + nm, K, op, show, F, norm=back and [back[:1] + (5,) + back[1:], op[:1] + (5,), ('k_free', 5)])
            with Drv() as dv:
                dv(*K[0]); dv('rnd', 'prng', 5); s = dv('sign', 0, h, -2)['out']; s2 = dv('dsign', 0, b'abc', 1)['out']
            add('verify' + nm, K, ('verify', 0, h, s), show, F); add('dverify' + nm, K, ('dverify', 0, b'abc', 1, s2), show, F)
            add('compare' + nm, K + [('k_pub', 1, pub)], ('k_cmp', 0, 1), show, F + [('k_free', 1)])
            P = [('pc_free', 0)]
            grp = ('pc_curve', 0) + tuple(v.to_bytes(60, 'big') for v in (cv.p, cv.a, cv.b, cv.n, cv.G[0], cv.G[1]))
            gen = [('rnd', 'prng', 6), ('pc_keygen', 0, 0), ('k_privder', 0), ('k_pubder', 0), ('k_free', 0)]
            N = [('pc_new', 0, al)]; I = N + [('pc_kginit', 0)]
            add('new context' + nm, [], N[0], [], P)
            add('start generating' + nm, N, ('pc_kginit', 0), [grp] + gen, P)
            add('curve by name' + nm, I, ('pc_str', 0, 'curve', b'uacurve0'), gen, P)
            add('curve' + nm, I, grp, gen, P)
            add('table' + nm, I + [grp], ('pc_str', 0, 'sbox', sb.hex().encode()), gen, P)
            add('generate' + nm, I + [grp], ('pc_keygen', 0, 0), show, F + P, seen=0)
            add('copy context' + nm, N, ('pc_dup', 1, 0), [], P + [('pc_free', 1)])
    key, iv, sb = c.rb(32), c.rb(8), c.rb(64)
    for v in (1, 0):
        C = [('ci_new', 0), ('ci_init', 0, 1, v, key, iv)]; more = [('ci_upd', 0, b'abcabcabcabc', 0, 0, 0)]; F = [('ci_free', 0)]
        add('cipher', C[:1], C[1], more, F)
        add('cipher parameters out', C, ('ci_getp', 0), more, F)
        add('cipher parameters in', C, ('ci_setp', 0, seq(oct(c.rb(8)), oct(sb))), more, F)
        add('cipher copy', C + more + [('ci_new', 1)], ('ci_copy', 1, 0), [('ci_upd', 1, b'xyz', 0, 0, 0)] + more, F + [('ci_free', 1)])
    add('digest', [('md_new', 0)], ('md_init', 0), [('md_upd', 0, b'abc'), ('md_fin', 0)], [('md_free', 0)])
    add('digest copy', [('md_new', 0), ('md_init', 0), ('md_upd', 0, b'abc'), ('md_new', 1)], ('md_copy', 1, 0), [('md_fin', 1), ('md_fin', 0)], [('md_free', 0), ('md_free', 1)])
    add('mac', [('hm_new', 0)], ('hm_init', 0, b'key'), [('hm_upd', 0, b'abc'), ('hm_fin', 0)], [('hm_free', 0)])
    add('key from password', [], ('pbkdf2', b'pw', b'salt', 3, 40), [], [])
    add('message', [], ('cms_enc', b'xyz', key), [], [])
    # containers
    cvs = TINYC[2:5]
    def p(at=None, cv=None): cv = cv or c.rng.choice(cvs); return p8(c.rng.random() < .5, cv, c.rng.randrange(2, cv.n), c.rb(64), True, at)
    def sec(): cv = c.rng.choice(cvs); return second(c, cv, c.rng.randrange(2, cv.n))
    X = [cert(c) for _ in range(6)]
    pad = lambda x: x + b'\0' * (-len(x) % 8)
    k6 = made([dict(op='key6', pw=b'pw', plain=[pad(p()), pad(p(sec(), NAMED[0]))], rounds=10000)])[0]
    alg, e = made([dict(op='pbe', pw=b'pw', plain=p(), salt=c.rb(8), iter=2, iv=c.rb(8), sb=c.rb(64))])[0]
    je = lambda at=None, l=(): jkey(b'a', epki('ключ'.encode(), c.rb(20), p(at)), l)
    S = [('jks', jks([je(None, X[:2]), jtrust(b't', X[2])], 'сховище'.encode()), 'сховище'.encode(), 'ключ'.encode(), 1, 3, 0),
         ('jks', jks([je(sec(), X[:1]), je()], b's'), b's', 'ключ'.encode(), 3, 1, 2),
         ('p12', p12([safe_data(bag(1, p()), bcert(X[3]), bag(2, seq(alg, oct(e)))), safe_data(bag(6, seq(bag(1, p()), bcert(X[4]))))], b'pw'), b'pw', b'', 3, 2, 0),
         ('key6', key6_wrap(c, k6[0]), b'pw', b'', 1, 0, 0), ('key6', key6_wrap(c, k6[1][:-8], k6[1][-8:]), b'pw', b'', 2, 0, 2)]
    for j, (t, x, p1, p2, nk, nc, sc) in enumerate(S):
        for how in ('m', 'b', 'f') if not c.quick else ('m', 'bf'[j % 2]):
            add('container %s %d %s' % (t, j, how), [], ('ks', t, how, 0, x, p1, p2), [('ks_key', 0, i) for i in range(nk)] + [('ks_cert', 0, i) for i in range(nc)], [('ks_free', 0)], soft=sc, slow=t == 'key6', one=int(how != 'm'))
    return R

def done(it, r):
    v = r.get('ok', r.get('r', 0))
    return 1 if v not in (0, -1, -2) else 0

class Crash(Exception): pass
def attempt(d, it, at, n, dirty=True):
    """one round; -> (result, result of asking again, results of using, live)"""
    def do(*x):
        r = d(*x)
        if 'crash' in r: raise Crash(r)
        return r
    for x in it.pre: do(*x)
    do('rnd', 'prng', 5)
    r = do('flt', at, n, *it.op) if n else do(*it.op)
    ok = done(it, r); again = r
    if not ok:
        do('rnd', 'prng', 5); again = do(*it.op)
    if it.norm:
        # an encoding may spell out a curve it could name: read it, and write it again
        l, s, f = it.norm; x = again
        if do(*l, x.get('out', b''))['ok'] == 1: again = do(*s); do(*f)
        if ok: r = dict(again, **{k: r[k] for k in ('hit',) if k in r})
    if not it.seen: again = {'ok': again.get('ok')}; r = {k: r[k] for k in ('ok', 'hit') if k in r}
    use = [do(*x) for x in it.use]
    for x in it.clean: do(*x)
    return r, ok, again, use, do('live')['live']

def using(use): return dig({str(i): (x.get('ok', 0), dig(x)) for i, x in enumerate(use)})

def sweep(it, ks, n, variant='plain'):
    """a session: the operation with ample memory, then with request k (and the n-1 after it) refused, for each k"""
    out = []
    with Drv(args=('-m',) if variant != 'plain' else (), variant=variant) as d:
        at = 0
        try:
            for _ in range(3): r, ok, _, use, live = attempt(d, it, 0, 0)
            # a shortage at the very start and half way fills what only failures need
            reqs, sites = requests(d, it); total = len(reqs); reqs.append((reqs or [0])[-1] + 1)
            for k in (0, total // 2): attempt(d, it, reqs[k], 1)
            live = attempt(d, it, 0, 0)[4]
            uses = [using(use)]
            if it.soft:
                # without the second key: its place is empty, or taken by the keys that follow
                i = it.soft - 1; nk = sum(1 for x in it.use if x[0] == 'ks_key')
                k, cs = use[:nk], use[nk:]
                for j in range(nk):
                    if j != 1: continue
                    uses.append(using(k[:j] + k[j + 1:] + [{'ok': 0}] + cs))
            out.append({'op': 'plain', 'item': it.name, 'res': {'ok': ok, 'outs': [dig(r)], 'uses': uses, 'live': live, 'allocs': total, 'kinds': len(sites)}})
            base = live
            for k in ks(total, sites):
                at = k
                r, ok, ag, use, live = attempt(d, it, reqs[k], n)
                lives = [live]
                if live != base:
                    lives.append(attempt(d, it, reqs[k], n)[4])
                    if lives[1] != lives[0]: lives.append(attempt(d, it, reqs[k], n)[4])
                base = lives[-1]
                out.append({'op': 'try', 'item': it.name, 'at': k, 'n': n, 'res': {'hit': r['hit'], 'ok': ok, 'out': dig(r) if ok else '', 'again': '' if ok else dig(ag), 'use': using(use), 'lives': lives}})
        except Crash as e:
            out.append({'op': 'try', 'item': it.name, 'at': at, 'n': n, 'res': {'crash': str(e.args[0]['crash'])}})
    return out
def requests(d, it):
    """the requests (numbers among all allocations), and which of them are the first two of each kind (chain of callers)"""
    for x in it.pre: d(*x)
    d('rnd', 'prng', 5); r = d('flt', 1 << 40, 1, *it.op)
    if 'crash' in r: raise Crash(r)
    for x in it.clean: d(*x)
    return [[int.from_bytes(r[f][i:i + 4], 'little') for i in range(0, len(r.get(f, b'')), 4)] for f in ('reqs', 'sites')]

def run(c):
    c.model('MCMem', None if c.quick else 'MCMemBig.cfg', workers=8)
    for bug, what in (('early', 'Nothing'), ('partial', 'Whole'), ('blind', 'NoCrash'), ('forget', 'Nothing')):
        rc, o = tlc.run('MCMem', 'MCMemBad_%s.cfg' % bug, ['-workers', '4'])
        if 'Invariant %s is violated' % what not in o: raise tlc.TlcError('the model does not notice the mistake "%s"' % bug)
    its = items(c); plans = []
    full, some = c.pick((120, 25), (3000, 500))
    for it in its:
        for n in (1, 1 << 30)[it.one:]:
            seed = c.rng.randrange(1 << 30)
            def ks(total, sites, seed=seed, slow=it.slow):
                R = random.Random(seed)
                if slow: return sorted(set(range(20)) | set(R.sample(sites, min(c.pick(50, 300), len(sites)))) | set(range(total - 60, total + 1)))
                if total <= full: return list(range(total + 1))
                return sorted(set(sites) | set(range(20)) | set(range(total - 10, total + 1)) | set(R.sample(range(total), some)))
            plans.append((it, ks, n))
    with ThreadPoolExecutor(8) as ex: traces = list(ex.map(lambda p: sweep(*p), plans))
    c.validate('TraceMem', traces, redo=lambda n: sweep(*plans[n]), label='memory')
    # the same, memory checked
    checked = [(it, (lambda total, sites, it=it, seed=c.rng.randrange(1 << 30): sorted(set(random.Random(seed).sample(sites, min(len(sites), c.pick(8 if it.slow else 60, 200)))) | set(range(total - 12, total + 1)) & set(range(total + 1)))), n, 'asan') for j, it in enumerate(its) for n in ((1, 1 << 30) if not c.quick else (1,) if j % 2 else (1 << 30,))]
    with ThreadPoolExecutor(8) as ex: more = list(ex.map(lambda p: sweep(*p), checked))
    c.validate('TraceMem', more, redo=lambda n: sweep(*checked[n]), label='memory, checked')
    traces += more
    t = sum(len(x) - 1 for x in traces)
    c.sample('%d operations, %d attempts with memory refused; requests per operation from %d to %d' % (len(its), t, min(x[0]['res'].get('allocs', 0) for x in traces), max(x[0]['res'].get('allocs', 0) for x in traces)))
