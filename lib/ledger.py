"""Rounds of operations, repeated in one process, with the number of live
allocations recorded after each round."""
from .stores import *
from .frame import session

class Pool:
    """inputs, chosen by number: even numbers are meant to be taken, odd ones refused"""
    def __init__(self, c):
        from .checks.c18 import containers
        from .checks.c10 import customs, params, hurt
        self.c = c
        R = c.rng
        cvs = [NAMED[0], NAMED[6], TINYC[1], TINYC[2], TINYC[3], TINYC[4]]
        self.keys = []; self.bad = []
        for n in range(24):
            cv = R.choice(cvs); le = R.random() < .5; d = R.randrange(1, cv.n); sb = R.choice([None, c.rb(64), DEF]); ex = R.random() < .5
            self.keys.append(R.choice([('r', priv_der(le, cv, d, sb, ex)), ('a', priv_der(le, cv, d, sb, ex)), ('u', pub_der(le, cv, cv.neg(cv.mul(d, cv.G)), sb, ex)), ('m', params_der(le, cv, sb, ex))]) + (le,))
        for cv in (TINYC[2], NAMED[6]):
            for le in (True, False):
                al = lambda p: seq(oid(OID_LE if le else OID_BE), p)
                ps = list(params(c, cv, le)) + [seq(x) for x in customs(c, cv, le)]
                for p in ps:
                    k = R.choice('rum')
                    d = R.randrange(1, cv.n)
                    self.bad.append((k, p if k == 'm' else seq(al(p), bits(oct(num(le, cv.compress(cv.mul(d, cv.G)), cv.fb)))) if k == 'u' else seq(dint(0), al(p), oct(num(True, d, cv.nb))), le))
                for v in (0, cv.n, cv.n + 1, 1 << 300): self.bad.append(('r', seq(dint(0), al(params_der(le, cv)), oct(v.to_bytes(40, 'little'))), le))
                for x in (0, 1, cv.compress(cv.G) ^ 1, cv.compress(cv.G) ^ 2, (1 << cv.m) - 1): self.bad.append(('u', seq(al(params_der(le, cv)), bits(oct(num(le, x, cv.fb)))), le))
                good = [('r', priv_der(le, cv, R.randrange(1, cv.n), c.rb(64), True)), ('u', pub_der(le, cv, cv.G, c.rb(64), True)), ('m', params_der(le, cv, c.rb(64), True))]
                for k, x in good:
                    for y in hurt(c, x, 25): self.bad.append((k, y, le))
        self.st, _ = containers(c)
        self.st = list(self.st.values())
        self.hurt = lambda x, n: hurt(c, x, n)
        self.badst = []
        for k, x, p1, p2 in self.st:
            for y in hurt(c, x, 12): self.badst.append((k, y, p1, p2))
            self.badst += [(k, x, p1 + b'x', p2), (k, x, p1, p2 + b'x'), (k, x[:len(x) // 2], p1, p2), (k, x, b'\xff', p2), (k, b'', p1, p2), ('jks' if k == 'p12' else 'p12', x, p1, p2)]
            # sealed again after the damage
            if k == 'jks':
                for y in hurt(c, x[:-20], 25): self.badst.append((k, jseal(y, p1), p1, p2))
            if k == 'p12':
                i = x.index(P7 + b'\1'); body = None
        for body in (seq(safe_data(bag(1, priv_der(True, TINYC[2], 5)), bcert(cert(c))), safe_data(bag(6, seq(bag(1, priv_der(False, TINYC[3], 7))))),),):
            for y in hurt(c, body, 40): self.badst.append(('p12', p12(None, b'pw', body=y), b'pw', b''))
        self.ivs = [c.rb(8) for _ in range(3)]
        self.sb = [c.rb(64) for _ in range(3)]
        self.par = [seq(oct(v), oct(s)) for v in self.ivs for s in self.sb]
        self.badpar = [seq(oct(c.rb(7)), oct(self.sb[0])), seq(oct(c.rb(8)), oct(c.rb(63))), seq(oct(c.rb(8))), tlv(5), oct(c.rb(8)), seq(), seq(dint(1), dint(2)), dint(4)] + list(hurt(c, self.par[0], 20))

class Replay:
    """turns events of GenLedger into driver commands; state follows the recorded answers"""
    def __init__(self, c, pool): self.c, self.p = c, pool
    def plan(self, rounds, behs, warm=2, variant='plain'):
        """each behaviour one round's worth; all of them form the round that is repeated"""
        out = []
        for r in range(rounds):
            live = {}
            out.append(({'op': 'once', 'x': 0, 'y': 0}, lambda d: self.small(d, ('rnd', 'prng', 77))))
            for b in behs:
                for e in b: out.append(self.step(e, live))
                for x in range(1, 120): out.append(self.last(x, live))
            out.append(({'op': 'count', 'warm': warm, 'x': 0, 'y': 0}, ('live',)))
        return out
    def small(self, d, *cmds):
        """run commands; a short result"""
        ok = 1
        for cm in cmds:
            r = d(*cm)
            if 'crash' in r: return r
            ok = r.get('ok', ok)
        return {'ok': 1 if ok else 0}
    def last(self, x, live):
        def f(out):
            if x not in live: return None
            k = live.pop(x)
            return {'op': 'free', 'x': x, 'y': 0, 'kind': k}, lambda d: self.small(d, self.free(k, x))
        return f
    def free(self, k, x): return ({'md': 'md_free', 'ci': 'ci_free', 'pc': 'pc_free', 'key': 'k_free', 'ks': 'ks_free', 'hm': 'hm_free', 'x': 'x_free'}[k], x % 64)
    def step(self, e, live):
        op, x, y, k, a = e['op'], e.get('x', 0), e.get('y', 0), e.get('kind'), e.get('a', 0)
        def f(out):
            if op in ('new', 'from', 'part') and x in live: return None
            if op in ('from', 'part', 'both') and y not in live: return None
            if op in ('use', 'both', 'free') and x not in live: return None
            ev = dict(op=op, x=x, y=y, kind=k, a=a, keep=e.get('keep', 'no'))
            if op == 'free': live.pop(x); return ev, lambda d: self.small(d, self.free(k, x))
            if op in ('use', 'both', 'once'): return ev, lambda d: self.small(d, *(self.use(e) if op == 'use' else self.both(e) if op == 'both' else self.once(e)))
            def go(d):
                r = self.new(d, e)
                if 'crash' in r: return r
                if r['ok']: live[x] = k
                return r
            return ev, go
        return f
    def new(self, d, e):
        k, x, a, p = e['kind'], e['x'], e.get('a', 0), self.p
        if e['op'] == 'from' and k == 'pc':
            r = self.small(d, ('pc_newkey', x, e['y']) if e['of'] == 'key' else ('pc_dup', x, e['y'])); return r
        if e['op'] == 'from':
            if a % 5 == 0: d('rnd', 'fail', a // 5 % 4, -(a % 2))
            r = d('pc_keygen', e['y'], x)
            if 'crash' in r: return r
            d('rnd', 'nofail')
            return {'ok': int(bool(r['ok'] and r['obj']))}
        if e['op'] == 'part': 
            r = d('ks_num', e['y'])
            if 'crash' in r or not r['nk']: return r if 'crash' in r else {'ok': 0}
            return self.small(d, ('ks_refkey', e['y'], a % r['nk'], x))
        if k == 'md': r = self.small(d, ('md_new', x), ('md_init', x)); return dict(r, ok=1) if 'crash' not in r else r
        if k == 'hm': r = self.small(d, ('hm_new', x), ('hm_init', x, b'key')); return dict(r, ok=1) if 'crash' not in r else r
        if k == 'ci': r = self.small(d, ('ci_new', x), ('ci_init', x, 1, a // 2 % 2, bytes(range(32)) if a % 3 else None, p.ivs[0] if a % 7 else None)); return dict(r, ok=1) if 'crash' not in r else r
        if k == 'pc': return self.small(d, ('pc_new', x, 'le' if a % 2 else 'be'))
        if k == 'key':
            t, der, le = p.keys[a // 2 % len(p.keys)] if a % 2 == 0 else p.bad[e['b'] % len(p.bad) if 'b' in e else self.h(e) % len(p.bad)]
            return self.small(d, ('k_load', x, t, 'le' if le else 'be', der))
        if k == 'ks':
            t, data, p1, p2 = p.st[a // 2 % len(p.st)] if a % 2 == 0 else p.badst[e['b'] % len(p.badst) if 'b' in e else self.h(e) % len(p.badst)]
            r = d('ks', t, 'mfb'[a // 4 % 3], x, data, p1, p2)
            if 'crash' in r: return r
            return {'ok': r['ok'], 'parts': r.get('nk', 0) if r['ok'] else 0}
        raise KeyError(k)
    def h(self, e): return e.get('a', 0) * 7919 + e.get('x', 0) * 104729
    def use(self, e):
        k, x, a, p = e['kind'], e['x'], e['a'], self.p
        h = bytes([a % 256]) * 32
        if k == 'md' and a % 6 == 1: return [('md_fin', x), ('md_init', x)]
        if k == 'ci' and a % 10 == 9: return [('ci_reset', x), ('ci_init', x, 1, 1, bytes(range(32)), p.ivs[0])]
        if k == 'hm' and a % 4 == 1: return [('hm_fin', x), ('hm_re', x)]
        if k == 'md': return [('md_upd', x, b'abc' * a), ('md_fin', x), ('md_init', x), ('md_sbox', x, 64, p.sb[a % 3]), ('md_sbox', x, 63, p.sb[0][:63]), ('md_initname', x, 'dstu34311')][a % 6:a % 6 + 1]
        if k == 'hm': return [('hm_upd', x, b'abc' * a), ('hm_fin', x), ('hm_re', x), ('hm_init', x, b'k' * a)][a % 4:a % 4 + 1]
        if k == 'ci': return [('ci_init', x, 1, a // 10 % 2, bytes(range(32)), p.ivs[a % 3]), ('ci_upd', x, b'x' * a, 0, 0, 0), ('ci_fin', x), ('ci_sbox', x, 64, p.sb[a % 3]), ('ci_sbox', x, 60, p.sb[0][:60]), ('ci_getp', x), ('ci_setp', x, p.par[a % len(p.par)]),
                              ('ci_setp', x, p.badpar[self.h(e) % len(p.badpar)]), ('ci_init', x, 0, -1, None, p.ivs[a % 3]), ('ci_reset', x)][a % 10:a % 10 + 1]
        if k == 'pc':
            i = a // 12; cv = TINYC[i % 5]
            g = tuple(v.to_bytes(40, 'big') for v in (cv.p, cv.a, cv.b, cv.n, cv.G[0], cv.G[1]))
            return [('pc_kginit', x), ('pc_kginit', x), ('pc_kginit', x), ('pc_sbox', x, 64, p.sb[i % 3]), ('pc_sbox', x, 63, p.sb[0][:63]), ('pc_curve', x) + g, ('pc_curve', x, '-'), ('pc_str', x, 'curve', b'uacurve%d' % (i % 12)), ('pc_str', x, 'curve', b'none'),
                    ('pc_str', x, 'sbox', p.sb[0].hex().encode()), ('pc_str', x, 'sbox', b'zz' * (i % 70)), ('pc_str', x, 'what', b'ever')][a % 12:a % 12 + 1]
        if k == 'key':
            i = a // 16
            return [[('k_show', x)], [('k_print', x, i % 2)], [('sign', x, h[:i * 3], -2)], [('sign', x, h, i * 9)], [('sign', x, h, -1)], [('verify', x, h, oct(b'x' * (i * 11)))], [('verify', x, h, b'\4' + bytes([2 * i]) + b'\1' * (2 * i))],
                    [('dsign', x, b'msg' * i, i)], [('dverify', x, b'msg', 1, oct(b'x' * i))], [('k_info', x), ('k_paramder', x), ('k_pubder', x), ('k_privder', x)], [('rnd', 'fail', i % 3, -(i % 2)), ('sign', x, h, -2), ('rnd', 'nofail')],
                    [('p8enc', x, b'pw', 1 + i, b'salt1234')], [('p8pem', x, b'pw')] if i % 4 == 0 else [('k_print', x, 1)], [('req_make', x, b'me', 'md'[i % 2])], [('k_cmp', x, x), ('k_pcmp', x, x)], [('dsign', x, b'', 0)]][a % 16]
        if k == 'ks': return [('ks_num', x), ('ks_key', x, a % 8), ('ks_cert', x, a % 8), ('ks_key', x, 2 ** 63 + a)][a // 2 % 4:a // 2 % 4 + 1]
        raise KeyError(k)
    def both(self, e):
        k, x, y, a = e['kind'], e['x'], e['y'], e['a']
        if k == 'key': return [('k_cmp', x, y), ('k_pcmp', x, y), ('k_copyp', x, y), ('k_cmp', y, x)][a % 4:a % 4 + 1]
        return [({'md': 'md_copy', 'ci': 'ci_copy', 'hm': 'hm_copy'}[k], x, y)] if x != y else []
    def once(self, e):
        a = e['a']
        return [('hmac', b'k' * (a % 70), b'data', 2), ('pbkdf2', b'pw', b'salt', 3, 40), ('cms_enc', b'x' * a, bytes(32)), ('cms_dec', b'\x30' + bytes([a % 128]), bytes(32)), ('p8dec', b'\x30\x80' * (a % 9), b'pw'),
                ('x_verify', b'\x30\x03\x02\x01\x01', 60), ('cms_env', 'k', b'data', bytes(32)), ('hmacp', b'key', b'data' * a, 1)][a % 8:a % 8 + 1]
