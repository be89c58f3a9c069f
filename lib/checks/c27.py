"""C27: contexts that sign and verify."""
from .. import tlc
from ..keys import *

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification of signing and verifying contexts (TLC: an implementation-shaped model with shared storage and reference counts refines it); TLC-generated call sequences executed against the engine, every signature and verdict judged by the specification'
NOTE = 'SignSpec.tla gives what a streaming or single-hash context may be asked and what it must then deliver; MCSign.tla checks over all short histories that contexts with their own storage for tables, a cipher pointer that a copy re-targets and counted keys refine it (and MCSignBad that without re-targeting they do not). Histories generated by TLC over three streaming and two single-hash contexts and four keys (starts, refused starts, pieces, tables, copies, repeated values, restarts, releases of keys in use) are executed; each signature must be one of exactly the message supplied, under the table in force, and each verdict the specified one. Trusted: TLC, the Java evaluation of octet-level operators (compared with the TLA+ definitions by SelfTest), the driver, libcrypto.'
ASSUMPTIONS = ['TLC and the Java evaluation of the octet-level operators (compared with their TLA+ definitions by SelfTest) are trusted',
               'a started context is given another key only after a reset (libcrypto keeps the old key otherwise)']

def plan(c, beh):
    rng = c.rng
    P = KeyPlan(c)
    pieces = {i: c.rb(rng.choice([0, 1, 3, 31, 32, 33, 64, 70, 100])) for i in (1, 2, 3, 4)}
    tabs = {1: c.rb(64), 2: rng.choice([c.rb(64), DEF])}
    cvs = [rng.choice(NAMED[:3] if rng.random() < .3 else TINYC[2:]) for _ in range(3)]
    keys, par = {}, {}
    for k in (1, 2, 3):
        cv, le, sb = cvs[k - 1], rng.random() < .5, rng.choice([None, c.rb(64)])
        d = rng.randrange(1, cv.n)
        keys[k] = ('priv', priv_der(le, cv, d, sb), le)
        if k == 3 and rng.random() < .5:           # the first key with another table
            keys[3] = ('priv', priv_der(par[1][0], cvs[0], par[1][1], c.rb(64)), par[1][0])
        par[k] = (le, d, sb)
        if k == 1: keys[4] = rng.choice([('pub', pub_der(le, cv, cv.neg(cv.mul(d, cv.G)), sb), le)] * 4 + [('par', params_der(le, cv, sb), le)])
    twin = {1: 41, 2: 42, 3: 43, 4: 41}
    for k in (1, 2, 3): P.raw(('k_load', 40 + k, 'r', 'le' if keys[k][2] else 'be', keys[k][1]))
    hs = [c.rb(n) for n in (1, 20, 32)]
    def msg(ids): return b''.join(pieces[i] for i in ids)
    def made(key, tab, m):
        P.raw(('x_new', 60)); P.raw(('x_init', 60, 's', twin[key], 'm'))
        if tab: P.raw(('x_tab', 60, tabs[tab]))
        P.raw(('x_upd', 60, 's', m)); P.raw(('x_fin', 60))
    def last(out):
        return [e['res']['out'] for e in out[-1:] if 'out' in e['res']] or [b'\4\0']
    def anysig(out):
        return rng.choice([e['res']['out'] for e in out if e['op'] in ('x_fin', 'x_sign1', 'q_sign') and 'out' in e['res']] or [b'\4\0'])
    for st in beh:
        ev = dict(st['ev']); op = ev['op']; s = ev.get('s')
        if op == 'load': P.load(keys[ev['k']][0], keys[ev['k']][1], keys[ev['k']][2], s=ev['k']); continue
        if op == 'free': P.free(ev['k']); continue
        if op in ('x_ver', 'x_ver1'):
            how = ev.pop('with')
            m = msg(st['msg']); tab = st['tab']
            if how == 2: m = rng.choice([m + b'\0', m[:-1] if m else b'x', msg(st['msg'][:-1]) + b'', m[:1] + m])
            if how == 3: tab = (tab + 1) % 3
            made(st['key'], tab, m)
            data = msg(ev['data']) if op == 'x_ver1' else None
            if data is not None: ev['data'] = data
            def f(out, ev=ev, how=how, s=s, data=data):
                g = last(out)[0] if how < 4 else anysig(out)
                if rng.random() < .06 and len(g) > 2: i = rng.randrange(len(g)); g = g[:i] + bytes([g[i] ^ 1 << rng.randrange(8)]) + g[i + 1:]
                e = dict(ev, sig=g)
                return e, (('x_ver', s, g) if data is None else ('x_ver1', s, data, g))
            P.p.append(f); P.raw(('x_free', 60)); continue
        if op == 'q_ver':
            h = rng.choice(hs)
            def q(out, s=s, h=h):
                g = anysig(out)
                return {'op': 'q_ver', 's': s, 'hash': h, 'sig': g}, ('q_ver', s, h, g)
            P.p.append(q)
            for k in rng.sample([1, 2, 3], 2):
                P.raw(('sign', 40 + k, h, -2))
                P.p.append(lambda out, s=s, h=h: (lambda g: ({'op': 'q_ver', 's': s, 'hash': h, 'sig': g}, ('q_ver', s, h, g)))(last(out)[0]))
            continue
        if op == 'x_upd': ev['data'] = msg(ev['data']); cmd = (op, s, ev['dir'], ev['data'])
        elif op == 'x_sign1': ev['data'] = msg(ev['data']); cmd = (op, s, ev['data'])
        elif op == 'x_tab':
            t = tabs[ev['tab']]; ev['tab'] = t if ev['good'] else rng.choice([t[:63], t + b'\0', b''])
            cmd = (op, s, ev['tab'])
        elif op == 'x_init': cmd = (op, s, ev['dir'], ev['k'], ev['how'])
        elif op in ('x_copy', 'q_dup'): cmd = (op, s, ev['from'])
        elif op == 'q_new': cmd = (op, s, ev['k'], rng.choice('en'))
        elif op == 'q_init': cmd = (op, s, ev['dir'])
        elif op == 'q_md': cmd = (op, s, ev['how'])
        elif op == 'q_sign': ev['hash'] = rng.choice(hs); cmd = (op, s, ev['hash'])
        else: cmd = (op, s)
        P.p.append((ev, cmd))
    return P.end()

def run(c):
    c.model('MCSign', None if c.quick else 'MCSignBig.cfg', workers=8)
    rc, o = tlc.run('MCSign', 'MCSignBad.cfg', ['-workers', '4'])
    if 'Invariant Own is violated' not in o: raise tlc.TlcError('a copy that shares the table went unnoticed by the model')
    beh = tlc.simulate('GenSign', 'GenSign.cfg', c.pick(200, 2500), 120, c.seed + 2700)
    c.sample({'generated_behaviour': [s['ev'] for s in beh[0][:12]]})
    run_sessions(c, [plan(c, b) for b in beh], 'signing contexts', parallel=8)
    run_sessions(c, [plan(c, b) for b in beh[:c.pick(30, 400)]], 'signing contexts under AddressSanitizer', variant='asan', parallel=4)
