"""C18: key store handles."""
from ..stores import *
from .. import tlc

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ state machine of key store handles, lookups and references (TLC exhaustive); histories generated by TLC replayed into the instrumented library (AddressSanitizer, allocation accounting), every answer compared with the specification'
NOTE = 'KsSpec.tla: handles, positions, own references, freeing. Containers of all three formats with known content are read, looked up at every kind of position, referenced, freed in any order; referenced keys sign afterwards (the specification verifies the signature). Each history is run twice in one process; the second run may not leave any allocation.'
ASSUMPTIONS = ['TLC, the Java evaluation of the octet-level operators and the sanitizers are trusted', 'the caller keeps to the protocol: no handle is used after it was freed']
FAR = {1000000: 2 ** 64 - 1, 1000001: 2 ** 63, 1000002: 2 ** 32}

def containers(c):
    """number -> (kind, data, p1, p2, certificates)"""
    cvs = [TINYC[2], TINYC[3], TINYC[4]]
    def key(at=None, cv=None):
        cv = cv or c.rng.choice(cvs); return p8(c.rng.random() < .5, cv, c.rng.randrange(1, cv.n), c.rng.choice([None, c.rb(64)]), True, at)
    def sec(): cv = c.rng.choice(cvs); return second(c, cv, c.rng.randrange(1, cv.n))
    C = [cert(c) for _ in range(20)]
    def je(certs, at=None): return jkey(b'a', epki(b'k', c.rb(20), key(at)), certs)
    k6 = [key(), key(sec(), NAMED[6])]
    k6 = [x + b'\0' * (-len(x) % 8) for x in k6]
    enc = made([dict(op='key6', pw=b'pw', plain=k6, rounds=10000)])[0]
    alg, e = made([dict(op='pbe', pw=b'pw', plain=key(), salt=c.rb(8), iter=2, iv=c.rb(8), sb=c.rb(64))])[0]
    K = lambda: bag(1, key())
    X = [bcert(x) for x in C]
    return {1: ('jks', jks([je([C[0]]), jtrust(b't', C[1]), je([C[2]])], b's'), b's', b'k'),
            2: ('key6', key6_wrap(c, enc[0]), b'pw', b''),
            3: ('jks', jks([jtrust(b't', C[3]), jtrust(b'u', C[4])], b's'), b's', b'k'),
            4: ('p12', p12([safe_data(K(), X[5], bag(2, seq(alg, oct(e)))), safe_data(K())], b'pw'), b'pw', b''),
            5: ('key6', key6_wrap(c, enc[1]), b'pw', b''),
            6: ('jks', jks([je(C[6:9]), jtrust(b't', C[9])], b's', JCEKS), b's', b'k'),
            7: ('p12', p12([safe_data(X[10], K(), K(), bag(6, seq(K(), X[11], K())), K(), X[12], X[13], X[14], K())], b'pw'), b'pw', b''),
            8: ('p12', p12([safe_data(K(), X[15])], b'pw'), b'pw', b'')}, C

def run(c):
    c.model('MCKs', 'MCKs.cfg' if c.quick else 'MCKsBig.cfg', workers=8)
    st, good = containers(c)
    beh = tlc.simulate('GenKs', 'GenKs.cfg', c.pick(50, 600), 60, c.seed, consts={'D': c.pick(45, 60)})
    plans = []
    for b in beh:
        P = StorePlan(c); P.good = good
        def ptr(out, s, cert, pos):
            r = [e for e in out if e['op'] == 'read' and e['s'] == s][-1]['res']
            i = pos + (len(r['keys']) if cert else 0)
            return r['ptrs'][i] if i < len(r['ptrs']) and not (not cert and pos >= len(r['keys'])) else 0
        def play(b):
            held, live = {}, set()
            for e in b:
                op = e['op']
                if op == 'read':
                    k, x, p1, p2 = st[e['f']]; live.add(e['s']); P.read(k, x, p1, p2, s=e['s'], keep=True)
                elif op in ('key', 'cert'):
                    P.p.append(lambda out, e=e, op=op: (dict(op=op, s=e['s'], pos=e['pos'], first=ptr(out, e['s'], op == 'cert', e['pos'])), ('ks_' + op, e['s'], FAR.get(e['pos'], e['pos']))))
                elif op == 'num': P.p.append((dict(e), ('ks_num', e['s'])))
                elif op == 'refkey': held[e['r']] = 'k'; P.p.append((dict(e), ('ks_refkey', e['s'], e['pos'], e['r'])))
                elif op == 'refcert': held[e['r']] = 'c'; P.p.append((dict(e), ('x_ref', e['s'], e['pos'], e['r'])))
                elif op == 'use':
                    if held[e['r']] == 'c': P.p.append((dict(e), ('x_show', e['r'])))
                    else:
                        h = c.rb(32)
                        def use(d, r=e['r'], h=h):
                            a = d('sign', r, h, -2)
                            if 'crash' in a: return a
                            b = d('k_privder', r)
                            if 'crash' in b: return b
                            p = d('k_pubder', r)
                            if 'crash' in p: return p
                            return {'ok': a['ok'], 'sig': a.get('out', b''), 'hash': h, 'priv': b.get('out', b''), 'pub': p.get('out', b'')}
                        P.p.append((dict(e), use))
                elif op == 'drop': P.p.append((dict(e), ('k_free' if held.pop(e['r']) == 'k' else 'x_free', e['r'])))
                elif op == 'free': live.discard(e['s']); P.p.append((dict(e), ('ks_free', e['s'])))
            end = [('f', s) for s in live] + [('d', r) for r in held]
            c.rng.shuffle(end)
            for t, n in end:
                if t == 'f': P.p.append((dict(op='free', s=n), ('ks_free', n)))
                else: P.p.append((dict(op='drop', r=n), ('k_free' if held[n] == 'k' else 'x_free', n)))
        play(b)
        box = {}
        def mark(d, box=box):
            r = d('mem'); box['n'] = r.get('n'); return r
        def bal(d, box=box):
            r = d('mem')
            return r if 'crash' in r else {'grow': r['n'] - box['n']}
        P.p.append(({'op': 'nop'}, mark)); play(b); P.p.append(({'op': 'balance'}, bal))
        plans.append(P.end())
    run_sessions(c, plans, 'handles', variant='asan', mod='TraceStore', parallel=8, args=('-m',))
    c.sample('histories of %d steps over three handles and four references, each run twice' % c.pick(45, 60))
