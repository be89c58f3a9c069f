"""C17: container parsers on any input."""
from ..stores import *

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ specification of the container formats (TLC: all small containers with every damage by one octet, cut or removed octet); generated and damaged containers and other octets read by the instrumented implementation (AddressSanitizer, allocation accounting), each outcome compared with the specification: answer, content, untouched handle, no allocation left'
NOTE = 'The specification gives for every octet string the answer (refused, or which content); in addition each recorded read must have left the caller\'s handle alone when refused, leave no allocation behind (every read is done twice, the second must not grow), end within the time limit and without a sanitizer report. Buffers are exact-size heap blocks. Trusted: TLC, Java evaluation of octet-level operators, sanitizers, the driver\'s allocator hook.'
ASSUMPTIONS = ['TLC, the Java evaluation of the octet-level operators and the sanitizers are trusted',
               'bounded time: 30 s for inputs of at most some tens of kilobytes',
               'reads beyond the buffer are noticed when they leave the allocated block (AddressSanitizer)']

def run(c):
    for k in ('MCJks', 'MCKey6', 'MCP12'): c.model('MCStore', k + ('.cfg' if c.quick else 'Big.cfg'), workers=8)
    cvs = TINYC[:4]; plans = []
    def key(at=None):
        cv = c.rng.choice(cvs); return p8(c.rng.random() < .5, cv, c.rng.randrange(1, cv.n), c.rng.choice([None, c.rb(64)]), c.rng.random() < .3, at)
    def sec(): cv = c.rng.choice(cvs); return second(c, cv, c.rng.randrange(1, cv.n), c.rng.random() < .5, order=c.rng.randrange(3))
    def mutants(x, n):
        """changed, cut, extended, with an odd length somewhere, spliced"""
        for _ in range(n):
            y = bytearray(x); k = c.rng.randrange(8); j = c.rng.randrange(max(1, len(y)))
            if not y or k == 0: y = bytearray(x[:j])
            elif k == 1: y[j] ^= 1 << c.rng.randrange(8)
            elif k == 2: y[j] = c.rng.choice([0, 1, 0x7f, 0x80, 0x81, 0x84, 0xff, 0x30, 0x24])
            elif k == 3: y[j:j+4] = c.rng.choice([b'\xff\xff\xff\xff', b'\x7f\xff\xff\xff', b'\0\0\0\0', b'\x80\0\0\0', b'\0\0\xff\xff', b'\0\x10\0\0'])
            elif k == 4: y[j:j] = c.rb(c.rng.randrange(1, 9))
            elif k == 5: del y[j:j + c.rng.randrange(1, 30)]
            elif k == 6: i = c.rng.randrange(len(y)); y = y[:j] + y[i:]
            else:
                for _ in range(3): y[c.rng.randrange(len(y))] = c.rng.randrange(256)
            yield bytes(y)
    junk = [b'', b'\0', b'0', b'0\x80', b'0\x84\xff\xff\xff\xff', b'\xfe\xed\xfe\xed', JKS + b'\0\0\0\2', JKS + b'\0\0\0\2\xff\xff\xff\xff', JKS + b'\0\0\0\2\0\0\0\0', JKS + b'\0\0\0\2\0\0\0\1' + b'\0' * 20, JKS + b'\0\0\0\2\0\0\0\1\0\0\0\1\xff\xff', b'0' * 200, b'\xa0' * 64, b'\0' * 4000,
            JKS + b'\0\0\0\2' + b'\0\x0f\xff\xff' + b'\0' * 40, b'0\x80' * 500, b'\x30\x82\xff\xff' * 300]
    # Java key stores
    for n in range(c.pick(4, 30)):
        P = StorePlan(c, mem=True); spw, kpw = b's\xd0\xbf', b'key'
        es = []
        for t in c.rng.choice(['k', 'kt', 'tk', 'kk', 'dtk', 'd', 'ktd']):
            C1 = cert(c); P.good.append(C1)
            es.append(jtrust(b'n', C1) if t == 't' else jkey(b'a', epki(kpw, c.rb(20), key(sec() if t == 'd' else None)), c.rng.choice([[], [C1]])))
        x = jks(es, spw, c.rng.choice([JKS, JCEKS]))
        P.read('jks', x, spw, kpw, 'm'); P.read('jks', x, b'bad', kpw); P.read('jks', x, spw, b'bad'); P.read('jks', x, b'\xff', kpw); P.read('jks', x, spw, b'\xff\xfe'); P.read('jks', x, b'', b'')
        for y in mutants(x, c.pick(40, 300)): P.read('jks', y, spw, kpw, c.rng.choice('mmmfbd'))
        for y in mutants(x[:-20], c.pick(50, 400)): P.read('jks', jseal(y, spw), spw, kpw, c.rng.choice('mmfbd'))
        for j in c.rng.sample(range(len(x)), min(len(x), c.pick(30, 300))): P.read('jks', x[:j], spw, kpw, 'm')
        plans.append(P.end())
        # what is decrypted is damaged
        P = StorePlan(c, mem=True); g = key(sec())
        for y in list(mutants(g, c.pick(40, 300))) + junk[:6]: P.read('jks', jks([jkey(b'a', epki(kpw, c.rb(20), y), [])], spw), spw, kpw, 'm')
        e = epki(kpw, c.rb(20), g)
        for y in mutants(e, c.pick(30, 200)): P.read('jks', jks([jkey(b'a', y, [])], spw), spw, kpw, 'm')
        for k in list(range(0, 42)): P.read('jks', jks([jkey(b'a', seq(seq(oid(OID_PROT), tlv(5)), oct(c.rb(k))), [])], spw), spw, kpw, 'm')
        plans.append(P.end())
    # PKCS#12
    for n in range(c.pick(4, 30)):
        P = StorePlan(c, mem=True); pw = c.rng.choice([b'p', b'\xd0\xbf'])
        bags = []
        for t in c.rng.choice(['k', 'kc', 'ck', 'kkc', 'c', 'ckc']):
            if t == 'c': C1 = cert(c); P.good.append(C1); bags.append(bcert(C1))
            else: bags.append(bag(1, key()))
        if n % 2: bags = [bag(6, seq(*bags)), bags[0]]
        alg, enc = made([dict(op='pbe', pw=pw, plain=key(), salt=c.rb(8), iter=2, iv=c.rb(8), sb=c.rb(64))])[0]
        bags.append(bag(2, seq(alg, oct(enc))))
        body = seq(safe_data(*bags)); x = p12(None, pw, it=2, body=body)
        P.read('p12', x, pw, other=2); P.read('p12', x, b'bad'); P.read('p12', x, b''); P.read('p12', x, b'\xff')
        for y in mutants(x, c.pick(40, 300)): P.read('p12', y, pw, how=c.rng.choice('mmmfbd'), other=2)
        for y in mutants(body, c.pick(80, 600)): P.read('p12', p12(None, pw, body=y), pw, how=c.rng.choice('mmfbd'), other=2)
        for j in c.rng.sample(range(len(x)), min(len(x), c.pick(15, 300))): P.read('p12', x[:j], pw, how='m')
        for y in mutants(key(), c.pick(20, 100)): P.read('p12', p12([safe_data(bag(1, y), bcert(cert(c)))], pw), pw, how='m', other=2)
        plans.append(P.end())
    # Key-6
    jobs = []
    for n in range(c.pick(3, 12)):
        pw = c.rng.choice([b'tect4', b'x', b'']); g = key(sec()); g += b'\0' * (-len(g) % 8)
        L = [g, key(), b'', b'0' * 8] + list(mutants(g, c.pick(45, 250)))
        jobs.append((pw, [y + c.rb(-len(y) % 8) for y in L]))
    for (pw, L), E in zip(jobs, made([dict(op='key6', pw=p, plain=l, rounds=10000) for p, l in jobs])):
        P = StorePlan(c, mem=True)
        for y in E:
            j = min(len(y), c.rng.choice([0, 0, 1, 7, 8, 9, 16, 40, 1000, len(y) // 2]))
            P.read('key6', key6_wrap(c, y[:-j] if j else y, y[-j:] if j else None), pw, how=c.rng.choice('mmfbd'))
        for y in E[:3]:
            for j in list(range(len(y) + 1 if len(y) < 40 else 34)) + [len(y) - 9, len(y) - 8, len(y) - 1, len(y)]:
                if 0 < j <= len(y): P.read('key6', key6_wrap(c, y[:-j], y[-j:]), pw, how='m')
            for n in (1, 7, 8, 9, 64, 300): P.read('key6', key6_wrap(c, y, c.rb(n)), pw, how='m'); P.read('key6', key6_wrap(c, c.rb(n), y), pw, how='m')
        x = key6_wrap(c, E[0])
        P.read('key6', x, pw + b'1'); P.read('key6', x, b'')
        for y in mutants(x, c.pick(40, 250)): P.read('key6', y, pw, how=c.rng.choice('mmmfbd'))
        for j in c.rng.sample(range(len(x)), min(len(x), c.pick(15, 200))): P.read('key6', x[:j], pw, how='m')
        plans.append(P.end())
    # neither
    P = StorePlan(c, mem=True)
    for k in ('jks', 'p12', 'key6'):
        for x in junk + [c.rb(c.rng.randrange(300)) for _ in range(c.pick(5, 50))]:
            for h in 'mfbd': P.read(k, x, b'pw', b'pw', h, other=2)
    plans.append(P.end())
    run_sessions(c, plans, 'robust', variant='asan', mod='TraceStore', parallel=8, args=('-m',))
    c.sample('stores, their entries, decrypted keys and encrypted parts with octets changed, removed, inserted, lengths set to extremes, cut at any point, sealed again or not; junk')
