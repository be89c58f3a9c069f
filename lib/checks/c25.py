"""C25: what was allocated is given back."""
from ..ledger import *
from .. import tlc
from ..keys import run_sessions

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ ledger of handles, objects and the references between them (TLC exhaustive: an implementation counting references frees exactly what is out of reach); histories generated by TLC and rounds over all kinds of valid and malformed input replayed with every allocation of the process counted, each count compared with what the ledger allows'
NOTE = 'LedgerSpec.tla says what may still be allocated after a history. Every round of operations (contexts, copies, keys, parameters, signatures with too small buffers and failing random sources, comparison, printing, encoding, malformed keys, damaged containers, messages) is repeated in one process with malloc interposed; after the rounds that fill caches, the number of live allocations with no object alive may not change. The same rounds run under AddressSanitizer (nothing freed is touched).'
ASSUMPTIONS = ['TLC is trusted', 'caches of libcrypto are filled by the first two rounds', 'the error queue of libcrypto is emptied by the caller']

def run(c):
    c.model('MCLedger', None if c.quick else 'MCLedgerBig.cfg', workers=8)
    pool = Pool(c); R = Replay(c, pool)
    beh = tlc.simulate('GenLedger', 'GenLedger.cfg', c.pick(64, 800), 70, c.seed, consts={'D': 60})
    plans = [R.plan(4, beh[i::c.pick(16, 80)]) for i in range(c.pick(16, 80))]
    # every malformed input by itself
    def bulk(kind, n):
        step = 16
        for i in range(step):
            b = []
            for j in range(i, n, step): b += [dict(op='new', x=1, kind=kind, a=1 + 4 * (j % 3), b=j), dict(op='free', x=1, kind=kind)]
            plans.append(R.plan(4, [b]))
    bulk('key', len(pool.bad)); bulk('ks', len(pool.badst))
    # every way of using every valid object
    for kind, n in (('md', 6), ('hm', 4), ('ci', 10), ('pc', 12), ('key', 16), ('ks', 4)):
        b = []
        for a in range(0, 2 * max(len(pool.keys), len(pool.st)), 2):
            if kind in ('md', 'hm') and a > 4: break
            b.append(dict(op='new', x=1, kind=kind, a=a)); b.append(dict(op='new', x=2, kind=kind, a=a + 2))
            uses = [u + n * i for i in range(c.pick(3, 12)) for u in range(n)]
            c.rng.shuffle(uses)
            for u in uses:
                b.append(dict(op='use', x=1, kind=kind, a=u))
                if kind == 'pc': b += [dict(op='from', x=3, y=1, kind='key', of='pc', a=u + 1, keep='no'), dict(op='free', x=3, kind='key')]
                if kind != 'ks' and kind != 'pc' and u % 3 == 0: b.append(dict(op='both', x=1, y=2, kind=kind, a=u))
            b += [dict(op='free', x=1, kind=kind), dict(op='free', x=2, kind=kind)]
        plans.append(R.plan(4, [b]))
    plans.append(R.plan(5, [[dict(op='once', x=0, kind='any', a=a) for a in range(c.pick(48, 200))]]))
    run_sessions(c, plans, 'ledger', mod='TraceLedger', parallel=4)
    # the same, memory checked: two rounds
    plans2 = [R.plan(2, beh[i::16][:c.pick(4, 20)], warm=9) for i in range(16)]
    plans2 += [[x for x in p] for p in []]
    run_sessions(c, plans2, 'ledger, memory checked', variant='asan', mod='TraceLedger', parallel=4)
    c.sample('%d histories of 60 steps over 13 handles, %d malformed keys, %d damaged containers, each in rounds repeated four times' % (len(beh), len(pool.bad), len(pool.badst)))
