"""C02: digest contexts: copies, independence, re-initialisation."""
from .. import tlc
from ..digests import plan_from, run_sessions

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ digest context model (TLC) and replay of generated call sequences'
NOTE = 'the context protocol is model-checked exhaustively on a small instance (copy, re-init, independence); TLC-generated call sequences over several contexts are executed and every result compared with the specification. Trusted: TLC, the Java evaluation of octet-level operators (compared with the TLA+ definitions by SelfTest), the driver.'
ASSUMPTIONS = ['TLC and the Java evaluation of the octet-level operators (compared with their TLA+ definitions by SelfTest) are trusted',
               'the table is set before the first octet of a message']

def directed(c):
    """A copy at every position around the block boundary, then both go on."""
    plan = []
    A = lambda e, *cmd: plan.append((e, cmd))
    new = lambda s: A({'op': 'new', 's': s}, 'md_new', s)
    init = lambda s: A({'op': 'init', 's': s}, 'md_init', s)
    upd = lambda s, d: A({'op': 'upd', 's': s, 'data': d}, 'md_upd', s, d, c.rng.randrange(4))
    fin = lambda s: A({'op': 'fin', 's': s}, 'md_fin', s)
    sbox = lambda s, t: A({'op': 'sbox', 's': s, 'p1': 64, 'given': True, 'data': t}, 'md_sbox', s, 64, t)
    copy = lambda s, f: A({'op': 'copy', 's': s, 'from': f}, 'md_copy', s, f)
    free = lambda s: A({'op': 'free', 's': s}, 'md_free', s)
    for n in (range(0, 67) if c.quick else range(0, 140)):
        new(1); init(1)
        if n % 2: sbox(1, c.rb(64))
        upd(1, c.rb(n)); new(2)
        if n % 3 == 0:            # over a context in use
            init(2); sbox(2, c.rb(64)); upd(2, c.rb(17))
        copy(2, 1)
        a, b = c.rb(c.rng.randrange(1, 40)), c.rb(c.rng.randrange(1, 40))
        upd(1, a); upd(2, b)
        if n % 4 == 0: fin(1); upd(2, a); fin(2)
        elif n % 4 == 1: free(1); fin(2); new(1); init(1); fin(1)
        elif n % 4 == 2: init(1); upd(1, b); fin(2); fin(1)
        else: fin(2); init(2); upd(2, a); fin(2); fin(1)
        free(1); free(2)
    return plan

def run(c):
    c.model('MCDigest', None if c.quick else 'MCDigestBig.cfg')
    beh = tlc.simulate('GenDigest', 'GenDigest.cfg', c.pick(150, 3000), 60, c.seed + 1000,
                       consts={'Slots': '{1, 2, 3, 4}', 'Lens': '{0, 1, 31, 32, 33, 64, 90}', 'D': 45})
    c.sample({'generated_behaviour': beh[0][:15]})
    c.count('generated_behaviours', len(beh))
    run_sessions(c, [plan_from(b, c.rng) for b in beh] + [directed(c)], 'digest contexts')
