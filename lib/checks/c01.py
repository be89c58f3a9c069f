"""C01: digest value, chunking, tables, long messages."""
from concurrent.futures import ThreadPoolExecutor
from .. import tlc
from ..digests import plan_from, run_sessions
from ..frame import session

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ digest model (TLC) and replay of generated and directed sessions'
NOTE = 'GOST 34.311 written from the standard in TLA+; the chunking/table protocol is model-checked exhaustively on a small instance; every digest the engine returns in the replayed sessions must be the specified value. Trusted: TLC, the Java evaluation of octet-level operators (compared with the TLA+ definitions by SelfTest), the driver.'
ASSUMPTIONS = ['TLC and the Java evaluation of the octet-level operators (compared with their TLA+ definitions by SelfTest) are trusted',
               'the table is set before the first octet of a message']

def chunkings(c):
    """All ways a message around the block boundaries meets an update boundary."""
    plans = []
    lens = list(range(0, 70)) + [95, 96, 97, 127, 128, 129, 255, 256, 257, 1000]
    if not c.quick:
        lens = list(range(0, 300)) + [511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 100003]
    plan = [({'op': 'new', 's': 0}, ('md_new', 0))]
    def msg(data, parts, sb=None):
        plan.append(({'op': 'init', 's': 0}, ('md_init', 0)))
        if sb is not None:
            plan.append(({'op': 'sbox', 's': 0, 'p1': 64, 'given': True, 'data': sb}, ('md_sbox', 0, 64, sb)))
        pos = 0
        for p in parts:
            d = data[pos:pos + p]; pos += p
            plan.append(({'op': 'upd', 's': 0, 'data': d}, ('md_upd', 0, d, c.rng.randrange(4))))
        plan.append(({'op': 'fin', 's': 0}, ('md_fin', 0)))
    for n in lens:
        for style in range(3):
            d = [c.rb(n), bytes(n), b'\xff' * n][style]
            if style and n > 100:
                continue
            sb = c.rb(64) if c.rng.random() < .4 else None
            msg(d, [n], sb)
            if n <= 130:
                a = c.rng.randrange(n + 1)
                msg(d, [a, 0, n - a], sb)
    # large pieces
    for n in c.pick([4096, 65535, 65536, 65537, 300007], [16383, 16384, 1 << 20, (1 << 20) + 1, 1 << 24]):
        d = c.rb(n); a = c.rng.randrange(1, 40)
        msg(d, [n]); msg(d, [a, n - a], c.rb(64))
    # every split point into two of lengths around one and two blocks
    for n in ([33, 64, 65] if c.quick else [31, 32, 33, 63, 64, 65, 96, 97]):
        d = c.rb(n)
        for a in range(n + 1):
            msg(d, [a, n - a])
    # octet by octet, and in threes
    d = c.rb(70)
    msg(d, [1] * 70); msg(d, [3] * 23 + [1])
    plan.append(({'op': 'free', 's': 0}, ('md_free', 0)))
    return plan

def long_plan(c, nbytes, per=4096):
    """A message of nbytes octets made of a repeated 4096-octet pattern plus a tail."""
    pat = c.rb(4096)
    n = nbytes // 4096
    tail = c.rb(13)
    return [({'op': 'new', 's': 0}, ('md_new', 0)), ({'op': 'init', 's': 0}, ('md_init', 0)),
            ({'op': 'rep', 's': 0, 'data': pat, 'n': n}, ('md_rep', 0, pat, n, per)),
            ({'op': 'upd', 's': 0, 'data': tail}, ('md_upd', 0, tail, 0)),
            ({'op': 'fin', 's': 0}, ('md_fin', 0)), ({'op': 'free', 's': 0}, ('md_free', 0))]

def run(c):
    # beyond 2^32 bits (2^29 octets): the length no longer fits 32 bits; runs beside the rest
    sizes = [(1 << 29) + 4096] if c.quick else [(1 << 29) - 4096, (1 << 29) + 4096, (1 << 32) + 4096]
    c.extra['long_message_octets'] = [s + 13 for s in sizes]
    lp = [long_plan(c, s) for s in sizes]
    lp.append(long_plan(c, (1 << 29) + 8192, 1 << 20))      # in a single update
    with ThreadPoolExecutor(len(lp)) as ex:
        longs = [ex.submit(session, p, alarm=800) for p in lp]
        c.model('MCDigest', None if c.quick else 'MCDigestBig.cfg')
        beh = tlc.simulate('GenDigest', 'GenDigest.cfg', c.pick(60, 1500), 60, c.seed)
        plans = [plan_from(b, c.rng) for b in beh]
        plans.append(chunkings(c))
        c.sample({'generated_behaviour': beh[0][:12]})
        c.count('generated_behaviours', len(beh))
        run_sessions(c, plans, 'digest')
        for n, f in enumerate(longs):
            c.validate('TraceDigest', [f.result()], redo=lambda _: session(lp[n], alarm=800), label='long message')
