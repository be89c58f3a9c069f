"""C03: CFB values, chunking, in place."""
from .. import tlc
from ..ciphers import Writer, run_sessions

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ CFB model (TLC) and replay of chunked streams'
NOTE = 'chunked CFB equals CFB over the whole message in the model, exhaustively on a small instance; the same specification instantiated with GOST 28147-89 decides every output of the replayed sessions. Trusted: TLC, the Java evaluation of octet-level operators (compared with the TLA+ definitions by SelfTest), the driver.'
ASSUMPTIONS = ['TLC and the Java evaluation of the octet-level operators (compared with their TLA+ definitions by SelfTest) are trusted',
               'input and output buffers are either the same or disjoint']

def run(c):
    c.model('MCCipher', None if c.quick else 'MCCipherBig.cfg')
    w = Writer(c)
    n = 0
    def msg(parts, inplace, table=None, both=True):
        key, iv = c.rb(32), c.rb(8)
        data = c.rb(sum(parts))
        for enc in ((1, 0) if both else (c.rng.randrange(2),)):
            w.fresh(enc, key, iv)
            if table is not None:
                w.sbox(table)
            pos = 0
            for p in parts:
                w.upd(data[pos:pos + p], inplace); pos += p
            w.fin()
    top = c.pick(34, 70)
    for l in range(1, top):
        for ip in (0, 1):
            msg([l], ip, c.rb(64) if l % 3 == 0 else None)
    for l in c.pick([9, 17, 24], [8, 9, 15, 16, 17, 23, 24, 25, 33]):
        for a in range(1, l):
            msg([a, l - a], a % 2, both=True); n += 1
    for l in c.pick([20], [19, 26]):        # every split in three
        for a in range(1, l - 1):
            for b in range(a + 1, l):
                msg([a, b - a, l - b], c.rng.randrange(2), c.rb(64) if b % 4 == 0 else None, both=False); n += 1
    msg([1] * 40, 0); msg([1] * 40, 1); msg([3] * 20, 1); msg([7] * 12, 0); msg([8] * 6, 1)
    for l in c.pick([511, 4099, 65551], [1 << 20, (1 << 22) + 3, 1023, 4096, 4099, 20011, 70001]):
        msg([l], 0); msg([l], 1); msg([5, l, 3], 1, c.rb(64))
    for i in range(c.pick(60, 1500)):
        parts = [c.rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 31]) for _ in range(c.rng.randrange(1, 9))]
        msg(parts, c.rng.randrange(2), c.rb(64) if i % 2 else None)
    c.count('split_pairs_and_triples', n)
    c.sample({'plan_head': [[str(k), str(v)[:80]] for k, v in w.plan[1][0].items()]})
    run_sessions(c, [w.end()], 'CFB')
