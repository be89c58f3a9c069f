"""C05: ASN.1 parameters of the cipher."""
from .. import tlc
from ..ciphers import Writer, bad_params, param_der, plan_from, run_sessions

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ cipher context model (TLC) with parameter export/import, replayed'
NOTE = 'as C04, with every refusal class of parameter encodings and octet-wise corruption of good ones. Trusted: TLC, the Java evaluation of octet-level operators (compared with the TLA+ definitions by SelfTest), the driver.'
ASSUMPTIONS = ['TLC and the Java evaluation of the octet-level operators (compared with their TLA+ definitions by SelfTest) are trusted']

def run(c):
    c.model('MCCipher', 'MCCipherCopy.cfg' if c.quick else 'MCCipher2.cfg', workers=8)
    w = Writer(c)
    n = 0
    for rep in range(c.pick(3, 60)):
        for bad in bad_params(c.rng):
            # refused parameters in a context that is set up, in the middle of a stream or before the key
            key, iv, t = c.rb(32), c.rb(8), c.rb(64)
            w.fresh(rep % 2, key, iv)
            if n % 2: w.sbox(t)
            if n % 3: w.upd(c.rb(5 + n % 7))
            w.setp(bad); w.getp(); w.upd(c.rb(13)); w.getp()
            n += 1
        # octet-wise corruption of a good value: accepted with that IV/table, or refused
        for pos in range(78):
            good = bytearray(param_der(c.rb(8), c.rb(64)))
            if pos == 0:
                good[0] = c.rng.choice([49, 4, 3, 16 + 128 + 32])
            elif pos == 1:
                continue                    # the outer length decides what is read at all
            else:
                good[pos] ^= c.rng.choice([1, 2, 128, 255])
            w.fresh(1, c.rb(32), c.rb(8)); w.setp(bytes(good)); w.getp(); w.upd(c.rb(11))
        for first in (0, 1):
            for stream in range(0, 17):
                key, iv, t = c.rb(32), c.rb(8), c.rb(64)
                data = c.rb(stream + 20)
                w.fresh(1, key, iv); w.sbox(t)
                if stream: w.upd(data[:stream])
                w.getp()
                w.fresh(0, key if first else None, None); w.setp(param_der(iv, t))
                if not first: w.init(0, -1, key, None)
                w.upd(data[:7]); w.upd(data[7:]); w.getp()
    c.count('refused_parameter_values', n)
    beh = tlc.simulate('GenCipher', 'GenCipher.cfg', c.pick(80, 2000), 60, c.seed + 3000, consts={'D': 25, 'Slots': '{1, 2}'})
    c.sample({'generated_behaviour': beh[0][:15]})
    run_sessions(c, [w.end()] + [plan_from(b, c.rng) for b in beh], 'cipher parameters')
