"""C04: settings of cipher contexts across re-initialisation and copies."""
from .. import tlc
from ..ciphers import plan_from, run_sessions

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ cipher context model (TLC) and replay of generated call sequences'
NOTE = 'settings, restarts and copies are model-checked exhaustively on a small instance; TLC-generated call sequences are executed and each result compared with the specification. Trusted: TLC, the Java evaluation of octet-level operators (compared with the TLA+ definitions by SelfTest), the driver.'
ASSUMPTIONS = ['TLC and the Java evaluation of the octet-level operators (compared with their TLA+ definitions by SelfTest) are trusted',
               'data is processed only by contexts that have been given a key and an IV']

def run(c):
    c.model('MCCipher', 'MCCipherCopy.cfg' if c.quick else 'MCCipher2.cfg', workers=8)
    beh = tlc.simulate('GenCipher', 'GenCipher.cfg', c.pick(300, 6000), 60, c.seed + 2000)
    beh += tlc.simulate('GenCipher', 'GenCipher.cfg', c.pick(150, 3000), 60, c.seed + 2500, consts={'Slots': '{1}', 'D': 30})
    c.sample({'generated_behaviour': beh[0][:15]})
    c.count('generated_behaviours', len(beh))
    run_sessions(c, [plan_from(b, c.rng) for b in beh], 'cipher contexts')
