"""C13: the life of the engine."""
from .. import tlc
from ..life import *
from ..keys import run_sessions

LEVEL = 'model_checking'
TECHNIQUE = 'TLA+ model of structural and functional references, tables and contexts (TLC, exhaustive); TLC-generated sequences of obtaining, initialising, using, finishing and releasing replayed on the engine under the address sanitizer, results judged by the specification'
NOTE = 'LifeSpec.tla: references, default and lookup tables, open contexts, finish and destroy; TLC checks that nothing reachable is freed and lookups keep succeeding. GenLife sequences (with digest, cipher, key and generator uses by every lookup route, contexts and keys held across finish, registering and unregistering, loading again through the dynamic engine or a configuration, final library cleanup) are executed with a sanitized build; every output found must be that of the specified algorithm, every lookup that has to succeed must, requests for other algorithms must be refused, and what the engine refuses must come with errors that have their library name and reason text. Trusted: TLC, the Java evaluation of octet-level operators (compared with the TLA+ definitions by SelfTest), the driver, AddressSanitizer.'
ASSUMPTIONS = ['TLC and the Java evaluation of the octet-level operators (compared with their TLA+ definitions by SelfTest) are trusted',
               'the engine stays on OpenSSL\'s list until the library is cleaned up (OpenSSL itself keeps pointers into an engine that was removed)',
               'OpenSSL 3.0 decides whether a module already loaded is bound again']

def run(c):
    c.model('MCLife', None if c.quick else 'MCLifeBig.cfg', workers=8)
    beh = tlc.simulate('GenLife', 'GenLife.cfg', c.pick(160, 2500), 80, c.seed + 1300, consts={'D': 40})
    c.count('generated_behaviours', len(beh)); c.sample({'generated_behaviour': beh[0][:12]})
    plans = [from_behaviour(c, b) for b in beh]
    for rounds in (1, 2, 5):
        P = LifePlan(c)
        for k in range(rounds):
            P.do('byid'); P.do('init'); P.do('look'); P.do('md', how='g', eng=1); P.do('mopen', s=0, how='n', eng=0); P.do('copen', s=0, how='g', eng=1); P.do('load', s=0); P.do('sv', s=0, eng=1)
            P.do('finish'); P.do('free'); P.do('mupd', s=0); P.do('cupd', s=0); P.do('md', how='n', eng=0); P.do('ci', how='s', eng=0); P.do('sv', s=0, eng=0)
            P.do('mfin', s=0); P.do('cfree', s=0); P.do('md', how='t', eng=0); P.do('kfree', s=0); P.do('ci', how='t', eng=0); P.do('gen', s=1, eng=0); P.do('sv', s=1, eng=0); P.do('kfree', s=1)
            P.do('rand', how='e'); P.do('err'); P.do('look')
        P.do('cleanup'); plans.append(P.end())
    # error texts before the first use, while used and after it
    for k in range(4):
        P = LifePlan(c); P.do('byid'); P.do('init'); P.do('finish') if k & 1 else P.do('err'); P.do('err'); P.do('init'); P.do('err')
        if k & 2: P.do('load', s=0); P.do('sv', s=0, eng=1); P.do('kfree', s=0); P.do('err')
        P.do('finish'); P.do('err'); P.do('byid'); P.do('init'); P.do('err'); P.do('cleanup'); plans.append(P.end())
    # configured, never initialised by the caller
    for v in range(4):
        P = LifePlan(c); P.do('md', how='n', eng=0); P.do('ci', how='n', eng=0); P.add('conf', {}, ('li_conf', v)); P.do('look'); P.do('md', how='n', eng=0); P.do('ci', how='t', eng=0); P.do('rand', how='p')
        P.do('load', s=0); P.do('sv', s=0, eng=0); P.do('unconf'); P.do('md', how='t', eng=0); P.do('sv', s=0, eng=0); P.do('kfree', s=0); P.do('rand', how='p'); P.do('byid'); P.do('init'); P.do('dyn'); P.do('look'); P.do('finish'); P.do('free'); P.do('cleanup')
        plans.append(P.end())
    run_sessions(c, plans, 'life', 'asan', mod='TraceLife', parallel=6, args=('-n',))
