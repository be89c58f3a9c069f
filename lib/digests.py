"""Digest sessions from TLC behaviours (GenDigest), replayed in the driver."""
from . import tlc
from .frame import session

def plan_from(behaviour, rng, variant_len=None):
    """Turn a generated call sequence into concrete commands."""
    plan = []
    for e in behaviour:
        ev = dict(e)
        s = ev['s']
        op = ev['op']
        if op == 'new':
            cmd = ('md_new', s)
        elif op == 'init':
            cmd = ('md_init', s)
        elif op == 'upd':
            n = ev.pop('len')
            style = rng.random()
            ev['data'] = bytes(n) if style < .1 else b'\xff' * n if style < .2 else rng.randbytes(n)
            cmd = ('md_upd', s, ev['data'], rng.randrange(4))
        elif op == 'fin':
            cmd = ('md_fin', s)
        elif op == 'copy':
            cmd = ('md_copy', s, ev['from'])
        elif op == 'sbox':
            ev['data'] = rng.randbytes(max(ev['p1'], 64))
            cmd = ('md_sbox', s, ev['p1'], ev['data'] if ev['given'] else None)
        elif op == 'free':
            cmd = ('md_free', s)
        plan.append((ev, cmd))
    # read out what is still open, then clear the table so that sessions can be concatenated
    st = {}
    for e, _ in plan:
        st[e['s']] = {'new': 'done', 'init': 'open', 'fin': 'done', 'free': 'none', 'copy': 'open'}.get(e['op'], st.get(e['s']))
    for s, v in sorted(st.items()):
        if v == 'open':
            plan.append(({'op': 'fin', 's': s}, ('md_fin', s)))
        if v != 'none':
            plan.append(({'op': 'free', 's': s}, ('md_free', s)))
    return plan

def run_sessions(c, plans, label, variant='plain'):
    from .frame import session as sess
    c.validate('TraceDigest', [sess(p, variant) for p in plans], redo=lambda n: sess(plans[n], variant), label=label)
