"""Sessions run at the same time in threads of one process.

A plan is first run alone, which fixes its command lines; then the command
lines of several plans are run together, and what each thread recorded is put
back into the events of its plan."""
import os, tempfile
from . import build
from .drv import Drv, fmt

def line(cmd): return cmd[0] + ''.join(' ' + fmt(a) for a in cmd[1:])

class Rec:
    """records the commands a plan item issues"""
    def __init__(self, d): self.d, self.cmds = d, []
    def __call__(self, *cmd):
        self.cmds.append(cmd)
        return self.d(*cmd)
class Play:
    """answers from a recording, as long as the commands are the same"""
    def __init__(self, cmds, res): self.c, self.r, self.i, self.off = cmds, res, 0, False
    def __call__(self, *cmd):
        if self.i >= len(self.c) or self.c[self.i] != cmd: self.off = True; return {'crash': 'other answers than alone led elsewhere'}
        self.i += 1
        return self.r[self.i - 1]

def alone(plan, variant='plain', args=()):
    """-> list of (event without result, item, commands)"""
    out, fixed = [], []
    with Drv(variant, args, alarm=60) as d:
        todo = list(plan)[::-1]
        while todo:
            item = todo.pop()
            if isinstance(item, tuple) and item[0] == 'many': todo += list(item[1](out))[::-1]; continue
            if callable(item):
                item = item(out)
                if item is None: continue
            ev, cmd = item
            rec = Rec(d)
            res = cmd(rec) if callable(cmd) else rec(*cmd)
            out.append(dict(ev, res=res))
            if 'crash' in res: break
            if rec.cmds and rec.cmds[0][0] == 'rnd': continue     # the source is common to all threads
            fixed.append((dict(ev), cmd, rec.cmds))
    return fixed

def parse(r):
    res = {}
    for tok in r.split():
        i = min(x for x in (tok.find('='), tok.find(':')) if x >= 0)
        res[tok[:i]] = int(tok[i+1:]) if tok[i] == '=' else bytes.fromhex(tok[i+1:])
    return res

def together(fixed, pre=(), variant='plain', args=(), alarm=120, env=None):
    """run the fixed plans at the same time; -> (list of event lists, stderr)"""
    fd, path = tempfile.mkstemp(prefix='thr-', dir=build.BUILD)
    with os.fdopen(fd, 'w') as f:
        for p in fixed:
            f.write('T\n')
            for _, _, cmds in p:
                for c in cmds: f.write(line(c) + '\n')
    try:
        d = Drv(variant, args, env, alarm)
        for c in pre: d(*c)
        r = d('thr', path, path + '.out')
        err = ''
        if 'crash' not in r:
            lines = open(path + '.out').read().split('\n')
        d.close(); err = d.exit[1]
    finally:
        for x in (path, path + '.out'):
            if os.path.exists(x): os.unlink(x)
    res, i = [], 0
    for n, p in enumerate(fixed):
        evs = []
        for ev, cmd, cmds in p:
            if 'crash' in r: evs.append(dict(ev, res=r)); break
            got = [parse(x) for x in lines[i:i + len(cmds)]]; i += len(cmds)
            if callable(cmd): evs.append(dict(ev, res=cmd(Play(cmds, got))))
            else: evs.append(dict(ev, res=got[0]))
        res.append(evs)
    return res, err
