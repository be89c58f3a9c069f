"""Running TLC: model checking, simulation (behaviour generation) and trace
validation."""
import json, os, re, shutil, subprocess, tempfile, threading
from . import build

SPECS = os.path.join(build.ROOT, 'specs')
_count = [0]

class TlcError(Exception):
    pass

def _cmd(mod, cfg, args, xmx='6g'):
    cl = build.classes()
    md = tempfile.mkdtemp(prefix='tlc-', dir=build.BUILD)
    cmd = ['java', '-Xss512m', '-Xmx' + xmx, '-XX:+UseParallelGC', '-cp', cl + ':' + build.TLA_JARS, 'tlc2.TLC',
           '-noGenerateSpecTE', '-metadir', md, '-config', cfg] + args + [mod]
    return cmd, md

def prints(out):
    res = []
    for line in out.splitlines():
        if line.startswith('"@@'):
            res.append(json.loads(json.loads(line)[2:]))
    return res

def short(out):
    i = out.find('Error:')
    return out[i:i + 1500] + '\n...\n' + out[-1500:] if i >= 0 else out[-3000:]

def run(mod, cfg=None, args=(), env=None, timeout=800, xmx='6g'):
    cfg = cfg or mod + '.cfg'
    cmd, md = _cmd(mod + '.tla', cfg, list(args), xmx)
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise TlcError('TLC timed out on %s/%s' % (mod, cfg))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return r.returncode, r.stdout.decode(errors='replace')

_st = re.compile(r'([\d,]+) states generated, ([\d,]+) distinct')

def check(mod, cfg=None, workers=4, timeout=800, extra=()):
    """Exhaustive model checking; raises unless it completes without error."""
    rc, out = run(mod, cfg, ['-workers', str(workers), '-lncheck', 'final'] + list(extra), timeout=timeout)
    m = _st.findall(out)
    if rc != 0 or 'No error has been found' not in out or not m:
        raise TlcError('model checking %s/%s failed (rc %d)\n%s' % (mod, cfg, rc, out[-4000:]))
    g, d = m[-1]
    return dict(model=mod, config=cfg or mod + '.cfg', transitions=int(g.replace(',', '')), states=int(d.replace(',', '')))

def simulate(mod, cfg, num, depth, seed, timeout=600, consts=None):
    """Behaviours generated by TLC; one parsed JSON value per printed line."""
    tmp = None
    if consts:
        txt = open(os.path.join(SPECS, cfg)).read()
        for k, v in consts.items():
            txt = re.sub(r'(?m)^(\s*%s\s*=).*$' % k, lambda m: m.group(1) + ' ' + str(v), txt)
        fd, tmp = tempfile.mkstemp(suffix='.cfg', dir=build.BUILD)
        os.write(fd, txt.encode()); os.close(fd)
        cfg = tmp
    try:
        rc, out = run(mod, cfg, ['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed), '-workers', '1'], timeout=timeout)
    finally:
        if tmp:
            os.unlink(tmp)
    res = prints(out)
    if rc != 0 or not res:
        raise TlcError('simulation %s failed (rc %d)\n%s' % (mod, rc, out[-4000:]))
    return res

def trace(mod, events, timeout=800, env=None, cfg=None, xmx='6g'):
    """Validate recorded events against the specification.  Returns the list of
    reports (dicts) the trace specification printed and the summary."""
    fd, path = tempfile.mkstemp(suffix='.ndjson', dir=build.BUILD)
    with os.fdopen(fd, 'w') as f:
        for ev in events:
            f.write(json.dumps(enc(ev), separators=(',', ':')) + '\n')
    try:
        e = {'TRACE': path}
        e.update(env or {})
        rc, out = run(mod, cfg, ['-workers', '1'], env=e, timeout=timeout, xmx=xmx)
    finally:
        os.unlink(path)
    res = prints(out)
    done = [r for r in res if r.get('k') == 'done']
    if rc != 0 and any(r.get('k') == 'mismatch' for r in res):
        # after an event that is not the specified one, the rest need not make sense
        return res, {'n': -1}
    if rc != 0 or not done or done[-1]['n'] != len(events):
        raise TlcError('trace validation %s failed (rc %d)\n%s' % (mod, rc, short(out)))
    return [r for r in res if r.get('k') != 'done'], done[-1]

def enc(v):
    if isinstance(v, (bytes, bytearray)):
        return list(v)
    if isinstance(v, dict):
        return {k: enc(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    return v
