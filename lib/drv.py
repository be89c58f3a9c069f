"""The driver process: a session of commands against the real engine and key
library, through their public interfaces."""
import os, select, subprocess, signal, threading, time
from . import build

class Drv:
    def __init__(self, variant='plain', args=(), env=None, alarm=30):
        self.dir = build.repo(variant)
        e = {k: v for k, v in os.environ.items() if not k.startswith(('OPENSSL', 'LD_', 'ASAN', 'TSAN'))}
        e['OPENSSL_ENGINES'] = self.dir + '/engines'
        e['OPENSSL_CONF'] = '/dev/null'
        e['DRV_ALARM'] = str(alarm)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_odr_violation=0'
        e['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=0:report_signal_unsafe=0'
        e['MALLOC_PERTURB_'] = '90'         # fresh and freed memory is never what it was
        e.update(env or {})
        self.err = open(os.path.join(self.dir, 'stderr.%d.%d' % (os.getpid(), id(self))), 'w+b')
        self.p = subprocess.Popen([self.dir + '/drv'] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=e, bufsize=0)
        self.rf = self.p.stdout
        self.buf = b''
        self.alarm = alarm
        self.dead = None
        self.log = []
        r = self._read()
        if r is None:
            raise build.BuildError('driver did not start: ' + self.stderr())

    def stderr(self):
        self.err.flush(); self.err.seek(0)
        return self.err.read().decode(errors='replace')[-6000:]

    def _read(self):
        fd = self.rf.fileno()
        while b'\n' not in self.buf:
            try:
                x = os.read(fd, 1 << 20)
            except OSError:
                x = b''
            if not x:
                self.p.wait()
                rc = self.p.returncode
                self.dead = 'hang' if rc == -signal.SIGALRM else 'crash(%d)' % rc
                return None
            self.buf += x
        line, self.buf = self.buf.split(b'\n', 1)
        return line.decode()

    def __call__(self, op, *args):
        """Run one command.  Returns a dict; {'crash': how} when the process died."""
        if self.dead:
            return {'crash': 'dead'}
        line = op + ''.join(' ' + fmt(a) for a in args)
        self.log.append(line if len(line) < 4000 else line[:4000] + '...')
        try:
            data = line.encode() + b'\n'
            while data:
                n = os.write(self.p.stdin.fileno(), data)
                data = data[n:]
        except OSError:
            pass
        r = self._read()
        if r is None:
            return {'crash': self.dead, 'stderr': self.stderr()}
        res = {}
        for tok in r.split():
            i = min((x for x in (tok.find('='), tok.find(':')) if x >= 0), default=-1)
            if i < 0:
                raise RuntimeError('bad driver reply %r to %r' % (r, line[:200]))
            k, v = tok[:i], tok[i+1:]
            if tok[i] == '=':
                res[k] = int(v)
            else:
                res[k] = bytes.fromhex(v)
        if 'badcmd' in res:
            raise RuntimeError('driver refused %r' % line[:300])
        return res

    def close(self):
        if self.p.poll() is None:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            try:
                self.p.wait(timeout=20)
            except subprocess.TimeoutExpired:
                self.p.kill(); self.p.wait()
        rc = self.p.returncode
        err = self.stderr()
        self.err.close()
        try:
            os.unlink(self.err.name)
        except OSError:
            pass
        self.exit = (rc, err)
        return rc

    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.close()

def fmt(a):
    if a is None:
        return '-'
    if isinstance(a, bool):
        return '1' if a else '0'
    if isinstance(a, int):
        return str(a)
    if isinstance(a, (bytes, bytearray)):
        return 'x' + bytes(a).hex()
    return str(a)
