"""Builds of /repo's working tree, of the driver and of the Java operator
overrides.  Every directory is keyed by the content of its inputs, so a check
always runs the code that is in the working tree now."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
TLA_JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class BuildError(Exception):
    pass

def _hash(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()[:16]

def repo_sources():
    out = []
    for top, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in ('.git', '_build', 'docs', 'tests')]
        for f in files:
            if f.endswith(('.c', '.h', '.cpp', '.hpp', '.cc', '.inc', '.def', '.in', '.cmake')) or f == 'CMakeLists.txt':
                out.append(os.path.join(top, f))
    return out

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-6000:]))
    return r.stdout.decode(errors='replace')

class _Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')
    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)

def classes():
    """Compile the TLC operator overrides."""
    src = glob.glob(os.path.join(ROOT, 'specs', 'java', '*.java'))
    d = os.path.join(BUILD, 'classes-' + _hash(src))
    with _Lock('classes'):
        if not os.path.exists(os.path.join(d, '.done')):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            run(['javac', '-nowarn', '-cp', TLA_JARS, '-d', d] + src)
            open(os.path.join(d, '.done'), 'w').close()
    return d

VARIANTS = {
    'plain': dict(cflags='-O2 -g -Wno-deprecated-declarations', ldflags='', cc='gcc'),
    'asan': dict(cflags='-O1 -g -fsanitize=address -fno-omit-frame-pointer -Wno-deprecated-declarations',
                 ldflags='-fsanitize=address', cc='gcc'),
    'tsan': dict(cflags='-O1 -g -fsanitize=thread -Wno-deprecated-declarations', ldflags='-fsanitize=thread', cc='gcc'),
    'msan': dict(cflags='-O1 -g -Wno-deprecated-declarations', ldflags='', cc='gcc'),
}

def repo(variant='plain'):
    """Build engine, key library and driver; returns the directory."""
    v = VARIANTS[variant]
    drv = glob.glob(os.path.join(ROOT, 'harness', '*.[ch]'))
    key = _hash(repo_sources() + drv, repr(v))
    d = os.path.join(BUILD, variant + '-' + key)
    with _Lock(variant):
        if not os.path.exists(os.path.join(d, '.done')):
            for old in glob.glob(os.path.join(BUILD, variant + '-*')):
                if os.path.isdir(old) and time.time() - os.path.getmtime(old) > 3600:
                    shutil.rmtree(old, ignore_errors=True)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            env = dict(os.environ, CC='/usr/bin/' + v['cc'], CMAKE_GENERATOR='Ninja')
            env.pop('CFLAGS', None)
            run(['cmake', '-S', REPO, '-B', d + '/r', '-DCMAKE_BUILD_TYPE=', '-DBUILD_TESTS=OFF',
                 '-DCMAKE_C_FLAGS=' + v['cflags'], '-DCMAKE_MODULE_LINKER_FLAGS=' + v['ldflags'],
                 '-DCMAKE_SHARED_LINKER_FLAGS=' + v['ldflags'], '-DCMAKE_EXE_LINKER_FLAGS=' + v['ldflags']], env=env)
            run(['ninja', '-C', d + '/r'])
            os.makedirs(d + '/engines')
            shutil.copy(glob.glob(d + '/r/engine/dstu.so')[0], d + '/engines/dstu.so')
            kl = glob.glob(d + '/r/keylib/libkeylib.so*')[0]
            run([v['cc'], '-std=gnu11'] + v['cflags'].split() + ['-Wall', '-Wno-unused-function', '-rdynamic',
                 '-I' + REPO + '/keylib', '-o', d + '/drv'] + sorted(f for f in drv if f.endswith('.c')) +
                [kl, '-lcrypto', '-lpthread', '-ldl', '-Wl,-rpath,' + os.path.dirname(kl)] + v['ldflags'].split())
            open(d + '/.done', 'w').close()
    os.utime(d)
    return d
