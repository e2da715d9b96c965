"""Builds the code under test (from /repo's working tree) and the harnesses.

The .c/.h files of /repo are mirrored (by content) into <BUILD>/mirror together
with the generated headers kept in /verif/gen, and compiled from there, so that
/repo is never written to.  Objects are cached by the content that went in.
"""
import concurrent.futures, hashlib, os, shutil, subprocess, sys, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
MIRROR = os.path.join(BUILD, 'mirror')
JOBS = max(2, os.cpu_count() or 2)

PERL = '-D_REENTRANT -D_GNU_SOURCE -DDEBIAN -fwrapv -fno-strict-aliasing -D_LARGEFILE_SOURCE -D_FILE_OFFSET_BITS=64 -I/usr/lib/x86_64-linux-gnu/perl/5.38/CORE'.split()
PYTHON = ['-I/usr/include/python3.12', '-DRRR_PYTHON3_SITE_PACKAGES_DIR="/usr/local/lib/python3.12/site-packages"',
          '-DRRR_PYTHON3_PKGDIR="/usr/local/lib/python3.12/site-packages/rrr"']
LUA = ['-I/usr/include/lua5.4']

BASE = ['-DHAVE_CONFIG_H', '-I.', '-Isrc/lib', '-std=c11', '-include', './config.h', '-include', './build_timestamp.h',
        '-include', './src/lib/intercept.h', '-D_XOPEN_SOURCE=700', '-w', '-Werror=implicit-function-declaration']

# Files that this configuration does not build
SKIP_DIRS = ('src/lib/js/', 'src/lib/http3/')
SKIP = {
    'src/lib/http/http_application_http3.c', 'src/lib/net_transport/net_transport_quic.c',
    'src/lib/net_transport/net_transport_libressl.c', 'src/lib/input/freebsd.c',
    'src/lib/rrr_shm_fork.c',
}
EXTRA = {
    'src/lib/util/posix.c': ['-DRRR_INTERCEPT_ALLOW_PTHREAD_MUTEX_INIT'],
    'src/lib/util/gnu.c': ['-DRRR_INTERCEPT_ALLOW_GETTID'],
    'src/lib/util/rrr_readdir.c': ['-DRRR_INTERCEPT_ALLOW_READDIR'],
    'src/lib/rrr_strerror.c': ['-DRRR_INTERCEPT_ALLOW_STRERROR'],
    'src/lib/fork.c': ['-DRRR_INTERCEPT_ALLOW_FORK'],
    'src/lib/log.c': ['-DRRR_INTERCEPT_ALLOW_PRINTF'],
    'src/lib/rrr_umask.c': ['-DRRR_INTERCEPT_ALLOW_UMASK'],
}

SAN = ['-fsanitize=address',
       '-fsanitize=bounds,integer-divide-by-zero,null,unreachable,vla-bound,bool',
       '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
FLAVORS = {
    'asan': dict(cc='clang', cxx='clang++', cflags=['-O1', '-g1', '-fPIC', '-I' + os.path.join(VERIF, 'shim')] + SAN,
                 libonly=['-fsanitize-coverage=trace-pc-guard'], ldflags=SAN),
    'tsan': dict(cc='clang', cxx='clang++', cflags=['-O1', '-g1', '-fPIC', '-I' + os.path.join(VERIF, 'shim'), '-fsanitize=thread'],
                 libonly=[], ldflags=['-fsanitize=thread']),
    'plain': dict(cc='gcc', cxx='g++', cflags=['-O1', '-g1', '-fPIC'], libonly=[], ldflags=[]),
}
# For looking at what the checks reach: VERIF_COV=1, a VERIF_BUILD of its own and LLVM_PROFILE_FILE=/some/dir/%4m.profraw
if os.environ.get('VERIF_COV'):
    _cov = ['-fprofile-instr-generate', '-fcoverage-mapping']
    for _f in ('asan', 'tsan'):
        FLAVORS[_f]['cflags'] += _cov
        FLAVORS[_f]['ldflags'] = FLAVORS[_f]['ldflags'] + ['-fprofile-instr-generate']
LIBS = ('-L/usr/lib/x86_64-linux-gnu/perl/5.38/CORE -Wl,-E -lperl -llua5.4 -ljson-c -lnghttp2 -lz -lssl -lcrypto '
        '-lpython3.12 -lbsd -lsystemd -lcrypt -lpthread -ldl -lm -lrt -levent -levent_pthreads').split()


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, 'little'))
        h.update(p)
    return h.hexdigest()


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def put(path, data):
    """Write atomically, and only when the content differs."""
    try:
        if read(path) == data:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp%d' % os.getpid()
    with open(tmp, 'wb') as f:
        f.write(data)
    os.replace(tmp, path)


def mirror():
    """Copy the sources of /repo; returns (list of files, hash over all headers)."""
    files = {}
    for top in ('src',):
        for d, dirs, names in os.walk(os.path.join(REPO, top)):
            dirs[:] = sorted(x for x in dirs if x not in ('.libs', '.deps', 'blib', '3rd party', '.git'))
            for n in names:
                if n.endswith(('.c', '.h')):
                    p = os.path.join(d, n)
                    files[os.path.relpath(p, REPO)] = p
    for d, dirs, names in os.walk(os.path.join(VERIF, 'gen')):
        for n in names:
            p = os.path.join(d, n)
            files[os.path.relpath(p, os.path.join(VERIF, 'gen'))] = p   # kept copies win
    hh = hashlib.sha256()
    want = set()
    for rel in sorted(files):
        data = read(files[rel])
        put(os.path.join(MIRROR, rel), data)
        want.add(rel)
        if rel.endswith('.h'):
            hh.update(rel.encode() + b'\0' + hashlib.sha256(data).digest())
    for d, dirs, names in os.walk(MIRROR):
        for n in names:
            rel = os.path.relpath(os.path.join(d, n), MIRROR)
            if rel not in want and '.tmp' not in n:
                os.unlink(os.path.join(d, n))
    return sorted(want), hh.hexdigest()


def lib_sources(files):
    out = []
    for rel in files:
        if rel.startswith('src/lib/') and rel.endswith('.c') and rel not in SKIP and not rel.startswith(SKIP_DIRS):
            if rel == 'src/lib/mysql.c':
                continue
            out.append(rel)
    return out


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError(' '.join(cmd[:3]) + ' ... ' + cmd[-1] + '\n' + p.stdout.decode('utf-8', 'replace')[-6000:])


class Builder:
    def __init__(self, flavor):
        self.flavor = flavor
        self.f = FLAVORS[flavor]
        self.dir = os.path.join(BUILD, flavor)
        os.makedirs(os.path.join(self.dir, 'obj'), exist_ok=True)
        self.lockf = open(os.path.join(BUILD, 'lock'), 'w')
        fcntl.flock(self.lockf, fcntl.LOCK_EX)
        self.files, self.hh = mirror()

    def close(self):
        self.lockf.close()

    def obj(self, rel, flags, key_extra=b'', cc=None, cwd=MIRROR):
        """Compile one source file; cached by content."""
        src = rel if os.path.isabs(rel) else os.path.join(cwd, rel)
        cc = cc or self.f['cc']
        key = sha(cc, ' '.join(flags), self.hh, rel, read(src), key_extra)
        out = os.path.join(self.dir, 'obj', os.path.basename(rel).replace('.', '_') + '-' + key[:24] + '.o')
        if not os.path.exists(out):
            tmp = out + '.tmp%d.o' % os.getpid()
            run([cc] + flags + ['-c', '-o', tmp, src if os.path.isabs(rel) else rel], cwd=cwd)
            os.replace(tmp, out)
        return out

    def c_flags(self, rel):
        fl = BASE + self.f['cflags'] + self.f['libonly']
        if rel.startswith('src/lib/perl5') or rel == 'src/modules/p_perl5.c':
            fl = fl + PERL
        if rel.startswith('src/lib/python3') or rel == 'src/modules/p_python3.c':
            fl = fl + PYTHON
        if rel.startswith('src/lib/lua') or rel == 'src/modules/p_lua.c' or 'lua' in rel:
            fl = fl + LUA
        return fl + EXTRA.get(rel, [])

    def objs(self, rels):
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            return list(ex.map(lambda r: self.obj(r, self.c_flags(r)), rels))

    def lib(self):
        objs = self.objs(lib_sources(self.files))
        key = sha(*objs)
        out = os.path.join(self.dir, 'librrr-%s.a' % key[:24])
        if not os.path.exists(out):
            for old in os.listdir(self.dir):
                if old.startswith('librrr-'):
                    os.unlink(os.path.join(self.dir, old))
            tmp = out + '.tmp'
            if os.path.exists(tmp):
                os.unlink(tmp)
            run(['ar', 'rcs', tmp] + objs)
            os.replace(tmp, out)
        return out

    def harness(self, name, sources, extra_repo=(), libs=(), defs=()):
        """Link a harness: C++/C sources under /verif plus the library."""
        lib = self.lib()
        vh = hashlib.sha256()
        for d in ('engine', 'targets'):
            dd = os.path.join(VERIF, d)
            for n in sorted(os.listdir(dd)):
                if n.endswith(('.h', '.hpp')):
                    vh.update(n.encode() + read(os.path.join(dd, n)))
        incl = ['-I' + MIRROR, '-I' + os.path.join(MIRROR, 'src'), '-I' + os.path.join(MIRROR, 'src/lib'), '-I' + os.path.join(VERIF, 'engine'), '-I' + os.path.join(VERIF, 'targets')]

        def one(s):
            p = os.path.join(VERIF, s)
            dep = vh.digest()
            for l in read(p).splitlines():
                # Implementation files which are compiled as part of the harness
                if l.startswith(b'#include "') and l.rstrip().endswith(b'.c"'):
                    dep += hashlib.sha256(read(os.path.join(MIRROR, 'src', l.split(b'"')[1].decode()))).digest()
            if s.endswith('.c'):
                return self.obj(p, BASE + list(defs) + self.f['cflags'] + incl + LUA, dep)
            return self.obj(p, ['-std=c++17', '-w', '-DHAVE_CONFIG_H', '-include', 'config.h'] + list(defs) + self.f['cflags'] + incl,
                            dep, cc=self.f['cxx'])
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(one, sources))
        objs += self.objs(list(extra_repo))
        key = sha(lib, *objs, ' '.join(libs))
        out = os.path.join(self.dir, '%s-%s' % (name, key[:16]))
        if not os.path.exists(out):
            for old in os.listdir(self.dir):
                if old.startswith(name + '-'):
                    os.unlink(os.path.join(self.dir, old))
            tmp = out + '.tmp'
            run([self.f['cxx']] + self.f['ldflags'] + ['-o', tmp] + objs + [lib] + LIBS + list(libs))
            os.replace(tmp, out)
        return out


if __name__ == '__main__':
    import time
    t = time.time()
    b = Builder(sys.argv[1] if len(sys.argv) > 1 else 'asan')
    print(b.lib(), '%.1fs' % (time.time() - t))
