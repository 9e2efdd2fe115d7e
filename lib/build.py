"""Content-addressed build of harness drivers from /repo's current sources.

Every object is keyed by the hash of its own source, of every header it could
include (all headers of /repo/src, /repo/3rdparty, the shims and the harness)
and of the flags, so a stale object can never be linked.
"""
import glob
import hashlib
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CXX = 'g++'
BASE = ['-std=c++20', '-O1', '-fno-exceptions', '-fno-rtti', '-w', '-pthread',
        '-ffunction-sections', '-fdata-sections', '-D_NO_EXCEPTION']
INC = ['-I' + os.path.join(VERIF, 'shim'), '-I' + os.path.join(VERIF, 'harness'),
       '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, '3rdparty'),
       '-I' + os.path.join(REPO, '3rdparty', 'crypto'), '-I' + os.path.join(REPO, '3rdparty', 'bech32'),
       '-I/usr/include/lua5.4', '-I/usr/include/jsoncpp']


class BuildError(Exception):
    pass


def _hash_files(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


_hdr_key = None


def header_key():
    global _hdr_key
    if _hdr_key is None:
        hs = []
        for root in (os.path.join(REPO, 'src'), os.path.join(REPO, '3rdparty'),
                     os.path.join(VERIF, 'shim'), os.path.join(VERIF, 'harness')):
            for d, _, fs in os.walk(root):
                hs += [os.path.join(d, f) for f in fs
                       if f.endswith(('.hpp', '.h', '.hxx', '.ipp', '.inc'))]
        _hdr_key = _hash_files(sorted(hs))
    return _hdr_key


def _compile(src, flags):
    with open(src, 'rb') as fh:
        body = fh.read()
    key = hashlib.sha256()
    key.update(src.encode())
    key.update(body)
    key.update(header_key().encode())
    key.update(' '.join([CXX] + flags).encode())
    obj = os.path.join(BUILD, 'obj', os.path.basename(src) + '.' + key.hexdigest()[:32] + '.o')
    if os.path.exists(obj):
        return obj, ''
    tmp = obj + '.tmp%d' % os.getpid()
    p = subprocess.run([CXX] + flags + ['-c', src, '-o', tmp], capture_output=True, text=True)
    if p.returncode != 0:
        return None, p.stderr
    os.replace(tmp, obj)
    return obj, ''


COMMON = ['src/util/common/buffer.cpp', 'src/util/common/hash.cpp', 'src/util/common/hashmap.cpp',
          'src/util/common/logging.cpp', 'src/util/common/variant_overloaded.cpp',
          'src/util/serialization/*.cpp',
          '3rdparty/crypto/sha256.cpp', '3rdparty/crypto/siphash.cpp',
          '3rdparty/crypto/sha512.cpp']


def expand(globs):
    out = []
    for g in globs:
        for f in sorted(glob.glob(os.path.join(REPO, g), recursive=True)):
            out.append(f)
    seen = set()
    return [f for f in out if not (f in seen or seen.add(f))]


def undefined(err):
    import re
    u = sorted(set(re.findall(r"undefined reference to `([^']*)'", err)))
    return '\n'.join(u)[:6000] if u else err[-6000:]


def driver(name, sources, repo_globs, libs=(), extra_flags=(), exclude=()):
    """Builds harness driver `name`; returns the path of the binary."""
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    flags = BASE + list(extra_flags) + INC
    mine = [os.path.join(VERIF, 'harness', s) for s in sources]
    repo = [f for f in expand(list(repo_globs) + COMMON)
            if not any(f.endswith(e) for e in exclude)]
    with ThreadPoolExecutor(int(os.environ.get('VERIF_JOBS', '8'))) as ex:
        res = list(ex.map(lambda s: (s,) + _compile(s, flags), mine + repo))
    failed = {s: err for s, o, err in res if o is None}
    for s in mine:
        if s in failed:
            raise BuildError('cannot compile %s:\n%s' % (s, '\n'.join(x for x in failed[s].split('\n') if 'error' in x)[:6000]))
    mobjs = [o for s, o, _ in res if s in mine]
    robjs = [o for s, o, _ in res if s not in mine and o]
    lk = hashlib.sha256(' '.join(mobjs + robjs + list(libs) + flags).encode()).hexdigest()[:24]
    binp = os.path.join(BUILD, 'bin', name + '.' + lk)
    if os.path.exists(binp):
        return binp
    arc = os.path.join(BUILD, 'bin', name + '.' + lk + '.a')
    if os.path.exists(arc):
        os.remove(arc)
    subprocess.run(['ar', 'rcs', arc] + robjs, check=True)
    tmp = binp + '.tmp%d' % os.getpid()
    p = subprocess.run([CXX] + list(extra_flags) + ['-pthread', '-Wl,--gc-sections', '-o', tmp] + mobjs
                       + ['-Wl,--start-group', arc, '-Wl,--end-group'] + list(libs),
                       capture_output=True, text=True)
    os.remove(arc)
    if p.returncode != 0:
        msg = 'cannot link %s:\n%s' % (name, undefined(p.stderr))
        for s, e in failed.items():
            msg += '\n-- %s did not compile:\n%s' % (s, e[:3000])
        raise BuildError(msg)
    os.replace(tmp, binp)
    return binp
