"""Scratch copies of /repo's current working tree and their compilation."""
import os, sys, subprocess, shutil, tempfile, atexit, glob, concurrent.futures, hashlib

REPO = os.environ.get('USTL_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
CLANG = 'clang++'
GXX = 'g++-12'
BASE = ['-std=c++14', '-DNDEBUG=1', '-fno-threadsafe-statics', '-w']

class Broken(Exception):
    """the analysis itself could not run"""

class Unusable(Broken):
    """a program that uses the library as documented does not compile"""
    def __init__(self, bad):
        import re
        Broken.__init__(self, 'does not compile: ' + ', '.join(os.path.basename(s) for s, _ in bad))
        self.sites = []
        for s, o in bad:
            for l in [l for l in o.split('\n') if ' error: ' in l][:8]:
                m = re.match(r'(\S+?):(\d+):\d+: error: (.*)', l)
                if m: self.sites.append((os.path.basename(s), os.path.basename(m.group(1)) + ':' + m.group(2), m.group(3)))
            if not self.sites: self.sites.append((os.path.basename(s), '?', o[:300]))

_tmp = None
def scratch():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='ustlsa.')
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp

_src = None
def source():
    """copy of the library's sources with a generated config.h; returns the directory that
    contains it as both '.' (flat) and 'ustl/' (installed layout)"""
    global _src
    if _src: return _src
    top = os.path.join(scratch(), 'src')
    d = os.path.join(top, 'ustl')
    os.makedirs(d)
    n = 0
    for f in os.listdir(REPO):
        p = os.path.join(REPO, f)
        if os.path.isfile(p) and not os.path.islink(p) and (f.endswith(('.h', '.cc', '.in')) or f == 'configure'):
            shutil.copy2(p, os.path.join(d, f)); n += 1
    if not n: raise Broken('no sources in ' + REPO)
    if os.path.exists(os.path.join(d, 'config.h')): os.unlink(os.path.join(d, 'config.h'))
    cfg = os.path.join(d, 'configure')
    if os.path.exists(cfg):
        env = dict(os.environ, LC_ALL='C', PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
        for k in ('CC', 'CXX', 'CXXFLAGS', 'LDFLAGS', 'MAKEFLAGS'): env.pop(k, None)
        os.chmod(cfg, 0o755)
        subprocess.run(['./configure', '--builddir=_build'], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if not os.path.exists(os.path.join(d, 'config.h')):
        if os.path.exists(os.path.join(REPO, 'config.h')): shutil.copy2(os.path.join(REPO, 'config.h'), d)
        else: raise Broken('configure produced no config.h')
    _src = top
    return top

def lib_sources():
    d = os.path.join(source(), 'ustl')
    return sorted(glob.glob(os.path.join(d, '*.cc')))

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def flags(extra=()):
    top = source()
    return BASE + ['-I' + top, '-I' + os.path.join(top, 'ustl'), '-ffile-prefix-map=%s/ustl/=' % top, '-ffile-prefix-map=%s/=' % VERIF] + list(extra)

def bitcode(src, extra=(), out=None):
    out = out or os.path.join(scratch(), hashlib.md5((src + ' '.join(extra)).encode()).hexdigest() + '.bc')
    r = run([CLANG] + flags(['-O1', '-Xclang', '-disable-llvm-passes', '-g', '-emit-llvm', '-c', src, '-o', out] + list(extra)), cwd=os.path.join(source(), 'ustl'))
    return out, r

def bitcodes(srcs, extra=()):
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda s: bitcode(s, extra), srcs))

def module(probes=(), lib=True, extra=(), tag='m', passes=None):
    """compile the library and probe units, link, normalise; returns path of the JSON program"""
    srcs = (lib_sources() if lib else []) + list(probes)
    res = bitcodes(srcs, extra)
    bad = [(s, r.stdout) for s, (o, r) in zip(srcs, res) if r.returncode]
    if bad and not any(s in lib_sources() for s, _ in bad): raise Unusable(bad)
    if bad: raise Broken('does not compile: ' + '\n'.join('%s:\n%s' % b for b in bad)[:4000])
    out = os.path.join(scratch(), tag + '.json')
    tool = os.path.join(BUILD, 'irdump')
    if not os.path.exists(tool): run(['bash', os.path.join(VERIF, 'tool', 'setup.sh')])
    if not os.path.exists(tool): raise Broken('irdump is not built; run setup')
    r = run([tool, '-o', out] + (['-p', passes] if passes else []) + [o for o, _ in res])
    if r.returncode: raise Broken('irdump failed: ' + r.stdout[:2000])
    return out
