"""Compile the library from /repo's working tree plus harness drivers, in a scratch directory."""
import glob, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('DPV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, 'harness')
NCPU = max(2, min(8, os.cpu_count() or 2))

IGNORELIST = """[undefined]
src:/usr/include/*
src:/usr/lib/*
[alignment]
src:/usr/include/*
"""

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, **kw)

def gsl(flag):
    r = sh(['gsl-config', flag])
    return r.stdout.split() if r.returncode == 0 else []

def variant_flags(variant, tmp):
    common = ['-std=c++11', '-fno-omit-frame-pointer', '-w']
    if variant == 'plain':
        return 'g++', common + ['-O1', '-g1', '-D_GLIBCXX_ASSERTIONS']
    if variant == 'vg':
        return 'g++', common + ['-O1', '-g']
    if variant == 'san':
        ign = os.path.join(tmp, 'ubsan.ignore')
        with open(ign, 'w') as f:
            f.write(IGNORELIST)
        return 'clang++', common + [
            '-O1', '-g1', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined', '-fno-sanitize=vptr',
            '-fno-sanitize-recover=all', '-fsanitize-address-use-after-scope',
            '-fsanitize-ignorelist=' + ign]
    if variant == 'cov':
        return 'g++', common + ['-O0', '-g', '--coverage']
    raise ValueError(variant)

def sources():
    src = os.path.join(REPO, 'src', 'diffpy')
    out = []
    for root, dirs, files in os.walk(src):
        if 'tests' in root.split(os.sep)[len(src.split(os.sep)):]:
            continue
        for f in sorted(files):
            if f.endswith('.cpp'):
                out.append(os.path.join(root, f))
    # slow ones first
    out.sort(key=lambda p: -os.path.getsize(p))
    return out

def version_header(tmp):
    """private include dir with version.hpp when the tree has none"""
    if os.path.exists(os.path.join(REPO, 'src/diffpy/version.hpp')):
        return []
    inc = os.path.join(tmp, 'inc', 'diffpy')
    os.makedirs(inc, exist_ok=True)
    tpl = os.path.join(REPO, 'src/diffpy/version.tpl')
    text = open(tpl).read()
    import re
    text = re.sub(r'\$\{[A-Z_]*DATE\}', '1970-01-01 00:00:00 UTC', text)
    text = re.sub(r'\$\{[A-Z_]*(STR|VERSION|SHA|COMMIT|HASH)\}', '0.0.0', text)
    text = re.sub(r'\$\{\w+\}', '0', text)
    with open(os.path.join(inc, 'version.hpp'), 'w') as f:
        f.write(text)
    return ['-I', os.path.join(tmp, 'inc')]

def build(variant, drivers, tmp, log=sys.stderr):
    """return {driver: path of executable}"""
    cc, flags = variant_flags(variant, tmp)
    odir = os.path.join(tmp, variant)
    os.makedirs(odir, exist_ok=True)
    inc = ['-I' + os.path.join(REPO, 'src')] + version_header(tmp) + gsl('--cflags')
    libs = ['-lboost_serialization', '-lObjCryst'] + gsl('--libs') + ['-ldl', '-lpthread']
    def compile1(args):
        src, obj, extra = args
        r = sh([cc] + flags + inc + extra + ['-c', src, '-o', obj])
        return src, r.returncode, r.stdout
    jobs = []
    dobj = {}
    for d in drivers:
        o = os.path.join(odir, 'drv_%s.o' % d)
        dobj[d] = o
        jobs.append((os.path.join(HARNESS, d + '.cpp'), o, ['-I' + HARNESS]))
    objs = []
    for s in sources():
        o = os.path.join(odir, os.path.relpath(s, REPO).replace(os.sep, '_')[:-4] + '.o')
        objs.append(o)
        jobs.append((s, o, []))
    with ThreadPoolExecutor(NCPU) as ex:
        for src, rc, out in ex.map(compile1, jobs):
            if rc:
                raise BuildError('compilation of %s failed:\n%s' % (src, out[-4000:]))
    exes = {}
    def link1(d):
        exe = os.path.join(odir, d)
        r = sh([cc] + flags + [dobj[d]] + objs + libs + ['-o', exe])
        return d, exe, r
    with ThreadPoolExecutor(NCPU) as ex:
        for d, exe, r in ex.map(link1, drivers):
            if r.returncode:
                raise BuildError('linking of %s failed:\n%s' % (d, r.stdout[-4000:]))
            exes[d] = exe
    return exes
