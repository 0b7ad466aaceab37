"""Makes the resolved program: copies /repo's sources to a scratch directory, regenerates the tables from
/repo's own table generator, and compiles each translation unit to LLVM IR with the real build's flags."""
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('SA_REPO', '/repo')
SRC = REPO + '/src/libunicode'
UCD = '/usr/share/unicode'
CXX = '/usr/bin/clang++-18'
CC = '/usr/bin/clang-18'
OPT = '/usr/bin/opt-18'
GEN = ['ucd.cpp', 'ucd.h', 'ucd_enums.h', 'ucd_fmt.h', 'ucd_ostream.h', 'case_normalization_data.h',
       'codepoint_properties_data.h', 'codepoint_properties_data.cpp', 'codepoint_properties_names.cpp']
PASSES = 'function(sroa,instsimplify,simplifycfg)'
PASSES_EARLY = 'function(sroa,early-cse,instsimplify,simplifycfg)'
NONLIB = re.compile(r'(_test|test_main|benchmark|unicode_test|codepoint_properties_loader)\.cpp$')


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd)[:400], (p.stderr or p.stdout)[-3000:]))
    return p.stdout


class Build:
    """a scratch build of the current tree; use as a context manager"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='sa-build-')
        self.inc = self.dir + '/src'
        self.lib = self.inc + '/libunicode'
        self.ir = self.dir + '/ir'
        os.makedirs(self.ir)
        self._gen = False
        self._copy()
        self.flags = self._simdflags()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def _copy(self):
        os.makedirs(self.lib)
        for f in os.listdir(SRC):
            p = os.path.join(SRC, f)
            if f in GEN:
                continue
            if os.path.isfile(p):
                shutil.copy2(p, self.lib)
            elif os.path.isdir(p) and f not in ('__pycache__',):
                shutil.copytree(p, os.path.join(self.lib, f))

    def _simdflags(self):
        """per-source compile flags, read from the build description"""
        txt = open(SRC + '/CMakeLists.txt').read()
        var = dict(re.findall(r'set\((_[A-Z0-9]+_FLAGS) "(-m[^"]*)"\)', txt))
        out = {}
        for m in re.finditer(r'set_source_files_properties\(\s*((?:[\w./]+\s+)+?)PROPERTIES\s+COMPILE_FLAGS\s+"\$\{(\w+)\}"', txt):
            for f in m.group(1).split():
                out[f] = var.get(m.group(2), '').split()
        return out

    # ---- tables
    def tables(self):
        if self._gen:
            return
        key = None
        cache = os.environ.get('SA_CACHE')
        if cache:
            h = hashlib.sha256()
            for f in sorted(glob.glob(self.lib + '/tablegen/*') + [x for x in glob.glob(self.lib + '/*.h') if os.path.basename(x) not in GEN]):
                h.update(open(f, 'rb').read())
            key = os.path.join(cache, 'gen-' + h.hexdigest()[:24])
            if os.path.isdir(key):
                for g in GEN:
                    shutil.copy2(os.path.join(key, g), self.lib)
                self._gen = True
                return
        srcs = sorted(glob.glob(self.lib + '/tablegen/*.cpp'))
        if not srcs:
            raise BuildError('no table generator sources')
        od = self.dir + '/tg'
        os.makedirs(od, exist_ok=True)

        def comp(s):
            o = od + '/' + os.path.basename(s) + '.o'
            run([CXX, '-std=c++20', '-O1', '-DLIBUNICODE_UCD_VERSION="15.1.0"', '-I' + self.inc, '-c', s, '-o', o])
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(comp, srcs))
        run([CXX, *objs, '-o', od + '/tg'])
        run([od + '/tg', UCD, self.lib, 'unicode::precompiled'])
        for g in GEN:
            if not os.path.exists(os.path.join(self.lib, g)):
                raise BuildError('table generator did not write ' + g)
        self._gen = True
        if key:
            os.makedirs(key + '.tmp', exist_ok=True)
            for g in GEN:
                shutil.copy2(os.path.join(self.lib, g), key + '.tmp')
            try:
                os.rename(key + '.tmp', key)
            except OSError:
                shutil.rmtree(key + '.tmp', ignore_errors=True)

    # ---- translation units
    def libunits(self):
        """every translation unit of the library (not tests, tools or the loader)"""
        return sorted(f for f in os.listdir(self.lib) if f.endswith('.cpp') and not NONLIB.search(f))

    def compile(self, f, passes=PASSES, extra=(), opt='-O1', raw=False, tag='', lang=None):
        """IR text file of one unit; f is a name inside src/libunicode or an absolute path"""
        src = f if f.startswith('/') else self.lib + '/' + f
        base = os.path.basename(f)
        out = '%s/%s%s%s.ll' % (self.ir, 'probe-' if f.startswith('/') else '', base, tag)
        flags = ['-std=c++20', '-g', opt, '-DLIBUNICODE_USE_INTRINSICS', '-I' + self.inc, '-fno-discard-value-names', '-w', '-DLIBUNICODE_UCD_VERSION="15.1.0"']
        flags += self.flags.get(base, []) if not f.startswith('/') else []
        flags += list(extra)
        if not raw:
            flags += ['-Xclang', '-disable-llvm-passes']
        key = None
        cache = os.environ.get('SA_CACHE')
        if cache:
            pp = subprocess.run([CXX, *flags, '-E', '-P', src], capture_output=True).stdout
            h = hashlib.sha256(pp.replace(self.dir.encode(), b'@'))
            h.update(repr((flags[:3] + flags[6:], passes, open(src, 'rb').read())).replace(self.dir, '@').encode())
            key = os.path.join(cache, 'ir-' + h.hexdigest()[:24])
            if os.path.exists(key):
                t = open(key).read().replace('@SCRATCH@', self.dir)
                open(out, 'w').write(t)
                return out
        tmp = out + '.tmp'
        run([CXX, *flags, '-S', '-emit-llvm', src, '-o', tmp])
        if passes and not raw:
            run([OPT, '-passes=' + passes, '-S', tmp, '-o', out])
            os.unlink(tmp)
        else:
            os.rename(tmp, out)
        if key:
            os.makedirs(cache, exist_ok=True)
            t = open(out).read().replace(self.dir, '@SCRATCH@')
            open(key + '.%d' % os.getpid(), 'w').write(t)
            os.rename(key + '.%d' % os.getpid(), key)
        return out

    def compile_many(self, files, **kw):
        self.tables()
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda f: self.compile(f, **kw), files))

    def rel(self, path):
        """repo-relative name of a scratch path"""
        if path and path.startswith(self.dir + '/'):
            return path[len(self.dir) + 1:]
        return path
