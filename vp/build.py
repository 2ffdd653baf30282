"""Front end: turns /repo's current working tree (plus one harness TU) into textual LLVM IR."""
import json, os, re, shlex, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VP_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def tool(*names):
    for n in names:
        p = shutil.which(n) or ('/usr/lib/llvm-18/bin/' + n if os.path.exists('/usr/lib/llvm-18/bin/' + n) else None)
        if p:
            return p
    raise SystemExit('tool not found: %s' % (names,))


CLANG = tool('clang++-18', 'clang++')
LINK = tool('llvm-link-18', 'llvm-link')
OPT = tool('opt-18', 'opt')

DROP1 = {'-O2', '-O3', '-O1', '-Os', '-save-temps', '-ggdb', '-c', '-Wall', '-Wextra', '-g', '-flto', '-fno-fat-lto-objects'}


class BuildError(Exception):
    pass


class Build:
    """configure /repo in a scratch dir (cmake gives the exact source list and flags), compile to bitcode"""

    def __init__(self, scratch):
        self.dir = scratch
        self.dropped = []
        self.cm = os.path.join(scratch, 'cm')
        os.makedirs(self.cm, exist_ok=True)
        env = dict(os.environ, CC='gcc', CXX='g++')
        r = subprocess.run(['cmake', '-S', REPO, '-B', self.cm, '-G', 'Ninja', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON',
                            '-DCMAKE_C_COMPILER=gcc', '-DCMAKE_CXX_COMPILER=g++', '-DCMAKE_BUILD_TYPE=RelWithDebInfo',
                            '-DBUILD_TESTING=OFF', '-DPROVIDE_VERSIONINFO=OFF', '-DINTERPROCEDURAL_OPTIMIZATION=OFF',
                            '-DCMAKE_CXX_FLAGS=-Wno-error', '-DCMAKE_C_FLAGS=-Wno-error'],
                           capture_output=True, text=True, env=env)
        if r.returncode:
            raise BuildError('cmake failed:\n' + r.stdout[-2000:] + r.stderr[-2000:])
        self.cc = json.load(open(os.path.join(self.cm, 'compile_commands.json')))
        self.cc = [c for c in self.cc if '/test/' not in c['file']]
        if not self.cc:
            raise BuildError('no sources')
        self.flags = self._flags(next(c for c in self.cc if c['file'].endswith('rw.cxx')))

    def _flags(self, c):
        a = shlex.split(c['command'])
        out = []
        i = 1
        while i < len(a):
            if a[i] == '-o':
                i += 2
                continue
            if a[i] in DROP1 or a[i] == c['file']:
                i += 1
                continue
            out.append(a[i])
            i += 1
        return out

    BASE = ['-O1', '-Xclang', '-disable-llvm-passes', '-w', '-gline-tables-only', '-emit-llvm', '-c', '-fno-discard-value-names']

    def one(self, src, flags, out, extra=()):
        cmd = [CLANG] + self.BASE + list(flags) + list(extra) + ['-o', out, src]
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=self.dir)
        if r.returncode:
            raise BuildError('clang failed on %s:\n%s' % (src, r.stderr[:400000]))
        return out

    def library(self, only=None):
        jobs = []
        for k, c in enumerate(self.cc):
            if only and not any(c['file'].endswith(x) for x in only):
                continue
            o = os.path.join(self.dir, '%02d_%s.bc' % (k, os.path.basename(c['file'])))
            jobs.append((c['file'], self._flags(c), o))
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda j: self.one(*j), jobs))

    PASSES = 'function(sroa,early-cse,simplifycfg),globaldce'

    def module(self, bcs, name, passes=None, keep=None):
        allbc = os.path.join(self.dir, name + '.linked.bc')
        ll = os.path.join(self.dir, name + '.ll')
        r = subprocess.run([LINK, '-o', allbc] + bcs, capture_output=True, text=True)
        if r.returncode:
            raise BuildError('llvm-link failed: ' + r.stderr[:2000])
        r = subprocess.run([OPT, '-S', '-passes=' + (passes or self.PASSES), '-o', ll, allbc], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('opt failed: ' + r.stderr[:2000])
        return ll

    def without(self, src, errors, name):
        lines = open(src).read().split('\n')
        bad = set(int(x) for x in re.findall(r'^' + re.escape(src) + r':(\d+):', errors, re.M))
        hit = False
        i = 0
        while i < len(lines):
            j = i
            head = lines[i]
            if head[:1].isalpha() and head.rstrip().endswith(('{', '\\')) and not head.startswith(('namespace', 'extern')):
                while j < len(lines) - 1 and not lines[j].startswith('}'):
                    j += 1
            if any(i + 1 <= b <= j + 1 for b in bad) and head[:1].isalpha():
                m = re.match(r'VP_OBLIGATION\((\w+)\)', head)
                self.dropped.append('%s:%d %s' % (name, i + 1, m.group(1) if m else head[:60]))
                for k in range(i, j + 1):
                    lines[k] = ''
                hit = True
            i = j + 1
        if not hit:
            return None
        out = os.path.join(self.dir, 'cut_' + os.path.basename(name))
        open(out, 'w').write('\n'.join(lines))
        return out

    def harness(self, files, name='h', extra=(), lib=None):
        """library + harness translation units -> .ll"""
        outs = []
        flags = ['-I' + os.path.join(HERE, 'harness'), '-I' + REPO, '-I' + os.path.join(REPO, 'src'), '-fno-access-control'] + list(extra)
        for f in files:
            o = os.path.join(self.dir, 'h_' + os.path.basename(f) + '.bc')
            src = os.path.join(HERE, 'harness', f)
            for _ in range(8):
                try:
                    outs.append(self.one(src, self.flags, o, flags))
                    break
                except BuildError as e:
                    # an obligation that does not fit the interface of this tree is left out (and reported as undecided)
                    src = self.without(src, str(e), f)
                    if src is None:
                        raise
        return self.module(outs + (lib if lib is not None else self.library()), name)
