"""Builds everything a check needs from /repo's current working tree, in a scratch directory."""
import atexit, glob, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from . import ir

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('DV_REPO', '/repo')
JSON_INC = '/usr/include/json-c'


class BuildError(Exception):
    pass


def sh(cmd, cwd=None, timeout=300):
    p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    if p.returncode != 0:
        raise BuildError('%s\n%s%s' % (' '.join(cmd), p.stdout[-2000:], p.stderr[-4000:]))
    return p.stdout


class Tree:
    """a private copy of the library sources of /repo's working tree with freshly generated headers"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='dv-')
        self.pid = os.getpid()
        atexit.register(self.clean)
        self.src = os.path.join(self.dir, 'src')
        os.mkdir(self.src)
        for pat in ('*.c', '*.h', '*.hpp', '*.json', '*.py'):
            for f in glob.glob(os.path.join(REPO, pat)):
                if not f.endswith('-gen.h'):
                    shutil.copy(f, self.src)
        for f in glob.glob(self.src + '/*-gen.h'): os.unlink(f)
        for d in ('fastapprox', 'glib'): shutil.copytree(os.path.join(REPO, d), self.src + '/' + d)
        shutil.copy(os.path.join(HERE, 'config.h'), os.path.join(self.src, 'config.h'))
        sh(['python3', 'generate.py', 'mypaint-brush-settings-gen.h', 'brushsettings-gen.h'], cwd=self.src)
        self.files = sorted(glob.glob(self.src + '/*.c'))

    def clean(self):
        if os.getpid() == self.pid: shutil.rmtree(self.dir, ignore_errors=True)

    def module(self, cflags=()):
        """one LLVM module of all library sources, with debug info, in SSA form"""
        def one(f):
            o = os.path.join(self.dir, os.path.basename(f)[:-2] + '.bc')
            sh(['clang-18', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-ffp-contract=off',
                '-w', '-g', '-c', '-emit-llvm', '-DHAVE_CONFIG_H', *cflags, '-I' + self.src, '-I' + JSON_INC, f, '-o', o])
            return o
        with ThreadPoolExecutor(8) as ex: bcs = list(ex.map(one, self.files))
        out = os.path.join(self.dir, 'all.ll')
        sh(['llvm-link-18' if shutil.which('llvm-link-18') else '/usr/lib/llvm-18/bin/llvm-link', '-o', self.dir + '/all.bc'] + bcs)
        sh(['/usr/lib/llvm-18/bin/opt', '-S', '-two-entry-phi-node-folding-threshold=0', '-phi-node-folding-threshold=0', '-speculate-one-expensive-inst=false', '-passes=function(sroa,early-cse,simplifycfg<no-switch-to-lookup;bonus-inst-threshold=0;no-forward-switch-cond;keep-loops;no-hoist-common-insts;no-sink-common-insts>,loop-simplify,lcssa)', self.dir + '/all.bc', '-o', out])
        m = ir.Module(open(out).read())
        m.src = self.src
        return m

    def native(self, name, extra=(), san=True, opt='-O1', objs=None):
        """compile /verif/native/<name>.c with the real sources"""
        exe = os.path.join(self.dir, name + ('.san' if san else '.fast'))
        fl = ['-g', opt, '-w', '-ffp-contract=off']
        if san:
            fl += ['-fsanitize=address,undefined', '-fno-sanitize=shift,alignment', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
        key = 'san' if san else 'fast'
        od = os.path.join(self.dir, 'obj-' + key + opt)
        if not os.path.isdir(od):
            os.mkdir(od)
            def one(f):
                o = os.path.join(od, os.path.basename(f)[:-2] + '.o')
                sh(['gcc', *fl, '-c', '-I' + self.src, '-I' + JSON_INC, f, '-o', o])
                return o
            with ThreadPoolExecutor(8) as ex: list(ex.map(one, self.files))
        sh(['gcc', *fl, '-I' + self.src, '-I' + VERIF + '/native', '-I' + JSON_INC, os.path.join(VERIF, 'native', name + '.c'), *extra,
            *sorted(glob.glob(od + '/*.o')), '-o', exe, '-Wl,--wrap=malloc', '-ljson-c', '-lm', '-lpthread'])
        return exe
