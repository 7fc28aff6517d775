#!/usr/bin/env python3
"""Build the simulator of one variant from /repo's current working tree.

build.py VARIANT [VARIANT ...]   variants: compact fatty hygienic
Output: /verif/build/VARIANT/sim, rebuilt only when an input changed.
"""
import fcntl, hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SIM_REPO', '/repo')
OUT = os.environ.get('SIM_BUILD', os.path.join(VERIF, 'build'))

# not part of libsscm in this configuration (--enable-conf=full)
EXCLUDE = {'dllentry.c', 'global-aggregated.c', 'main.c', 'module-siod.c',
           'scmport-null.c', 'scmport-sbchar.c', 'strcasecmp.c', 'template.c',
           'macro.c', 'sigscheme-combined.c'}
FUNCTABLES = {
    'sscm-core': ['error.c', 'module.c'],
    'r5rs-core': ['eval.c', 'procedure.c', 'list.c'],
    'r5rs-syntax': ['syntax.c'], 'r5rs-qquote': ['qquote.c'],
    'r5rs-macro': ['macro.c'], 'r5rs-promise': ['promise.c'],
    'r5rs-number': ['number.c'], 'r5rs-number-io': ['number-io.c'],
    'r5rs-char': ['char.c'], 'r5rs-string': ['string.c'],
    'r5rs-string-procedure': ['string-procedure.c'],
    'r5rs-vector': ['vector.c'], 'r5rs-port': ['port.c'],
    'r5rs-read': ['read.c'], 'r5rs-write': ['write.c'],
    'r5rs-load': ['load.c'], 'r5rs-deep-cadrs': ['deep-cadrs.c'],
    'legacy-macro': ['legacy-macro.c'], 'sscm-ext': ['module-sscm-ext.c'],
    'srfi1': ['module-srfi1.c'], 'srfi2': ['module-srfi2.c'],
    'srfi6': ['module-srfi6.c'], 'srfi8': ['module-srfi8.c'],
    'srfi9': ['module-srfi9.c'], 'srfi23': ['module-srfi23.c'],
    'srfi28': ['module-srfi28.c'], 'srfi34': ['module-srfi34.c'],
    'srfi38': ['module-srfi38.c'], 'srfi43': ['module-srfi43.c'],
    'srfi48': ['module-srfi48.c'], 'srfi55': ['module-srfi55.c'],
    'srfi60': ['module-srfi60.c'],
}
WRAP = ['malloc', 'calloc', 'realloc', 'free', 'strdup', 'posix_memalign',
        'fopen', 'fclose', 'fgetc', 'ungetc', 'fputs', 'fwrite', 'fflush',
        'exit']
CC = os.environ.get('SIM_CC', 'gcc')
CFLAGS = ['-g1', '-fno-var-tracking', '-fno-omit-frame-pointer', '-w',
          '-fsanitize=address', '--param', 'asan-stack=0',
          '-fno-pie', '-DHAVE_CONFIG_H', '-DSCM_SIM_HOOKS=1', '-D_GNU_SOURCE',
          '-DPKGDATADIR="/share"', '-DSCMLIBDIR="/sys"']
LDFLAGS = ['-fsanitize=address', '-no-pie', '-static-libasan'] + \
          ['-Wl,--wrap=' + w for w in WRAP]


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, **kw)
    if r.returncode:
        raise SystemExit('build failed: %s\n%s' % (' '.join(cmd), r.stdout))


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def inputs(variant):
    variant = variant.replace('-opt', '')
    src = os.path.join(REPO, 'src')
    fs = [os.path.join(src, f) for f in sorted(os.listdir(src))
          if re.search(r'\.[ch]$', f) and not f.startswith('functable-')
          and f not in ('config.h', 'sigscheme-combined-trim.h')]
    t = os.path.join(REPO, 'tools')
    fs += [os.path.join(t, f) for f in sorted(os.listdir(t))
           if f.startswith(('build_func_table', 'scm_decl', 'functable-'))]
    fs += [os.path.join(VERIF, 'conf', variant, 'config.h'),
           os.path.join(HERE, 'sim.c'), os.path.abspath(__file__)]
    return fs


def build(variant):
    out = os.path.join(OUT, variant)
    os.makedirs(out, exist_ok=True)
    lock = open(os.path.join(out, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    h = hashlib.sha256()
    for f in inputs(variant):
        h.update(f.encode() + b'\0' + read(f) + b'\0')
    opt = ['-O2'] if variant.endswith('-opt') else ['-O0']
    h.update(' '.join([CC] + opt + CFLAGS + LDFLAGS).encode())
    stamp = os.path.join(out, 'stamp')
    exe = os.path.join(out, 'sim')
    if os.path.exists(stamp) and os.path.exists(exe) \
            and open(stamp).read() == h.hexdigest():
        return exe
    if os.path.exists(stamp):
        os.unlink(stamp)
    src = os.path.join(REPO, 'src')
    tools = os.path.join(REPO, 'tools')
    pool = ThreadPoolExecutor(max_workers=12)

    def gen(t):
        sh(['ruby', '-I' + tools, os.path.join(tools, 'build_func_table.rb'),
            os.path.join(out, 'functable-%s.c' % t),
            'scm_functable_' + t.replace('-', '_')] +
           [os.path.join(src, f) for f in FUNCTABLES[t]])
    list(pool.map(gen, FUNCTABLES))

    # the headers are installed below include/sigscheme by the real build
    hdr = os.path.join(out, 'include', 'sigscheme')
    os.makedirs(hdr, exist_ok=True)
    for f in inputs(variant):
        if f.endswith('.h'):
            ln = os.path.join(hdr, os.path.basename(f))
            if os.path.lexists(ln):
                os.unlink(ln)
            os.symlink(f, ln)

    ex = set(EXCLUDE)
    if variant.startswith('hygienic'):
        ex.discard('macro.c')
    cs = [os.path.basename(f) for f in inputs(variant)
          if f.startswith(src + os.sep) and f.endswith('.c')]
    cs = [c for c in cs if c not in ex]
    inc = ['-I' + os.path.join(out, 'include'), '-I' + out, '-I' + os.path.join(VERIF, 'conf', variant.replace('-opt', '')), '-I' + src]

    def cc(c):
        o = os.path.join(out, c[:-2] + '.o')
        extra = ['-Dmain=sscm_main'] if c == 'main.c' else []
        p = os.path.join(HERE if c == 'sim.c' else src, c)
        lib = [] if c in ('main.c', 'sim.c') else ['-DSCM_COMPILING_LIBSSCM=1']
        sh([CC] + opt + CFLAGS + inc + extra + lib + ['-c', p, '-o', o])
        return o
    objs = list(pool.map(cc, cs + ['main.c', 'sim.c']))
    sh([CC] + objs + LDFLAGS + ['-Wl,-Bstatic', '-lgcroots', '-Wl,-Bdynamic',
                                '-o', exe])
    with open(stamp, 'w') as f:
        f.write(h.hexdigest())
    return exe


if __name__ == '__main__':
    for v in sys.argv[1:] or ['compact', 'fatty']:
        print(build(v))
