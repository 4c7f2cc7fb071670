import subprocess, os, hashlib
B = '/usr/lib/llvm-18/bin/'
REPO = os.environ.get('KVC_REPO', '/repo')
FLAGS = ['-std=c++20', '-I' + REPO + '/include', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fstandalone-debug', '-fno-access-control',
         '-DKVC=1', '-Wno-everything', '-pthread']
PASSES = 'coro-early,cgscc(coro-split),coro-cleanup,function(sroa,mem2reg)'


class BuildError(Exception):
    pass


def compile_driver(src, outdir, extra=()):
    os.makedirs(outdir, exist_ok=True)
    base = os.path.join(outdir, os.path.basename(src).rsplit('.', 1)[0])
    for l in open(src).read(2000).splitlines():
        if l.startswith('// FLAGS:'):
            extra = tuple(extra) + tuple(l[9:].split())
    bc0, bc1 = base + '.0.bc', base + '.bc'
    r = subprocess.run([B + 'clang++'] + FLAGS + list(extra) + ['-emit-llvm', '-c', src, '-o', bc0],
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[-4000:])
    r = subprocess.run([B + 'opt', '-passes=' + PASSES, bc0, '-o', bc1], capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[-4000:])
    os.remove(bc0)
    return bc1
