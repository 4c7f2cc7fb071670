"""Compile the native replay battery of a property against the current tree and run it."""
import subprocess, os, tempfile, shutil, re


def run(root, prop, src, timeout=180):
    import time
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='kvc_replay_')
    repo = os.environ.get('KVC_REPO', '/repo')
    log = []
    try:
        txt = open(src).read()
        m = re.search(r'//\s*REPLAY-VARIANTS:(.*)', txt)
        variants = [v.strip() for v in m.group(1).split(',')] if m else ['asan']
        FL = {'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=null,alignment,vptr'], 'plain': [],
              'tsan': ['-fsanitize=thread', '-DKVC_FREE']}
        procs = []
        for v in variants:
            exe = os.path.join(d, v)
            cc = 'clang++'
            cmd = [('/usr/lib/llvm-18/bin/' if cc.startswith('clang') else '') + cc, '-std=c++20', '-g', '-O1', '-w', '-pthread', '-fno-access-control',
                   '-I' + repo + '/include', '-I' + os.path.join(root, 'replay'), src, '-o', exe] + FL[v]
            procs.append((v, exe, cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        ok = False
        for v, exe, cmd, pr in procs:
            o, _ = pr.communicate()
            if pr.returncode:
                log.append('[%s] replay does not compile: %s' % (v, o[-1500:]))
                continue
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:exitcode=99:detect_stack_use_after_return=1',
                       TSAN_OPTIONS='exitcode=98:halt_on_error=1', UBSAN_OPTIONS='halt_on_error=1')
            cases = subprocess.run([exe, '--list'], capture_output=True, text=True, timeout=30, env=env).stdout.split()
            run = []
            for c in cases:
                run.append((c, subprocess.Popen([exe, c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)))
            for c, q in run:
                try:
                    out, _ = q.communicate(timeout=max(5, t0 + timeout - time.time()))
                    out = out.decode('utf8', 'replace')
                    if q.returncode:
                        ok = True
                        log.append('[%s] scenario %s FAILED (exit %s)\n   command: %s && %s %s\n%s' %
                                   (v, c, q.returncode, ' '.join(cmd), exe, c, out[-3000:]))
                    else:
                        log.append('[%s] scenario %s ok' % (v, c))
                except subprocess.TimeoutExpired:
                    q.kill()
                    q.communicate()
                    ok = True
                    log.append('[%s] scenario %s HANGS (no end within %ds)' % (v, c, time.time() - t0))
        return ok, '\n'.join(log)
    finally:
        shutil.rmtree(d, ignore_errors=True)
