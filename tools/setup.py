"""setup_cmd: nothing is prebuilt (each check compiles the current headers itself); verify that the tools are there."""
import sys, subprocess, os
sys.path.insert(0, '/verif/kvc')
import z3
subprocess.run(['/usr/lib/llvm-18/bin/clang++', '--version'], check=True, stdout=subprocess.DEVNULL)
subprocess.run(['/usr/lib/llvm-18/bin/opt', '--version'], check=True, stdout=subprocess.DEVNULL)
import ir, engine, loops
os.makedirs('/verif/evidence', exist_ok=True)
print('kvc ready, z3', z3.get_version_string())
