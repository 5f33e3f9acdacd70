import subprocess, sys
for c in ('clang-18', 'clang++-18', '/usr/lib/llvm-18/bin/opt', '/usr/lib/llvm-18/bin/llvm-extract', 'cvc5'):
    r = subprocess.run([c, '--version'], capture_output=True)
    if r.returncode:
        sys.exit('missing tool ' + c)
import z3
print('z3', z3.get_version_string())
