#!/usr/bin/env python3
"""Setup: nothing is built in advance (each check builds its harness from the working tree); verify the toolchain."""
import os, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, 'a.cpp')
    open(src, 'w').write('#include <fftw3.h>\n#include <fitsio.h>\n#include <boost/operators.hpp>\nint main() { return 0; }\n')
    for san in ('address,undefined', 'thread'):
        exe = os.path.join(d, 'a')
        p = subprocess.run(['g++-9', '-std=c++14', '-fsanitize=' + san, src, '-o', exe, '-lfftw3', '-lcfitsio', '-lboost_program_options', '-pthread'])
        if p.returncode or subprocess.run([exe]).returncode:
            print('toolchain problem with -fsanitize=' + san)
            sys.exit(1)
print('toolchain ok')
