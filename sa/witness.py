"""Compile and compile-fail witnesses: small programs the type checker must
accept or reject against the current headers."""
import os
import re
import subprocess
import tempfile
import shutil
from concurrent.futures import ThreadPoolExecutor

from . import project


def compile_all(progs):
    """progs: list of (name, source) -> {name: (accepted, first error)}"""
    d = tempfile.mkdtemp(prefix='witness')
    try:
        # the headers are parsed once
        pre = os.path.join(d, 'pre.h')
        with open(pre, 'w') as f:
            f.write('#include <complex>\n#include <sstream>\n#include <string>\n#include <vector>\n#include <utility>\n#include "npy/npy.h"\n')
        pch = pre + '.pch'
        r = subprocess.run([project.CLANG, '-x', 'c++-header', pre, '-o', pch, *project.cxxflags()], capture_output=True, text=True)
        if r.returncode:
            raise project.SourceBroken('the public header does not compile:\n' + r.stderr[-2000:])

        def one(p):
            name, src = p
            fn = os.path.join(d, re.sub(r'\W', '_', name) + '.cpp')
            with open(fn, 'w') as f:
                f.write(src)
            r = subprocess.run([project.CLANG, '-fsyntax-only', '-include-pch', pch, fn, *project.cxxflags()],
                               capture_output=True, text=True)
            err = ''
            if r.returncode:
                for l in r.stderr.splitlines():
                    if ' error: ' in l:
                        err = l.replace(d + '/', '').replace(project.REPO + '/', '')
                        break
                else:
                    raise project.SourceBroken('compiler failure on %s:\n%s' % (name, r.stderr[-2000:]))
            return name, (r.returncode == 0, err)

        with ThreadPoolExecutor(8) as ex:
            return dict(ex.map(one, progs))
    finally:
        shutil.rmtree(d, ignore_errors=True)
