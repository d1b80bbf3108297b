"""Build the native kernels with AddressSanitizer and UndefinedBehaviorSanitizer, plus a bounds-checked twin of each.

mass/x/y.pyx becomes two extension modules in the scratch tree: mass.x.y (the code as written, instrumented) and
mass.x.y_bc (the same text with every boundscheck(False) turned into True). Locals start from a pattern in the first and
from zero in the twin, so a result that depends on an uninitialised variable differs between the two.
"""
import os
import re
import subprocess

from . import build as vbuild

SAN = ("-O1 -g1 -w -fno-omit-frame-pointer -fsanitize=address,undefined,float-cast-overflow -fno-sanitize=alignment,vptr "
       "-fno-sanitize-recover=all")


def checked(txt):
    txt = re.sub(r"boundscheck\s*\(\s*False\s*\)", "boundscheck(True)", txt)
    return re.sub(r"boundscheck(\s*)=(\s*)False", r"boundscheck\1=\2True", txt)


def add_twins(tree):
    for root, _, files in os.walk(os.path.join(tree, "mass")):
        for f in files:
            if f.endswith(".pyx") and not f.endswith("_bc.pyx"):
                p = os.path.join(root, f)
                with open(p) as fp:
                    txt = fp.read()
                with open(p[:-4] + "_bc.pyx", "w") as fp:
                    fp.write(checked(txt))


def build(scratch):
    return vbuild.build(scratch, cflags=SAN + " -ftrivial-auto-var-init=pattern",
                        bc_cflags="-O0 -w -ftrivial-auto-var-init=zero",
                        ldflags="-fsanitize=address,undefined", prepare=add_twins)


def _lib(name):
    r = subprocess.run(["gcc", f"-print-file-name={name}"], capture_output=True, text=True, check=True)
    return os.path.realpath(r.stdout.strip())


def environment(env, scratch):
    env["LD_PRELOAD"] = _lib("libasan.so") + ":" + _lib("libubsan.so")
    log = os.path.join(scratch, "asan.san")
    env["ASAN_OPTIONS"] = f"detect_leaks=0:log_path={log}:allocator_may_return_null=1:abort_on_error=0:max_malloc_fill_size=65536:malloc_fill_byte=190"
    env["UBSAN_OPTIONS"] = f"print_stacktrace=1:halt_on_error=1:log_path={log}"
    env["PYTHONMALLOC"] = "malloc"
