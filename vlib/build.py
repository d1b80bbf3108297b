"""Build the code under test in a private scratch copy of /repo's working tree."""
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
SKIP_SUFFIX = (".so", ".pyc", ".o")


def base_env():
    env = dict(os.environ)
    env.update(HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               SETUPTOOLS_SCM_PRETEND_VERSION="0.8.6", MPLBACKEND="agg",
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", LANG="C.UTF-8",
               HDF5_USE_FILE_LOCKING="FALSE")
    env["PATH"] = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env.pop("PYTHONPATH", None)
    return env


SETUP = """
import os, sys, numpy as np
from setuptools import setup
from setuptools.extension import Extension
from Cython.Build import cythonize
mods = []
for root, dirs, files in os.walk("mass"):
    for f in sorted(files):
        if f.endswith(".pyx"):
            mods.append(os.path.join(root, f))
cf = os.environ.get("VERIF_CFLAGS", "-O2").split()
lf = os.environ.get("VERIF_LDFLAGS", "").split()
bc = os.environ.get("VERIF_BC_CFLAGS", "-O0").split()
exts = [Extension(m[:-4].replace("/", "."), [m], include_dirs=[np.get_include()],
                  extra_compile_args=bc if m.endswith("_bc.pyx") else cf,
                  extra_link_args=[] if m.endswith("_bc.pyx") else lf) for m in mods]
directives = {"language_level": "3"}
setup(name="verifbuild", packages=[], script_args=["build_ext", "--inplace", "-j", "8"],
      ext_modules=cythonize(exts, compiler_directives=directives, nthreads=4, force=True))
"""


def make_scratch():
    return tempfile.mkdtemp(prefix="verif_mass_", dir="/tmp")


def build(scratch, cflags="-O1 -w", ldflags="", patch_pyx=None, name="tree", prepare=None, bc_cflags="-O0"):
    """Copy the working tree's package to scratch/<name> and build its extensions there."""
    dst = os.path.join(scratch, name)
    os.makedirs(dst)

    def ignore(d, names):
        out = []
        for n in names:
            if n.endswith(SKIP_SUFFIX) or n == "__pycache__":
                out.append(n)
            elif n.endswith(".c") and n[:-2] + ".pyx" in names:
                out.append(n)
        return out

    shutil.copytree(os.path.join(REPO, "mass"), os.path.join(dst, "mass"), ignore=ignore)
    shutil.copytree(os.path.join(REPO, "bin"), os.path.join(dst, "bin"), ignore=ignore)
    if not os.path.exists(os.path.join(dst, "mass", "_version.py")):
        with open(os.path.join(dst, "mass", "_version.py"), "w") as fp:
            fp.write("__version__ = version = '0.8.6'\n__version_tuple__ = version_tuple = (0, 8, 6)\n")
    if patch_pyx is not None:
        for root, _, files in os.walk(os.path.join(dst, "mass")):
            for f in files:
                if f.endswith(".pyx"):
                    p = os.path.join(root, f)
                    with open(p) as fp:
                        txt = fp.read()
                    with open(p, "w") as fp:
                        fp.write(patch_pyx(f, txt))
    if prepare is not None:
        prepare(dst)
    with open(os.path.join(dst, "verif_setup.py"), "w") as fp:
        fp.write(SETUP)
    env = base_env()
    env["VERIF_CFLAGS"] = cflags
    env["VERIF_LDFLAGS"] = ldflags
    env["VERIF_BC_CFLAGS"] = bc_cflags
    r = subprocess.run([PY, "verif_setup.py"], cwd=dst, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=600, check=False)
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode(errors="replace")[-4000:])
        raise RuntimeError("building the extensions failed")
    shutil.rmtree(os.path.join(dst, "build"), ignore_errors=True)
    return dst
