"""Mechanical extraction: compile /repo's current sources (plus a driver that only instantiates and
forwards to them) to LLVM IR with the project's compiler, and parse the result."""
import os
import re
import shutil
import subprocess
import tempfile
from .ir import Module

REPO = os.environ.get("VF_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin/"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ["-std=gnu++20", "-O0", "-Xclang", "-disable-O0-optnone", "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names", "-S", "-emit-llvm", "-w"]


class BuildError(Exception):
    pass


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])
    return r.stdout


def module(driver, repo_srcs=(), defs=(), ndebug=False, passes="function(sroa,memcpyopt),always-inline,function(sroa,instsimplify,adce)"):
    d = tempfile.mkdtemp(prefix="vf_")
    try:
        lls = []
        srcs = [os.path.join(HERE, "drivers", driver)] + [os.path.join(REPO, s) for s in repo_srcs]
        procs = []
        for i, s in enumerate(srcs):
            out = os.path.join(d, f"{i}.ll")
            cmd = ["clang++-18", *FLAGS, f"-I{REPO}", "-I" + os.path.join(HERE, "drivers"), *defs]
            if ndebug:
                cmd.append("-DNDEBUG")
            sh(cmd + [s, "-o", out])
            lls.append(out)
        linked = os.path.join(d, "l.ll")
        if len(lls) > 1:
            sh([LLVM + "llvm-link", "-S", *lls, "-o", linked])
        else:
            linked = lls[0]
        opt = os.path.join(d, "o.ll")
        sh([LLVM + "opt", "-S", "-passes=" + passes, linked, "-o", opt])
        text = open(opt).read()
        m = Module(text)
        names = list(m.funcs)
        r = subprocess.run([LLVM + "llvm-cxxfilt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        dem = dict(zip(names, r.stdout.split("\n")))
        m.dem = dem
        return m
    finally:
        shutil.rmtree(d, ignore_errors=True)
