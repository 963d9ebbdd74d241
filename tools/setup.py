#!/usr/bin/env python3
"""nothing to build ahead: the checks compile /repo's current tree themselves. Verifies the tools are present."""
import shutil
import sys
need = ["clang++-18", "cvc5", "z3", "z3-new", "/usr/lib/llvm-18/bin/opt", "/usr/lib/llvm-18/bin/llvm-link", "/usr/lib/llvm-18/bin/llvm-cxxfilt"]
miss = [t for t in need if not shutil.which(t)]
import z3
print("z3", z3.get_version_string(), "missing:", miss)
sys.exit(1 if miss else 0)
