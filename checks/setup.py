"""Sanity test of the installed tools: imports and an out-of-tree kernel build."""
import shutil, sys
import common
common.setup_path()
import numpy, scipy, trimesh, Cython  # noqa
for tool in ("gcc", "clang"):
    if shutil.which(tool) is None:
        print("missing", tool)
        sys.exit(1)
import pvtrace  # noqa
print("setup ok")
