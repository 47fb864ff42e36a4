#!/bin/bash
# Build the harnesses against /repo and check that the tools are there.
set -e
cd "$(dirname "$0")/.."
mkdir -p work evidence
python3 - <<'P'
import sys
sys.path.insert(0, "bin")
import vlib
print(vlib.build())
print(vlib.build_shim("sched"))
print(vlib.build_shim("columns"))
import c_cxx, shutil
shutil.rmtree(c_cxx.build()[1])
P
quint typecheck spec/quint/session.qnt
echo setup done
