#!/bin/bash
# nothing is compiled ahead of time: every check rebuilds from /repo. Only verify that the tools are there.
set -e
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
clang --version | head -1
opt --version | head -2 | tail -1
gcc --version | head -1
mkdir -p evidence replay
