#!/bin/bash
# nothing to build: the verifier is Python run by the pre-installed environment;
# fails early when a tool is missing
set -e
cd "$(dirname "$0")"
clang++ --version | head -1
opt --version | head -1 || true
python3-vt -c 'import z3, sys; sys.path.insert(0, "irdv"); import registry; print("z3", z3.get_version_string(), len(registry.PROPS), "properties claimed")'
mkdir -p evidence
