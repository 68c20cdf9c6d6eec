#!/bin/bash
# Nothing is built ahead of the checks: they run Quint on the specifications and
# import pycba from /repo's working tree.  This only checks the toolchain.
cd "$(dirname "$0")" || exit 1
quint --version >/dev/null || exit 1
for f in spec/*.qnt; do quint typecheck "$f" >/dev/null || { echo "typecheck failed: $f"; exit 1; }; done
echo "specifications typecheck"
