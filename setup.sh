#!/bin/bash
# Builds the repository's programs and the stand-in SAT solver into .build (offline).
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec python3-vt -c 'import sys; sys.path.insert(0, "."); from vh import core; core.build(["eager", "transformer", "updater", "prediction", "fakesat"])'
