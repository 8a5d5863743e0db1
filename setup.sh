#!/bin/bash
# Builds the storage shim. Everything else is Python.
set -e
cd "$(dirname "$0")"
mkdir -p build replays evidence
. /opt/vp/env.sh >/dev/null 2>&1 || true
python -c "
import sys; sys.path.insert(0, '.')
from sim import seams
print(seams.build_shim())"
