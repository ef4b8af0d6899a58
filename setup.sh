#!/bin/bash
# builds the analysis tool from the committed sources
set -e
cd "$(dirname "$0")"
python3 - <<'PY'
import sys; sys.path.insert(0, "lib")
import build, astq; build.ensure_tool(); astq.ensure()
PY
