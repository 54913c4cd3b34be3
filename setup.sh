#!/bin/bash
# Nothing persistent is built: each check compiles what it needs into a scratch folder. This only verifies the toolchain.
set -e
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -B -s -c "
import sys; sys.path.insert(0,'vlib'); import core; core.setup_paths(); import hypothesis, google.protobuf; print('hypothesis', hypothesis.__version__)"
gcc --version | head -1
