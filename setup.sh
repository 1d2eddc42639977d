#!/bin/bash
# Builds what the checks share: the native extension of /repo's current tree (reused when unchanged).
cd "$(dirname "$0")"
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin PYTHONDONTWRITEBYTECODE=1
export TORCH_DONT_CHECK_COMPILER_ABI=1 PYTHONPATH=${VERIF_REPO:-/repo}
python lib/extbuild.py && java -version 2>&1 | head -1
