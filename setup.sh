#!/bin/bash
# nothing to build: checks import /repo and compile its generated kernels themselves; verify the tools are there
set -e
cd "$(dirname "$0")"
command -v gcc >/dev/null
PYTHONPATH=/repo:. PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import numpy, xarray, netCDF4, scipy; import rt.core"
echo ok
