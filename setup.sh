#!/bin/bash
# Nothing to build: checks import /repo's working tree directly. Verify the tools are there.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
python3-vt -c "import hypothesis, sys; print('hypothesis', hypothesis.__version__)" || exit 1
mkdir -p evidence replays
exit 0
