#!/bin/bash
# Installs hypothesis (offline wheelhouse) into .deps, next to this file.
HERE=$(cd "$(dirname "$0")" && pwd)
cd "$HERE" || exit 1
if ! [ -d .deps/hypothesis ]; then
  /opt/venv/bin/python -m pip install -q --no-index --find-links /opt/veriftools/wheels \
     --no-warn-script-location --target "$HERE/.deps" hypothesis || exit 1
fi
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$HERE/.deps" /opt/venv/bin/python -c "import hypothesis; print('hypothesis', hypothesis.__version__)"
