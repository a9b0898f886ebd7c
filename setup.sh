#!/bin/bash
# Nothing to build: the checks run TLC and Python straight from the committed files.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replay
command -v java >/dev/null && [ -f /opt/veriftools/tla/tla2tools.jar ] && /opt/venv/bin/python -c "import numpy, scipy"
