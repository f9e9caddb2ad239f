#!/bin/bash
# Nothing to compile: the simulator is Python and imports lattpy from /repo's working tree.
cd "$(dirname "$0")" && mkdir -p evidence && /opt/venv/bin/python -B -c "import numpy, scipy, matplotlib"
