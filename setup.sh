#!/bin/bash
# Builds the MIR driver once; everything else is rebuilt by each check from /repo's working tree.
set -e
cd "$(dirname "$0")"
python3-vt -c "
import sys; sys.path.insert(0,'.')
from mirvc import runner
runner.build_mirdump()
"
