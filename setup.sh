#!/bin/bash
# Nothing to build: the code under test is pure Python (plus TypeScript bundled
# by each check) and the framework is Python. Verify that the tools are there.
set -e
cd "$(dirname "$0")"
PYTHONDONTWRITEBYTECODE=1 MPLCONFIGDIR=/tmp/verif-setup-mpl /opt/venv/bin/python -W ignore -c "
import vp.env, vp.core, hypothesis, numpy, scipy
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__)"
rm -rf /tmp/verif-setup-mpl
