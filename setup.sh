#!/bin/bash
# Nothing to build: checks the interpreter, hypothesis and the library.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR="$(mktemp -d /tmp/verif_mpl.XXXXXX)"
/opt/venv/bin/python -B -c "
from pbt import core
spa = core.bootstrap()
import hypothesis
print('ready', spa.__file__, hypothesis.__version__)"
RC=$?
case "$MPLCONFIGDIR" in /tmp/verif_mpl.*) rm -rf -- "$MPLCONFIGDIR";; esac
exit $RC
