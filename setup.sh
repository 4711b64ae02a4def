#!/bin/bash
# Nothing is compiled: only verify that the tools the checks need are present.
cd "$(dirname "$0")" || exit 2
. aevc/env.sh
/opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
import aevc.core, aevc.smt, aesara, aemcmc
print('ok')"
rc=$?
case "$VERIF_SCRATCH" in /tmp/aevc.*) rm -rf "$VERIF_SCRATCH";; esac
exit $rc
