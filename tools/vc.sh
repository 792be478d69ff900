#!/bin/sh
# tools/vc.sh PROP [NAME-PART] [REPO]: run the contracts verbosely
cd "$(dirname "$0")/.."
BIGGUS_REPO=${3:-/repo} PYVC_VERBOSE=1 PYTHONPATH=. PYTHONHASHSEED=0 python3-vt -m pyvc.run $1 quick ${SECS:-150} 8 "$2" | grep -v '^{"contracts'
