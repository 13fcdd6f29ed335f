#!/bin/bash
# check.sh PROPERTY [tier]
cd "$(dirname "$0")" || exit 2
exec python3-vt vc/check.py "$1" --tier "${2:-${VERIF_TIER:-quick}}"
