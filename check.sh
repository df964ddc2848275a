#!/bin/bash
# check.sh ID quick|thorough | check.sh --setup | check.sh --replay FILE
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
exec python3 "$VERIF_DIR/check.py" "$@"
