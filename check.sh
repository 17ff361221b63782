#!/bin/bash
# usage: check.sh PROPERTY [--replay FILE]   (cwd does not matter)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
cd "$HERE" || exit 2
exec python3-vt -m vf.run "$@"
