#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property of /repo's current source.
cd "$(dirname "$0")" || exit 1
prop=$1; tier=${2:-${VERIF_TIER:-quick}}
export PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin:$PATH
[ -n "$HOME" ] || export HOME=/root
if [ ! -x bin/lincheck ]; then
  bash setup.sh || { echo "the analyser does not build"; echo "VIOLATION property=$prop replay=/verif/setup.sh"; exit 1; }
fi
exec bin/lincheck -prop "$prop" -tier "$tier" -repo /repo -verif "$PWD"
