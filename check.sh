#!/bin/bash
# Usage: check.sh PROPERTY   Decides one property of /repo's current source.
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || { echo "checker does not build"; exit 2; }
exec "$here/bin/vgcheck" -repo /repo -verif "$here" -prop "$1"
