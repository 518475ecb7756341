#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   (run from /verif)
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/setup.sh" || exit 2
exec "$here/bin/symgo" -verif "$here" -tier "${2:-quick}" check "$1"
