#!/bin/bash
# check.sh PROPERTY quick|thorough: decides one property on /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
[ -x bin/symgo ] || bash build.sh || exit 2
exec bin/symgo check -prop "$1" -tier "${2:-quick}" -verif "$here" -repo /repo
