#!/bin/bash
# run.sh CNN quick|thorough : builds what the check needs from /repo's working tree and runs it
cd /verif || exit 3
mkdir -p build
exec 9>build/.lock
flock 9
if ! make -s -j8 /verif/build/bin/$1 >build/make-$1.log 2>&1; then
    tail -40 build/make-$1.log; echo "build of $1 failed"; exit 2
fi
flock -u 9
exec 9>&-
exec build/bin/$1 ${2:-quick} "${@:3}"
