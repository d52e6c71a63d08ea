#!/bin/bash
# shrinkall.sh BIN DIR [N]: minimise up to N failures in parallel and print them
ls $2/fail.*.replay | head -${3:-6} | xargs -P 8 -I{} sh -c "$1 shrink {} {}.min --secs 20 >/dev/null"
for f in $2/*.min; do echo "== $f"; grep -v "^simcase\|^origin\|^variant\|^end\|^# minim" $f; done
