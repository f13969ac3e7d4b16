#!/bin/sh
# Stands in for pdftotext: called as  -raw|-layout -q -enc UTF-8 FILE -
# Prints FILE-raw or FILE-layout, and records how it was called.
for last; do previous=$current; current=$last; done
file=$previous
mode=none
for arg; do case "$arg" in -raw|-layout) mode=$arg;; esac; done
echo "$*" >> "$file.calls"
cat "$file" > "$file.seen"
[ "$current" = "-" ] || exit 3
[ -f "$file$mode" ] && cat "$file$mode"
exit 0
