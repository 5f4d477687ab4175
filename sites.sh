#!/bin/bash
# usage: sites.sh EXECUTABLE
# Prints the addresses of instructions of the code under test that access its statics or are atomic
# (see harness/src/sites.rs).
range=$(readelf -SW "$1" | awk '{ sub(/^ *\[ *[0-9]+\] */, "") } $1 == ".data" { print "from", $3 } $1 == ".bss" { print "to", $3, $5 }')
objdump -d --no-show-raw-insn "$1" | awk -v range="$range" '
    function hex(s,  i, n) { n = 0; s = tolower(s); for (i = 1; i <= length(s); i++) n = n * 16 + index("0123456789abcdef", substr(s, i, 1)) - 1; return n }
    BEGIN { split(range, r, /[ \n]+/); from = hex(r[2]); to = hex(r[4]) + hex(r[5]) }
    # the crate that instantiated a generic function comes last in its name and says nothing about whose it is
    /^[0-9a-f]+ </ { f = $2; sub(/C[A-Za-z0-9]*_12puzzle_utils(\.llvm\.[0-9]+)?>:$/, "", f); own = f ~ /12puzzle_utils/ && f !~ /10puzzle_sim/; next }
    {
        shared = 0
        if (match($0, /# [0-9a-f]+ </)) {
            a = hex(substr($0, RSTART + 2, RLENGTH - 4))
            if (a >= from && a < to && (own || $0 ~ /12puzzle_utils/)) shared = 1
        }
        if (own && ($0 ~ /\tlock / || $0 ~ /\txchg .*\(/)) shared = 1
        if (shared && match($0, /^ *[0-9a-f]+:/)) { s = substr($0, RSTART, RLENGTH - 1); gsub(/ /, "", s); print s }
    }'
