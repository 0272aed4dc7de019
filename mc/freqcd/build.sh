#!/bin/sh
# Usage: build.sh REPO OUTDIR : compiles REPO's freqcd into the explorer (OUTDIR/explorer) and as shipped (OUTDIR/freqcd).
set -e
R=$1/src/fpfind; O=$2; H=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$O"
gcc -w -o "$O/freqcd" "$R/freqcd.c" "$R/lib/getopt.c"
gcc -w -g -U_FORTIFY_SOURCE -ftrivial-auto-var-init=pattern -c -o "$O/f.o" "$R/freqcd.c"
gcc -w -g -U_FORTIFY_SOURCE -c -o "$O/g.o" "$R/lib/getopt.c"
A="--redefine-sym main=freqcd_main"
for s in select pselect poll ppoll read readv write writev open open64 openat close fcntl usleep sleep nanosleep malloc calloc realloc free exit _exit; do
  A="$A --redefine-sym $s=mc_$s"
done
objcopy $A "$O/f.o"
[ -f "$O/explorer.o" ] || g++ -std=c++17 -O1 -w -c -o "$O/explorer.o" "$H/explorer.cpp"
g++ -o "$O/explorer" "$O/explorer.o" "$O/f.o" "$O/g.o"
