#!/bin/sh
# rp.sh PROP RUN [tier] [lines]: replays the last violation of a run in the engine with traces
cd /verif; O=${SX_OUT:-/verif/.out}; SX_KEEP=1 SX_NATIVE=0 SX_SAMPLES=0 python3 check.py $1 ${3:-quick} $2 > /tmp/rp.out 2>&1; d=$(ls -td $O/$1-* | head -1); e=$(ls -t .cache/symx-* | head -1); $e $d/$2/all.bc --out /tmp --replay $O/replay-$1-$2.txt --time 100 2>&1 | grep -v '^{' | tail -${4:-40}; rm -rf $d
