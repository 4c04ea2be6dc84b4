#!/bin/bash
# generated text of one unit, for looking at raw verifier messages: tools/vgen.sh UNIT [verus args]
cd "$(dirname "$0")/.." && mkdir -p work/dev && python3 tools/vx.py verus/$1.vrs > work/dev/$1_raw.rs && u=$1 && shift && verus work/dev/${u}_raw.rs "$@"
