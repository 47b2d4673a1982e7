#!/bin/bash
# render and verify one unit
cd /tmp && mkdir -p vu && cd vu && python3 /verif/verus/extract.py $1 /repo /tmp/vu/$1.rs >/dev/null 2>/tmp/vu/$1.info || { tail -3 /tmp/vu/$1.info; exit 1; }
verus $1.rs --triggers-mode silent --rlimit ${RL:-60} ${@:2} 2>&1 | grep -v "^warning" | head -${N:-100}
