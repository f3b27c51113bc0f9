#!/bin/bash
# developer shortcut: build and link /tmp/simx to the binary
S=$(python3 /verif/tools/simbuild.py 2>&1 | tee /tmp/sb.log | tail -1); [ -f "$S" ] && ln -sf $S /tmp/simx || { head -20 /tmp/sb.log; exit 1; }
