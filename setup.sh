#!/bin/bash
# Warms the builds (each check rebuilds what it needs anyway).
cd "$(dirname "$0")" && python3 - <<'P'
import sys; sys.path[:0] = ['lib', 'checks']
sys.dont_write_bytecode = True
import common; print(common.build_idlc())
import c20; c20.sched_lib()
P
