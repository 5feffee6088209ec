#!/bin/sh
# debugging aid: run checks showing every job and every distinct violation
for p in "$@"; do VERIF_ALL=1 VERIF_VERBOSE=1 python3 /verif/vc.py check $p 2>&1 | grep -v '^job\|^at\|^replayed\|^VIOLATION' | cut -c1-420 | grep -v "^  ok" ; done
