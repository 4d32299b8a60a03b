#!/bin/sh
# A check with the noise filtered out.
python3 /verif/check.py "$@" 2>&1 | grep -v 'rapid. draw' | grep -a -v '^	\|^$\|goroutine\|/root/go\|pgregory' | cut -c1-1500 | tail -${LINES_MAX:-25}
