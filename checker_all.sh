#!/bin/bash
# run every check (quick), 8 at a time
cd "$(dirname "$0")"
ls checker/rules/p*.py | sed 's/.*\/p/P/;s/\.py//' | xargs -P 8 -I{} sh -c 'python3 checker/run.py {} quick > /tmp/chk_{}.txt 2>&1; echo "{} rc=$? $(tail -1 /tmp/chk_{}.txt | cut -c1-150)"' | sort
