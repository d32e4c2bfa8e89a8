#!/bin/bash
# scratchtest.sh <tree>: configure, build and test a scratch copy the way /opt/vp does for /repo
w="$1"
eval "$(sed "s#/repo#$w#g" /opt/vp/configure.sh)"
{ configure && ninja -C $B -j8 && ninja -C $B -j8 tests/all extra_tests; } >$w/.log 2>&1 || { tail -30 $w/.log; exit 1; }
ctest --test-dir $B -j8 --timeout 300 --output-on-failure --output-junit $B/ctest.xml >$w/.log 2>&1
echo '{"passed": [], "failed": []}' > $w/.out.json
python3 /opt/vp/results.py $w/.out.json junit:$B/ctest.xml >/dev/null 2>&1
python3 - $w/.out.json <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
bad=[t for t in b if t not in o['passed']]
print('failing stable tests:', bad); sys.exit(1 if bad else 0)
P
