#!/bin/bash
# try.sh 'python code editing files' CHECK...: run checks on a scratch copy of /repo with an edit (not for planted bugs: see plant.py)
rm -rf /tmp/try.$$; cp -a /repo /tmp/try.$$; cd /tmp/try.$$ && git checkout -q -f HEAD
python3 -c "
import sys
def sub(p, a, b, n=-1):
    s = open(p).read(); assert a in s, (p, a); open(p, 'w').write(s.replace(a, b, n))
$1" || { rm -rf /tmp/try.$$; exit 1; }
shift
for c in "$@"; do MC_REPO=/tmp/try.$$ MC_OUT=/tmp/mo bash /verif/check.sh $c > /tmp/try.out 2>&1; echo "rc=$?"; head -3 /tmp/try.out | cut -c1-300; done
rm -rf /tmp/try.$$
