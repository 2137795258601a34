#!/bin/bash
# judge.sh FILE.ndjson   judge recorded histories (kept with JPEG_KEEP=1) and show the time it takes
cd /verif/spec
m=$(mktemp -d)
JPEG_TRACE=$1 java -XX:+UseParallelGC -Xss64m -Xmx12g -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 8 -metadir $m -noTE -config JpegTrace.cfg JpegTrace.tla > $m/out
grep -v VERDICT $m/out | tail -${2:-1}
grep -o '@ok@\|@wild@\|@bad:\|@kf:' $m/out | sort | uniq -c | tr '\n' ' '; echo
rm -rf "$m"
