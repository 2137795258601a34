#!/bin/bash
# tlc.sh MODEL [tier]   run one bounded model, histories to /tmp/gen.MODEL
cd /verif/spec
JPEG_MODEL=$1 JPEG_TIER=${2:-quick} timeout 3600 java -XX:+UseParallelGC -Xss64m -Xmx12g -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 8 -metadir /tmp/tlcmeta.$1 -noTE -config JpegGen.cfg JpegGen.tla > /tmp/gen.$1
grep -v GEN@ /tmp/gen.$1 | tail -${3:-25}
grep -c GEN@ /tmp/gen.$1
rm -rf /tmp/tlcmeta.$1
