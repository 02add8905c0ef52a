#!/bin/bash
# validate one trace: val.sh TRACE
D=$(dirname "$0")/../spec
M=$(mktemp -d /tmp/tlcm.XXXX)
TRACE=$1 java -Xmx2g -Xss64m -XX:+UseSerialGC -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers 1 -metadir $M -config $D/Trace.cfg $D/Trace.tla
rm -rf "$M"
