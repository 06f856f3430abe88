#!/bin/bash
# tlc.sh MODULE CFG METADIR [extra java/TLC args]: run TLC on a module of spec/
m=$1; c=$2; d=$3; shift 3
exec java -XX:+UseParallelGC -Xss512m -Xmx${TLC_MEM:-6g} -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
  -DTLA-Library="$(dirname "$0")/../spec" tlc2.TLC -noGenerateSpecTE -workers ${TLC_WORKERS:-7} -metadir "$d" -config "$c" "$@" "$m"
