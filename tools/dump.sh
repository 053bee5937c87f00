#!/bin/bash
# dump.sh DIR : both MIR dumps, for use with CT_DUMP=DIR (development only)
V=$(cd "$(dirname "$0")/.." && pwd); export CT_DRIVER=$V/target/ct-driver
CT_DA=off bash $V/tools/frontend.sh $1 2>/dev/null & CT_DA=on bash $V/tools/frontend.sh $1-on 2>/dev/null; wait $!
