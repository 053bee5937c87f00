#!/bin/bash
# all.sh DIR [ids...] : runs the checks on existing dumps, 6 at a time (development only)
cd "$(dirname "$0")/.."; D=$1; shift
L=${*:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}
echo $L | tr ' ' '\n' | CT_DUMP=$D CT_EVID=${CT_EVID:-/tmp/ev} xargs -P6 -I{} sh -c 'timeout 800 python3 ct/main.py {} >/tmp/all.{}.$$ 2>&1; r=$?; if [ $r = 0 ]; then tail -1 /tmp/all.{}.$$; else echo "{} rc=$r"; cut -c1-300 /tmp/all.{}.$$ | head -${LINES_:-12}; fi; rm -f /tmp/all.{}.$$'
