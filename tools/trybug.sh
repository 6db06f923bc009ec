#!/bin/bash
# trybug.sh ID [PROP] [extra args]: runs the check of the bug's property against the patched tree.
id=$1; d=/verif/seeded/$id; prop=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
rm -rf /tmp/tw && cp -a /repo /tmp/tw && git -C /tmp/tw apply "$d/patch.diff" || exit 9
shift; shift
VERIF_REPO=/tmp/tw VERIF_EVID=/tmp/tw-evid python3 /verif/check.py $prop "$@" 2>&1 | tail -${TAIL:-12}
rm -rf /tmp/tw
