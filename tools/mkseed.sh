#!/bin/bash
# mkseed.sh ID: takes the edits in /tmp/w (a copy of /repo), /tmp/seed/demo.cpp and /tmp/seed/meta.json,
# confirms them and stores them as /verif/seeded/ID.
set -e
id=$1; d=/verif/seeded/$id
git -C /tmp/w diff > /tmp/seed/patch.diff
[ -s /tmp/seed/patch.diff ] || { echo "no change"; exit 1; }
mkdir -p "$d"
cp /tmp/seed/patch.diff /tmp/seed/meta.json "$d/"
cp /tmp/seed/demo.cpp "$d/"
rm -rf "$d/kit"; cp -r /verif/demokit/kit "$d/kit"; cp /verif/demokit/demo.sh "$d/demo.sh"
[ -f /tmp/seed/demo.sh ] && cp /tmp/seed/demo.sh "$d/demo.sh"
rm -rf /tmp/dd; mkdir /tmp/dd; cp -r "$d"/* /tmp/dd/; rm -f /tmp/dd/*.diff /tmp/dd/meta.json
(cd /repo && bash /tmp/dd/demo.sh > /tmp/seed/out.clean 2>&1) && echo "clean: ok" || { echo "clean: FAILS"; tail -5 /tmp/seed/out.clean; exit 1; }
if (cd /tmp/w && bash /tmp/dd/demo.sh > /tmp/seed/out.bug 2>&1); then echo "bug: demo does not fail"; exit 1; else echo "bug: demo fails rc $?"; grep "DEMO" /tmp/seed/out.bug; fi
rm -rf /tmp/dd
