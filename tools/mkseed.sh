#!/bin/bash
# mkseed.sh start ID | diff ID     scratch copy at /tmp/mkseed/repo
set -e
case $1 in
start) rm -rf /tmp/mkseed; mkdir -p /tmp/mkseed; git clone -q /repo /tmp/mkseed/repo;;
diff) mkdir -p /verif/seeded/$2; git -C /tmp/mkseed/repo diff > /verif/seeded/$2/patch.diff; git -C /tmp/mkseed/repo checkout -q -- .; cat /verif/seeded/$2/patch.diff;;
esac
