#!/bin/bash
# plant.sh ID : check a seeded bug in a scratch copy: applies, builds, stable tests pass, demo 0 before / nonzero after
set -u
id=$1; S=/verif/seeded/$id; W=/tmp/plant_$id
rm -rf "/tmp/plant_$id"; cp -a /repo "$W"
cd "$W" || exit 2
git apply --check "$S/patch.diff" || { echo "DOES NOT APPLY"; rm -rf "/tmp/plant_$id"; exit 2; }
rm -rf "/tmp/demo_$id"; mkdir "/tmp/demo_$id"; cp "$S"/* "/tmp/demo_$id"/
( bash /tmp/demo_$id/demo.sh >/tmp/demo_$id/out0 2>&1 ); r0=$?
git apply "$S/patch.diff"
( bash /tmp/demo_$id/demo.sh >/tmp/demo_$id/out1 2>&1 ); r1=$?
echo "$id demo clean=$r0 patched=$r1"; [ $r0 = 0 ] || tail -5 /tmp/demo_$id/out0
tail -2 /tmp/demo_$id/out1
rm -rf "/tmp/plant_$id" "/tmp/demo_$id"
