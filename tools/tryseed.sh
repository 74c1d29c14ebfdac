#!/bin/bash
# tools/tryseed.sh ID [notest]: confirm a seeded bug in a scratch copy (demo, stable tests) and run its property's check on it
id=$1; d=/verif/seeded/$id; w=/tmp/seed-$id
[ -d "$w" ] && /bin/rm -rf "/tmp/seed-$id"
cp -a /repo "$w" || exit 3
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
demo=/tmp/seeddemo-$id; mkdir -p "$demo"; cp -r "$d"/* "$demo"/; find "$demo" -maxdepth 1 \( -name '*.diff' -o -name meta.json \) -delete
(cd "$w" && timeout 300 bash "$demo/demo.sh" >/tmp/seed-$id.clean.log 2>&1); a=$?
git -C "$w" apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
(cd "$w" && timeout 300 bash "$demo/demo.sh" >/tmp/seed-$id.bug.log 2>&1); b=$?
t=skipped
if [ "$2" != notest ]; then
  t=$(/verif/tools/stable_in.sh "$w")
fi
/bin/rm -rf "$w/mplang/kernels/libmplang_kernels.so" "$w/.mpl"
out=$(VERIF_REPO=$w VERIF_SEED=1 /verif/run.sh ${prop,,} 2>&1); c=$?
echo "$id [$prop]: demo clean=$a bug=$b tests failing=$t check=$c $(echo "$out" | grep -m1 -A0 '^---' | cut -c1-140)"
/bin/rm -rf "$w" "$demo"
