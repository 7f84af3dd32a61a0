#!/bin/bash
# mkseed.sh ID: checks the change made in the scratch copy /tmp/wt (with the
# demonstration /tmp/demo_test.go) and stores it as /verif/seeded/ID.
# meta.json is taken from standard input. Usage while planting bugs only.
id=$1; . /opt/vp/env.sh >/dev/null
cd /tmp/wt || exit 2
git diff > /tmp/patch.diff
[ -s /tmp/patch.diff ] || { echo "no change"; exit 1; }
go build ./... || exit 1
go vet ./gitdiff >/dev/null 2>&1 || echo "vet complains"
go test -count=1 ./... 2>&1 | tail -15 | grep -q '^ok\|^?' && ! go test -count=1 ./... 2>&1 | grep -q FAIL || { echo TESTS FAIL; go test ./... 2>&1 | grep -- '--- FAIL' | head; exit 1; }
d=/verif/seeded/$id; mkdir -p $d
cp /tmp/patch.diff $d/patch.diff
cp /tmp/demo_test.go $d/demo_test.go.txt
cat > $d/meta.json
cat > $d/demo.sh <<'D'
#!/bin/bash
# Runs demo_test.go.txt as an overlaid test of package gitdiff (cwd: the repository).
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp "$here/demo_test.go.txt" "$t/demo_test.go"
echo "{\"Replace\": {\"$PWD/gitdiff/zz_demo_test.go\": \"$t/demo_test.go\"}}" > "$t/o.json"
RACEFLAG go test -count=1 -vet=off -timeout 120s -overlay "$t/o.json" -run '^TestDemo$' ./gitdiff
D
if grep -q '"race": *true' $d/meta.json; then sed -i 's/RACEFLAG go test/CGO_ENABLED=1 go test -race/' $d/demo.sh; else sed -i 's/RACEFLAG //' $d/demo.sh; fi
chmod +x $d/demo.sh
bash $d/demo.sh > /tmp/demo.out 2>&1 && { echo "DEMO PASSES WITH PATCH"; cat /tmp/demo.out; rm -r $d; exit 1; }
git stash -q; bash $d/demo.sh > /tmp/demo2.out 2>&1 || { echo "DEMO FAILS UNPATCHED"; cat /tmp/demo2.out; git stash pop -q; rm -r $d; exit 1; }
git checkout -q -- . ; git stash drop -q
python3 -c "import json,sys; json.load(open('$d/meta.json'))" || exit 1
echo "stored $id"; tail -5 /tmp/demo.out | head -4
