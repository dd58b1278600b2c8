#!/bin/bash
# usage: plant.sh new ID PROPERTY PKG "needs" "what it breaks"  <  demo_test.go
#   records the uncommitted change of /tmp/plant (a copy of /repo) as a planted bug
# usage: plant.sh try ID...    confirm and run the check of its property against it
# usage: plant.sh reset        make /tmp/plant a fresh copy of /repo's HEAD
S=/verif/seeded
W=/tmp/plant
case $1 in
reset)
	if [ -d /tmp/plant ]; then git -C $W fetch -q /repo HEAD && git -C $W reset -q --hard FETCH_HEAD && git -C $W clean -qfd
	else git clone -q /repo $W; fi ;;
new)
	d=$S/$2; mkdir -p $d
	git -C $W diff > $d/patch.diff
	cat > $d/demo_test.go
	cat > $d/demo.sh <<'D'
#!/bin/bash
# runs the test beside this file inside the package, in /repo's working tree
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp)
trap 'rm -f "$o"' EXIT
echo "{\"Replace\":{\"$PWD/net/PKG/zz_demo_test.go\":\"$d/demo_test.go\"}}" > "$o"
timeout 120 go test -overlay "$o" -vet=off -count=1 -run '^TestDemo$' ./net/PKG
D
	sed -i "s/PKG/$4/g" $d/demo.sh; chmod +x $d/demo.sh
	python3 - "$2" "$3" "$5" "$6" <<'P'
import json,sys
i,p,n,w=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open(f"/verif/seeded/{i}/meta.json","w"),indent=1)
P
	git -C $W checkout -q -- . ;;
try)
	shift
	for id in "$@"; do
		d=$S/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
		cd /repo; git diff --quiet || { echo "/repo dirty"; exit 1; }
		bash $d/demo.sh >/tmp/plant.demo0 2>&1 && a=ok || a=FAILS-ON-CLEAN
		if ! git apply $d/patch.diff; then echo "$id: patch does not apply"; continue; fi
		b=broken-build; bash /opt/vp/build.sh >/tmp/plant.build 2>&1 && b=builds
		bash /opt/vp/test.sh /tmp/plant.json >/dev/null 2>&1
		t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open('/tmp/plant.json'))
base=b.get('stable') or b.get('passed') or b.get('tests')
print('tests-pass' if set(base)<=set(r['passed']) else 'TESTS-FAIL')" 2>&1 | tail -1)
		timeout 130 bash $d/demo.sh >/tmp/plant.demo 2>&1 && c=DEMO-NOT-FAILING || c=demo-fails
		props="$prop"; [ -n "$ALSO" ] && props="$prop $ALSO"
		r=""
		for q in $props; do
		out=$(cd /verif && VERIF_SEED=1 ./check.sh $q 2>&1); rc=$?
		echo "$out" > /tmp/plant.$id.$q.out
		r="$r $q:rc=$rc"; [ $rc = 1 ] && { echo "$out" | grep -q no-failing-input-found && r="$r(noinput)" || r="$r(input)"; }
		done
		git -C /repo checkout -q -- .
		echo "$id: $a $b $t $c |$r"
	done ;;
esac
