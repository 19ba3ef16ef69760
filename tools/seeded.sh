#!/bin/bash
# seeded.sh [ID...]: run each seeded bug's own check against it, in scratch copies (dev tool).
# PROPS="C01 C02" overrides the property; TIER=thorough.
cd /verif || exit 2
[ $# -gt 0 ] || set -- $(ls seeded)
./check.sh build
for i; do
	W=/tmp/seeded.work.$i.$$
	mkdir -p $W/verif/bin $W/verif/evidence
	cp -a /repo $W/repo
	cp -a harness engine check.sh known_findings.txt $W/verif/
	sed -i "s#=> /repo#=> $W/repo#" $W/verif/harness/go.mod
	p=${PROPS:-$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")}
	if git -C $W/repo apply /verif/seeded/$i/patch.diff; then
		for q in $p; do
			s=$(date +%s)
			GOMEMLIMIT=10GiB GOGC=200 timeout 900 bin/gosym check -root $W/verif -prop $q -tier ${TIER:-quick} >/tmp/seeded.$i.log 2>&1
			rc=$?
			echo "$i $q rc=$rc $(($(date +%s) - s))s $(grep -c '^VIOLATION property='$q /tmp/seeded.$i.log) $(grep -m1 '^violated' /tmp/seeded.$i.log | cut -c1-160)"
		done
	else echo "$i PATCH"; fi
	rm -rf "$W"
done
