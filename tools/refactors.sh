#!/bin/bash
# refactors.sh SET [PROP...]: all checks against a refactored copy of the library (dev tool); prints what is not quiet.
cd /verif || exit 2
S=$1; shift
[ $# -gt 0 ] || set -- $(ls harness/h/c*.go >/dev/null; seq -f C%02g 1 29)
W=/tmp/refactor.work.$S
rm -rf /tmp/refactor.work.$S
mkdir -p $W/verif/evidence
cp -a /repo $W/repo
python3 tools/refactor.py $S $W/repo >$W/test.log 2>&1 || { cat $W/test.log; exit 1; }
cp -a harness known_findings.txt $W/verif/
sed -i "s#=> /repo#=> $W/repo#" $W/verif/harness/go.mod
for q; do
	s=$(date +%s)
	GOSYM_V=1 GOMEMLIMIT=10GiB GOGC=200 timeout 900 bin/gosym check -root $W/verif -prop $q -tier quick >/tmp/refactor.$S.$q.log 2>&1
	rc=$?
	echo "$S $q rc=$rc $(($(date +%s) - s))s $(grep -c 'unsup=[1-9]' /tmp/refactor.$S.$q.log) $(grep -c 'open=' /tmp/refactor.$S.$q.log) $(grep -m1 '^violated' /tmp/refactor.$S.$q.log | cut -c1-200) $(tail -1 /tmp/refactor.$S.$q.log | cut -c1-150)"
done
rm -rf /tmp/refactor.work.$S
