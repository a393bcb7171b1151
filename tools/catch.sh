# Applies planted bugs to /repo one at a time, runs the check of the property each breaks (or $PROPS), and undoes them.
# usage: catch.sh ID...   (from nowhere else than a sandbox where /repo is clean)
for id in "$@"; do
p=${PROPS:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; continue; }
for q in $p; do
s=$(date +%s)
(cd /verif; VERIF_SEED=${SEED:-1} timeout 900 python3 run.py $q > /tmp/catch.out 2>&1); rc=$?
echo "$id $q rc=$rc $(( $(date +%s)-s ))s $(grep -c '^VIOLATION' /tmp/catch.out) $(grep -v '^KNOWN' /tmp/catch.out | head -1 | cut -c1-160)"
done
git -C /repo checkout -- .
done
echo CATCHDONE
