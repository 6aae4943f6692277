#!/bin/bash
# try.sh SEED...: builds, tests and demonstrates each planted bug in a scratch
# copy of /repo, then runs the check of its property there.
for s in "$@"; do
    d=/verif/seeded/$s
    w=/tmp/plant/$s
    rm -rf "/tmp/plant/$s"; mkdir -p /tmp/plant; cp -a /repo "$w"
    out="$s:"
    (cd "$w" && git apply "$d/patch.diff") || { echo "$out PATCH FAILS"; continue; }
    c=$(mktemp -d)
    cp -r "$d" "$c/x"; rm -f "$c"/x/*.diff "$c"/x/meta.json
    (cd /repo && timeout 300 bash "$c/x/demo.sh" >/tmp/plant/$s.clean 2>&1); a=$?
    (cd "$w" && timeout 300 bash "$c/x/demo.sh" >/tmp/plant/$s.bug 2>&1); b=$?
    rm -rf "$c"
    out="$out demo $a/$b"
    if [ -z "$NOTEST" ]; then
        if git -C "$w" diff --name-only | grep -q '^transcoder/'; then
            (cd "$w" && /opt/venv/bin/python -m pytest -q -p no:cacheprovider \
                --rootdir="$w" transcoder 2>&1 | tail -40 > /tmp/plant/$s.test)
            t=$(tail -1 /tmp/plant/$s.test)
            out="$out [$t]"
        fi
    fi
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    for q in $p $EXTRA; do
        t0=$SECONDS
        VERIF_SEED=${VERIF_SEED:-1} VERIF_REPO=$w timeout 900 /verif/bin/check $q ${TIER:-quick} > /tmp/plant/$s.$q 2>&1
        r=$?
        if [ $r = 1 ] && grep -q "^VIOLATION property=$q" /tmp/plant/$s.$q; then
            out="$out $q:CAUGHT($((SECONDS-t0))s)"
        else
            out="$out $q:missed(rc$r,$((SECONDS-t0))s)"
        fi
    done
    echo "$out"
    rm -rf "/tmp/plant/$s"
done
