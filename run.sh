#!/bin/bash
# run.sh <property> <quick|thorough>: builds the check from /repo's working tree and runs it.
id=$1
tier=${2:-${VERIF_TIER:-quick}}
case $id in
    T0[1-3]) crate=tid ;;
    *) crate=harness ;;
esac
export CARGO_TERM_COLOR=never CARGO_NET_OFFLINE=true
log=$(mktemp)
cd /verif/$crate || exit 2
if ! cargo build --offline --locked >"$log" 2>&1; then
    tail -60 "$log"
    rm -f "$log"
    echo "check error: does not build"
    exit 2
fi
rm -f "$log"
bin=check; [ $crate = tid ] && bin=check-tid
exec target/debug/$bin "$id" --tier "$tier"
