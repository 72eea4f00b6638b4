#!/bin/bash
# run.sh ID [quick|thorough]: builds the monitors and what they drive from /repo's
# current working tree, runs one property check, removes its build output.
id="$1"; tier="${2:-quick}"
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$here" VERIF_TIER="$tier" VERIF_SEED="${VERIF_SEED:-1}"
export HOME="${HOME:-/root}"
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS
out="$(mktemp -d /tmp/vmonbin.XXXXXX)" || exit 2
cleanup() { [ -n "$out" ] && find "$out" -delete; }
trap cleanup EXIT
race=""
case "$id" in C27|C41) race="-race"; export VMON_RACE=1 ;; esac
cd "$here/harness" || exit 2
if ! go build $race -o "$out/vmon" . 2> "$out/build.log"; then
  cat "$out/build.log"; echo "BUILD-FAILED"; exit 2
fi
bins=""
case "$id" in
  C12|C13|C14|C15|C16|C22) bins="buildifier" ;;
esac
case "$id" in
  C14|C2[3-9]|C3[0-4]|C47|C50) bins="$bins buildozer" ;;
esac
case "$id" in C36|C37) bins="unused_deps buildozer" ;; C38) bins="buildifier buildozer";; C30) bins="buildozer buildifier";; esac
for b in $bins; do
  if ! (cd /repo && GOFLAGS=-mod=readonly go build $race -o "$out/$b" "./$b") 2> "$out/build.log"; then
    cat "$out/build.log"; echo "BUILD-FAILED"; exit 2
  fi
done
VMON_BIN="$out" "$out/vmon" "$id"
exit $?
