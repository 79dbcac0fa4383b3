#!/bin/bash
# check.sh PROPERTY [quick|thorough] [flags of the harness, such as -phase P -case N]
# Builds the harness against the working tree of /repo and runs one check.
# exit 0: held; 1: violated; 3: inconclusive
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=${1:?property}
tier=${2:-${VERIF_TIER:-quick}}
shift
[ $# -gt 0 ] && shift
export HOME=${HOME:-/root}
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x "$d/go" ] && PATH=$d:$PATH && break; done
export PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off CGO_ENABLED=1
unset GOPATH GO111MODULE
tmp=$(mktemp -d /tmp/amon.XXXXXX) || exit 3
trap 'chmod -R u+w "$tmp" 2>/dev/null; /bin/rm -rf "$tmp"' EXIT
args=()
race=
case $prop in
C12|C13|C14) race=-race; args+=(-race) ;;
esac
build() {
	(cd "$here/harness" && go build $race -o "$tmp/amon" .) || return 1
	if [ "$prop" = C25 ]; then
		(cd "$here/harness" && go build -o "$tmp/aminoscan" github.com/tendermint/go-amino/cmd/aminoscan) || return 1
		args+=(-aminoscan "$tmp/aminoscan")
	fi
}
if ! build; then
	echo "INCONCLUSIVE: the harness does not build"
	exit 3
fi
"$tmp/amon" -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -dir "$tmp" -verif "$here" ${args[@]+"${args[@]}"} "$@"
rc=$?
exit $rc
