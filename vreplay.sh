#!/bin/bash
# vreplay.sh FILE: runs the case of a violation report again.
f=$(realpath "${1:?usage: vreplay.sh FILE}")
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p .build
bin=$PWD/.build/vmon
(cd mon && go build -o "$bin" .) || exit 2
(cd /repo && go build -o "$bin-cmd" ./cmd/mtex-render) || exit 2
case $(basename "$f") in
C21*)
	(cd mon && go build -race -o "$bin-race" .) || exit 2
	export VMON_RACE=$bin-race ;;
C28*)
	gui=$PWD/.build/gui-overlay.json
	printf '{"Replace": {"/repo/cmd/mtex-render/gui_verif_test.go": "%s/gui/gui_verif_test.go"}}\n' "$PWD" >"$gui"
	(cd /repo && go test -c -vet=off -overlay "$gui" -o "$bin-gui" ./cmd/mtex-render) || exit 2
	export VMON_GUI=$bin-gui ;;
esac
VMON_ROOT=$PWD VMON_CMD=$bin-cmd exec "$bin" replay "$f"
