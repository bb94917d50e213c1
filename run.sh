#!/bin/bash
# run.sh ID [args]: builds the monitors against /repo's working tree and runs
# the check of property ID (VERIF_SEED, VERIF_TIER in the environment).
cd "$(dirname "$0")" || exit 2
. ./env.sh
id=${1:?usage: run.sh ID}
bin=$PWD/.build/vmon
mkdir -p .build evidence replays || exit 2
(cd mon && go build -o "$bin" .) || { echo "BUILD-FAILED: vmon" >&2; exit 2; }
export VMON_ROOT=$PWD
case $id in
C21)
	(cd mon && go build -race -o "$bin-race" .) || { echo "BUILD-FAILED: vmon -race" >&2; exit 2; }
	export VMON_RACE=$bin-race ;;
C24)
	(cd /repo && go build -o "$bin-cmd" ./cmd/mtex-render) || { echo "BUILD-FAILED: mtex-render" >&2; exit 2; }
	export VMON_CMD=$bin-cmd ;;
C28)
	gui=$PWD/.build/gui-overlay.json
	printf '{"Replace": {"/repo/cmd/mtex-render/gui_verif_test.go": "%s/gui/gui_verif_test.go"}}\n' "$PWD" >"$gui"
	(cd /repo && go test -c -vet=off -overlay "$gui" -o "$bin-gui" ./cmd/mtex-render) || { echo "BUILD-FAILED: gui" >&2; exit 2; }
	export VMON_GUI=$bin-gui ;;
esac
exec "$bin" check "$@"
