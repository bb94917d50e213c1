#!/bin/bash
# setup.sh: builds the framework (warms the build cache). Checks build again
# from /repo's working tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p .build evidence replays || exit 2
(cd mon && go build -o ../.build/vmon .) || exit 1
(cd mon && go build -race -o ../.build/vmon-race .) || exit 1
root=$PWD
(cd /repo && go build -o "$root/.build/vmon-cmd" ./cmd/mtex-render) || exit 1
printf '{"Replace": {"/repo/cmd/mtex-render/gui_verif_test.go": "%s/gui/gui_verif_test.go"}}\n' "$root" >.build/gui-overlay.json
(cd /repo && go test -c -vet=off -overlay "$root/.build/gui-overlay.json" -o "$root/.build/vmon-gui" ./cmd/mtex-render) || exit 1
echo ok
