#!/bin/bash
# build.sh OUTDIR : builds the conformance drivers from /repo's working tree
set -eu
R=${REPO:-/repo}
O=$1; H=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$O"
W="-w -g -O1 -fno-omit-frame-pointer -Dmalloc=lib_malloc -Dcalloc=lib_calloc -Drealloc=lib_realloc -Dfree=lib_free"
SRC="$(ls "$R"/src/*/*.c "$R"/lib/EmbedDB-Utility/*.c)"
INC="-I$R -I$R/src -I$R/lib/EmbedDB-Utility -I$R/lib/Desktop-File-Interface"
DINC="-DDIST -DDISTB -I$R/lib/Distribution -I$R/lib/Desktop-File-Interface"
DSRC="$R/lib/Distribution/embedDB.c"
pids=()
gcc $W $INC "$H/driver.c" $SRC -lm -o "$O/drv" & pids+=($!)
gcc $W -fsanitize=address $INC "$H/driver.c" $SRC -lm -o "$O/drv-asan" & pids+=($!)
gcc $W $DINC "$H/driver.c" $DSRC -lm -o "$O/drv-dist" & pids+=($!)
gcc $W -fsanitize=address $DINC "$H/driver.c" $DSRC -lm -o "$O/drv-dist-asan" & pids+=($!)
for p in "${pids[@]}"; do wait $p; done
