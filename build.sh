#!/bin/bash
# Builds the simulator binary for /repo's current working tree; prints its path.
# Usage: build.sh [REPO]      (cached by content under /verif/build)
set -e
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
V=$(cd "$(dirname "$0")" && pwd); REPO=${1:-/repo}
B=$V/build; mkdir -p "$B"
key() { (cd "$1" && find "${@:2}" -type f \( -name '*.c' -o -name '*.h' -o -name '*.cpp' -o -name '*.syms' -o -name CMakeLists.txt \) -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-16; }
KD=$( (key "$V" sim; key "$REPO" include/PSLP) | sha256sum | cut -c1-16 ); KL=$(key "$REPO" src include CMakeLists.txt)
TS=(); cleanup() { for t in "${TS[@]}"; do if [ -d "$t" ]; then rm -rf "${t:?}"; fi; done; }; trap cleanup EXIT
# driver objects
D=$B/drv-$KD
if [ ! -f "$D/ok" ]; then
    T=$(mktemp -d "$B/tmp.XXXXXX"); TS+=("$T")
    pids=()
    for f in "$V"/sim/*.cpp; do
        g++ -std=c++17 -O2 -g1 -fno-pie -Wall -Wno-misleading-indentation -I"$REPO/include/PSLP" -c "$f" -o "$T/$(basename "$f" .cpp).o" & pids+=($!)
    done
    for p in "${pids[@]}"; do wait "$p"; done
    touch "$T/ok"; [ -d "$D" ] || mv "$T" "$D"
fi
X=$B/run-$KD-$KL
if [ ! -x "$X/pslpsim" ]; then
    T=$(mktemp -d "$B/tmp.XXXXXX"); TS+=("$T")
    VER=$(sed -n 's/^set(PSLP_VERSION_\(MAJOR\|MINOR\|PATCH\) \([0-9]*\)).*/\2/p' "$REPO/CMakeLists.txt" | paste -sd.)
    pids=(); n=0
    while IFS= read -r f; do
        case "$f" in */Debugger.c) continue;; esac
        n=$((n+1))
        clang -std=c99 -O1 -g1 -w -fno-pie -DNDEBUG -D_POSIX_C_SOURCE=200809L "-DPSLP_VERSION=\"$VER\"" \
            -I"$REPO/include/PSLP" -I"$REPO/include/core" -I"$REPO/include/data_structures" -I"$REPO/include/explorers" \
            -fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0 -fsanitize-coverage=inline-8bit-counters \
            -c "$f" -o "$T/$n.$(basename "$f" .c).o" & pids+=($!)
    done < <(find "$REPO/src/core" "$REPO/src/explorers" -name '*.c' | sort)
    for p in "${pids[@]}"; do wait "$p"; done
    ld -r -o "$T/all.o" "$T"/[0-9]*.o
    nm -u "$T/all.o" | awk '{print $2}' | sort > "$T/undefined.txt"
    objcopy --redefine-syms="$V/sim/redefine.syms" \
        --rename-section .data=pslp_data --set-section-flags .bss=alloc,load,contents,data --rename-section .bss=pslp_bss,alloc,load,contents,data \
        "$T/all.o" "$T/pslp.o"
    nm -u "$T/pslp.o" | awk '{print $2}' | grep -v -e '^sim_' -e '^__tsan' -e '^__sanitizer' -e '^stderr$' -e '^stdout$' | sort > "$T/unseamed.txt" || true
    g++ -no-pie -o "$T/pslpsim" "$D"/*.o "$T/pslp.o" -lpthread -lm
    if [ -d "$X" ]; then rm -rf "${T:?}"; else mv "$T" "$X"; fi
    # keep the cache small
    ls -dt "$B"/run-* 2>/dev/null | tail -n +13 | while read -r o; do rm -rf "${o:?}"; done
    ls -dt "$B"/drv-* 2>/dev/null | tail -n +4 | while read -r o; do rm -rf "${o:?}"; done
fi
echo "$X/pslpsim"
