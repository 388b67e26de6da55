#!/bin/bash
# build.sh OUT [REPO]: builds the simulator and the code under test (from REPO's working tree) into OUT.
set -eo pipefail
here=$(cd "$(dirname "$0")" && pwd); mkdir -p "$1"; out=$(cd "$1" && pwd); repo=${2:-/repo}; J=$(nproc)
mkdir -p "$out/plugins" "$out/o" "$out/certs"; cp -r "$here"/sim/certs/. "$out/certs/"
cd "$out"
# --- simulator
case "$WSS_EXTRA" in *-UUSE_OPENSSL*) X=-DSIM_NO_TLS;; *) X=;; esac
case "$WSS_EXTRA" in *-DUSE_POLL*) X="$X -DSIM_POLL";; esac
cat > sim.mk <<MK
X=$X
S=$here/sim
OBJS=\$(patsubst %,o/sim_%.o,core mem pthread net client scen director probe push xt tls comp rpm)
all: \$(OBJS)
o/sim_%.o: \$(S)/%.cc \$(wildcard \$(S)/*.h)
	g++ \$(X) -std=c++17 -O2 -g -fno-omit-frame-pointer -Wno-misleading-indentation -Wno-deprecated-declarations -c \$< -o \$@
MK
make -s -j$J -f sim.mk all
# --- names the simulator provides: every sim_X defined there replaces X in the code under test
nm o/sim_*.o | awk '$2=="T" && $3 ~ /^sim_/ && $3!="sim_switch" && $3!="sim_thread_exit_c" && $3!="sim_yield_other" {print substr($3,5), $3}' | sort -u > redefine.txt
for n in __isoc99_sscanf; do :; done
echo "main wss_main" >> redefine.txt
# --- code under test
D="-std=c11 -D_DEFAULT_SOURCE -DWSS_SERVER_VERSION=\"v2.0.0\" -DUSE_RPMALLOC -DUSE_OPENSSL -march=native -DFIPS_mode_set(x)=(0) $WSS_EXTRA"
F="-O1 -g -DNDEBUG -fno-builtin -fsanitize=thread -fstack-protector-strong -U_FORTIFY_SOURCE -fno-omit-frame-pointer -w"
[ -z "$WSS_COV" ] || F="$F -fsanitize-coverage=trace-pc"
cut_build() { # SRC OBJ EXTRA
  gcc $D $F $3 -I"$repo/include" -I"$repo/src" -I"$repo/extensions" -I"$repo/subprotocols" -S "$1" -o "$2.s" && sed -i -E 's/^[[:space:]]*(pause|rep;?[[:space:]]*nop)[[:space:]]*$/\tnop/' "$2.s" && gcc -c "$2.s" -o "$2.tmp" && objcopy --redefine-syms="$out/redefine.txt" "$2.tmp" "$2" && rm -f "$2.tmp" "$2.s"
}
export -f cut_build; export D F repo out
rm -f o/cut_*.o o/plug_*.o
{ for f in "$repo"/src/*.c; do b=$(basename "$f" .c); [ "$b" = rpmalloc ] && continue; echo "cut_build '$f' 'o/cut_$b.o' ''"; done
  for p in subprotocols/echo/echo subprotocols/broadcast/broadcast extensions/permessage-deflate/permessage-deflate; do echo "cut_build '$repo/$p.c' 'o/plug_$(basename $p).o' '-fPIC -fvisibility=hidden'"; done
} | xargs -P $J -I{} bash -c '{}'
for f in "$repo"/src/*.c; do b=$(basename "$f" .c); [ "$b" = rpmalloc ] || [ -f "o/cut_$b.o" ] || { echo "compile failed: $f" >&2; exit 3; }; done
for p in echo broadcast permessage-deflate; do gcc -shared -Wl,-Bsymbolic o/plug_$p.o -o plugins/$p.so; done
# --- the real allocator, under other names, for the component scenario: thread-local variables become per simulated thread
clang $D ${F/-fno-builtin/} -fno-builtin -femulated-tls -Wno-everything -I"$repo/include" -I"$repo/src" -S "$repo/src/rpmalloc.c" -o o/real_rpmalloc.s
sed -i -E 's/%fs:0,/sim_ident(%rip),/; s/^[[:space:]]*(pause|rep;?[[:space:]]*nop)[[:space:]]*$/\tnop/' o/real_rpmalloc.s; clang -c o/real_rpmalloc.s -o o/real_rpmalloc.t.o   # the thread's identity
gcc $D $F -I"$repo/include" -I"$repo/src" -c "$repo/src/alloc.c" -o o/real_alloc.t.o
gcc $D -O1 -g -w -I"$repo/include" -c $here/sim/rpm_glue.c -o o/real_glue.t.o
{ cat redefine.txt; nm o/real_rpmalloc.t.o o/real_alloc.t.o | awk 'NF==3 && $2 ~ /^[TDBRVWC]$/ && $3 !~ /^__emutls/ {print $3, "real_" $3}' | sort -u; } > redefine_real.txt
for n in rpmalloc alloc glue; do objcopy --redefine-syms=redefine_real.txt o/real_$n.t.o o/real_$n.o; done
for p in probe push xa xb; do s=$p; x=0; case $p in xa) s=xt;; xb) s=xt; x=1;; esac; gcc -c -fPIC -O1 -fvisibility=hidden -DXT=$x $here/sim/$s.c -o o/hp_$p.t.o; objcopy --redefine-syms=redefine.txt o/hp_$p.t.o o/hp_$p.o; gcc -shared o/hp_$p.o -o plugins/$p.so; done
# files that lack one of the functions a plugin has to have
for y in setAllocators onInit onConnect onMessage onWrite onClose onDestroy; do objcopy --localize-symbol=$y o/hp_probe.o o/lack.o; gcc -shared o/lack.o -o plugins/s_$y.so; done
for y in setAllocators onInit onOpen inFrame inFrames outFrame outFrames onClose onDestroy; do objcopy --localize-symbol=$y o/hp_xa.o o/lack.o; gcc -shared o/lack.o -o plugins/x_$y.so; done
g++ -rdynamic -o wssim o/sim_*.o o/cut_*.o o/real_rpmalloc.o o/real_alloc.o o/real_glue.o -lssl -lcrypto -lz -ldl -lm
