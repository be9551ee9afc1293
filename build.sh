#!/bin/bash
# Builds the simulator around the *current* working tree of /repo.  Output: /verif/build/simrun (git-ignored).
# Objects are cached by content hash of the source, all headers and the flags.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C
unset MAKEFLAGS CFLAGS CPPFLAGS LDFLAGS CXXFLAGS
set -eu
V=$(cd "$(dirname "$0")" && pwd)
R=${LIBU_REPO:-/repo}
B=${SIM_BUILD:-$V/build}
mkdir -p "$B/obj"
exec 9>"$B/.lock"; flock 9
mkdir -p "$B/include/u"; cp "$V/include/u/libu_conf.h" "$B/include/u/"; ln -sfn "$R/include/missing" "$B/include/u/missing"; ln -sfn "$R/include/toolbox" "$B/include/u/toolbox"
CF="-g -O1 -D_GNU_SOURCE -DHAVE_CONF_H -U_FORTIFY_SOURCE -fno-pie -fno-omit-frame-pointer -fsanitize=address -fsanitize-coverage=trace-pc -fno-builtin-malloc -fno-builtin-free -fno-builtin-strdup -fno-builtin-printf -fno-builtin-fprintf -fno-builtin-fputs -w -I$B/include -I$R/include"
XF="-std=c++17 -g -O1 -fno-omit-frame-pointer -D_GNU_SOURCE -DHAVE_CONF_H -fno-pie -w -I$B/include -I$R/include -I$V/sim"
hh=$( { find "$R/include" "$V/include" -name '*.h' -print0 | sort -z | xargs -0 cat; cat "$V/build.sh"; } | sha1sum | cut -c1-16)
sh=$(cat "$V"/sim/*.h | sha1sum | cut -c1-16)
objs=(); cmds="$B/cmds.$$"; : > "$cmds"
# simulator and scenarios
for f in "$V"/sim/*.cc "$V"/scen/*.cc; do
  k=$( { echo "$hh$sh$XF"; cat "$f" "$V"/scen/*.h 2>/dev/null; } | sha1sum | cut -c1-20); o="$B/obj/$(basename "$f" .cc)-$k.o"; objs+=("$o")
  [ -f "$o" ] || printf '%s\0' "g++ $XF -c '$f' -o '$o.tmp' && mv '$o.tmp' '$o'" >> "$cmds"
done
lib=()
for f in "$R"/srcs/toolbox/*.c; do
  [ "$(basename "$f")" = facility.c ] && continue
  k=$( { echo "$hh$CF"; cat "$f"; } | sha1sum | cut -c1-20); o="$B/obj/lib_$(basename "$f" .c)-$k.o"; lib+=("$o")
  [ -f "$o" ] || printf '%s\0' "gcc $CF -c '$f' -o '$o.tmp' && mv '$o.tmp' '$o'" >> "$cmds"
done
if ! xargs -0 -a "$cmds" -P 8 -I{} bash -c '{}' ; then rm -f "$cmds"; echo "build failed" >&2; exit 3; fi
rm -f "$cmds"
# the seam: every libc symbol the simulator defines a sim_ twin for is renamed in the library objects
k=$( (echo "${objs[@]}" "${lib[@]}") | sha1sum | cut -c1-20)
if [ ! -f "$B/simrun-$k" ]; then
  for f in "$V"/sim/*.cc; do b=$(basename "$f" .cc); for o in "${objs[@]}"; do case "$o" in "$B/obj/$b-"*) nm --defined-only "$o";; esac; done; done | awk '$3 ~ /^sim_/ {print substr($3,5), $3}' | sort -u > "$B/redef.$$"
  rl=()
  mkdir -p "$B/ren.$$"
  for o in "${lib[@]}"; do objcopy --redefine-syms="$B/redef.$$" "$o" "$B/ren.$$/$(basename "$o")"; rl+=("$B/ren.$$/$(basename "$o")"); done
  g++ -no-pie -fsanitize=address "${objs[@]}" "${rl[@]}" -o "$B/simrun-$k.tmp" -ldl && mv "$B/simrun-$k.tmp" "$B/simrun-$k" || { echo "link failed" >&2; exit 3; }
  for o in "${rl[@]}"; do rm -f "$o"; done; rmdir "$B/ren.$$"; rm -f "$B/redef.$$"
fi
ln -sfn "simrun-$k" "$B/simrun"
# keep the cache small
ls -t "$B"/simrun-* 2>/dev/null | tail -n +6 | while read -r x; do rm -f "$x"; done
ls -t "$B"/obj/*.o | tail -n +200 | while read -r x; do rm -f "$x"; done
echo "$B/simrun-$k"
