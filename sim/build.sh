#!/bin/bash
# Builds the simulator around /repo's current sources. Usage: build.sh OUTDIR  (REPO overrides /repo)
set -e
R=${REPO:-/repo}; V=$(dirname "$(realpath "$0")"); O=$(realpath -m "${1:?outdir}")
mkdir -p "$O/inc" "$O/o"
rm -f "$O"/o/*.o "$O/sim"
for h in "$R"/include/*.h; do sed -e 's/\[static [A-Za-z0-9_]*\]/[]/g; s/\[const\]/[]/g' -e '/^struct route;/d; /^struct m38_app;/d' "$h" > "$O/inc/$(basename "$h")"; done
CC=${CC:-clang}; CXX=${CXX:-clang++}
TF="-w -g -O1 -fno-omit-frame-pointer -fsanitize=address -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores -ftrivial-auto-var-init=pattern -femulated-tls -U_FORTIFY_SOURCE -D_GNU_SOURCE -pthread"
HF="-w -g1 -O1 -std=c++17 -fsanitize=address -fno-exceptions -I$O/inc -I$V"
: > "$O/jobs"
for s in "$R"/src/*.c; do b=$(basename "$s" .c); case $b in greshunkel_test|utests) continue;; esac; echo "$CC $TF -I$R/include -c $s -o $O/o/r_$b.o" >> "$O/jobs"; done
echo "$CC $TF -I$R/include -I$V -c $V/app.c -o $O/o/r_zz_app.o" >> "$O/jobs"
for s in rt shim strs tmpl world cont main; do
  # the harness objects are cached by the text they are compiled from
  k=$( (cat "$V/$s.cpp" "$V"/*.h "$O"/inc/*.h; echo "$HF") | sha256sum | cut -c1-16)
  if [ -f "$O/cache/$s-$k.o" ]; then ln -sf "$O/cache/$s-$k.o" "$O/o/h_$s.o"; else mkdir -p "$O/cache"; echo "$CXX $HF -c $V/$s.cpp -o $O/cache/$s-$k.tmp && mv $O/cache/$s-$k.tmp $O/cache/$s-$k.o && ln -sf $O/cache/$s-$k.o $O/o/h_$s.o" >> "$O/jobs"; fi
done
xargs -P 8 -d '\n' -I{} sh -c '{}' < "$O/jobs"
nm --defined-only "$O/o/h_shim.o" "$O/o/h_strs.o" | awk '$3 ~ /^sim_/ {print substr($3,5), $3}' > "$O/redef"
for o in "$O"/o/r_*.o; do objcopy --redefine-syms="$O/redef" "$o"; done
# Names that reach outside the process and that the simulator does not have must not slip through to the real world.
bad=$(nm -u "$O"/o/r_*.o | awk '{print $2}' | sort -u | grep -xE '(creat|unlink|rename|remove|link|symlink)(at)?(64)?|mk(dir|stemp|ostemp|fifo|nod|dtemp)(at|s)?(64)?|(open|fdopen|read|close)dir(64)?(_r)?|scandir.*|glob(64)?|n?ftw(64)?|v?fork|exec[lv].*|fexecve|posix_spawn.*|system|popen|pclose|wait(3|4|id|pid)?|alarm|ualarm|setitimer|timer_.*|timerfd_.*|signalfd|sig(wait|waitinfo|timedwait|suspend|queue|pending)|pause|socketpair|connect|gethostby.*|shm_.*|shm(get|at|dt|ctl)|sem_(open|close|unlink|clockwait)|msg(get|snd|rcv|ctl)|sem(get|op|ctl|timedop)|v?m?splice|tee|memfd_create|mremap|mprotect|msync|inotify_.*|fanotify_.*|statx|readlink(at)?|f?chdir|f?truncate(64)?|(posix_)?fallocate(64)?|pwrite.*|preadv.*|aio_.*|lio_listio.*|(recv|send)mmsg|pselect|epoll_p?wait2?|eventfd_.*|clone|closefrom|close_range|freopen(64)?|tmpfile(64)?|daemon|killpg|pidfd_.*|process_.*|dlopen|dlsym|flock|lockf(64)?|faccessat|euidaccess|eaccess|[fl]?chmod|[fl]?chown|utimens.*|futimens|writev64|copy_file_range|thrd_exit|quick_exit|fscanf|scanf|ungetc_unlocked' || true)
[ -z "$bad" ] || { echo "the simulator does not have: "$bad >&2; exit 3; }
$CXX -fsanitize=address -no-pie "$O"/o/*.o -o "$O/sim.tmp" -lm -lpthread -lrt
mv "$O/sim.tmp" "$O/sim"
