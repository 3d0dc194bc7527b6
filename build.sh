#!/bin/bash
# build.sh VARIANT: builds the library from /repo's current working tree together with the
# harness and prints the path of the binary. Nothing is written outside /verif/build.
#   plain  -O2, as the project builds it
#   asan   address + undefined sanitizers, libstdc++ assertions
#   tsan   thread sanitizer
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
variant=${1:-plain}
case $variant in
  plain) lflags="-O2 -g1 -DNDEBUG"; hflags="-O2 -g1"; ld="" ;;
  asan)  lflags="-O1 -g1 -D_GLIBCXX_ASSERTIONS -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined"; hflags="-O1 -g1 -DPBT_SANITIZED -fsanitize=address,undefined -fno-sanitize-recover=undefined"; ld="-fsanitize=address,undefined" ;;
  tsan)  lflags="-O1 -g1 -fsanitize=thread"; hflags="-O1 -g1 -DPBT_SANITIZED -fsanitize=thread"; ld="-fsanitize=thread" ;;
  *) echo "unknown variant $variant" >&2; exit 2 ;;
esac
key() { (cat "$@" 2>/dev/null; echo "$lflags $hflags $variant") | sha256sum | cut -c1-16; }
mapfile -t libsrc < <(find "$repo/src/src" "$repo/src/include" -type f \( -name '*.cpp' -o -name '*.h' -o -name '*.hpp' -o -name '*.inl' -o -name '*.ipp' \) | LC_ALL=C sort)
mapfile -t harsrc < <(find "$here/harness" -type f | LC_ALL=C sort)
[ ${#libsrc[@]} -gt 0 ] || { echo "no sources in $repo/src" >&2; exit 2; }
lk=$(for f in "${libsrc[@]}"; do echo "$f"; done | cat - "${libsrc[@]}" | (cat; echo "$lflags") | sha256sum | cut -c1-16)
hk=$(cat "${harsrc[@]}" "$repo"/src/include/*.h | (cat; echo "$hflags") | sha256sum | cut -c1-16)
b=$here/build
mkdir -p "$b"
exec 9>"$b/lock-$variant"; flock 9
bin=$b/$variant-$lk-$hk
if [ -x "$bin" ]; then echo "$bin"; exit 0; fi
find "$b" -maxdepth 1 -name "$variant-*" -mmin +30 -exec rm -rf {} + 2>/dev/null
ldir=$b/$variant-lib-$lk; hdir=$b/$variant-har-$hk
mkdir -p "$ldir" "$hdir"
jobs=()
compile() { # flags source object
  [ -f "$3" ] || { g++ -std=c++17 $1 -w -I"$repo/src/include" -I"$repo/src/src" -c "$2" -o "$3.tmp$$" && mv "$3.tmp$$" "$3"; }
}
for f in "${libsrc[@]}"; do case $f in "$repo"/src/src/*.cpp) compile "$lflags" "$f" "$ldir/$(echo "${f#"$repo"/src/src/}" | tr / _).o" & ;; esac; done
for f in "${harsrc[@]}"; do case $f in *.cpp) compile "$hflags -I$here/harness" "$f" "$hdir/$(basename "$f").o" & ;; esac; done
wait
for f in "${libsrc[@]}"; do case $f in "$repo"/src/src/*.cpp) [ -f "$ldir/$(echo "${f#"$repo"/src/src/}" | tr / _).o" ] || { echo "cannot compile $f" >&2; exit 2; } ;; esac; done
for f in "${harsrc[@]}"; do case $f in *.cpp) [ -f "$hdir/$(basename "$f").o" ] || { echo "cannot compile $f" >&2; exit 2; } ;; esac; done
g++ $ld "$hdir"/*.o "$ldir"/*.o -o "$bin.tmp$$" -lpthread >&2 && mv "$bin.tmp$$" "$bin" || exit 2
echo "$bin"
