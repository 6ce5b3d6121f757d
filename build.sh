#!/bin/bash
# Builds the simulated FVENS from the working tree of /repo: build.sh [BUILDDIR]
set -e
V=$(cd "$(dirname "$0")" && pwd); B=${1:-$V/build}; REPO=${FVS_REPO:-/repo}
mkdir -p "$B/o"; cd "$B"
PI=/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/include
MPIC="$(mpicxx --showme:compile)"
INC="-isystem /usr/include/eigen3 -isystem /usr/include/scotch -isystem $PI $MPIC"
CXX="g++ -std=c++14 -w -fopenmp -DEIGEN_DONT_PARALLELIZE -DWITH_PETSC=1 -DDEBUG=1 -O1 -g1 -fno-omit-frame-pointer"
SIM="g++ -std=c++14 -w -O2 -g1 -DOMPI_SKIP_MPICXX"
: > jobs.tmp
emit() { # object, source, command: compiled only when the preprocessed inputs changed
	printf '%s\0' "$1" "$2" "$3" >> jobs.tmp; }
for f in $(cd $REPO && find src -name '*.cpp' | sort); do
	o=o/t_$(echo "$f" | tr '/' '_').o; x=""
	[ "$f" = src/fvens_steady.cpp ] && x="-Dmain=fvens_main"
	[ "$f" = src/utilities/convertformat.cpp ] && x="-Dmain=convert_main"
	emit "$o" "$REPO/$f" "$CXX -fsanitize=thread -I$REPO/src $INC $x"
done
for f in $V/sim/*.cpp; do emit "o/s_$(basename $f).o" "$f" "$SIM $INC"; done
for f in $V/sim/*.c; do emit "o/s_$(basename $f).o" "$f" "gcc -w -O2 $MPIC"; done
for f in $V/drv/*.cpp; do emit "o/d_$(basename $f).o" "$f" "$CXX -fsanitize=thread -I$REPO/src $INC"; done
cat > one.sh <<'S'
#!/bin/bash
# object source command
h=$( ( echo "$3"; $3 -E "$2" 2>/dev/null ) | sha256sum | cut -d' ' -f1)
[ -f "$1" ] && [ "$(cat "$1.h" 2>/dev/null)" = "$h" ] && exit 0
rm -f "$1.h"; $3 -c "$2" -o "$1" || exit 255; echo "$h" > "$1.h"
S
chmod +x one.sh
xargs -0 -n3 -P8 ./one.sh < jobs.tmp
ls o/*.o | while read f; do grep -qzF "$f" jobs.tmp && echo "$f"; done > objs.txt
g++ -no-pie -fopenmp -o simdrv.tmp $(cat objs.txt) -lpetsc_real -lscotch -lscotcherr -lboost_program_options -L$(dirname $(mpicxx --showme:libdirs | cut -d' ' -f1))/lib $(mpicxx --showme:link) -Wl,--no-as-needed 2>link.log || { cat link.log; exit 1; }
mv simdrv.tmp simdrv
