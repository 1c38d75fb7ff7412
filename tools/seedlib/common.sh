# sourced by demo.sh: a scratch folder, the way to build a program against the library, and the command line
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
S=$repo/src/thunder
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
export CPLUS_INCLUDE_PATH=/opt/thunder_deps/py/casadi/include LIBRARY_PATH=/opt/thunder_deps/py/casadi LD_LIBRARY_PATH=/opt/thunder_deps/py/casadi
cd "$work" || exit 2
build() { # program, further sources and options
	local out=$1; shift
	g++ -std=c++17 -O0 -w -I"$here" -I"$S/library" -I/usr/include/eigen3 -o "$out" "$@" "$S/build/liblibrary.a" -lcasadi -lyaml-cpp -Wl,-rpath,/opt/thunder_deps/py/casadi || { echo "cannot build $out"; exit 3; }
}
thunder() { # config name options: the command line returns 1 when everything went well
	local conf=$1 name=$2; shift 2
	HOME=${HOME:-/root} "$S/build/thunder" gen "$conf" -n "$name" "$@" > "gen_$name.log" 2>&1
}
