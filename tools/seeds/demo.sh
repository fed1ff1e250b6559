#!/bin/bash
# Builds the library sources of the current directory together with demo.cpp and runs it.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 2
trap 'rm -rf "$out"' EXIT
flags="-std=c++17 -O1 -w -DBOOST_CONTEXT_DYN_LINK -DSPDLOG_FMT_EXTERNAL -DSPDLOG_COMPILED_LIB -DSPDLOG_SHARED_LIB -DFMT_SHARED"
flags="$flags -I$here -I. -Ishare/thirdParty/cameron314/concurrentqueue/include"
# exported symbols let demo.cpp interpose functions of the C library
libs="-rdynamic -lspdlog -lfmt -lboost_context -lpthread -ldl -lhwloc"
export flags out
{ find redGrapes -name '*.cpp'; echo "$here/demo.cpp"; } |
    xargs -P 8 -I{} bash -c 'g++ $flags -c {} -o $out/$(echo {} | md5sum | cut -c1-16).o' || { echo "demo does not compile"; exit 1; }
g++ "$out"/*.o -o "$out/demo" $libs || exit 1
cd "$out" && timeout -k 5 100 ./demo
rc=$?
[ $rc = 0 ] && echo "demo: the property holds" || echo "demo: VIOLATED (exit code $rc)"
exit $rc
