# Copied beside each demo as run.sh.  build_demo SRC OUT LIBGROUP ; run_demo EXE ARGS (scratch Wine prefix)
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
export WINEPREFIX=$W/prefix HOME=$W/home WINEDEBUG=-all WINEDLLOVERRIDES="mscoree=;mshtml=;winemenubuilder.exe=;winedbg.exe="
mkdir -p $W/home $W/run
unset DISPLAY
cleanup() { /usr/lib/wine/wineserver -k 2>/dev/null; sleep 0.3; rm -rf "$W"; }
trap cleanup EXIT
B=$REPO/.build/gmake/bin/debug
INC=""
for i in clink/app/src clink/core/include clink/core/include/core clink/lib/include clink/lib/include/lib clink/lib/src clink/lua/include clink/lua/src \
         clink/process/include clink/terminal/include clink/terminal/src clink/core/src wildmatch/wildmatch wildmatch lua/src readline readline/compat; do INC="$INC -I$REPO/$i"; done
DEFS="-DHAVE_CONFIG_H -DHANDLE_MULTIBYTE -DDEBUG -D_DEBUG -D__MSVCRT_VERSION__=0x0601 -D_WIN32_WINNT=0x0601 -DWINVER=0x0601"
CXX=/usr/bin/x86_64-w64-mingw32-g++-posix
LIBS_core="$B/libclink_core.a $B/libwildmatch.a"
LIBS_term="$B/libclink_terminal.a $LIBS_core"
LIBS_all="$B/libclink_app_common.a $B/libclink_lua.a $B/libclink_lib.a $B/libclink_terminal.a $B/libclink_process.a $B/libclink_core.a $B/libreadline.a $B/liblua.a $B/libgetopt.a $B/libwildmatch.a $B/libdetours.a"
OSLIBS="-lversion -lshlwapi -lrpcrt4 -lgdi32 -lole32 -ldbghelp -luser32 -ladvapi32 -lshell32 -loleaut32 -luuid -lcomdlg32"
build_demo() { # src out group
  local l="LIBS_$3"
  $CXX -std=c++17 -fpermissive -w -O1 -g -fno-exceptions -I$REPO/.build/gen -I$REPO/.build/gen/shim $INC $DEFS "$HERE/$1" -o "$W/$2" -static \
     -Wl,--start-group ${!l} -Wl,--end-group -Wl,--allow-multiple-definition $OSLIBS || { echo "demo does not build"; exit 3; }
}
run_demo() { /usr/lib/wine/wineserver -p; timeout 180 wineboot -i >/dev/null 2>&1; cd $W/run; timeout 60 wine "$W/$1" "${@:2}" </dev/null; local rc=$?; cd $REPO; return $rc; }
