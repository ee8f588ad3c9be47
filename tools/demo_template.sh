#!/bin/bash
# Builds demo.cpp against the libraries of the build in the current directory and runs it.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C.UTF-8 HOME=/root
H=$(cd "$(dirname "$0")" && pwd); R=$(pwd); B=$R/.build/gmake/bin/debug; G=$R/.build/gen
W=$(mktemp -d /tmp/demo.XXXXXX); unset DISPLAY
export WINEPREFIX=$W/wine WINEDEBUG=-all WINEDLLOVERRIDES="mscoree=;mshtml=;winemenubuilder.exe=;winedbg.exe="
trap '/usr/lib/wine/wineserver -k 2>/dev/null; sleep 0.3; rm -rf "$W"' EXIT
I=""; for d in clink/test/src clink/app/src clink/core/include clink/core/include/core clink/core/src clink/lib/include clink/lib/include/lib clink/lib/src clink/lua/include clink/process/include clink/terminal/include clink/terminal/include/terminal clink/terminal/src wildmatch/wildmatch wildmatch lua/src readline readline/compat; do I="$I -I$R/$d"; done
L=""; for l in clink_app_common clink_core clink_lib clink_lua clink_process clink_terminal wildmatch lua readline detours getopt; do L="$L $B/lib$l.a"; done
x86_64-w64-mingw32-g++-posix -std=c++17 -fpermissive -w -O0 -g0 -static -ffunction-sections -fdata-sections -DHAVE_CONFIG_H -DHANDLE_MULTIBYTE -DDEBUG -D_DEBUG -D__MSVCRT_VERSION__=0x0601 -D_WIN32_WINNT=0x0601 -DWINVER=0x0601 -I$G $I -idirafter$G/shim -Wl,--gc-sections -Wl,--allow-multiple-definition -o $W/demo.exe $H/demo.cpp -Wl,--start-group $L -Wl,--end-group -lversion -lshlwapi -lrpcrt4 -lgdi32 -lole32 -ldbghelp -lkernel32 -luser32 -ladvapi32 -lshell32 -loleaut32 -luuid -lcomdlg32 > $W/log 2>&1 || { head -40 $W/log; exit 9; }
mkdir $W/d; cd $W/d; /usr/lib/wine/wineserver -p; timeout 120 wineboot -i > /dev/null 2>&1
timeout 60 wine $W/demo.exe "$@" < /dev/null; rc=$?; echo "demo exit $rc"; exit $rc
