#!/bin/sh
# build and run a small program against the full library: run_prog.sh CONF prog.cpp [args]
conf=$1; t=$2; shift 2
cd /verif && python3 tools/build.py $conf >/dev/null || exit 2
d=$(mktemp -d /tmp/rp.XXXXXX)
python3 - "$conf" "$t" "$d" <<'PY'
import sys,glob,subprocess,os
sys.path.insert(0,'/verif/tools')
import build as b
conf,t,d=sys.argv[1:4]
fl=b.cxx_flags(conf,"generic")+['-DARCH_generic']
o=[x for x in glob.glob(f'{b.OUT}/{conf}/lib/*.o')+glob.glob(f'{b.OUT}/{conf}/f/*/*.o')+glob.glob(f'{b.OUT}/{conf}/har/shim*.o')]
p=subprocess.run(['g++','-std=c++17']+fl+[t]+o+['-o',d+'/t',b.BLAS,'-lgfortran','-lmvec','-lm'],capture_output=True,text=True)
if p.returncode: print(p.stderr[-3000:]); sys.exit(2)
PY
$d/t "$@"; rc=$?
rm -rf "$d"; exit $rc
