#!/bin/sh
# build and run one of the repository's own public/internal test files against the full library
# usage: gtest_one.sh CONF path/to/test.cpp [gtest args]
conf=$1; t=$2; shift 2
cd /verif && python3 tools/build.py $conf >/dev/null || exit 2
d=$(mktemp -d /tmp/gt1.XXXXXX)
python3 - "$conf" "$t" "$d" <<'PY'
import sys,glob,subprocess,os
sys.path.insert(0,'/verif/tools')
import build as b
conf,t,d=sys.argv[1:4]
fl=b.cxx_flags(conf,"generic")+['-DARCH_generic','-DDATA_DIR="/repo/tests/data/"',f'-DTEST_OUTPUT_DIR="{d}"','-I/repo/tests/unit_tests','-I'+os.path.dirname(t)]
o=[x for x in glob.glob(f'{b.OUT}/{conf}/lib/*.o')+glob.glob(f'{b.OUT}/{conf}/f/*/*.o')+glob.glob(f'{b.OUT}/{conf}/har/shim*.o')]
extra=['/repo/tests/unit_tests/csv/csv_utils.cpp'] if 'csv' in t else []
p=subprocess.run(['g++','-std=c++17']+fl+[t]+extra+o+['-o',d+'/t','-lgtest_main','-lgtest','-lgmock',b.BLAS,'-lgfortran','-lmvec','-lm'],capture_output=True,text=True)
if p.returncode: print(p.stderr[-3000:]); sys.exit(2)
PY
(cd $d && OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=1 ./t "$@" | tail -${TAIL:-8})
rm -rf "$d"
