# Builds the Python module from the objects of /repo/_build and the sources build.sh leaves out (they need symdiff, whose
# submodule is empty: symdiff.cc beside this file stands in), runs a script with it, and cleans up.
# Sourced by demo.sh with cwd /repo; KIT is the folder of this file.
B=/repo/_build/devsim
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
DEFS='-DDEVSIM_COPYRIGHT_YEAR="2026" -DDEVSIM_EXTENDED_PRECISION -DDEVSIM_VERSION_STRING="2.10.1" -DLOAD_MATHLIBS -DUSE_BLAS -DUSE_ITERATIVE_SOLVER -DUSE_LAPACK -DUSE_MKL_PARDISO -DDEVSIM_MODULE_NAME=devsim_py3'
INC="-I$KIT"
for d in AutoEquation utility Geometry math models Equation Data Circuit/data errorSystem MathEval common_api GeomModels meshing commands main pythonapi; do INC="$INC -I/repo/src/$d"; done
export T KIT DEFS INC
demo_build() {
    cc="-std=gnu++17 -fPIC -O1 $DEFS $INC"
    (
        printf '%s\n' /repo/src/AutoEquation/DefaultDerivatives.cc /repo/src/AutoEquation/EdgeExprModel.cc /repo/src/AutoEquation/EquationFunctions.cc \
            /repo/src/AutoEquation/InterfaceModelExprEval.cc /repo/src/AutoEquation/InterfaceNodeExprModel.cc /repo/src/AutoEquation/ModelExprEval.cc \
            /repo/src/AutoEquation/NodeExprModel.cc /repo/src/AutoEquation/TetrahedronEdgeExprModel.cc /repo/src/AutoEquation/TriangleEdgeExprModel.cc \
            /repo/src/main/ResetAllData.cc "$KIT/symdiff.cc"
    ) | xargs -P 8 -I@ sh -c 'g++ '"$(printf '%s' "$cc" | sed 's/"/\\"/g')"' -c @ -o "$T/$(basename @ .cc).o"' || exit 3
    g++ -std=c++17 -fPIC -O2 -I/usr/include/eigen3 -shared "$KIT/mathlib.cc" -o "$T/libdsmath.so" || exit 3
    objs=$(find $B/src/AutoEquation $B/src/main/CMakeFiles/devsim_py3.dir -name '*.o' | grep -v -E '/(DefaultDerivatives|EdgeExprModel|EquationFunctions|InterfaceModelExprEval|InterfaceNodeExprModel|ModelExprEval|NodeExprModel|TetrahedronEdgeExprModel|TriangleEdgeExprModel|ResetAllData)\.cc\.o$')
    pyo=$(find $B/src/pythonapi $B/src/adiff -name '*.o' | grep -v -E 'static|adiff' )
    mkdir -p "$T/py/devsim"
    g++ -shared -o "$T/py/devsim/devsim_py3.so" "$T"/*.o $objs $pyo -Wl,--start-group $(find $B/src -name '*.a') -Wl,--end-group /repo/_build/getrf/libgetrf.a -lquadmath -lgfortran -ldl -lz || exit 3
    printf 'from .devsim_py3 import *\n' > "$T/py/devsim/__init__.py"
    cp -r /repo/python_packages "$T/py/devsim/python_packages"
}
demo_run() {
    DEVSIM_MATH_LIBS="$T/libdsmath.so" PYTHONPATH="$T/py" PYTHONDONTWRITEBYTECODE=1 python3 "$@"
}
