#!/bin/bash
# Builds and installs the package from /repo's working tree.
#   build.sh OUTDIR [plain|asan|pattern]     -> OUTDIR/lib/glmmsr
# Nothing is written outside OUTDIR.  Object files left by an ordinary build
# in /repo/_build are reused where the sources (and the headers they include)
# have the same contents.
set -euo pipefail
OUT=$1; MODE=${2:-plain}; REPO=${VERIF_REPO:-/repo}
export LANG=C.UTF-8 LC_ALL=C.UTF-8 R_LIBS= R_LIBS_USER=NULL R_ENVIRON_USER= R_PROFILE_USER= _R_SHLIB_STRIP_=false
export MAKEFLAGS=-j8
mkdir -p "$OUT/src" "$OUT/lib"
S=$OUT/src/glmmsr
M=$OUT/Makevars.user
if [ "$MODE" = plain ]; then
  if [ ! -e "$S" ] && [ -d "$REPO/_build/glmmsr/src" ] && [ "${VERIF_COLD:-0}" = 0 ]; then
    cp -a "$REPO/_build/glmmsr" "$S"
    # only trust an object which has a list of what it depends on
    for o in "$S"/src/*.o; do [ -e "$o" ] || continue; [ -s "${o%.o}.d" ] || rm -f "$o"; done
    rm -f "$S/src/glmmsr.so"
  fi
  cat > "$M" <<'X'
CPPFLAGS += -MMD -MP
CXXFLAGS = -O1 -g0
CXX11FLAGS = -O1 -g0 -Wno-ignored-attributes
CXX14FLAGS = -O1 -g0 -Wno-ignored-attributes
CXX17FLAGS = -O1 -g0 -Wno-ignored-attributes
$(OBJECTS): Makevars
-include $(wildcard *.d)
X
elif [ "$MODE" = pattern ]; then
  # local variables which are not initialised have a pattern, not what was on the stack
  cat > "$M" <<'X'
CXXFLAGS = -O1 -g0
CXX11FLAGS = -O1 -g0 -ftrivial-auto-var-init=pattern -Wno-ignored-attributes
CXX14FLAGS = -O1 -g0 -ftrivial-auto-var-init=pattern -Wno-ignored-attributes
CXX17FLAGS = -O1 -g0 -ftrivial-auto-var-init=pattern -Wno-ignored-attributes
X
else
  # no FORTIFY; Eigen's and the library's own assertions on; every report fatal
  cat > "$M" <<'X'
SAN = -fsanitize=address,undefined,float-cast-overflow -fno-sanitize=vptr -fno-sanitize-recover=all -fno-omit-frame-pointer
CXXFLAGS = -O1 -g1 $(SAN)
CXX11FLAGS = -O1 -g1 -UNDEBUG -D_GLIBCXX_ASSERTIONS -Wno-ignored-attributes $(SAN)
CXX14FLAGS = -O1 -g1 -UNDEBUG -D_GLIBCXX_ASSERTIONS -Wno-ignored-attributes $(SAN)
CXX17FLAGS = -O1 -g1 -UNDEBUG -D_GLIBCXX_ASSERTIONS -Wno-ignored-attributes $(SAN)
LDFLAGS += $(SAN)
X
fi
export R_MAKEVARS_USER=$M
mkdir -p "$S"
rsync -rlc --no-times --delete --exclude=/.git --exclude=/_build --exclude='*.o' --exclude='*.so' \
    --exclude='/src/*.d' --exclude=Rplots.pdf "$REPO"/ "$S"/
for d in "$S"/src/*.d; do
  [ -e "$d" ] || continue
  [ -e "${d%.d}.cpp" ] || rm -f "$d" "${d%.d}.o"
done
R CMD INSTALL --no-docs --no-test-load --no-html --no-help --no-demo --library="$OUT/lib" "$S" > "$OUT/build.log" 2>&1 || { tail -60 "$OUT/build.log"; exit 1; }
[ -e "$OUT/lib/glmmsr/libs/glmmsr.so" ]
