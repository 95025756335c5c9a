#!/bin/bash
# build.sh OUTDIR: builds the simulator from /repo's working tree.
set -e
FL=${2:-plain}
R=${REPO:-/repo}; D=$(cd "$(dirname "$0")" && pwd); B=$1
mkdir -p $B/gen
if [ $FL = scripts ]; then # the polycc driver: every command a stand-in
  mkdir -p $B/wrap $B/scratch
  gcc -O1 -w $D/scripts/simcmd.c -o $B/simcmd
  for c in pluto $(sed -n '/^CMDS/,/split()/p' $D/scripts/run.py | tr -d '"()' | sed 's/^CMDS =//; s/\.split//'); do ln -f $B/simcmd $B/wrap/$c; done
  printf '#!/bin/bash\nSIM_WRAP=%s SIM_SCRATCH=%s REPO=%s exec python3 %s "$@"\n' $B/wrap $B/scratch $R $D/scripts/run.py > $B/simrun
  chmod +x $B/simrun; exit 0
fi
SRC=$(python3 - $R/lib/Makefile.am <<'PY'
import re,sys
t=open(sys.argv[1]).read().replace("\\\n"," ")
m=re.search(r"^libpluto_la_SOURCES\s*=(.*)$",t,re.M)
print(" ".join(s for s in m.group(1).split() if s.endswith((".c",".cpp"))))
PY
)
sed -n 's/^AC_INIT(\[pluto\],\[\([^]]*\)\].*/#define PLUTO_VERSION "\1"/p' $R/configure.ac > $B/gen/version.h
X=; [ $FL = asan ] && X="-fsanitize=address,undefined -fno-sanitize=vptr,nonnull-attribute,vla-bound -DSIM_ASAN"
XL=; W=; TS=
if [ $FL = threads ]; then # the sanitizer's instrumentation, a run-time of our own
  X="-DSIM_THREADS -rdynamic"; XL="-fsanitize=thread -U_FORTIFY_SOURCE -D_GLIBCXX_EXTERN_TEMPLATE=0"; TS=simthreads
  W=-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_trylock,--wrap=pthread_mutex_unlock,--wrap=pthread_once,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=strtok
  for f in strcpy stpcpy strncpy strcat strncat strlen strcmp strncmp memcmp strdup sprintf snprintf qsort rand srand strerror localtime ctime; do W=$W,--wrap=$f; done
fi
F="$X $XL -fno-omit-frame-pointer -O1 -g -w -DPLUTO_SIM -DGLPK -DLIB_PLUTO -DSCOPLIB_INT_T_IS_LONGLONG -DCLOOG_INT_GMP -I$R/include -I$R/lib -I$B/gen -I$D/shim -include $D/shim/absent_isl.h"
( for s in $SRC; do case $s in *.cpp) echo "g++ -std=c++17 $F -c $R/lib/$s -o $B/lib_$s.o";; *) echo "gcc $F -c $R/lib/$s -o $B/lib_$s.o";; esac; done
for s in shim/shim env gen machine run props props_env props_files props_threads $TS main; do echo "g++ -std=c++17 $X -fno-omit-frame-pointer -O1 -g -w -I$R/include -I$D/shim -I$D -c $D/$s.cpp -o $B/sim_$(basename $s).o"; done ) | xargs -P 8 -I{} bash -c '{}'
LO=; for s in $SRC; do LO="$LO $B/lib_$s.o"; done
g++ -no-pie $X -o $B/simrun $LO $B/sim_{shim,env,gen,machine,run,props,props_env,props_files,props_threads,main}.o ${TS:+$B/sim_$TS.o} $W -Wl,--wrap=fopen,--wrap=gettimeofday,--wrap=__isoc99_fscanf,--wrap=__isoc23_fscanf,--wrap=fscanf,--wrap=fgets,--wrap=fgetc,--wrap=getc,--wrap=getline,--wrap=fread,--wrap=isl_set_lexmin,--wrap=glp_set_obj_coef,--wrap=glp_mip_col_val,--wrap=glp_simplex,--wrap=glp_intopt -lisl -lgmp -lglpk -lgomp -lm -lpthread
