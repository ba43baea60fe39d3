#!/bin/bash
# stage.sh REPO OUT : preprocess /repo's current sources the way its build does (m4), into OUT
set -e
R=$1; O=$2; mkdir -p $O
cp -r $R/model $R/transform $R/cmd $O/
for f in $R/*.h $R/*.c $R/install/prep_variadics.m4; do cp $f $O/; done
m4 -P $R/install/prep_variadics.m4 $R/apop.m4.h > $O/apop.h.in
sed -e 's/@Autoconf_no_atomics@/0/' $O/apop.h.in > $O/apop.h
ls $R/*.m4.c $R/model/*.m4.c $R/transform/*.m4.c 2>/dev/null | xargs -P 8 -I{} sh -c 'f={}; r=${f#'$R'/}; m4 -P '$R'/install/prep_variadics.m4 $f > '$O'/${r%.m4.c}.c'
