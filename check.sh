#!/bin/bash
# usage: check.sh ID [--thorough] [--replay FILE] [--cases N] [--threads N]   or   check.sh --setup (only compiles)
# Compiles /repo's main sources and the harness into a scratch folder, runs one property.
# exit 0: held; 1: violation; 2: the check could not be carried out.
set -u
cd "$(dirname "$0")" || exit 2
ID=$1; shift
REPO=${VERIF_REPO:-/repo}
SEED=${VERIF_SEED:-1}
TIER=${VERIF_TIER:-quick}
export LC_ALL=C.UTF-8
for a in "$@"; do [ "$a" = --thorough ] && TIER=thorough; done
pick() { for d in "$@"; do [ -x "$d/bin/javac" ] && { echo "$d"; return; }; done; dirname "$(dirname "$(readlink -f "$(command -v javac)")")"; }
JB=$(pick /usr/lib/jvm/java-11-openjdk-amd64 /usr/lib/jvm/java-17-openjdk-amd64)
JR=$(pick /usr/lib/jvm/java-17-openjdk-amd64)
jar() { find "${GRADLE_USER_HOME:-/root/.gradle}" /root/.gradle /root/.m2 /opt -name "$1-4.1.*.jar" ! -name '*sources*' 2>/dev/null | head -1; }
NB=$(jar netty-buffer); NC=$(jar netty-common)
[ -n "$NB" ] && [ -n "$NC" ] || { echo "ERROR: netty jars not found"; exit 2; }
W=$(mktemp -d "${TMPDIR:-/tmp}/vf.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
mkdir "$W/cls" "$W/h"
find "$REPO" -path '*/src/main/java/*' -name '*.java' -not -path '*/submodules/*' | sort > "$W/src"
"$JB/bin/javac" -encoding UTF-8 -nowarn -Xlint:none -source 8 -target 8 -cp "$NB:$NC" -d "$W/cls" "@$W/src" > "$W/log" 2>&1 \
  || { grep -v '^warning' "$W/log" | head -20; echo "ERROR: /repo does not compile"; exit 2; }
EXP="--add-exports java.base/jdk.internal.org.objectweb.asm=ALL-UNNAMED"
"$JR/bin/javac" -encoding UTF-8 -nowarn -Xlint:none -XDignore.symbol.file -source 11 -target 11 $EXP -cp "$W/cls:$NB:$NC" -d "$W/h" harness/vf/*.java > "$W/log" 2>&1 \
  || { head -20 "$W/log"; echo "ERROR: the harness does not compile against /repo"; exit 2; }
[ "$ID" = --setup ] && { echo "setup: compiled $(wc -l < "$W/src") sources and the harness"; exit 0; }
OPENS=; for p in lang lang.ref util util.concurrent util.concurrent.atomic; do OPENS="$OPENS --add-opens java.base/java.$p=ALL-UNNAMED"; done
"$JR/bin/java" $EXP $OPENS -Xmx4g -Xss1m -XX:+UseParallelGC -XX:-UsePerfData -Dio.netty.leakDetection.level=disabled -Dio.netty.allocator.useCacheForAllThreads=false \
  -cp "$W/cls:$W/h:$NB:$NC" vf.Main "$ID" --root "$PWD" --classes "$W/cls" --seed "$SEED" --tier "$TIER" "$@" 2>"$W/err"
RC=$?
[ $RC -le 1 ] || tail -5 "$W/err"
exit $RC
