#!/bin/bash
# check.sh PROPERTY [quick|thorough] [more gosym flags]
cd "$(dirname "$0")" || exit 2
p=$1; t=${2:-quick}; shift 2
if [ ! -x bin/gosym ] || [ -n "$(find gosym -newer bin/gosym -print -quit)" ]; then
	bash ./build.sh || exit 2
fi
exec ./bin/gosym -verif "$PWD" -prop "$p" -tier "$t" "$@"
