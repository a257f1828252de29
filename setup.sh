#!/bin/sh
# checks that the tools the checks need are there; every check builds its own harness from /repo
set -e
for t in clang++ cmake ninja python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
echo 'int main(){return 0;}' | clang++ -x c++ -fsanitize=address,undefined - -o /tmp/verif-setup-$$ && /tmp/verif-setup-$$ && rm -f /tmp/verif-setup-$$
