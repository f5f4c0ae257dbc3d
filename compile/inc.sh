cd /repo/include; for h in lru/*.hpp lru/internal/*.hpp; do for c in "g++" "clang++"; do for s in 14 17; do echo "#include <$h>
int main(){}" > /tmp/h.cpp; $c -std=c++$s -I. -Wno-deprecated-declarations -fsyntax-only /tmp/h.cpp 2>/tmp/h.err || echo "FAIL $h $c $s $(grep -m1 error /tmp/h.err)"; done; done; done
