PROPERTY = 'P21'
NEEDS = 'a comparison of vectors that differ in the last component only, with the != operator'
BREAKS = 'operator != misses vectors that differ in one component only'
EDITS = [('include/math/vector3d.hpp', '''            || vec3d[1] != rhs.vec3d[1]
            || vec3d[2] != rhs.vec3d[2]);''', '''            || (vec3d[1] != rhs.vec3d[1]
                && vec3d[2] != rhs.vec3d[2]));''')]
SH = '''g++ -std=c++17 -w -I"$HERE/shim" -Iinclude -I"$HERE" "$HERE/demo.cpp" -o "$T/demo" && "$T/demo"'''
CPP = r'''
#include <cstdio>
#include "math/vector3d.hpp"
int main()
{
  vector3d<double> a(1, 2, 3), b(1, 2, 4), c(1, 5, 3), d(1, 2, 3), e(7, 2, 3);
  bool ok = (a != b) && (a != c) && (a != e) && !(a != d); printf("%d\n", ok); return ok ? 0 : 1;
}
'''
