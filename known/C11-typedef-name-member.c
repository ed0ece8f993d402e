#include <stdio.h>
typedef int T;
struct S { T T; };
int main(void) {
  struct S s;
  s.T = 3;
  printf("%d\n", s.T);
  return 0;
}
