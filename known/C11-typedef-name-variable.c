#include <stdio.h>
typedef int T;
int main(void) {
  T a = 3;
  int T = 4;
  printf("%d %d\n", a, T);
  return 0;
}
