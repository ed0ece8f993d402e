#include <limits.h>
#include <stdio.h>
int main(void) {
#if UINT_MAX > INT_MIN
  printf("signed\n");
#else
  printf("unsigned\n");
#endif
  return 0;
}
