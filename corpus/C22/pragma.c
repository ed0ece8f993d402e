#include <stdio.h>
#pragma once_upon a time
#pragma GCC diagnostic ignored "-Wall"
#ident "x"
#
int main(void) {
#pragma omp parallel for
 _Pragma("foo") printf("a %d %s\n", __LINE__, __FILE__);
#line 100 "zz.c"
 printf("%d %s\n", __LINE__, __FILE__);
 return 0; }
