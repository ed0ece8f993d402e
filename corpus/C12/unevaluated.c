#include <stdio.h>
enum { A = 1 || 1/0, B = 0 && 1/0, C = 1 ? 2 : 1/0 };
int main(void) {
 printf("%d %d %d\n", A,B,C);
 return 0; }
