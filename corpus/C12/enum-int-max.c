#include <stdio.h>
enum { A, B = 2147483647 };
int main(void) { printf("%d %d\n", A, B); return 0; }
