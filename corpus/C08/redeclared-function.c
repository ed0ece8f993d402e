#include <stdio.h>
int f(int b, int a) { int f(int, int); return b ? b - a + f(0,a): 9; } int f(int a, int b);  int main(void){ int f(int, int); printf("%d\n", f(1,2)); return 0;} int f(int b, int a); 
