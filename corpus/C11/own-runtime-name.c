#include <stdio.h>
int log_stack_ptr(int a) {return a+1;} int strlen(int x) { return x*2; } int main(void){ printf("%d %d\n", log_stack_ptr(4),strlen(3)); return 0;}
