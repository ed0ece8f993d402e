#include <stdio.h>
int main(void){ long x = 3; { char x = sizeof(x); printf("%d\n", x);} return 0;}
