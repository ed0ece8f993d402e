#include <stdio.h>
int c = 1 ? 2 : 3; int main(void){ printf("%d\n", c==0); return 0;}
