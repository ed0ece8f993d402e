#include <stdio.h>
void *g = &g; int main(void){ printf("%d\n", g == &g); return 0;}
