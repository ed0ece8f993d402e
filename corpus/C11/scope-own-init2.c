#include <stdio.h>
int main(void){ long p = sizeof(p); printf("%ld\n", p); return 0;}
