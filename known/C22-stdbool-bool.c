#include <stdbool.h>
#include <stdio.h>
int main(void) { bool b = true; printf("%d %d\n", b, false); return 0; }
