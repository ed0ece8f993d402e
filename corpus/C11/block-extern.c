#include <stdio.h>
int y = 3; char c[4]="abc"; int main(void){ int y = 5; { extern int y; extern char c[4]; y++; c[0]=66; } printf("%d\n", y); { extern int y; printf("%d%s\n", y,c); } return 0;}
