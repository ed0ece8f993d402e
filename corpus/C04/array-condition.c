#include <stdio.h>
int main(void){int a[3]; a[0]=1; char *s="x"; if(a) printf("1\n"); if (s) printf("2\n"); while("x"){printf("3\n");break;} if (1.5) printf("5\n"); (void)s; a[0] ? (void)a : (void)s; return 0;}
