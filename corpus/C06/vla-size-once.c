#include <stdio.h>
int k = 2; int f(void){ k = k + 1; return k; }
int main(void){int n=3; int m=4; int a[n]; int e[f()][m]; n=9; m = 1; e[1][1]=1; e[2][3]=7; printf("%d %d %d %d %d\n",(int)sizeof(a),(int)sizeof(e), (int)sizeof(e[0]), (int)(&e[2][3]-&e[0][0]), k); return 0;}
