#include <stdio.h>
int f(int n, int m, int a[n][m]) { m = m + 1; n = a[1][1]; return n + a[0][m-2]; }
int main(void){int n=3; int m=4; int e[n][m]; for(int i=0;i<n;i++) for(int j=0;j<m;j++) e[i][j]=i*10+j; printf("%d\n", f(n,m,e)); int (*p)[m] = e; m = 1; printf("%d\n", p[1][1]);
 for (int i = 1; i < 4; i++) { { int q[i]; q[i-1]=i; printf("%d %d\n", q[i-1], (int)sizeof(q)); } }
 return 0;}
