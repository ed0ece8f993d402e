#include <stdio.h>
int main(void){long n=3; char c=4; unsigned long u=5; int a[n]; int b[c]; short d[u]; int e[n][2]; a[2]=1; b[3]=2; d[4]=3; e[2][1]=7; printf("%d %d %d %d %d %d\n",a[2],b[3],d[4],e[2][1],(int)sizeof(a),(int)sizeof(d)); return 0;}
