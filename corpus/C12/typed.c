#include <stdio.h>
enum { A = (unsigned)0 - 1 > 0, B = -1 < (unsigned)1, C = 0xFFFFFFFF + 1, D = 2147483647 * 2 / 2 == 0, F = (int)(3.7 * 2), G = 1 || 0, H = (char)200, I = -1 >> 1, J = (1 ? 5 : 1/1), K=(long)1 << 40 > 0, L = ~0xFFFFFFFF, M = -0x80000000 > 0 , N = (unsigned)-1 / 2 == 2147483647, O = (unsigned char)300 };
int main(void) {
 printf("%d %d %d %d %d %d %d %d %d %d %d %d %d %d %d\n", A,B,C,D,F,G,H,I,J,K,L,M,N, O, 0);
 int a[(unsigned)0 - 1 > 0 ? 3 : 4];
 printf("%d\n", (int)sizeof a);
 int c[~0xFFFFFFFE];
 printf("%d\n", (int)sizeof c);
 int b[(int)2.5 + 1]; printf("%d\n", (int)sizeof b);
 switch (5) { case 0xFFFFFFFF + 6: printf("yes\n"); break; default: printf("no\n"); }
 switch (1) { case (unsigned)-1 > 1: printf("yes\n"); break; default: printf("no\n"); }
 switch (1) { case -1 < 0xFFFFFFFF: printf("yes\n"); break; default: printf("no\n"); }
 switch (1) { case 2.5 > 1: printf("yes\n"); break; default: printf("no\n"); }
 return 0; }
