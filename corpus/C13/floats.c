#include <stdio.h>
int main(void) {
  double a = .5, b = 5., c = 1e5, d = 1.5e-3, e = 1E+5, f = 00.25, g = 1.e2, h = 0e0, i = 09.5, j = .5e1;
  printf("%f %f %f %f %f %f %f %f %f %f\n", a,b,c,d,e,f,g,h,i,j);
  printf("%d %d %d %d %d %d\n", 0, 00, 07, 0X1f, 0B11, 0x0);
  return 0; }
