#include <stdio.h>
union ub { double d; unsigned long u; };
union uf { float f; unsigned int u; };
void pd(double d) { union ub x; if (d != d) { printf("nan\n"); return; } x.d = d; printf("%lu\n", x.u); }
void pf(float f) { union uf x; if (f != f) { printf("nanf\n"); return; } x.f = f; printf("%u\n", x.u); }

int ga = 6;
int id(int x) { return x; }
int dirty(int n) { char buf[300]; int i = 0; for (i = 0; i < 300; i++) buf[i] = 90 + n; if (n > 0) return dirty(n - 1) + buf[n]; return buf[7]; }
struct s1 { int m0; };
struct s1 g2 = {017777777777};
long g3[4];
static char g4 = 2;
char g5[7] = "";
void f6(int a, long b) {
  int i0 = 0, i1 = 0, i2 = 0, i3 = 0, i4 = 0, k = 0;
  {  { char x7[1] = {b - ga}; for (i0 = 0; i0 < 1; i0++) { printf("%d\n", x7[i0]); } } }
  { dirty(3); { int x8 = 10; printf("%d\n", x8); } }
  float x9 = -120.89257049560547;
  pf(x9);
  x9 = 0.10000000149011612; x9 += 3; x9 += 3;
  pf(x9);
}
void f10(int a, long b) {
  int i0 = 0, i1 = 0, i2 = 0, i3 = 0, i4 = 0, k = 0;
  static long *x11 = &g3[1];
  if (x11) printf("%ld\n", (long) *x11); else printf("null\n");
  x11 = 0; x11 = 0;
  if (x11) printf("%ld\n", (long) *x11); else printf("null\n");
}
void dump(void) {
  int i0 = 0, i1 = 0, i2 = 0, i3 = 0, i4 = 0;
  printf("%d\n", g2.m0);
  for (i0 = 0; i0 < 4; i0++) { printf("%ld\n", g3[i0]); }
  printf("%d\n", g4);
  for (i0 = 0; i0 < 7; i0++) { printf("%d\n", g5[i0]); }
}
void change(void) {
  g2.m0 += 3;
  g3[0] += 3;
  g4 += 3;
  g5[0] += 3;
}
long g3[4] = {18844736865, 0b100001000000000000000000000000000000010, 8, -8};
int main(void) {
  dirty(3);
  dump();
  f6(-5, -5);
  f10(-5, -5);
  change();
  dump();
  f6(1, 2);
  f10(1, 2);
  return 0;
}
