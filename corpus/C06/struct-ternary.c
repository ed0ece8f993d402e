#include <stdio.h>
struct S{int a; char b[3]; double d;};
union U{int a; double d;};
int n;
int t(void){ n++; return n % 2; }
int main(void){ struct S s; struct S u; struct S x; union U a; union U b; struct S *p;
u.a=1;s.a=2; s.b[0] = 1; u.b[0]=2; u.d=1.5; s.d=2.5; s.b[2]=7; u.b[2]=8;
x = t() ? s : u; printf("%d %d %d %f\n", x.a, x.b[0], x.b[2], x.d);
x = t() ? s : u; printf("%d %d %d %f\n", x.a, x.b[0], x.b[2], x.d);
x = t() ? (t() ? s : u) : *&x; printf("%d %d %d %f\n", x.a, x.b[0], x.b[2], x.d);
s = t() ? s : u; printf("%d %d %d %f\n", s.a, s.b[0], s.b[2], s.d);
printf("%d\n", (t() ? x : s).a + (t() ? x : s).b[2]);
a.d = 3; b.d = 4; a = n ? b : a; printf("%f\n", a.d);
p = &u; x = p ? *p : s;  printf("%d %d %d %f\n", x.a, x.b[0], x.b[2], x.d);
return 0; }
