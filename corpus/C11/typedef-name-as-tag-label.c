#include <stdio.h>
typedef int T; struct T {int T1;}; union U {T U;}; typedef union U U; enum E {A}; typedef enum E E; int main(void){ struct T x; U u; u.U = 2; E e = A; x.T1 = 3; T: x.T1++; if (x.T1 < 5) goto T; printf("%d %d\n",x.T1, u.U+e); return 0;}
