#include <stdio.h>
typedef struct s s; struct s {s *n; int v;}; int main(void){ s a; a.n=&a; a.v=3; union s1 {int q;} s1; s1.q=4; printf("%d\n", a.n->v+s1.q); return 0;}
