#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int main(int argc, char **argv); char **gv; int gc; long total = 0;
struct A { int n; char **v; char *first; }; struct A ga;
char buf[300];
void bytes(char *p) { while (*p) { printf("%d ", *p); p++; } printf("\n"); }
void dump(int c, char **v) { printf("%d:", c); for (int i = 1; i < c; i++) printf(" [%s]", v[i]); printf("\n"); }
int deep(int k) { int a[6]; a[0] = k; a[5] = k * 3; if (k > 0) { a[1] = deep(k - 1); } else { a[1] = 7; } return a[0] + a[1] + a[5]; }
int sumlen(char **v) { int r = 0; while (*v) { r += (int)strlen(*v); v++; } return r; }
void copy(char *d, char *s) { while ((*d++ = *s++)) ; }
void rev(char *p) { int i = 0, j = (int)strlen(p) - 1; while (i < j) { char t = p[i]; p[i] = p[j]; p[j] = t; i++; j--; } }
int same(char *a, char *b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }

int main(int argc, char **argv) {
dump(argc, argv);
if (gc++ < 1) { int r = main(argc > 1 ? argc - 1 : argc, argc > 1 ? argv + 1 : argv); printf("r=%d\n", r); }
dump(argc, argv);

}
