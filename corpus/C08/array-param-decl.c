#include <stdio.h>
int f(int argc, char **argv);
int g(int *a); int g(int a[3]); int g(int a[]) { return a[1]; }
int h(char s[]);
int f(int argc, char *argv[]) { return h(argv[1]); }
int h(char *s) { return *s; }
int main(int argc, char **argv) { int a[3] = {1,2,3}; char *x[2] = {"a","b"}; printf("%d %d\n", g(a), f(1,x)); return 3; }
