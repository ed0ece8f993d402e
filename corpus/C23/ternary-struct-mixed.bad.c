struct S { int a; }; int main(void) { struct S s; void *p; p = p ? 0 : s; return 0; }
