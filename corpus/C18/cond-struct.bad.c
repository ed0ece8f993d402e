struct S { int a; } s; int main(void) { while (s) break; return 0; }
