struct S { int a; } s; int f(int a) { return a; } int main(void) { return f(s); }
