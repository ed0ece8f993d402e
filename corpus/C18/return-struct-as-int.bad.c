struct S { int a; }; int f(void) { struct S s; s.a = 1; return s; } int main(void) { return f(); }
