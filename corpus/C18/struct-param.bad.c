struct S { int a; }; int f(struct S s) { return s.a; } int main(void) { struct S s; s.a = 1; return f(s); }
