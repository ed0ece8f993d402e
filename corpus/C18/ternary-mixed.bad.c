struct S { int a; }; int main(void) { struct S s; int x; s.a = 1; x = s.a ? 1 : s; return x; }
