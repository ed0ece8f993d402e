struct S { int a; }; int main(void) { struct S s; struct S u; struct S v; s.a = 1; u.a = 2; v.a = 3; (s = u) = v; return 0; }
