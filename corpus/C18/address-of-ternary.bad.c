struct S { int a; }; int main(void) { struct S s; struct S u; struct S *p; s.a = 1; u.a = 2; p = &(s.a ? s : u); return 0; }
