void f(int a) { } int main(void) { if (f(1)) return 1; return 0; }
