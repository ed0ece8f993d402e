void v(void) { } int f(int a) { return a; } int main(void) { return f(v()); }
