void f(void) { return (void)0; } int main(void) { f(); return 0; }
