int main(void) { int a[3]; long l = 1; return l != a; }
