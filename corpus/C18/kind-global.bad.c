int f(int a) { return a; } int f; int main(void) { return 0; }
