int f(int) { return 1; } int main(void) { return f(1); }
