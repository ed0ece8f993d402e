int f(int a); int main(void) { return f(1); }
