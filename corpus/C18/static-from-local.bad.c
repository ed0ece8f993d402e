int main(void) { int x = 1; static int y = x; return y; }
