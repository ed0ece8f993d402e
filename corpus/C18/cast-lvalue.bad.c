int main(void) { int g = 2; (int)g = 1; return g; }
