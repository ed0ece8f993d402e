int main(void) { int x = 1; x = x ? 1 : (void)0; return x; }
