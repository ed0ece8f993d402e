int main(void) { int q; typedef int q; return 0; }
