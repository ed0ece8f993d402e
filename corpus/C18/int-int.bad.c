int int q; int main(void) { return 0; }
