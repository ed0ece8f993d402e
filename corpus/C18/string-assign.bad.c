int main(void) { "abc" = 0; return 0; }
