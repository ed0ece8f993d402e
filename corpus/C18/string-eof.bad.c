int main(void) { return 0; } char *s = "abc