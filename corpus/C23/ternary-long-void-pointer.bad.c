int main(void) { long l = 1; void *p = 0; while (l ? l : p) ; return 0; }
