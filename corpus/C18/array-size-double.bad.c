int main(void) { int q[1.5]; return 0; }
