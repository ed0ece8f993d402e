typedef int *; int main(void) { return 0; }
