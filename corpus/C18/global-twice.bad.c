int g = 1; int g = 2; int main(void) { return g; }
