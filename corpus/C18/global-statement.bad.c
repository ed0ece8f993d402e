int g; g = 2; int main(void) { return g; }
