int f[2](void); int main(void) { return 0; }
