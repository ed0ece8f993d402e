int main(void) { int a[18446744073709551615]; return 0; }
