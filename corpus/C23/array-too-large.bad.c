int main(void) { int a[18446744073709551615]; int b[2000000000][2000000000]; return 0; }
