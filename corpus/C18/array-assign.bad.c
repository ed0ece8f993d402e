int a[3]; int b[3]; int main(void) { a = b; return 0; }
