struct Q { int a; }; union Q { int b; }; int main(void) { return 0; }
