int main(void) { return 'a;
 }
