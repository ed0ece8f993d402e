int main(void) { char *s = "abc
"; return 0; }
