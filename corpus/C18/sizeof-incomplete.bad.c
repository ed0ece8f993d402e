int main(void) { return sizeof(struct Nope); }
