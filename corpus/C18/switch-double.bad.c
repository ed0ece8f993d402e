int main(void) { double d = 1; switch (d) { case 1: ; } return 0; }
