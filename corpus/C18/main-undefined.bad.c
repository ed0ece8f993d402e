int main(void);
