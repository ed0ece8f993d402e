#include <stdio.h>
int main(void) {
  printf("%d %d %d %d\n", (int)sizeof("hello"), (int)sizeof "a\0b", (int)sizeof(""), (int)sizeof("ab" "cde"));
  char *p = "\xe9\377é"; char a[] = "\xe9\377é"; unsigned char b[] = "\xe9é";
  for (int i = 0; i < 5; i++) printf("%d %d ", p[i], a[i]); printf("%d %d %d\n", (int)sizeof a, (int)sizeof b, b[0]);
  printf("%s\n", "é€ \xe2\x82\xac");
  return 0; }
