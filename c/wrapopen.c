/* Linked into the known-answer programs: a request file opened for reading is replaced by the one named in VP_REQ. */
#include <stdio.h>
#include <stdlib.h>
FILE *__real_fopen(const char *p, const char *m);
FILE *__wrap_fopen(const char *p, const char *m) {
  const char *r = getenv("VP_REQ");
  return __real_fopen(r && m[0] == 'r' ? r : p, m);
}
