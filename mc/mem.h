/* Memory of the library under control: every block is accounted for, and any allocation can be made to fail. The
 * library is compiled with malloc etc. renamed; OpenSSL allocates through CRYPTO_set_mem_functions. */
#ifndef MEM_H
#define MEM_H
#include <stdbool.h>
#include <stddef.h>
void *mc_malloc(size_t n);
void *mc_calloc(size_t n, size_t m);
void *mc_realloc(void *p, size_t n);
void mc_free(void *p);
char *mc_strdup(const char *s);
typedef struct {
  long lib, ssl; /* blocks in use */
  long bytes; /* of the library's blocks */
} mem_t;
void mem_init(void); /* before OpenSSL is used */
mem_t mem_now(void);
void mem_forget(void); /* blocks in use now are none of our business (use between executions only) */
/* From now on allocation number |n| (0..) fails, and if |persistent| all later ones too. n < 0: none. |which|: 1 library,
 * 2 OpenSSL, 3 both; 4: OpenSSL calls (sslfail.c). */
/* Fails another one too. */
void mem_fail_too(long n);
void mem_fail_at(long n, int which, bool persistent);
long mem_count(void); /* allocations since mem_fail_at() */
bool mem_failed(void); /* has an allocation been failed since mem_fail_at()? */
/* Description of library blocks in use which were not so at mem_forget(). */
const char *mem_leaks(void);
#endif
