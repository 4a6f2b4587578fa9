// Runs generated cases against the library as the project itself compiles it (gcc -Ofast -flto, real memory, real threads).
// Same command line and report format as the simulator's binaries.
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef unsigned long long u64;

u64 nat_draw(void);                                 // the next recorded random word of this case
u64 nat_below(u64 n);
void nat_fail(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void nat_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void nat_label(const char *l);
void nat_trivial(void);
typedef struct NatScenario { const char *name, *rule; void (*run)(void); } NatScenario;
extern const NatScenario nat_scenarios[];
