/* system headers the repository's own .c files include, so that l.h/w.h/p.h/c.h can come before the contracts */
#include <stdio.h>
#include <stdlib.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdarg.h>
#include <string.h>
#include <math.h>
#include <ctype.h>
#include <errno.h>
#include <assert.h>
#include <limits.h>
#include <wchar.h>
#include <time.h>
#include <unistd.h>
#include "vf.h"
#define main wcpl_main
#include "l.h"
#include "w.h"
#include "p.h"
#include "c.h"
