#define __kernel_cos wl___kernel_cos
#define __kernel_rem_pio2 wl___kernel_rem_pio2
#define __kernel_sin wl___kernel_sin
#define __kernel_tan wl___kernel_tan
#define _atoa wl__atoa
#define _atod wl__atod
#define _atoi wl__atoi
#define _aton wl__aton
#define _atos wl__atos
#define _emsg wl__emsg
#define _etoa wl__etoa
#define _exit wl__exit
#define _fillbuf wl__fillbuf
#define _flushbuf wl__flushbuf
#define _ftoa wl__ftoa
#define _in_buffer wl__in_buffer
#define _in_file wl__in_file
#define _iob wl__iob
#define _is_dec_digit wl__is_dec_digit
#define _is_hex_digit wl__is_hex_digit
#define _is_oct_digit wl__is_oct_digit
#define _ntoa_format wl__ntoa_format
#define _ntoa_long wl__ntoa_long
#define _ntoa_long_long wl__ntoa_long_long
#define _out_buffer wl__out_buffer
#define _out_file wl__out_file
#define _out_null wl__out_null
#define _out_rev wl__out_rev
#define _panicf wl__panicf
#define _strnlen_s wl__strnlen_s
#define _vsnprintf wl__vsnprintf
#define _vsnscanf wl__vsnscanf
#define abort wl_abort
#define abs wl_abs
#define access wl_access
#define acos wl_acos
#define addbuf wl_addbuf
#define asctime wl_asctime
#define asctime_r wl_asctime_r
#define asin wl_asin
#define atan wl_atan
#define atan2 wl_atan2
#define atexit wl_atexit
#define atof wl_atof
#define atoi wl_atoi
#define atol wl_atol
#define atoll wl_atoll
#define bsearch wl_bsearch
#define bzero wl_bzero
#define calloc wl_calloc
#define ceil wl_ceil
#define clock wl_clock
#define clock_time_get wl_clock_time_get
#define close wl_close
#define closeall wl_closeall
#define closedir wl_closedir
#define copysign wl_copysign
#define cos wl_cos
#define cosh wl_cosh
#define ctime wl_ctime
#define ctime_r wl_ctime_r
#define difftime wl_difftime
#define digitval wl_digitval
#define dirfd wl_dirfd
#define div wl_div
#define environ_get wl_environ_get
#define environ_sizes_get wl_environ_sizes_get
#define errno wl_errno
#define exit wl_exit
#define exp wl_exp
#define expm1 wl_expm1
#define fabs wl_fabs
#define faccessat wl_faccessat
#define fclose wl_fclose
#define fcntl wl_fcntl
#define fd_write wl_fd_write
#define fdatasync wl_fdatasync
#define fdclosedir wl_fdclosedir
#define fdopen wl_fdopen
#define fdopendir wl_fdopendir
#define feclearexcept wl_feclearexcept
#define fegetenv wl_fegetenv
#define fegetexceptflag wl_fegetexceptflag
#define fegetround wl_fegetround
#define feholdexcept wl_feholdexcept
#define feraiseexcept wl_feraiseexcept
#define fesetenv wl_fesetenv
#define fesetexceptflag wl_fesetexceptflag
#define fesetround wl_fesetround
#define fetestexcept wl_fetestexcept
#define feupdateenv wl_feupdateenv
#define fflush wl_fflush
#define fgetc wl_fgetc
#define fgetpos wl_fgetpos
#define fgets wl_fgets
#define find_abspath wl_find_abspath
#define find_relpath wl_find_relpath
#define findbktidx wl_findbktidx
#define findfp wl_findfp
#define floor wl_floor
#define fmax wl_fmax
#define fmin wl_fmin
#define fmod wl_fmod
#define fopen wl_fopen
#define fpclassify wl_fpclassify
#define fprintf wl_fprintf
#define fputc wl_fputc
#define fputs wl_fputs
#define fread wl_fread
#define free wl_free
#define freopen wl_freopen
#define frexp wl_frexp
#define fscanf wl_fscanf
#define fseek wl_fseek
#define fsetpos wl_fsetpos
#define fstat wl_fstat
#define fstatat wl_fstatat
#define fsync wl_fsync
#define ftell wl_ftell
#define ftruncate wl_ftruncate
#define fwrite wl_fwrite
#define get_tz_name wl_get_tz_name
#define get_tz_offset wl_get_tz_offset
#define get_week wl_get_week
#define getenv wl_getenv
#define gmtime wl_gmtime
#define gmtime_r wl_gmtime_r
#define ieee754_acos wl_ieee754_acos
#define ieee754_asin wl_ieee754_asin
#define ieee754_atan wl_ieee754_atan
#define ieee754_atan2 wl_ieee754_atan2
#define ieee754_ceil wl_ieee754_ceil
#define ieee754_cos wl_ieee754_cos
#define ieee754_cosh wl_ieee754_cosh
#define ieee754_exp wl_ieee754_exp
#define ieee754_expm1 wl_ieee754_expm1
#define ieee754_floor wl_ieee754_floor
#define ieee754_fmod wl_ieee754_fmod
#define ieee754_frexp wl_ieee754_frexp
#define ieee754_log wl_ieee754_log
#define ieee754_log10 wl_ieee754_log10
#define ieee754_modf wl_ieee754_modf
#define ieee754_pow wl_ieee754_pow
#define ieee754_rem_pio2 wl_ieee754_rem_pio2
#define ieee754_round wl_ieee754_round
#define ieee754_scalbn wl_ieee754_scalbn
#define ieee754_sin wl_ieee754_sin
#define ieee754_sinh wl_ieee754_sinh
#define ieee754_sqrt wl_ieee754_sqrt
#define ieee754_tan wl_ieee754_tan
#define ieee754_tanh wl_ieee754_tanh
#define ieee754_trunc wl_ieee754_trunc
#define initialize wl_initialize
#define initialize_environ wl_initialize_environ
#define isalnum wl_isalnum
#define isalpha wl_isalpha
#define isascii wl_isascii
#define isatty wl_isatty
#define isblank wl_isblank
#define iscntrl wl_iscntrl
#define isdigit wl_isdigit
#define isfinite wl_isfinite
#define isgraph wl_isgraph
#define isinf wl_isinf
#define islower wl_islower
#define isnan wl_isnan
#define isnormal wl_isnormal
#define isprint wl_isprint
#define ispunct wl_ispunct
#define issignaling wl_issignaling
#define isspace wl_isspace
#define isupper wl_isupper
#define isxdigit wl_isxdigit
#define labs wl_labs
#define ldexp wl_ldexp
#define ldiv wl_ldiv
#define link wl_link
#define linkat wl_linkat
#define llabs wl_llabs
#define lldiv wl_lldiv
#define localtime wl_localtime
#define localtime_r wl_localtime_r
#define log wl_log
#define log10 wl_log10
#define lseek wl_lseek
#define lstat wl_lstat
#define malloc wl_malloc
#define mblen wl_mblen
#define mbstowcs wl_mbstowcs
#define mbtowc wl_mbtowc
#define memccpy wl_memccpy
#define memchr wl_memchr
#define memcmp wl_memcmp
#define memcpy wl_memcpy
#define memmem wl_memmem
#define memmove wl_memmove
#define memset wl_memset
#define memswap wl_memswap
#define mkdir wl_mkdir
#define mkdirat wl_mkdirat
#define mktime wl_mktime
#define modf wl_modf
#define nearbyint wl_nearbyint
#define newgap wl_newgap
#define open wl_open
#define openat wl_openat
#define opendir wl_opendir
#define opendirat wl_opendirat
#define panic wl_panic
#define perror wl_perror
#define populate_preopens wl_populate_preopens
#define posix_fadvise wl_posix_fadvise
#define posix_fallocate wl_posix_fallocate
#define pow wl_pow
#define pread wl_pread
#define prefix_matches wl_prefix_matches
#define printf wl_printf
#define proc_exit wl_proc_exit
#define pullblock wl_pullblock
#define pushblock wl_pushblock
#define puts wl_puts
#define pwrite wl_pwrite
#define qsort wl_qsort
#define rand wl_rand
#define read wl_read
#define readdir wl_readdir
#define readlink wl_readlink
#define readlinkat wl_readlinkat
#define realloc wl_realloc
#define register_preopened_fd wl_register_preopened_fd
#define remove wl_remove
#define rename wl_rename
#define renameat wl_renameat
#define resize_preopens wl_resize_preopens
#define rewind wl_rewind
#define rewinddir wl_rewinddir
#define rmdir wl_rmdir
#define rmdirat wl_rmdirat
#define round wl_round
#define sbrk wl_sbrk
#define sbrkblock wl_sbrkblock
#define scalbn wl_scalbn
#define scandir wl_scandir
#define scandirat wl_scandirat
#define scanf wl_scanf
#define secs_to_tm wl_secs_to_tm
#define seekdir wl_seekdir
#define sel_true wl_sel_true
#define setbuf wl_setbuf
#define setvbuf wl_setvbuf
#define signbit wl_signbit
#define sin wl_sin
#define sinh wl_sinh
#define snprintf wl_snprintf
#define snscanf wl_snscanf
#define sprintf wl_sprintf
#define sqrt wl_sqrt
#define srand wl_srand
#define sscanf wl_sscanf
#define stat wl_stat
#define stdin_ wl_stdin_
#define store_float wl_store_float
#define store_int wl_store_int
#define strcasecmp wl_strcasecmp
#define strcat wl_strcat
#define strchr wl_strchr
#define strcmp wl_strcmp
#define strcoll wl_strcoll
#define strcpy wl_strcpy
#define strcspn wl_strcspn
#define strdup wl_strdup
#define strerror wl_strerror
#define strftime wl_strftime
#define strip_prefixes wl_strip_prefixes
#define strlen wl_strlen
#define strncasecmp wl_strncasecmp
#define strncat wl_strncat
#define strncmp wl_strncmp
#define strncpy wl_strncpy
#define strndup wl_strndup
#define strnlen wl_strnlen
#define strntoimax wl_strntoimax
#define strntoumax wl_strntoumax
#define strpbrk wl_strpbrk
#define strrchr wl_strrchr
#define strsep wl_strsep
#define strspn wl_strspn
#define strstr wl_strstr
#define strtod wl_strtod
#define strtod_dec wl_strtod_dec
#define strtod_hex wl_strtod_hex
#define strtod_s wl_strtod_s
#define strtoimax wl_strtoimax
#define strtok wl_strtok
#define strtok_r wl_strtok_r
#define strtol wl_strtol
#define strtoll wl_strtoll
#define strtoul wl_strtoul
#define strtoull wl_strtoull
#define strtoumax wl_strtoumax
#define strxfrm wl_strxfrm
#define symlink wl_symlink
#define symlinkat wl_symlinkat
#define tan wl_tan
#define tanh wl_tanh
#define telldir wl_telldir
#define terminate wl_terminate
#define time wl_time
#define timestamp_to_timespec wl_timestamp_to_timespec
#define timezone wl_timezone
#define to_public_stat wl_to_public_stat
#define tolower wl_tolower
#define toupper wl_toupper
#define trunc wl_trunc
#define tzname wl_tzname
#define tzset wl_tzset
#define ungetc wl_ungetc
#define unlink wl_unlink
#define unlinkat wl_unlinkat
#define unlinkblock wl_unlinkblock
#define vfprintf wl_vfprintf
#define vfscanf wl_vfscanf
#define vprintf wl_vprintf
#define vscanf wl_vscanf
#define vsnprintf wl_vsnprintf
#define vsnscanf wl_vsnscanf
#define vsprintf wl_vsprintf
#define vsscanf wl_vsscanf
#define wcstombs wl_wcstombs
#define wctomb wl_wctomb
#define wctomb_chk wl_wctomb_chk
#define write wl_write
#define writebuf wl_writebuf
#define wrtchk wl_wrtchk
