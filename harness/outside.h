/* Services of the environment that no part of the library may call (X05); each becomes mon_out_<name> in its objects. */
OUTSIDE(printf) OUTSIDE(__printf_chk) OUTSIDE(vprintf) OUTSIDE(__vprintf_chk) OUTSIDE(fprintf) OUTSIDE(__fprintf_chk)
OUTSIDE(vfprintf) OUTSIDE(__vfprintf_chk) OUTSIDE(dprintf) OUTSIDE(puts) OUTSIDE(putchar) OUTSIDE(putc) OUTSIDE(fputs)
OUTSIDE(fputc) OUTSIDE(fwrite) OUTSIDE(perror) OUTSIDE(fflush) OUTSIDE(write) OUTSIDE(fopen) OUTSIDE(fopen64) OUTSIDE(fclose)
OUTSIDE(fread) OUTSIDE(fgets) OUTSIDE(fgetc) OUTSIDE(getc) OUTSIDE(getchar) OUTSIDE(scanf) OUTSIDE(fscanf) OUTSIDE(open)
OUTSIDE(open64) OUTSIDE(close) OUTSIDE(read) OUTSIDE(ioctl) OUTSIDE(syslog) OUTSIDE(remove) OUTSIDE(unlink) OUTSIDE(rename)
OUTSIDE(time) OUTSIDE(gettimeofday) OUTSIDE(clock) OUTSIDE(clock_gettime) OUTSIDE(timespec_get) OUTSIDE(times) OUTSIDE(localtime)
OUTSIDE(localtime_r) OUTSIDE(mktime) OUTSIDE(tzset) OUTSIDE(getenv) OUTSIDE(secure_getenv) OUTSIDE(setenv) OUTSIDE(putenv)
OUTSIDE(setlocale) OUTSIDE(rand) OUTSIDE(srand) OUTSIDE(rand_r) OUTSIDE(random) OUTSIDE(srandom) OUTSIDE(drand48) OUTSIDE(getrandom)
OUTSIDE(getentropy) OUTSIDE(arc4random) OUTSIDE(getpid) OUTSIDE(syscall) OUTSIDE(sleep) OUTSIDE(usleep) OUTSIDE(nanosleep)
OUTSIDE(clock_nanosleep) OUTSIDE(sched_yield) OUTSIDE(pause) OUTSIDE(alarm) OUTSIDE(poll) OUTSIDE(select) OUTSIDE(pthread_create)
OUTSIDE(pthread_mutex_lock) OUTSIDE(pthread_mutex_unlock) OUTSIDE(sem_wait) OUTSIDE(sem_post) OUTSIDE(fork) OUTSIDE(vfork)
OUTSIDE(execv) OUTSIDE(execve) OUTSIDE(execvp) OUTSIDE(system) OUTSIDE(popen) OUTSIDE(exit) OUTSIDE(_exit) OUTSIDE(_Exit)
OUTSIDE(quick_exit) OUTSIDE(abort) OUTSIDE(raise) OUTSIDE(kill) OUTSIDE(signal) OUTSIDE(sigaction) OUTSIDE(atexit) OUTSIDE(longjmp)
OUTSIDE(mmap) OUTSIDE(munmap) OUTSIDE(sbrk) OUTSIDE(strdup) OUTSIDE(strndup) OUTSIDE(asprintf) OUTSIDE(posix_memalign)
OUTSIDE(aligned_alloc) OUTSIDE(memalign) OUTSIDE(socket) OUTSIDE(send) OUTSIDE(connect)
