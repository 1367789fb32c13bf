/* Entry point for 32 bit programs; the C library's own is not installed. */
extern int main(int, char **, char **);
extern int __libc_start_main(int (*)(int, char **, char **), int, char **, void (*)(void), void (*)(void), void (*)(void), void *);
void start_c(long *sp, void (*fini)(void))
{
  __libc_start_main(main, (int)sp[0], (char **)(sp + 1), 0, 0, fini, sp);
  for(;;) ;
}
__asm__(".globl _start\n_start:\n  xor %ebp,%ebp\n  mov %esp,%eax\n  and $-16,%esp\n  sub $8,%esp\n  push %edx\n  push %eax\n  call start_c\n  hlt\n");
/* Needed by position independent calls and stack protection of some objects. */
extern int __cxa_atexit(void (*)(void *), void *, void *);
int atexit(void (*f)(void)) { return __cxa_atexit((void (*)(void *))f, 0, 0); }
