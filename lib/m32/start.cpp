// Start of a 32 bit program; the C library's own start-up objects for it are not installed.
extern "C" {
int main(int, char**, char**) __asm__("main");
int __libc_start_main(int (*)(int, char**, char**), int, char**, void (*)(), void (*)(), void (*)(), void*);
void* __dso_handle = 0;
__attribute__((noreturn, used)) void start_c(int* sp, void (*fini)()) {
  __libc_start_main(main, sp[0], reinterpret_cast<char**>(sp + 1), 0, 0, fini, sp);
  __builtin_trap();
}
}
__asm__(".text\n.globl _start\n_start:\n xor %ebp,%ebp\n mov %esp,%eax\n and $-16,%esp\n sub $8,%esp\n push %edx\n push %eax\n call start_c\n hlt\n");
