# Entry trampolines for the functions of the Exodus library: note the call, run the real function, note its result.
BEGIN { print ".text" }
{
  n = NR - 1
  printf ".globl %s\n.type %s,@function\n%s:\n  movl $%d, %%r10d\n  jmp ex_stub_common\n", $1, $1, $1, n
  name[n] = $1
}
END {
  print "ex_stub_common:"
  split("rdi rsi rdx rcx r8 r9 rax", r, " ")
  for (i = 1; i <= 7; i++) printf "  pushq %%%s\n", r[i]
  print "  subq $128, %rsp"
  for (i = 0; i < 8; i++) printf "  movups %%xmm%d, %d(%%rsp)\n", i, 16 * i
  print "  movq 184(%rsp), %rdi\n  movslq %r10d, %rsi\n  call ex_stub_enter@PLT\n  movq %rax, %r11"
  for (i = 0; i < 8; i++) printf "  movups %d(%%rsp), %%xmm%d\n", 16 * i, i
  print "  addq $128, %rsp"
  for (i = 7; i >= 1; i--) printf "  popq %%%s\n", r[i]
  print "  leaq ex_stub_return(%rip), %r10\n  movq %r10, (%rsp)\n  jmp *%r11"
  print "ex_stub_return:\n  subq $8, %rsp\n  pushq %rax\n  movl %eax, %edi\n  call ex_stub_leave@PLT\n  movq %rax, 8(%rsp)\n  popq %rax\n  ret"
  print ".section .rodata"
  for (i = 0; i < NR; i++) printf ".Ls%d: .string \"%s\"\n", i, name[i]
  print ".section .data.rel.ro,\"aw\"\n.align 8\n.globl ex_stub_names\nex_stub_names:"
  for (i = 0; i < NR; i++) printf "  .quad .Ls%d\n", i
  print ".section .note.GNU-stack,\"\",@progbits"
}
