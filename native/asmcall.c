// Calls one assembly routine with exactly controlled registers and operand addresses.
// line: NAME PAD ARG...   ARG = m:HEX (operand memory) | v:HEX64 (register value) | =K (same storage as argument K)
// PAD: bytes between the end of each operand and the following inaccessible page.
// output: rax, then the memory of every m argument, then "ok" or what else changed.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

extern void callstub(void *fn, uint64_t *args, uint64_t *out);
__asm__(
".globl callstub\n"
"callstub:\n"
"  push %rbx\n  push %rbp\n  push %r12\n  push %r13\n  push %r14\n  push %r15\n  push %rdx\n"
"  mov %rdi, %r11\n  mov %rsi, %r10\n"
"  mov 0(%r10), %rdi\n  mov 8(%r10), %rsi\n  mov 16(%r10), %rdx\n  mov 24(%r10), %rcx\n  mov 32(%r10), %r8\n  mov 40(%r10), %r9\n"
"  mov $0x1111111122222222, %rbx\n  mov $0x3333333344444444, %rbp\n  mov $0x5555555566666666, %r12\n  mov $0x7777777788888888, %r13\n  mov $0x99999999aaaaaaaa, %r14\n  mov $0xbbbbbbbbcccccccc, %r15\n"
"  mov $0xdeadbeefdeadbeef, %rax\n"
"  call *%r11\n"
"  pop %r11\n"
"  mov %rax, 0(%r11)\n  mov %rbx, 8(%r11)\n  mov %rbp, 16(%r11)\n  mov %r12, 24(%r11)\n  mov %r13, 32(%r11)\n  mov %r14, 40(%r11)\n  mov %r15, 48(%r11)\n"
"  pop %r15\n  pop %r14\n  pop %r13\n  pop %r12\n  pop %rbp\n  pop %rbx\n  ret\n");

static int hexd(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }

int main(void) {
	static char line[1 << 16];
	while (fgets(line, sizeof line, stdin)) {
		char *tok[16]; int n = 0;
		for (char *p = strtok(line, " \n"); p && n < 16; p = strtok(NULL, " \n")) tok[n++] = p;
		if (n < 2) { puts("?"); fflush(stdout); continue; }
		void *fn = dlsym(RTLD_DEFAULT, tok[0]);
		if (!fn) { puts("?"); fflush(stdout); continue; }
		int pad = atoi(tok[1]);
		uint64_t args[6] = {0}, out[7];
		uint8_t *mem[6] = {0}, *page[6] = {0}; size_t len[6] = {0};
		for (int i = 0; i + 2 < n && i < 6; i++) {
			char *a = tok[i + 2];
			if (a[0] == 'm') {
				a += 2;
				len[i] = strlen(a) / 2;
				page[i] = mmap(NULL, 3 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
				mprotect(page[i] + 8192, 4096, PROT_NONE);
				memset(page[i], 0xC3, 8192);
				mem[i] = page[i] + 8192 - len[i] - pad;
				for (size_t k = 0; k < len[i]; k++) mem[i][k] = hexd(a[2 * k]) * 16 + hexd(a[2 * k + 1]);
				args[i] = (uint64_t)mem[i];
			} else if (a[0] == 'v') args[i] = strtoull(a + 2, NULL, 16);
			else args[i] = args[atoi(a + 1)];
		}
		callstub(fn, args, out);
		const char *bad = "ok";
		static const uint64_t want[6] = {0x1111111122222222, 0x3333333344444444, 0x5555555566666666, 0x7777777788888888, 0x99999999aaaaaaaa, 0xbbbbbbbbcccccccc};
		for (int i = 0; i < 6; i++) if (out[i + 1] != want[i]) bad = "callee-saved-register-changed";
		printf("%llx", (unsigned long long)out[0]);
		for (int i = 0; i < 6; i++) if (mem[i]) {
			printf(" ");
			for (size_t k = 0; k < len[i]; k++) printf("%02x", mem[i][k]);
			for (uint8_t *p = page[i]; p < page[i] + 8192; p++) if ((p < mem[i] || p >= mem[i] + len[i]) && *p != 0xC3) bad = "wrote-outside-operand";
			munmap(page[i], 3 * 4096);
		}
		printf(" %s\n", bad);
		fflush(stdout);
	}
	return 0;
}
