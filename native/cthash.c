/* Reads a lackey memory trace; hashes the part between the two writes to the mark. argv[1]: address of the mark (hex).
   Prints the number of records and a hash of their kinds, addresses and sizes. With argv[2]: prints the records. */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
int main(int argc, char **argv) {
	unsigned long mark = strtoul(argv[1], 0, 16);
	static char buf[1 << 20];
	char line[256];
	int on = 0, marks = 0;
	uint64_t n = 0, h = 1469598103934665603ULL;
	setvbuf(stdin, buf, _IOFBF, sizeof buf);
	while (fgets(line, sizeof line, stdin)) {
		char k = line[0] == 'I' ? 'I' : line[0] == ' ' ? line[1] : 0;
		if (k != 'I' && k != 'L' && k != 'S' && k != 'M') continue;
		if (line[0] == 'I' && line[1] != ' ') continue;
		char *e;
		unsigned long a = strtoul(line + 3, &e, 16);
		if (k == 'S' && a == mark) { marks++; on = marks == 1; continue; }
		if (!on) continue;
		n++;
		if (argc > 2) { fputs(line, stdout); continue; }
		unsigned long sz = strtoul(e + 1, 0, 10);
		uint64_t v = (uint64_t)a << 8 ^ (uint64_t)k << 3 ^ sz;
		h = (h ^ v) * 1099511628211ULL;
		h ^= h >> 29;
	}
	if (argc <= 2) printf("%d %llu %016llx\n", marks, (unsigned long long)n, (unsigned long long)h);
	return marks == 2 ? 0 : 1;
}
