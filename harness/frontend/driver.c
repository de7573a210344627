// Drives the C shared library: reads commands from standard input (a letter,
// a length in decimal, a newline, that many bytes) and writes results to file
// descriptor 3 in the same form. L loads a pipeline, P processes an event.
// Before each command it writes a mark to standard output, which the library
// uses for messages. Results of threads that differ have the letter D.
#include <dlfcn.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static void put(FILE *f, char kind, const char *data, size_t n) {
	fprintf(f, "%c%zu\n", kind, n);
	fwrite(data, 1, n, f);
	fflush(f);
}

// Events that follow each other are processed by several threads if a second
// argument says how many.
struct item {
	char *data, *result;
	int differs;
};

static struct item *items;
static int count, threads;
static char *(*process_fn)(char *);

static void *work(void *arg) {
	int first = (int)(intptr_t)arg;
	for (int k = 0; k < count; k++) {
		int i = (first + k) % count;
		char *result = process_fn(items[i].data);
		char *none = NULL;
		if (__atomic_compare_exchange_n(&items[i].result, &none, result, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST))
			continue;
		if (strcmp(result, none))
			items[i].differs = 1;
		free(result);
	}
	return NULL;
}

static int flush_items(FILE *out) {
	pthread_t ids[16];
	for (int i = 0; count > 0 && i < threads; i++)
		if (pthread_create(&ids[i], NULL, work, (void *)(intptr_t)(i * (count + threads - 1) / threads)))
			return 1;
	for (int i = 0; count > 0 && i < threads; i++)
		pthread_join(ids[i], NULL);
	for (int i = 0; i < count; i++) {
		if (write(1, "\001\n", 2) != 2)
			return 1;
		put(out, items[i].differs ? 'D' : 'P', items[i].result, strlen(items[i].result));
		free(items[i].data);
		free(items[i].result);
	}
	count = 0;
	return 0;
}

int main(int argc, char **argv) {
	void *lib = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL);
	if (!lib) {
		fprintf(stderr, "VERIF-ERROR: %s\n", dlerror());
		return 70;
	}
	int32_t (*load)(char *) = (int32_t (*)(char *))dlsym(lib, "Load");
	char *(*process)(char *) = (char *(*)(char *))dlsym(lib, "Process");
	if (!load || !process) {
		fprintf(stderr, "the library lacks Load or Process\n");
		return 71;
	}
	FILE *out = fdopen(3, "w");
	process_fn = process;
	if (argc > 2)
		threads = atoi(argv[2]);
	char kind;
	size_t n;
	while (scanf("%c%zu", &kind, &n) == 2 && getchar() == '\n') {
		char *data = malloc(n + 1);
		if (fread(data, 1, n, stdin) != n)
			return 72;
		data[n] = 0;
		if (kind == 'P' && threads > 0) {
			items = realloc(items, (count + 1) * sizeof *items);
			items[count++] = (struct item){data, NULL, 0};
			continue;
		}
		if (flush_items(out))
			return 73;
		if (write(1, "\001\n", 2) != 2)
			return 73;
		if (kind == 'L') {
			char text[20];
			int len = snprintf(text, sizeof text, "%d", load(data));
			put(out, 'L', text, len);
		} else {
			char *result = process(data);
			put(out, 'P', result, strlen(result));
			free(result);
		}
		free(data);
	}
	return flush_items(out) ? 73 : 0;
}
