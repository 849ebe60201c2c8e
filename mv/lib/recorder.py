"""A stand-in program that records how it was started: an instrument, mpirun, a command or a compiler (by its name)."""
from __future__ import annotations
import os, shutil, subprocess, tempfile
from pathlib import Path

SOURCE = r'''
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static long runs(const char *log) { /* records already in the log */
  long n = 0; int c; FILE *f = fopen(log, "r");
  if (!f) return 0;
  while ((c = getc(f)) != EOF) n += c == '\n';
  fclose(f);
  return n;
}
int main(int argc, char **argv) {
  const char *log = getenv("MV_REC"), *name = strrchr(argv[0], '/'), *fail = getenv("MV_REC_FAIL"), *say = getenv("MV_REC_SAY"), *dir = NULL, *out = NULL;
  name = name ? name + 1 : argv[0];
  long me = log ? runs(log) : 0;
  if (log) {
    char *buf; size_t len;
    FILE *m = open_memstream(&buf, &len);
    fprintf(m, "[");
    for (int i = 0; i < argc; ++i) {
      fprintf(m, "%s\"", i ? "," : "");
      for (unsigned char *s = (unsigned char *)argv[i]; *s; ++s) fprintf(m, "\\u%04x", *s);
      fprintf(m, "\"");
    }
    fprintf(m, "]\n");
    fclose(m);
    int fd = open(log, O_WRONLY | O_CREAT | O_APPEND, 0600);
    if (write(fd, buf, len) != (ssize_t)len) return 9;
    close(fd);
  }
  if (fail && atol(fail) == me) { fprintf(stderr, "told to fail\n"); return 3; }
  for (int i = 1; i < argc; ++i) {
    if (!strcmp(argv[i], "--dir") || !strcmp(argv[i], "-d")) dir = argv[i + 1];
    if (!strncmp(argv[i], "--dir=", 6)) dir = argv[i] + 6;
    if (!strcmp(argv[i], "-o") && !out) out = argv[i + 1];
  }
  if (strstr(name, "mvcc")) { /* a compiler: the program it makes is this one, the source is kept */
    char src[4096], cmd[9000]; int c;
    snprintf(src, sizeof src, "%s.src", log);
    FILE *f = fopen(src, "w");
    for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "-")) while ((c = getchar()) != EOF) putc(c, f);
    fclose(f);
    if (out) { unlink(out); if (link("/proc/self/exe", out) && (snprintf(cmd, sizeof cmd, "%s", argv[0]), link(cmd, out))) { perror("link"); return 8; } }
    return 0;
  }
  if (strstr(name, "mvsay")) { if (say) fputs(say, stdout); return 0; }
  if (dir) { /* an instrument: one monitor file in a directory of its own */
    char f[5000];
    if (mkdir(dir, 0700)) { fprintf(stderr, "can not make directory %s\n", dir); return 4; }
    snprintf(f, sizeof f, "%s/mon.dat", dir);
    FILE *d = fopen(f, "w");
    fprintf(d, "# Format: McCode with text headers\n# type: array_0d\n# component: mon\n# variables: I I_err N\n%ld 1 2\n", me);
    fclose(d);
  }
  printf("run %ld\n", me);
  return 0;
}
'''


def build(where: Path) -> Path:
    exe = where / 'recorder'
    (where / 'recorder.c').write_text(SOURCE)
    subprocess.run(['gcc', '-O1', '-w', str(where / 'recorder.c'), '-o', str(exe)], check=True)
    return exe


def records(log: Path) -> list[list[str]]:
    import json
    if not log.exists():
        return []
    return [[a.encode('latin1').decode('utf8', 'surrogateescape') for a in json.loads(x)] for x in log.read_text().splitlines()]
