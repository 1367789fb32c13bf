/* In-process monitor for searchTreeParse(): libFuzzer produces configurations,
   the sanitizers watch, and a second reader of the documented format decides
   which ones have to be refused, because of which line, and which rules,
   policies and expressions the other ones stand for. */
#define _GNU_SOURCE
#include <regex.h>
#include <setjmp.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "CRegion/region.h"
#include "search-tree.h"
#include "str.h"

static jmp_buf on_exit_;
static int armed;
#include "regions.h"
extern void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int status)
{
  if(armed)
  {
    armed = 0;
    longjmp(on_exit_, 1 + (status == 1));
  }
  __real_exit(status);
}

static char *message;
static size_t message_size;
static void stop(const char *m, const char *detail)
{
  if(!judged()) give_up();
  printf("MONITOR: %s (%s) %.200s\n", m, detail, message ? message : "");
  fflush(stdout);
  abort();
}

/* ---- the second reader ------------------------------------------------ */

enum { NONE, COPY, MIRROR, TRACK, IGNORE, SUMMARIZE };

typedef struct Node Node;
struct Node
{
  const char *path; /* as configured, without trailing slashes */
  size_t len;
  const char *name; /* last element; a leading slash stands for an expression */
  size_t nlen;
  Node *parent;
  int policy; /* own one, or NONE */
  size_t line, policy_line;
};
#define MAXN 3000
static Node nodes[MAXN];
static size_t n_nodes;
typedef struct { const char *s; size_t len, line; } Expr;
static Expr exprs[2][MAXN];
static size_t n_exprs[2];
static size_t bad_line;
static const char *bad_why;

static int compiles(const char *s, size_t len)
{
  char *z = strndup(s, len);
  regex_t re;
  int ok = regcomp(&re, z, REG_EXTENDED | REG_NOSUB) == 0;
  if(ok) regfree(&re);
  free(z);
  return ok;
}
/* Where the last element starts; the parent ends one before that. */
static size_t last(const char *p, size_t len)
{
  size_t i = len;
  while(i > 0 && p[i - 1] != '/') i--;
  while(i > 1 && p[i - 2] == '/') i--;
  return i;
}
static Node *find(const char *p, size_t len)
{
  for(size_t i = 0; i < n_nodes; i++)
    if(nodes[i].len == len && memcmp(nodes[i].path, p, len) == 0) return &nodes[i];
  return NULL;
}
static Node *create(const char *p, size_t len, size_t line)
{
  size_t i = last(p, len);
  size_t h = i > 0 ? i - 1 : 0;
  Node *parent = find(p, h);
  if(!parent) parent = create(p, h, line);
  if(bad_why) return NULL;
  if(len - i >= 2 && p[i] == '/' && !compiles(p + i + 1, len - i - 1))
  {
    bad_why = "expression";
    return NULL;
  }
  Node *n = &nodes[n_nodes++];
  *n = (Node){ p, len, p + i, len - i, parent, NONE, line, line };
  return n;
}
static int effective(Node *n)
{
  while(n && n->policy == NONE) n = n->parent;
  return n ? n->policy : NONE;
}

/* 1: valid, 0: not, -1: too much for this monitor */
static int reads(const char *d, size_t n)
{
  n_nodes = 1;
  nodes[0] = (Node){ "", 0, "/", 1, NULL, NONE, 0, 0 };
  n_exprs[0] = n_exprs[1] = 0;
  bad_line = 0;
  bad_why = NULL;
  if(memchr(d, 0, n)) { bad_why = "null"; return 0; }
  size_t p = n >= 3 && memcmp(d, "\xef\xbb\xbf", 3) == 0 ? 3 : 0;
  int cur = NONE;
  for(size_t nr = 1; p < n; nr++)
  {
    const char *l = d + p, *e = memchr(l, '\n', n - p);
    size_t len = e ? (size_t)(e - l) : n - p;
    p += len + 1;
    bad_line = nr;
    size_t blank = 0;
    while(blank < len && (l[blank] == ' ' || l[blank] == '\t')) blank++;
    if(blank == len || l[0] == '#') continue;
    static const char *const names[] = { "", "[copy]", "[mirror]", "[track]", "[ignore]", "[summarize]" };
    int k;
    for(k = 1; k < 6; k++)
      if(strlen(names[k]) == len && memcmp(names[k], l, len) == 0) break;
    if(k < 6) { cur = k; continue; }
    if(l[0] == '[' && l[len - 1] == ']') { bad_why = "policy"; return 0; }
    if(cur == NONE) { bad_why = "without policy"; return 0; }
    if(cur >= IGNORE)
    {
      if(!compiles(l, len)) { bad_why = "expression"; return 0; }
      size_t *c = &n_exprs[cur - IGNORE];
      if(*c == MAXN) return -1;
      exprs[cur - IGNORE][(*c)++] = (Expr){ l, len, nr };
      continue;
    }
    if(l[0] != '/') { bad_why = "no path"; return 0; }
    size_t pl = len;
    while(pl > 0 && l[pl - 1] == '/') pl--;
    size_t slashes = 0;
    for(size_t i = 0; i < pl; i++) slashes += l[i] == '/';
    if(slashes >= 4096) { bad_why = "deep"; return 0; }
    for(size_t x = len; x > 0;)
    {
      size_t i = last(l, x);
      if((x - i == 1 && l[i] == '.') || (x - i == 2 && l[i] == '.' && l[i + 1] == '.')) { bad_why = "dots"; return 0; }
      x = i > 0 ? i - 1 : 0;
    }
    if(n_nodes + slashes + 1 >= MAXN) return -1;
    Node *node = find(l, pl);
    if(node && node->policy != NONE) { bad_why = "twice"; return 0; }
    if(!node) node = create(l, pl, nr);
    if(bad_why) return 0;
    node->policy = cur;
    node->policy_line = nr;
  }
  return 1;
}

/* ---- the comparison --------------------------------------------------- */

static size_t seen;
static void compare(const SearchNode *s, Node *n, RegexList **ignore)
{
  static const int pol[] = { [BPOL_none] = NONE, [BPOL_copy] = COPY, [BPOL_mirror] = MIRROR, [BPOL_track] = TRACK };
  seen++;
  if(s->policy > BPOL_track || pol[s->policy] != effective(n)) stop("another policy", "node");
  if((n->policy != NONE) == s->policy_inherited && s->policy != BPOL_none) stop("inheritance is wrong", "node");
  if(s->ignore_expressions != ignore) stop("node without the ignored expressions", "node");
  if(n != nodes && s->line_nr != n->line) stop("another line", "node");
  if(n->policy != NONE && s->policy_line_nr != n->policy_line) stop("another line of the policy", "node");
  bool re = false;
  size_t subs = 0, want = 0;
  for(size_t i = 0; i < n_nodes; i++)
    if(nodes[i].parent == n)
    {
      want++;
      re = re || (nodes[i].nlen >= 2 && nodes[i].name[0] == '/');
    }
  if(s->subnodes_contain_regex != re) stop("expressions below are not known", "node");
  for(const SearchNode *c = s->subnodes; c; c = c->next)
  {
    Node *m = NULL;
    for(size_t i = 0; i < n_nodes && !m; i++)
    {
      if(nodes[i].parent != n) continue;
      bool isre = nodes[i].nlen >= 2 && nodes[i].name[0] == '/';
      if(isre == (c->regex != NULL) && c->name.length == nodes[i].nlen - isre &&
         memcmp(c->name.content, nodes[i].name + isre, c->name.length) == 0)
        m = &nodes[i];
    }
    if(!m) stop("a rule nobody wrote", "node");
    compare(c, m, ignore);
    subs++;
  }
  if(subs != want) stop("another number of rules", "node");
}
static void compare_list(const RegexList *l, int which)
{
  size_t n = 0;
  for(; l; l = l->next, n++)
  {
    size_t i;
    for(i = 0; i < n_exprs[which]; i++)
      if(exprs[which][i].line == l->line_nr && exprs[which][i].len == l->expression.length &&
         memcmp(exprs[which][i].s, l->expression.content, l->expression.length) == 0)
        break;
    if(i == n_exprs[which] || !l->regex || l->has_matched) stop("an expression nobody wrote", "list");
    regexec(l->regex, "/some/path", 0, NULL, 0);
  }
  if(n != n_exprs[which]) stop("another number of expressions", "list");
}

static unsigned long accepted, refused, rules, lines[8];
static void report(void)
{
  printf("OBSERVED accepted=%lu refused=%lu rules=%lu\n", accepted, refused, rules);
  fflush(stdout);
}
static FILE *real_stderr, *mem;
int LLVMFuzzerInitialize(int *argc, char ***argv)
{
  real_stderr = stderr;
  atexit(report);
  CR_GetGlobalRegion();
  return 0;
}

int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
  /* the C library needs ages and a lot of memory for nested repetitions */
  size_t braces = 0;
  for(size_t i = 0; i < size; i++)
  {
    braces = data[i] == '\n' ? 0 : braces + (data[i] == '{') * 3 + (data[i] == '*' || data[i] == '+' || data[i] == '?');
    if(braces > 5) return -1;
  }
  char *d = malloc(size ? size : 1);
  memcpy(d, data, size);
  int ok = reads(d, size);
  if(ok < 0) { free(d); return -1; }

  CR_Region *r = current = CR_RegionNew();
  if(setjmp(over_)) return over();
  free(message);
  message = NULL;
  mem = open_memstream(&message, &message_size);
  stderr = mem;
  int e = setjmp(on_exit_);
  if(e == 0)
  {
    armed = 1;
    SearchNode *root = searchTreeParse(r, strUnterminated(d, size));
    armed = 0;
    fclose(mem);
    stderr = real_stderr;
    if(!ok) stop("accepted a configuration with an error", bad_why);
    seen = 0;
    compare(root, nodes, root->ignore_expressions);
    if(seen != n_nodes) stop("another number of rules", "tree");
    compare_list(*root->ignore_expressions, 0);
    compare_list(*root->summarize_expressions, 1);
    accepted++;
    rules += n_nodes - 1;
  }
  else
  {
    fclose(mem);
    stderr = real_stderr;
    if(e != 2) stop("ended with success", "exit");
    if(ok) stop("refused a valid configuration", "");
    if(memchr(data, 0, size) == NULL)
    {
      char want[60];
      snprintf(want, sizeof want, "config: line %zu:", bad_line);
      if(!strstr(message, want)) stop("does not name the line", want);
    }
    refused++;
  }
  CR_RegionRelease(r);
  release_rest();
  free(d);
  return 0;
}
