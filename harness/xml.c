/* Driver for XML documents and trees (X01, X02). */
#include "common.h"
#include "wizard/xml-tree.h"

#define MAXN 400
static char *doc;
static size_t len;
static XMLTreeInfo *nodes[MAXN];
static int nn;

static void drv_begin(void) { WizardsToolkitGenesis("driver"); doc = calloc(1, 1 << 22); }
static void drv_end(void);

static char *names[64];
static int nnames;

static int exact(const void *a, const void *b) { return strcmp((const char *) a, (const char *) b); }
static void dump(XMLTreeInfo *x, int depth)
{
  XMLTreeInfo *c, *d, *kids[512];
  SplayTreeInfo *s;
  const char *k;
  int n = 0, i, j;

  if (depth > 100) { outf("[0]"); return; }
  for (c = GetXMLTreeChild(x, NULL); c != NULL && n < 512; c = GetXMLTreeOrdered(c)) kids[n++] = c;
  outf("[");
  out_cstr(GetXMLTreeTag(x));
  outf(",[");
  s = NewSplayTree(exact, RelinquishWizardMemory, RelinquishWizardMemory);
  GetXMLTreeAttributes(x, s);
  ResetSplayTreeIterator(s);
  for (i = 0; (k = (const char *) GetNextKeyInSplayTree(s)) != NULL; i++)
    {
      outf("%s[", i ? "," : "");
      out_cstr(k);
      outf(",");
      out_cstr(GetXMLTreeAttribute(x, k));
      outf("]");
    }
  s = DestroySplayTree(s);
  outf("],");
  out_cstr(GetXMLTreeContent(x));
  outf(",[");
  for (i = 0; i < nnames; i++) { if (i) outf(","); out_cstr(GetXMLTreeAttribute(x, names[i])); }
  outf("],[");
  for (i = 0; i < n; i++)
    {
      int first = 1, steps = 0;
      outf("%s[", i ? "," : "");
      for (c = GetXMLTreeChild(x, GetXMLTreeTag(kids[i])); c != NULL && steps++ < 1000; c = GetNextXMLTreeTag(c))
        {
          for (j = 0; j < n && kids[j] != c; j++) ;
          outf("%s%d", first ? "" : ",", j + 1);
          first = 0;
        }
      outf("]");
    }
  outf("],[");
  for (c = GetXMLTreeChild(x, NULL), i = 0; c != NULL && i < 1000; c = GetXMLTreeSibling(c), i++)
    {
      for (j = 0; j < n && kids[j] != c; j++) ;
      outf("%s%d", i ? "," : "", j + 1);
    }
  outf("],[");
  for (i = 0; i < n; i++) { if (i) outf(","); dump(kids[i], depth + 1); }
  outf("]]");
}
static void pis(XMLTreeInfo *x)
{
  static const char *target[] = { "t", "u2" };
  int i, j;
  outf("[");
  for (i = 0; i < 2; i++)
    {
      const char **p = GetXMLTreeProcessingInstructions(x, target[i]);
      outf("%s[", i ? "," : "");
      for (j = 0; p[j] != NULL; j++) { if (j) outf(","); out_cstr(p[j]); }
      outf("]");
    }
  outf("]");
}
/* parse the text and say what the tree looks like */
static void parse(const char *text)
{
  ExceptionInfo *ex = AcquireExceptionInfo();
  XMLTreeInfo *x = NewXMLTree(text, ex);
  int i;
  if (x == NULL || GetExceptionSeverity(ex) != UndefinedException) outf("[0,[],[],[]]");
  else
    {
      outf("[1,");
      dump(x, 0);
      outf(",");
      pis(x);
      outf(",[");
      for (i = 0; i < nnames; i++) { if (i) outf(","); out_cstr(names[i]); }
      outf("]]");
    }
  if (x != NULL && GetXMLTreeTag(x) != NULL) x = DestroyXMLTree(x);
  ex = DestroyExceptionInfo(ex);
}
static void set_names(Op *op, int i)
{
  char *s = arg_str(op, i), *save, *t;
  nnames = 0;
  for (t = strtok_r(s, " ", &save); t != NULL && nnames < 64; t = strtok_r(NULL, " ", &save)) names[nnames++] = t;
}
/* where in the text of its parent each element of a serialized tree stands */
static void places(const char *p)
{
  long at[200];
  int depth = 0, first = 1;
  at[0] = 0;
  outf("[");
  while (*p != 0)
    {
      if (p[0] == '<' && p[1] == '?') { p = strstr(p, "?>"); if (p == NULL) break; p += 2; continue; }
      if (p[0] == '<' && p[1] == '/') { p = strchr(p, '>'); if (p == NULL || depth == 0) break; p++; depth--; continue; }
      if (p[0] == '<')
        {
          outf("%s%ld", first ? "" : ",", depth == 0 ? 0 : at[depth]);
          first = 0;
          for (p++; *p != 0 && *p != '>'; p++)
            if (*p == '"') { p = strchr(p + 1, '"'); if (p == NULL) break; }
          if (p == NULL || *p == 0) break;
          if (p[-1] != '/') { if (depth < 198) depth++; at[depth] = 0; }
          p++;
          continue;
        }
      at[depth]++;
      if (*p == '&') while (*p != 0 && *p != ';') p++;
      if (*p != 0) p++;
    }
  outf("]");
}
static int number(XMLTreeInfo *x)
{
  int i;
  for (i = 1; i <= nn; i++) if (nodes[i] == x) return i;
  nodes[++nn] = x;
  return nn;
}
static void edit(const char *name, Op *op)
{
  int i = (int) arg_int(op, 0);
  XMLTreeInfo *x = nodes[i];
  static char *ask[] = { "a", "b1" };

  memcpy(names, ask, sizeof(ask));
  nnames = 2;
  if (strcmp(name, "add") == 0)
    {
      nodes[++nn] = AddChildToXMLTree(x, arg_str(op, 1), (size_t) arg_int(op, 2));
      outf("0");
    }
  else if (strcmp(name, "insert") == 0) { (void) InsertTagIntoXMLTree(x, nodes[arg_int(op, 1)], (size_t) arg_int(op, 2)); outf("0"); }
  else if (strcmp(name, "prune") == 0) { (void) PruneTagFromXMLTree(x); outf("0"); }
  else if (strcmp(name, "drop") == 0) { (void) DestroyXMLTree(x); outf("0"); }
  else if (strcmp(name, "content") == 0) { (void) SetXMLTreeContent(x, arg_str(op, 1)); outf("0"); }
  else if (strcmp(name, "attr") == 0) { (void) SetXMLTreeAttribute(x, arg_str(op, 1), arg_str(op, 2)); outf("0"); }
  else if (strcmp(name, "unattr") == 0) { (void) SetXMLTreeAttribute(x, arg_str(op, 1), NULL); outf("0"); }
  else if (strcmp(name, "addpath") == 0)
    {
      char *p = arg_str(op, 1), *save, *t, *q = strdup(p);
      XMLTreeInfo *y = AddPathToXMLTree(x, p, (size_t) arg_int(op, 2)), *z = x;
      for (t = strtok_r(q, "/", &save); t != NULL && z != NULL; t = strtok_r(NULL, "/", &save))
        { z = GetXMLTreeChild(z, t); if (z != NULL) (void) number(z); }
      outf("%d", y == NULL ? 0 : number(y));
    }
  else if (strcmp(name, "getpath") == 0)
    {
      XMLTreeInfo *y = GetXMLTreePath(x, arg_str(op, 1));
      outf("%d", y == NULL ? 0 : number(y));
    }
  else if (strcmp(name, "look") == 0) dump(x, 0);
  else if (strcmp(name, "xml") == 0)
    {
      char *s = XMLTreeInfoToXML(x);
      ExceptionInfo *ex = AcquireExceptionInfo();
      XMLTreeInfo *y = s == NULL ? NULL : NewXMLTree(s, ex);
      if (y == NULL || GetExceptionSeverity(ex) != UndefinedException) outf("[0,[],[],[]]");
      else { outf("[1,"); dump(y, 0); outf(","); pis(y); outf(","); places(s); outf("]"); }
      if (y != NULL && GetXMLTreeTag(y) != NULL) y = DestroyXMLTree(y);
      if (s != NULL) s = DestroyString(s);
    }
  else _exit(99);
}
static void drv_op(const char *name, Op *op)
{
  size_t n;
  if (op->argc > 0 && op->raw[0][0] != 'x' && strcmp(name, "cut") != 0) { edit(name, op); return; }
  if (strcmp(name, "root") == 0 || (strcmp(name, "tag") == 0 && op->argc == 1))
    {
      char *t = arg_str(op, 0);
      if (strcmp(name, "tag") == 0 || arg_int(op, 1) + arg_int(op, 2) == 0) nodes[++nn] = NewXMLTreeTag(t);
      else
        {
          int i, pre = (int) arg_int(op, 1), post = (int) arg_int(op, 2);
          char s[500] = "";
          ExceptionInfo *ex = AcquireExceptionInfo();
          for (i = 1; i <= pre; i++) sprintf(s + strlen(s), "<?t p%d?>", i);
          sprintf(s + strlen(s), "<%s/>", t);
          for (i = pre + 1; i <= pre + post; i++) sprintf(s + strlen(s), "<?t q%d?>", i);
          nodes[++nn] = NewXMLTree(s, ex);
        }
      outf("0");
      return;
    }
  if (strcmp(name, "parse") == 0)
    {
      char *copy = malloc(len + 1);     /* exactly as long as the text */
      memcpy(copy, doc, len + 1);
      set_names(op, 0);
      parse(copy);
      free(copy);
    }
  else if (strcmp(name, "cut") == 0)
    {
      char *copy;
      n = (size_t) arg_int(op, 0);
      if (n > len) n = len;
      copy = calloc(1, len - n + 1);
      memcpy(copy, doc, len - n);
      nnames = 0;
      parse(copy);
      free(copy);
    }
  else
    {
      unsigned char *b = arg_bytes(op, op->argc - 1, &n);
      memcpy(doc + len, b, n);
      len += n;
      doc[len] = 0;
      free(b);
      outf("0");
    }
}
static void drv_end(void)
{
  if (nn > 0) (void) DestroyXMLTree(nodes[1]);
}
