From 950c69348a10848e8d7a0fe4c15135c8f324e1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:01 +0000
Subject: [PATCH 01/92] fix: link the new element when inserting in the middle
 of a linked list

InsertValueInLinkedList() advanced past the new node before linking it, so a
value inserted strictly between two elements was lost while the element count
grew.
---
 wizard/hashmap.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index 6253f67..69df2b4 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -1046,7 +1046,6 @@ WizardExport WizardBooleanType InsertValueInLinkedList(
               element=element->next;
               next->next=element->next;
             }
-            next=next->next;
             element->next=next;
             if (list_info->next == next->next)
               list_info->next=next;
-- 
2.43.0


From a1130c3fc9a341a475565902d10d24a53223f971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:16 +0000
Subject: [PATCH 02/92] fix: do not count a replaced hash-map entry twice

---
 wizard/hashmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index 69df2b4..94cf1b3 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -1542,6 +1542,7 @@ WizardExport WizardBooleanType PutEntryInHashmap(HashmapInfo *hashmap_info,
                 if (hashmap_info->relinquish_value != (void *(*)(void *)) NULL)
                   entry->value=hashmap_info->relinquish_value(entry->value);
                 entry=(EntryInfo *) RelinquishWizardMemory(entry);
+                hashmap_info->entries--;
                 break;
               }
           }
-- 
2.43.0


From 74246dd8e85110472ba8f9d2bcc1e0a33fc0b7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:53 +0000
Subject: [PATCH 03/92] fix: keep hash-map look-ups and removals from
 disturbing a running iteration

---
 wizard/hashmap.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index 94cf1b3..cf54003 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -710,6 +710,9 @@ WizardExport size_t GetNumberOfElementsInLinkedList(
 WizardExport void *GetValueFromHashmap(HashmapInfo *hashmap_info,
   const void *key)
 {
+  ElementInfo
+    *next;
+
   LinkedListInfo
     *list_info;
 
@@ -731,10 +734,9 @@ WizardExport void *GetValueFromHashmap(HashmapInfo *hashmap_info,
   list_info=hashmap_info->map[hash % hashmap_info->capacity];
   if (list_info != (LinkedListInfo *) NULL)
     {
-      list_info->next=list_info->head;
-      entry=(EntryInfo *) GetNextValueInLinkedList(list_info);
-      while (entry != (EntryInfo *) NULL)
+      for (next=list_info->head; next != (ElementInfo *) NULL; next=next->next)
       {
+        entry=(EntryInfo *) next->value;
         if (entry->hash == hash)
           {
             WizardBooleanType
@@ -751,7 +753,6 @@ WizardExport void *GetValueFromHashmap(HashmapInfo *hashmap_info,
                 return(value);
               }
           }
-        entry=(EntryInfo *) GetNextValueInLinkedList(list_info);
       }
     }
   UnlockSemaphoreInfo(hashmap_info->semaphore);
@@ -1739,6 +1740,9 @@ WizardExport void *RemoveElementFromLinkedList(LinkedListInfo *list_info,
 WizardExport void *RemoveEntryFromHashmap(HashmapInfo *hashmap_info,
   const void *key)
 {
+  ElementInfo
+    *next;
+
   EntryInfo
     *entry;
 
@@ -1763,10 +1767,10 @@ WizardExport void *RemoveEntryFromHashmap(HashmapInfo *hashmap_info,
   list_info=hashmap_info->map[hash % hashmap_info->capacity];
   if (list_info != (LinkedListInfo *) NULL)
     {
-      list_info->next=list_info->head;
-      entry=(EntryInfo *) GetNextValueInLinkedList(list_info);
-      for (i=0; entry != (EntryInfo *) NULL; i++)
+      next=list_info->head;
+      for (i=0; next != (ElementInfo *) NULL; i++)
       {
+        entry=(EntryInfo *) next->value;
         if (entry->hash == hash)
           {
             WizardBooleanType
@@ -1793,7 +1797,7 @@ WizardExport void *RemoveEntryFromHashmap(HashmapInfo *hashmap_info,
                 return(value);
               }
           }
-        entry=(EntryInfo *) GetNextValueInLinkedList(list_info);
+        next=next->next;
       }
     }
   UnlockSemaphoreInfo(hashmap_info->semaphore);
-- 
2.43.0


From 5f73ae5f682b5baff883053c31c3d59fcc14c6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:36 +0000
Subject: [PATCH 04/92] fix: append the source at the end of the destination
 when concatenating

ConcatenateStringInfo() copied the source behind the new end of the string,
so the appended part was never visible.
---
 wizard/string.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wizard/string.c b/wizard/string.c
index 580c2bf..2c899ab 100644
--- a/wizard/string.c
+++ b/wizard/string.c
@@ -716,7 +716,6 @@ WizardExport void ConcatenateStringInfo(StringInfo *string_info,
   length+=source->length;
   if (~length < WizardPathExtent)
     ThrowFatalException(ResourceFatalError,"memory allocation failed `%s'");
-  string_info->length=length;
   if (string_info->datum == (unsigned char *) NULL)
     string_info->datum=(unsigned char *) AcquireQuantumMemory(length+
       WizardPathExtent,sizeof(*string_info->datum));
@@ -726,7 +725,9 @@ WizardExport void ConcatenateStringInfo(StringInfo *string_info,
       sizeof(*string_info->datum));
   if (string_info->datum == (unsigned char *) NULL)
     ThrowFatalException(ResourceFatalError,"memory allocation failed `%s'");
-  (void) memcpy(string_info->datum+length,source->datum,source->length);
+  (void) memcpy(string_info->datum+string_info->length,source->datum,
+    source->length);
+  string_info->length=length;
 }
 
 /*
-- 
2.43.0


From 5019c2cd002931b2285ef2e0f5b5fb604e0f4f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:36 +0000
Subject: [PATCH 05/92] fix: setting a string from itself no longer clears it

---
 wizard/string.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wizard/string.c b/wizard/string.c
index 2c899ab..e76cb37 100644
--- a/wizard/string.c
+++ b/wizard/string.c
@@ -1799,6 +1799,8 @@ WizardExport void SetStringInfo(StringInfo *string_info,
   WizardAssert(StringDomain,source->signature == WizardSignature);
   if (string_info->length == 0)
     return;
+  if (string_info == source)
+    return;
   (void) memset(string_info->datum,0,string_info->length);
   (void) memcpy(string_info->datum,source->datum,
     WizardMin(string_info->length,source->length));
-- 
2.43.0


From 621904caf6bfb7eb9ab001ebc6d0a7dc96337b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:36 +0000
Subject: [PATCH 06/92] fix: report the number of characters stored by a
 truncating copy

CopyWizardString() returned one less than it stored whenever the source
filled the destination, also when it fit exactly.
---
 wizard/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/string.c b/wizard/string.c
index e76cb37..5acceed 100644
--- a/wizard/string.c
+++ b/wizard/string.c
@@ -803,7 +803,7 @@ WizardExport size_t CopyWizardString(char *destination,const char *source,
     }
   if (length != 0)
     *q='\0';
-  return((size_t) (p-source-1));
+  return((size_t) (p-source));
 }
 
 /*
-- 
2.43.0


From da869354fd978532dd83545d18da831ce0049af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:36 +0000
Subject: [PATCH 07/92] fix: strip a closing quote or blank that directly
 follows the opening quote

---
 wizard/string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wizard/string.c b/wizard/string.c
index 5acceed..8e2f69f 100644
--- a/wizard/string.c
+++ b/wizard/string.c
@@ -2252,9 +2252,9 @@ WizardExport void StripString(char *message)
   if ((*p == '\'') || (*p == '"'))
     p++;
   q=message+length-1;
-  while ((isspace((int) ((unsigned char) *q)) != 0) && (q > p))
+  while ((q >= p) && (isspace((int) ((unsigned char) *q)) != 0))
     q--;
-  if (q > p)
+  if (q >= p)
     if ((*q == '\'') || (*q == '"'))
       q--;
   (void) memmove(message,p,(size_t) (q-p+1));
-- 
2.43.0


From b3ee02dfdedfcbd1aa3acb27781c77f73ded8ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:11 +0000
Subject: [PATCH 08/92] fix: do not read before the path when its root is empty

A path that consists of a subnode or filesystem specification only has an
empty root; the search for its extension started one byte before the buffer.
---
 wizard/utility.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wizard/utility.c b/wizard/utility.c
index 0014b9e..0c3e4e2 100644
--- a/wizard/utility.c
+++ b/wizard/utility.c
@@ -485,6 +485,8 @@ WizardExport void GetPathComponent(const char *path,PathType type,
     }
     case RootPath:
     {
+      if (*component == '\0')
+        break;
       for (p=component+(strlen(component)-1); p > component; p--)
       {
         if (IsBasenameSeparator(*p) != WizardFalse)
-- 
2.43.0


From 69b166be74276512316df534f4466c2f787fd2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:11 +0000
Subject: [PATCH 09/92] fix: keep the name of a hidden file in the root of its
 path

A leading dot does not start an extension (the extension and base name of
".profile" already say so), but the root of ".profile" came out empty and
appending an extension replaced the whole name.
---
 wizard/utility.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wizard/utility.c b/wizard/utility.c
index 0c3e4e2..dd846f8 100644
--- a/wizard/utility.c
+++ b/wizard/utility.c
@@ -494,7 +494,8 @@ WizardExport void GetPathComponent(const char *path,PathType type,
         if (*p == '.')
           break;
       }
-      if (*p == '.')
+      if ((*p == '.') && (p > component) &&
+          (IsBasenameSeparator(*(p-1)) == WizardFalse))
         *p='\0';
       break;
     }
-- 
2.43.0


From fe0bcd4311bb9a9bbe0b78b4ab63f073ec907927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:13 +0000
Subject: [PATCH 10/92] fix: match what follows a brace group in a glob pattern

The text after a group was taken for further alternatives, so "{a,b}c" never
matched, a text that was a proper prefix of an alternative matched it, and
groups ignored the request to match regardless of case.
---
 wizard/token.c | 91 +++++++++++++++++++++++++-------------------------
 1 file changed, 46 insertions(+), 45 deletions(-)

diff --git a/wizard/token.c b/wizard/token.c
index cf17c46..5619ced 100644
--- a/wizard/token.c
+++ b/wizard/token.c
@@ -379,60 +379,61 @@ WizardExport WizardBooleanType GlobExpression(const char *expression,
       case '{':
       {
          const char
-          *p;
+          *p,
+          *remainder;
 
-        pattern++;
-        while ((*pattern != '}') && (*pattern != '\0'))
+        /*
+          Locate the pattern that follows the group.
+        */
+        remainder=pattern+1;
+        while ((*remainder != '}') && (*remainder != '\0'))
+        {
+          if ((*remainder == '\\') && (*(remainder+1) != '\0'))
+            remainder++;
+          remainder++;
+        }
+        if (*remainder == '\0')
+          {
+            done=WizardTrue;
+            break;
+          }
+        remainder++;
+        match=WizardFalse;
+        while ((*pattern != '}') && (match == WizardFalse))
         {
-          p=expression;
+          /*
+            Match an alternative and, if it fits, the remaining pattern.
+          */
+          pattern++;
           match=WizardTrue;
-          while ((*p != '\0') && (*pattern != '\0') &&
-                 (*pattern != ',') && (*pattern != '}') &&
-                 (match != WizardFalse))
+          for (p=expression; (*pattern != ',') && (*pattern != '}'); pattern++)
           {
             if (*pattern == '\\')
               pattern++;
-            match=(*pattern == *p) ? WizardTrue : WizardFalse;
-            p++;
-            pattern++;
+            if (match == WizardFalse)
+              continue;
+            if (case_insensitive != WizardFalse)
+              match=tolower((int) ((unsigned char) *p)) ==
+                tolower((int) ((unsigned char) *pattern)) ? WizardTrue :
+                WizardFalse;
+            else
+              match=*p == *pattern ? WizardTrue : WizardFalse;
+            if (match != WizardFalse)
+              p++;
           }
-          if (*pattern == '\0')
-            {
-              match=WizardFalse;
-              done=WizardTrue;
-              break;
-            }
           if (match != WizardFalse)
-            {
-              expression=p;
-               while ((*pattern != '}') && (*pattern != '\0'))
-               {
-                 pattern++;
-                 if (*pattern == '\\')
-                   {
-                     pattern++;
-                     if (*pattern == '}')
-                       pattern++;
-                   }
-               }
-             }
-           else
-             {
-               while ((*pattern != '}') && (*pattern != ',') &&
-                      (*pattern != '\0'))
-               {
-                 pattern++;
-                 if (*pattern == '\\')
-                   {
-                     pattern++;
-                     if ((*pattern == '}') || (*pattern == ','))
-                       pattern++;
-                   }
-               }
-             }
-            if (*pattern != '\0')
-              pattern++;
+            match=*remainder == '\0' ? (WizardBooleanType) (*p == '\0') :
+              GlobExpression(p,remainder,case_insensitive);
+        }
+        if (match == WizardFalse)
+          {
+            done=WizardTrue;
+            break;
           }
+        while (*expression != '\0')
+          expression++;
+        while (*pattern != '\0')
+          pattern++;
         break;
       }
       case '\\':
-- 
2.43.0


From 2be95a7d142ef374f53f323a1b15853ec4aa4027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:13 +0000
Subject: [PATCH 11/92] fix: honour case-insensitive matching in glob bracket
 sets

---
 wizard/token.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/wizard/token.c b/wizard/token.c
index 5619ced..b5857b8 100644
--- a/wizard/token.c
+++ b/wizard/token.c
@@ -256,6 +256,23 @@ WizardExport void GetNextToken(const char *start,const char **end,
 %      an expression.
 %
 */
+
+static inline WizardBooleanType IsGlobRange(const char c,const char first,
+  const char last,const WizardBooleanType case_insensitive)
+{
+  if ((c >= first) && (c <= last))
+    return(WizardTrue);
+  if (case_insensitive == WizardFalse)
+    return(WizardFalse);
+  if ((tolower((int) ((unsigned char) c)) >= first) &&
+      (tolower((int) ((unsigned char) c)) <= last))
+    return(WizardTrue);
+  if ((toupper((int) ((unsigned char) c)) >= first) &&
+      (toupper((int) ((unsigned char) c)) <= last))
+    return(WizardTrue);
+  return(WizardFalse);
+}
+
 WizardExport WizardBooleanType GlobExpression(const char *expression,
   const char *pattern,const WizardBooleanType case_insensitive)
 {
@@ -342,14 +359,16 @@ WizardExport WizardBooleanType GlobExpression(const char *expression,
                       break;
                     }
                 }
-              if ((*expression < c) || (*expression > *pattern))
+              if (IsGlobRange(*expression,c,*pattern,
+                    case_insensitive) == WizardFalse)
                 {
                   pattern++;
                   continue;
                 }
             }
           else
-            if (*pattern != *expression)
+            if (IsGlobRange(*expression,*pattern,*pattern,
+                  case_insensitive) == WizardFalse)
               {
                 pattern++;
                 continue;
-- 
2.43.0


From f6e8f94080482e700858311366f93541d20d8c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:56 +0000
Subject: [PATCH 12/92] fix: do not read past a glob pattern that ends within a
 character range

---
 wizard/token.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/token.c b/wizard/token.c
index b5857b8..e635ca5 100644
--- a/wizard/token.c
+++ b/wizard/token.c
@@ -345,7 +345,7 @@ WizardExport WizardBooleanType GlobExpression(const char *expression,
             {
               c=(*pattern);
               pattern+=2;
-              if (*pattern == ']')
+              if ((*pattern == '\0') || (*pattern == ']'))
                 {
                   done=WizardTrue;
                   break;
-- 
2.43.0


From 374687afeee6618f7eb0bfae8b410dc509b8c6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:13 +0000
Subject: [PATCH 13/92] fix: recognize command options by name

The leading sign is part of the name of a command option but was skipped
before the look-up, so no command option was ever found and file name patterns
given as option parameters were expanded.
---
 wizard/option.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/option.c b/wizard/option.c
index 4433680..86736c3 100644
--- a/wizard/option.c
+++ b/wizard/option.c
@@ -452,7 +452,7 @@ WizardExport ssize_t ParseWizardOption(const WizardOption option,
     while (((isspace((int) ((unsigned char) *p)) != 0) || (*p == ',')) &&
            (*p != '\0'))
       p++;
-    if ((*p == '-') || (*p == '+'))
+    if (((*p == '-') || (*p == '+')) && (option != WizardCommandOptions))
       p++;
     negate=(*p == '!') ? WizardTrue : WizardFalse;
     if (negate != WizardFalse)
-- 
2.43.0


From 5863f9166c8cca345a90c96797a5e7ca89b8dcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:13 +0000
Subject: [PATCH 14/92] fix: honour negated members of an option list

The exclamation mark is skipped before the name is collected, so testing the
name for it never found one and a negated member was added instead.
---
 wizard/option.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wizard/option.c b/wizard/option.c
index 86736c3..c5ba4c1 100644
--- a/wizard/option.c
+++ b/wizard/option.c
@@ -470,7 +470,7 @@ WizardExport ssize_t ParseWizardOption(const WizardOption option,
     {
       if (LocaleCompare(token,option_info[i].mnemonic) == 0)
         {
-          if (*token == '!')
+          if (negate != WizardFalse)
             option_types=option_types &~ option_info[i].type;
           else
             option_types=option_types | option_info[i].type;
@@ -488,7 +488,7 @@ WizardExport ssize_t ParseWizardOption(const WizardOption option,
         for (i=0; option_info[i].mnemonic != (char *) NULL; i++)
           if (LocaleCompare(token,option_info[i].mnemonic) == 0)
             {
-              if (*token == '!')
+              if (negate != WizardFalse)
                 option_types=option_types &~ option_info[i].type;
               else
                 option_types=option_types | option_info[i].type;
-- 
2.43.0


From a157989aca05e84bd494dc015dbd30537cd622df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:31 +0000
Subject: [PATCH 15/92] fix: update all eight words of the SHA-224 state

The last word of the state was left unchanged after each block, so every
message of more than 55 bytes got a digest that is not its SHA-224.
---
 wizard/sha2224.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wizard/sha2224.c b/wizard/sha2224.c
index bf17f6d..54cf2cb 100644
--- a/wizard/sha2224.c
+++ b/wizard/sha2224.c
@@ -566,6 +566,7 @@ static void TransformSHA2224(SHA2224Info *sha_info)
   sha_info->accumulator[4]=Trunc32(sha_info->accumulator[4]+E);
   sha_info->accumulator[5]=Trunc32(sha_info->accumulator[5]+F);
   sha_info->accumulator[6]=Trunc32(sha_info->accumulator[6]+G);
+  sha_info->accumulator[7]=Trunc32(sha_info->accumulator[7]+H);
   /*
     Reset working registers.
   */
-- 
2.43.0


From 6be27259ab09f7ead86d80bdcbefb5cb440c25ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:23 +0000
Subject: [PATCH 16/92] fix: Serpent enciphers 16-byte blocks but reported a
 block length of 32

Every mode works on blocks of the reported length, so the second half of
each 32-byte block was never enciphered.
---
 wizard/serpent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/serpent.c b/wizard/serpent.c
index 3d751fe..5b9b98a 100644
--- a/wizard/serpent.c
+++ b/wizard/serpent.c
@@ -70,7 +70,7 @@ struct _SerpentInfo
   (value)|=(*p++) << 16; \
   (value)|=(*p++) << 24; \
 }
-#define SerpentBlocksize 32
+#define SerpentBlocksize 16
 #define Write32Bits(p,value) \
 { \
   *p++=(unsigned char) (value); \
-- 
2.43.0


From 62171e54306431cb55117c76fd9a8455e7f27c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:23 +0000
Subject: [PATCH 17/92] fix: LZMA coding must reach the end of the stream to
 succeed

Damaged or truncated data was restored to shorter content and reported as
success: liblzma error codes are positive, and LZMA_OK after LZMA_FINISH
means that the end was not reached.
---
 wizard/lzma.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wizard/lzma.c b/wizard/lzma.c
index 2e52e63..d779453 100644
--- a/wizard/lzma.c
+++ b/wizard/lzma.c
@@ -261,7 +261,7 @@ WizardExport WizardBooleanType IncreaseLZMA(LZMAInfo *lzma_info,
       return(WizardFalse);
     }
   status=lzma_code(&stream,LZMA_FINISH);
-  if ((status != LZMA_STREAM_END) && (status != LZMA_OK))
+  if (status != LZMA_STREAM_END)
     {
       (void) ThrowWizardException(exception,GetWizardModule(),EntropyError,
         "unable to restore entropy `%s'",strerror(errno));
@@ -348,7 +348,7 @@ WizardExport WizardBooleanType RestoreLZMA(LZMAInfo *lzma_info,
       return(WizardFalse);
     }
   status=lzma_code(&stream,LZMA_RUN);
-  if (status < 0)
+  if ((status != LZMA_STREAM_END) && (status != LZMA_OK))
     {
       (void) ThrowWizardException(exception,GetWizardModule(),EntropyError,
         "unable to restore entropy `%s'",strerror(errno));
@@ -356,7 +356,7 @@ WizardExport WizardBooleanType RestoreLZMA(LZMAInfo *lzma_info,
       return(WizardFalse);
     }
   status=lzma_code(&stream,LZMA_FINISH);
-  if ((status != LZMA_STREAM_END) && (status != LZMA_OK))
+  if (status != LZMA_STREAM_END)
     {
       (void) ThrowWizardException(exception,GetWizardModule(),EntropyError,
         "unable to restore entropy `%s'",strerror(errno));
-- 
2.43.0


From ac952b9745500913e4599898a791d19203fae9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:43 +0000
Subject: [PATCH 18/92] fix: only the holder of a file lock releases it

An attempt that failed or timed out removed the lock of the holder, and so
did the release of a nested acquisition.
---
 wizard/file.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/wizard/file.c b/wizard/file.c
index 42e9b62..a69cff0 100644
--- a/wizard/file.c
+++ b/wizard/file.c
@@ -74,6 +74,9 @@ struct _FileInfo
   int
     file;
 
+  WizardBooleanType
+    locked;
+
   struct stat
     properties;
 
@@ -208,10 +211,11 @@ static WizardBooleanType AcquireFileLock(FileInfo *file_info,
         WizardDelay(1000);
         continue;
       }
+    file_info->locked=WizardTrue;
     pid=(ssize_t) getpid();
     status=WriteFileChunk(file_info,&pid,sizeof(pid));
     tid=GetWizardThreadId();
-    status=WriteFileChunk(file_info,&tid,sizeof(tid));
+    status&=WriteFileChunk(file_info,&tid,sizeof(tid));
     if (close(file_info->file) == -1)
       (void) ThrowWizardException(exception,GetWizardModule(),FileError,
         "unable to close file `%s': %s",path,strerror(errno));
@@ -279,6 +283,7 @@ WizardExport FileInfo *AcquireFileInfo(const char *path,
   (void) memset(file_info,0,sizeof(*file_info));
   file_info->path=AcquireString((char *) NULL);
   file_info->file=(-1);
+  file_info->locked=WizardFalse;
   file_info->semaphore=AcquireSemaphoreInfo();
   file_info->timestamp=time((time_t *) NULL);
   file_info->signature=WizardSignature;
@@ -808,6 +813,9 @@ static WizardBooleanType RelinquishFileLock(FileInfo *file_info,
   char
     *path;
 
+  if (file_info->locked == WizardFalse)
+    return(WizardTrue);
+  file_info->locked=WizardFalse;
   path=AcquireString(file_info->path);
   AppendFileExtension("lck",path);
   if (remove_utf8(path) == -1)
-- 
2.43.0


From 062ab9a6a625c7008743b8ff07acc9b62a6c4cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:10 +0000
Subject: [PATCH 19/92] fix: recover the lock of a dead process, for one
 contender only

A stale lock made the first acquisition fail, a lock whose creator died
before it was filled in was never recovered, and of two contenders that
found the same stale lock the second removed the new lock of the first.
---
 wizard/file.c | 78 +++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 67 insertions(+), 11 deletions(-)

diff --git a/wizard/file.c b/wizard/file.c
index a69cff0..37a7a8f 100644
--- a/wizard/file.c
+++ b/wizard/file.c
@@ -55,6 +55,8 @@
 #endif
 #if defined(WIZARDSTOOLKIT_WINDOWS_SUPPORT)
 #include <windows.h>
+#else
+#include <sys/file.h>
 #endif
 
 /*
@@ -127,6 +129,28 @@ static size_t GetWizardThreadId(void)
 #endif
 }
 
+static WizardBooleanType IsLockFileCurrent(const int file)
+{
+#if defined(WIZARDSTOOLKIT_WINDOWS_SUPPORT)
+  (void) file;
+  return(WizardTrue);
+#else
+  struct stat
+    properties;
+
+  /*
+    The lock file is filled in and removed only by who has the advisory lock on
+    it, the advisory lock goes away with its process.
+  */
+  while (flock(file,LOCK_EX) == -1)
+    if (errno != EINTR)
+      return(WizardTrue);
+  if ((fstat(file,&properties) == 0) && (properties.st_nlink == 0))
+    return(WizardFalse);
+  return(WizardTrue);
+#endif
+}
+
 static WizardBooleanType AcquireFileLock(FileInfo *file_info,
   ExceptionInfo *exception)
 {
@@ -163,15 +187,21 @@ static WizardBooleanType AcquireFileLock(FileInfo *file_info,
           break;
         file_info->file=open_utf8(path,O_RDONLY,0);
         if (file_info->file == -1)
-          break;
+          {
+            if (errno == ENOENT)
+              continue;
+            break;
+          }
+        if (IsLockFileCurrent(file_info->file) == WizardFalse)
+          {
+            (void) close(file_info->file);
+            file_info->file=(-1);
+            continue;
+          }
         pid=(-1);
         tid=(~0UL);
         status=ReadFileChunk(file_info,&pid,sizeof(pid));
         status&=ReadFileChunk(file_info,&tid,sizeof(tid));
-        if (close(file_info->file) == -1)
-          (void) ThrowWizardException(exception,GetWizardModule(),FileError,
-            "unable to close file `%s': %s",path,strerror(errno));
-        file_info->file=(-1);
         if (status != WizardFalse)
           {
             WizardBooleanType
@@ -179,6 +209,8 @@ static WizardBooleanType AcquireFileLock(FileInfo *file_info,
 
             if ((pid == (ssize_t) getpid()) && (tid == GetWizardThreadId()))
               {
+                (void) close(file_info->file);
+                file_info->file=(-1);
                 path=DestroyString(path);
                 UnlockSemaphoreInfo(file_info->semaphore);
                 return(WizardTrue);
@@ -200,17 +232,41 @@ static WizardBooleanType AcquireFileLock(FileInfo *file_info,
               {
                 if (errno != ESRCH)
                   break;
-                i--;
-                if (remove_utf8(path) == -1)
-                  (void) ThrowWizardException(exception,GetWizardModule(),
-                    FileError,"unable to remove file `%s': %s",path,
-                    strerror(errno));
-                break;
+                status=WizardFalse;
               }
           }
+#if defined(WIZARDSTOOLKIT_WINDOWS_SUPPORT)
+        else
+          status=WizardTrue;
+#endif
+        if (status == WizardFalse)
+          {
+            /*
+              The holder is gone (perhaps after releasing its lock), or never
+              completed its lock.
+            */
+            if ((IsLockFileCurrent(file_info->file) != WizardFalse) &&
+                (remove_utf8(path) == -1))
+              (void) ThrowWizardException(exception,GetWizardModule(),
+                FileError,"unable to remove file `%s': %s",path,
+                strerror(errno));
+            (void) close(file_info->file);
+            file_info->file=(-1);
+            continue;
+          }
+        if (close(file_info->file) == -1)
+          (void) ThrowWizardException(exception,GetWizardModule(),FileError,
+            "unable to close file `%s': %s",path,strerror(errno));
+        file_info->file=(-1);
         WizardDelay(1000);
         continue;
       }
+    if (IsLockFileCurrent(file_info->file) == WizardFalse)
+      {
+        (void) close(file_info->file);
+        file_info->file=(-1);
+        continue;
+      }
     file_info->locked=WizardTrue;
     pid=(ssize_t) getpid();
     status=WriteFileChunk(file_info,&pid,sizeof(pid));
-- 
2.43.0


From 6cd8f4adc6d1c38b093df25267410c033204c6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:10 +0000
Subject: [PATCH 20/92] fix: reading at the end of a file never loops on a
 stale errno

---
 wizard/file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wizard/file.c b/wizard/file.c
index 37a7a8f..78edb75 100644
--- a/wizard/file.c
+++ b/wizard/file.c
@@ -682,9 +682,9 @@ WizardExport WizardBooleanType ReadFileChunk(FileInfo *file_info,void *data,
       WizardMaxBufferExtent));
     if (count <= 0)
       {
-        count=0;
-        if (errno != EINTR)
+        if ((count == 0) || (errno != EINTR))
           break;
+        count=0;
       }
   }
   if (i < (ssize_t) length)
-- 
2.43.0


From e6cc4e12e43d1499baf8dc236a14ac3937631f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:55 +0000
Subject: [PATCH 21/92] fix: report a corrupt key ring rather than abort

The path of the key ring was asked from a file that was already destroyed.
---
 wizard/keyring.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index 7283079..0d974e8 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -230,9 +230,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     GetStringInfoLength(target));
   if ((status == WizardFalse) || (CompareStringInfo(target,magick) != 0))
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
   magick=DestroyStringInfo(magick);
@@ -244,9 +244,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     GetStringInfoLength(target));
   if ((status == WizardFalse) || (CompareStringInfo(target,filetype) != 0))
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
   filetype=DestroyStringInfo(filetype);
@@ -257,9 +257,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
   {
     if (signature != WizardSignature)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     keyring_info->signature=signature;
@@ -275,9 +275,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     id=AcquireStringInfo(length);
@@ -286,9 +286,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     key=AcquireStringInfo(length);
@@ -297,9 +297,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     nonce=AcquireStringInfo(length);
@@ -320,9 +320,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     id=DestroyStringInfo(id);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
   }
@@ -476,10 +476,10 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
   offset=lseek(GetFileDescriptor(file_info),0,SEEK_END);
   if (offset == -1)
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "unable to seek keyring `%s': %s",GetFilePath(file_info),
         strerror(errno));
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
   status&=WriteFile32Bits(file_info,keyring_info->signature);
@@ -606,9 +606,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     GetStringInfoLength(target));
   if ((status == WizardFalse) || (CompareStringInfo(target,magick) != 0))
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
   magick=DestroyStringInfo(magick);
@@ -620,9 +620,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     GetStringInfoLength(target));
   if ((status == WizardFalse) || (CompareStringInfo(target,filetype) != 0))
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "corrupt key ring file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
   filetype=DestroyStringInfo(filetype);
@@ -633,9 +633,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
   {
     if (keyring_info.signature != WizardSignature)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     status&=ReadFile32Bits(file_info,&length);
@@ -650,9 +650,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     id=AcquireStringInfo(length);
@@ -661,9 +661,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     key=AcquireStringInfo(length);
@@ -672,9 +672,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     status&=ReadFile32Bits(file_info,&length);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
     nonce=AcquireStringInfo(length);
@@ -714,9 +714,9 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     id=DestroyStringInfo(id);
     if (status == WizardFalse)
       {
-        file_info=DestroyFileInfo(file_info,exception);
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
   }
-- 
2.43.0


From cd622752d7fbc349b56de3719e959ff15cf43c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:55 +0000
Subject: [PATCH 22/92] fix: refuse key ring records that run past the end of
 the file

A damaged length led to a fatal allocation, and a record cut short in its
nonce was exported with made-up bytes.
---
 wizard/keyring.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index 0d974e8..01f0a54 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -273,7 +273,8 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
       status&=ReadFile64Bits(file_info,&timestamp);
     keyring_info->timestamp=(time_t) timestamp;
     status&=ReadFile32Bits(file_info,&length);
-    if (status == WizardFalse)
+    if ((status == WizardFalse) || (length > (size_t)
+        GetFileProperties(file_info)->st_size))
       {
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
@@ -284,7 +285,8 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     status&=ReadFileChunk(file_info,GetStringInfoDatum(id),
       GetStringInfoLength(id));
     status&=ReadFile32Bits(file_info,&length);
-    if (status == WizardFalse)
+    if ((status == WizardFalse) || (length > (size_t)
+        GetFileProperties(file_info)->st_size))
       {
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
@@ -295,7 +297,8 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     status&=ReadFileChunk(file_info,GetStringInfoDatum(key),
       GetStringInfoLength(key));
     status&=ReadFile32Bits(file_info,&length);
-    if (status == WizardFalse)
+    if ((status == WizardFalse) || (length > (size_t)
+        GetFileProperties(file_info)->st_size))
       {
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
@@ -305,7 +308,8 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     nonce=AcquireStringInfo(length);
     status&=ReadFileChunk(file_info,GetStringInfoDatum(nonce),
       GetStringInfoLength(nonce));
-    if (CompareStringInfo(keyring_info->id,id) == 0)
+    if ((status != WizardFalse) &&
+        (CompareStringInfo(keyring_info->id,id) == 0))
       {
         SetKeyringKey(keyring_info,key);
         SetKeyringNonce(keyring_info,nonce);
@@ -648,7 +652,8 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
       status&=ReadFile64Bits(file_info,&timestamp);
     keyring_info.timestamp=(time_t) timestamp;
     status&=ReadFile32Bits(file_info,&length);
-    if (status == WizardFalse)
+    if ((status == WizardFalse) || (length > (size_t)
+        GetFileProperties(file_info)->st_size))
       {
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
@@ -659,7 +664,8 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     status&=ReadFileChunk(file_info,GetStringInfoDatum(id),
       GetStringInfoLength(id));
     status&=ReadFile32Bits(file_info,&length);
-    if (status == WizardFalse)
+    if ((status == WizardFalse) || (length > (size_t)
+        GetFileProperties(file_info)->st_size))
       {
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
@@ -670,7 +676,8 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     status&=ReadFileChunk(file_info,GetStringInfoDatum(key),
       GetStringInfoLength(key));
     status&=ReadFile32Bits(file_info,&length);
-    if (status == WizardFalse)
+    if ((status == WizardFalse) || (length > (size_t)
+        GetFileProperties(file_info)->st_size))
       {
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
           "corrupt key ring file `%s'",GetFilePath(file_info));
-- 
2.43.0


From 5c0b442b018c4dac5aebdd404c2973b783e6d23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:46 +0000
Subject: [PATCH 23/92] fix: look for a duplicate and import the key under one
 lock

Two processes that imported the same identifier at the same time both
succeeded.
---
 wizard/keyring.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index 01f0a54..ad49453 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -447,7 +447,15 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
   WizardAssert(KeymapDomain,exception != (ExceptionInfo *) NULL);
   import_info=AcquireKeyringInfo(keyring_info->path);
   SetKeyringId(import_info,keyring_info->id);
-  if (ExportKeyringKey(import_info,exception) != WizardFalse)
+  file_info=AcquireFileInfo(keyring_info->path,KeyringFilename,WriteFileMode,
+    exception);
+  if (file_info == (FileInfo *) NULL)
+    {
+      import_info=DestroyKeyringInfo(import_info);
+      return(WizardFalse);
+    }
+  if ((GetFileProperties(file_info)->st_size != 0) &&
+      (ExportKeyringKey(import_info,exception) != WizardFalse))
     {
       char
         *id;
@@ -461,13 +469,10 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
         keyring_info->path);
       id=DestroyString(id);
       import_info=DestroyKeyringInfo(import_info);
+      file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
   import_info=DestroyKeyringInfo(import_info);
-  file_info=AcquireFileInfo(keyring_info->path,KeyringFilename,WriteFileMode,
-    exception);
-  if (file_info == (FileInfo *) NULL)
-    return(WizardFalse);
   magick=GetWizardMagick(WizardMagick,sizeof(WizardMagick));
   status=WriteFileChunk(file_info,GetStringInfoDatum(magick),
     GetStringInfoLength(magick));
-- 
2.43.0


From 3f87969d9a72b4abfc6350ee0110a4c49ec04b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:21 +0000
Subject: [PATCH 24/92] fix: an interrupted or failed import leaves a usable
 key ring

What an import had written when it died or failed stayed in the key ring,
which made it corrupt, and a failed import was reported as success.  Keys
are no longer added behind damaged records, where no export finds them.
---
 wizard/keyring.c | 84 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 69 insertions(+), 15 deletions(-)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index ad49453..43e118d 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -79,6 +79,9 @@ struct _KeyringInfo
   time_t
     timestamp;
 
+  WizardOffsetType
+    extent;
+
   size_t
     signature;
 };
@@ -213,6 +216,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
     length,
     signature;
 
+  WizardOffsetType
+    offset;
+
   WizardSizeType
     timestamp;
 
@@ -220,6 +226,7 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
   WizardAssert(KeymapDomain,keyring_info != (KeyringInfo *) NULL);
   WizardAssert(KeymapDomain,keyring_info->signature == WizardSignature);
   WizardAssert(KeymapDomain,exception != (ExceptionInfo *) NULL);
+  keyring_info->extent=(-1);
   file_info=AcquireFileInfo(keyring_info->path,KeyringFilename,ReadFileMode,
     exception);
   if (file_info == (FileInfo *) NULL)
@@ -253,8 +260,11 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
   target=DestroyStringInfo(target);
   signature=0;
   length=0;
+  offset=lseek(GetFileDescriptor(file_info),0,SEEK_CUR);
   while (ReadFile32Bits(file_info,&signature) != 0)
   {
+    if (signature == 0)
+      break;  /* left by an interrupted import */
     if (signature != WizardSignature)
       {
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
@@ -329,7 +339,9 @@ WizardExport WizardBooleanType ExportKeyringKey(KeyringInfo *keyring_info,
         file_info=DestroyFileInfo(file_info,exception);
         return(WizardFalse);
       }
+    offset=lseek(GetFileDescriptor(file_info),0,SEEK_CUR);
   }
+  keyring_info->extent=offset;
   file_info=DestroyFileInfo(file_info,exception);
   return(WizardFalse);
 }
@@ -454,7 +466,13 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
       import_info=DestroyKeyringInfo(import_info);
       return(WizardFalse);
     }
-  if ((GetFileProperties(file_info)->st_size != 0) &&
+  magick=GetWizardMagick(WizardMagick,sizeof(WizardMagick));
+  filetype=GetWizardMagick((unsigned char *) KeyringFiletype,
+    strlen(KeyringFiletype));
+  offset=(WizardOffsetType) (GetStringInfoLength(magick)+
+    GetStringInfoLength(filetype));
+  import_info->extent=offset;
+  if ((GetFileProperties(file_info)->st_size >= offset) &&
       (ExportKeyringKey(import_info,exception) != WizardFalse))
     {
       char
@@ -468,22 +486,44 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
         "unable to import key `%s' (its already in the keyring): %s",id,
         keyring_info->path);
       id=DestroyString(id);
+      filetype=DestroyStringInfo(filetype);
+      magick=DestroyStringInfo(magick);
       import_info=DestroyKeyringInfo(import_info);
       file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
+  offset=import_info->extent;
   import_info=DestroyKeyringInfo(import_info);
-  magick=GetWizardMagick(WizardMagick,sizeof(WizardMagick));
-  status=WriteFileChunk(file_info,GetStringInfoDatum(magick),
-    GetStringInfoLength(magick));
+  if (offset == -1)
+    {
+      filetype=DestroyStringInfo(filetype);
+      magick=DestroyStringInfo(magick);
+      file_info=DestroyFileInfo(file_info,exception);
+      return(WizardFalse);
+    }
+  status=WizardTrue;
+  if (GetFileProperties(file_info)->st_size < (WizardOffsetType)
+      (GetStringInfoLength(magick)+GetStringInfoLength(filetype)))
+    {
+      status=WriteFileChunk(file_info,GetStringInfoDatum(magick),
+        GetStringInfoLength(magick));
+      if (status != WizardFalse)
+        status=WriteFileChunk(file_info,GetStringInfoDatum(filetype),
+          GetStringInfoLength(filetype));
+    }
   magick=DestroyStringInfo(magick);
-  filetype=GetWizardMagick((unsigned char *) KeyringFiletype,
-    strlen(KeyringFiletype));
-  status&=WriteFileChunk(file_info,GetStringInfoDatum(filetype),
-    GetStringInfoLength(filetype));
   filetype=DestroyStringInfo(filetype);
-  offset=lseek(GetFileDescriptor(file_info),0,SEEK_END);
-  if (offset == -1)
+  if (status == WizardFalse)
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
+        "unable to write keyring `%s': %s",GetFilePath(file_info),
+        strerror(errno));
+      (void) ftruncate(GetFileDescriptor(file_info),0);
+      file_info=DestroyFileInfo(file_info,exception);
+      return(WizardFalse);
+    }
+  if ((ftruncate(GetFileDescriptor(file_info),offset) == -1) ||
+      (lseek(GetFileDescriptor(file_info),offset,SEEK_SET) == -1))
     {
       (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
         "unable to seek keyring `%s': %s",GetFilePath(file_info),
@@ -491,7 +531,10 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
       file_info=DestroyFileInfo(file_info,exception);
       return(WizardFalse);
     }
-  status&=WriteFile32Bits(file_info,keyring_info->signature);
+  /*
+    The signature comes last: without it the record does not count.
+  */
+  status&=WriteFile32Bits(file_info,0U);
   status&=WriteFile32Bits(file_info,0U);
   status&=WriteFile16Bits(file_info,keyring_info->protocol_major);
   status&=WriteFile16Bits(file_info,keyring_info->protocol_minor);
@@ -507,12 +550,21 @@ WizardExport WizardBooleanType ImportKeyringKey(KeyringInfo *keyring_info,
   status&=WriteFile32Bits(file_info,(size_t) length);
   status&=WriteFileChunk(file_info,GetStringInfoDatum(keyring_info->nonce),
     length);
+  if (status != WizardFalse)
+    {
+      if (lseek(GetFileDescriptor(file_info),offset,SEEK_SET) == -1)
+        status=WizardFalse;
+      status&=WriteFile32Bits(file_info,keyring_info->signature);
+    }
   if (status == WizardFalse)
-    (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
-      "unable to write keyring `%s': %s",GetFilePath(file_info),
-      strerror(errno));
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
+        "unable to write keyring `%s': %s",GetFilePath(file_info),
+        strerror(errno));
+      (void) ftruncate(GetFileDescriptor(file_info),offset);
+    }
   file_info=DestroyFileInfo(file_info,exception);
-  return(WizardTrue);
+  return(status == WizardFalse ? WizardFalse : WizardTrue);
 }
 
 /*
@@ -640,6 +692,8 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
   (void) memset(&keyring_info,0,sizeof(keyring_info));
   while (ReadFile32Bits(file_info,&keyring_info.signature) != 0)
   {
+    if (keyring_info.signature == 0)
+      break;  /* left by an interrupted import */
     if (keyring_info.signature != WizardSignature)
       {
         (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
-- 
2.43.0


From 9935ce89dda1df2d0ab02ca363aae06b737ffdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:31 +0000
Subject: [PATCH 25/92] fix: do not list a key ring record that is truncated

---
 wizard/keyring.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/wizard/keyring.c b/wizard/keyring.c
index 43e118d..ebe599b 100644
--- a/wizard/keyring.c
+++ b/wizard/keyring.c
@@ -746,6 +746,13 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     nonce=AcquireStringInfo(length);
     status&=ReadFileChunk(file_info,GetStringInfoDatum(nonce),
       GetStringInfoLength(nonce));
+    if (status == WizardFalse)
+      {
+        (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
+          "corrupt key ring file `%s'",GetFilePath(file_info));
+        file_info=DestroyFileInfo(file_info,exception);
+        return(WizardFalse);
+      }
     keyring_rdf=AcquireString("  <keyring:Key rdf:about=\"");
     hex=StringInfoToHexString(id);
     (void) ConcatenateString(&keyring_rdf,hex);
@@ -778,13 +785,6 @@ WizardExport WizardBooleanType PrintKeyringProperties(const char *path,
     nonce=DestroyStringInfo(nonce);
     key=DestroyStringInfo(key);
     id=DestroyStringInfo(id);
-    if (status == WizardFalse)
-      {
-        (void) ThrowWizardException(exception,GetWizardModule(),KeyringError,
-          "corrupt key ring file `%s'",GetFilePath(file_info));
-        file_info=DestroyFileInfo(file_info,exception);
-        return(WizardFalse);
-      }
   }
   canonical_path=DestroyString(canonical_path);
   file_info=DestroyFileInfo(file_info,exception);
-- 
2.43.0


From 2e5d7b2a267f33322ab16fde62ec651bb9365677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:01 +0000
Subject: [PATCH 26/92] fix: take the key length from the argument of
 -key-length

The option name itself was converted, so the key always came out empty.
---
 utilities/decipher.c | 2 +-
 utilities/encipher.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/utilities/decipher.c b/utilities/decipher.c
index d091e26..10b3f31 100644
--- a/utilities/decipher.c
+++ b/utilities/decipher.c
@@ -404,7 +404,7 @@ WizardExport WizardBooleanType DecipherCommand(int argc,char **argv,
               ThrowCipherException(OptionError,"missing key length: `%s'",
                 option);
             content_info->key_length=(unsigned int) StringToDouble(
-              option,(char **) NULL);
+              argv[i],(char **) NULL);
             break;
           }
         if (LocaleCompare("keyring",option+1) == 0)
diff --git a/utilities/encipher.c b/utilities/encipher.c
index 3183cd4..d4d3175 100644
--- a/utilities/encipher.c
+++ b/utilities/encipher.c
@@ -405,7 +405,7 @@ WizardExport WizardBooleanType EncipherCommand(int argc,char **argv,
               ThrowCipherException(OptionError,"missing key length: `%s'",
                 option);
             content_info->key_length=(unsigned int) StringToDouble(
-              option,(char **) NULL);
+              argv[i],(char **) NULL);
             break;
           }
         if (LocaleCompare("keyring",option+1) == 0)
-- 
2.43.0


From a7a2f62950bd9ba27b429145d014b56f55563554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:01 +0000
Subject: [PATCH 27/92] fix: refuse a chunk size below one byte

With chunks of no bytes nothing was enciphered, yet success was reported.
---
 utilities/decipher.c | 3 +--
 utilities/encipher.c | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/utilities/decipher.c b/utilities/decipher.c
index 10b3f31..ee2fda4 100644
--- a/utilities/decipher.c
+++ b/utilities/decipher.c
@@ -296,8 +296,7 @@ WizardExport WizardBooleanType DecipherCommand(int argc,char **argv,
               ThrowCipherException(OptionError,"missing chunk size: `%s'",
                 option);
             value=StringToDouble(argv[i],&p);
-            (void) value;
-            if (p == argv[i])
+            if ((p == argv[i]) || (value < 1.0))
               ThrowInvalidArgumentException(option,argv[i]);
             content_info->chunksize=(size_t) StringToDoubleInterval(argv[i],
               100.0);
diff --git a/utilities/encipher.c b/utilities/encipher.c
index d4d3175..68c0d18 100644
--- a/utilities/encipher.c
+++ b/utilities/encipher.c
@@ -297,8 +297,7 @@ WizardExport WizardBooleanType EncipherCommand(int argc,char **argv,
               ThrowCipherException(OptionError,"missing chunk size: `%s'",
                 option);
             value=StringToDouble(argv[i],&p);
-            (void) value;
-            if (p == argv[i])
+            if ((p == argv[i]) || (value < 1.0))
               ThrowInvalidArgumentException(option,argv[i]);
             content_info->chunksize=(size_t) StringToDoubleInterval(argv[i],
               100.0);
-- 
2.43.0


From 41f38b02ca01bca6145c5c7b20cc561af012728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:01 +0000
Subject: [PATCH 28/92] fix: escape the file name in the properties of
 enciphered content

The properties of a file with a quote, an ampersand or an angle bracket in its
name did not parse, so the enciphered content could not be deciphered.
---
 utilities/encipher.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utilities/encipher.c b/utilities/encipher.c
index 68c0d18..f33f0c9 100644
--- a/utilities/encipher.c
+++ b/utilities/encipher.c
@@ -630,6 +630,7 @@ static WizardBooleanType EncipherContent(ContentInfo *content_info,
 }
 
   char
+    *canonical_filename,
     *cipher_packet,
     *cipher_rdf,
     *digest,
@@ -704,7 +705,9 @@ static WizardBooleanType EncipherContent(ContentInfo *content_info,
   (void) ConcatenateString(&cipher_rdf,"         xmlns:cipher=\""
      "https://urban-warrior.org/WizardsToolkit/cipher/1.0/\">\n");
   (void) ConcatenateString(&cipher_rdf,"  <cipher:Content rdf:about=\"");
-  (void) ConcatenateString(&cipher_rdf,plain_filename);
+  canonical_filename=CanonicalXMLContent(plain_filename,WizardFalse);
+  (void) ConcatenateString(&cipher_rdf,canonical_filename);
+  canonical_filename=DestroyString(canonical_filename);
   (void) ConcatenateString(&cipher_rdf,"\">\n");
   (void) FormatLocaleString(message,WizardPathExtent,
     "    <cipher:type>%s</cipher:type>\n",WizardOptionToMnemonic(
-- 
2.43.0


From b881556cd7de80b064ad34b257cd9b5024b1d325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:01 +0000
Subject: [PATCH 29/92] fix: find the last chunk of enciphered content whatever
 its size

Deciphering took a chunk for the last one only when it was shorter than the
others, and took the final padding block for the start of another chunk.  Read
one record ahead instead.  Padding that is out of range no longer underflows
the length of the chunk.
---
 utilities/decipher.c | 100 +++++++++++++++++++++++++++++++------------
 utilities/encipher.c |  11 ++++-
 2 files changed, 83 insertions(+), 28 deletions(-)

diff --git a/utilities/decipher.c b/utilities/decipher.c
index ee2fda4..c6327b6 100644
--- a/utilities/decipher.c
+++ b/utilities/decipher.c
@@ -622,6 +622,12 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
   const char *cipher_filename,const char *plain_filename,
   const WizardBooleanType compress,ExceptionInfo *exception)
 {
+#define ThrowCorruptChunkException() \
+{ \
+  (void) FormatLocaleString(message,WizardPathExtent,"corrupt cipher " \
+    "chunk #%.20g `%s'",(double) chunk,cipher_filename); \
+  ThrowDecipherContentException(FileError,"%s: `%s'",message); \
+}
 #define ThrowDecipherContentException(asperity,tag,context) \
 { \
   (void) ThrowWizardException(exception,GetWizardModule(),asperity, \
@@ -637,21 +643,27 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
 
   size_t
     blocksize,
+    extent,
+    front,
     length,
     pad;
 
   ssize_t
-    count;
+    count,
+    next_count;
 
   StringInfo
     *ciphertext,
     *hmac,
-    *plaintext;
+    *next_record,
+    *plaintext,
+    *record;
 
   size_t
     chunk;
 
   WizardBooleanType
+    padded,
     status;
 
   /*
@@ -743,33 +755,65 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
   pad=blocksize-content_info->chunksize % blocksize;
   if (pad == blocksize)
     pad=0;
+  front=0;
+  if (content_info->hmac != NoHash)
+    front+=GetStringInfoLength(hmac);
+  if (content_info->entropy != NoEntropy)
+    front++;
+  extent=front+content_info->chunksize;
+  if (content_info->mode != CFBMode)
+    extent+=pad;
   ciphertext=AcquireStringInfo(content_info->chunksize);
-  for (chunk=0; ; chunk++)
+  record=AcquireStringInfo(extent);
+  next_record=AcquireStringInfo(extent);
+  count=ReadBlobChunk(content_info->cipherblob,extent,GetStringInfoDatum(
+    record));
+  for (chunk=0; count > 0; chunk++)
   {
+    /*
+      Read one record ahead: the last chunk is always padded.
+    */
+    next_count=ReadBlobChunk(content_info->cipherblob,extent,GetStringInfoDatum(
+      next_record));
+    if ((size_t) count <= front)
+      ThrowCorruptChunkException();
     if (content_info->hmac != NoHash)
-      {
-        length=GetStringInfoLength(hmac);
-        count=ReadBlobChunk(content_info->cipherblob,length,GetStringInfoDatum(
-          hmac));
-        if (count <= 0)
-          break;
-      }
+      SetStringInfoDatum(hmac,GetStringInfoDatum(record));
     if (content_info->entropy != NoEntropy)
-      entropy=(EntropyType) ReadBlobByte(content_info->cipherblob);
-    length=content_info->chunksize;
+      entropy=(EntropyType) GetStringInfoDatum(record)[front-1];
+    length=(size_t) count-front;
+    SetStringInfoLength(ciphertext,length+blocksize);
+    (void) memcpy(GetStringInfoDatum(ciphertext),GetStringInfoDatum(record)+
+      front,length);
+    padded=WizardFalse;
     if (content_info->mode != CFBMode)
-      length+=pad;
-    SetStringInfoLength(ciphertext,length);
-    count=ReadBlobChunk(content_info->cipherblob,length,GetStringInfoDatum(
-      ciphertext));
-    if (count <= 0)
-      break;
-    length=(size_t) count;
+      {
+        padded=(pad != 0) || (next_count <= 0) ? WizardTrue : WizardFalse;
+        if ((pad == 0) && (front != 0) && (count == (ssize_t) extent) &&
+            (next_count == (ssize_t) blocksize))
+          {
+            /*
+              Cryptographic padding of a full chunk.
+            */
+            (void) memcpy(GetStringInfoDatum(ciphertext)+length,
+              GetStringInfoDatum(next_record),blocksize);
+            length+=blocksize;
+            next_count=0;
+            padded=WizardTrue;
+          }
+        if ((length % blocksize) != 0)
+          ThrowCorruptChunkException();
+      }
     SetStringInfoLength(ciphertext,length);
     plaintext=DecipherCipher(content_info->cipher_info,ciphertext);
-    if ((content_info->mode != CFBMode) &&
-        ((pad != 0) || (EOFBlob(content_info->cipherblob) != WizardFalse)))
-      length-=GetStringInfoDatum(plaintext)[length-1]+1;
+    if (padded != WizardFalse)
+      {
+        if ((size_t) GetStringInfoDatum(plaintext)[length-1] >= blocksize)
+          ThrowCorruptChunkException();
+        length-=GetStringInfoDatum(plaintext)[length-1]+1;
+        if (length > content_info->chunksize)
+          ThrowCorruptChunkException();
+      }
     SetStringInfoLength(plaintext,length);
     if (entropy != NoEntropy)
       {
@@ -785,17 +829,17 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
         ConstructHMAC(content_info->hmac_info,GetAuthenticateKey(
           content_info->authenticate_info),plaintext);
         if (CompareStringInfo(hmac,GetHMACDigest(content_info->hmac_info)) != 0)
-          {
-            (void) FormatLocaleString(message,WizardPathExtent,"corrupt cipher "
-              "chunk #%.20g `%s'",(double) chunk,cipher_filename);
-            ThrowDecipherContentException(FileError,"%s: `%s'",message);
-          }
+          ThrowCorruptChunkException();
       }
     count=WriteBlobChunk(content_info->plainblob,length,GetStringInfoDatum(
       plaintext));
     if (count != (ssize_t) length)
       ThrowDecipherContentException(FileError,"unable to write plaintext "
         "`%s': `%s'",cipher_filename);
+    plaintext=record;
+    record=next_record;
+    next_record=plaintext;
+    count=next_count;
   }
   if (CloseBlob(content_info->cipherblob) == WizardFalse)
     ThrowFileException(exception,FileError,content_info->content);
@@ -813,6 +857,8 @@ static WizardBooleanType DecipherContent(ContentInfo *content_info,
   }
 #endif
   ciphertext=DestroyStringInfo(ciphertext);
+  record=DestroyStringInfo(record);
+  next_record=DestroyStringInfo(next_record);
   if (content_info->hmac != NoHash)
     hmac=DestroyStringInfo(hmac);
   return(WizardTrue);
diff --git a/utilities/encipher.c b/utilities/encipher.c
index f33f0c9..9fb5e5c 100644
--- a/utilities/encipher.c
+++ b/utilities/encipher.c
@@ -889,8 +889,17 @@ static WizardBooleanType EncipherContent(ContentInfo *content_info,
   if ((content_info->mode != CFBMode) && (pad == blocksize))
     {
       /*
-        Cryptographic padding.
+        Cryptographic padding.  With nothing in front of a chunk to tell it
+        from the padding of the chunk before, the padding is its own chunk.
       */
+      if ((content_info->hmac == NoHash) &&
+          (content_info->entropy == NoEntropy) &&
+          (length == content_info->chunksize))
+        {
+          SetStringInfoLength(plaintext,0);
+          ciphertext=EncipherCipher(content_info->cipher_info,plaintext);
+          length=0;
+        }
       count=WriteBlobChunk(content_info->cipherblob,blocksize,
         GetStringInfoDatum(ciphertext)+length);
       if (count != (ssize_t) blocksize)
-- 
2.43.0


From 0a50a612ca0c6d2c44e3eb3c5abf32baf25a38e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:28 +0000
Subject: [PATCH 30/92] fix: damaged cipher properties are refused rather than
 read forever

A character that is neither printable nor white space in the first line of the
properties, or an element of another name space in the properties themselves,
was never passed over.  A long name in the first line wrote one byte past the
end of the buffer.
---
 utilities/content.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utilities/content.c b/utilities/content.c
index 8bd4a32..ede3564 100644
--- a/utilities/content.c
+++ b/utilities/content.c
@@ -256,7 +256,7 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
               break;
             if (c == (int) '=')
               break;
-            if ((size_t) (p-key) < WizardPathExtent)
+            if ((size_t) (p-key) < (WizardPathExtent-1))
               *p++=(char) c;
             c=ReadBlobByte(cipher_blob);
           } while (c != EOF);
@@ -332,6 +332,8 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
         c=ReadBlobByte(cipher_blob);
     }
     options=DestroyString(options);
+    if ((c != '>') && (c != EOF))
+      c=ReadBlobByte(cipher_blob);
   }
   if ((bytes == 0) || (digest == (char *) NULL))
     {
@@ -389,7 +391,10 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
     tag=GetXMLTreeTag(node);
     content=GetXMLTreeContent(node);
     if (strncmp(tag,"cipher:",7) != 0)
-      continue;
+      {
+        node=GetXMLTreeSibling(node);
+        continue;
+      }
     tag+=7;
     switch (*tag)
     {
-- 
2.43.0


From a3d8f332e67a7ee8c3175fb898ec781b193aa6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:19 +0000
Subject: [PATCH 31/92] fix: verify files with spaces or special characters in
 their names

The name of a file in a digest manifest ended at the first space, and was
looked for with its characters still escaped.
---
 utilities/digest.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/utilities/digest.c b/utilities/digest.c
index 4a290fc..84e72eb 100644
--- a/utilities/digest.c
+++ b/utilities/digest.c
@@ -145,6 +145,7 @@ static WizardBooleanType AuthenticateDigest(int argc,char **argv,
     *option,
     *options,
     *path,
+    quote,
     *timestamp;
 
   HashInfo
@@ -171,6 +172,9 @@ static WizardBooleanType AuthenticateDigest(int argc,char **argv,
   WizardBooleanType
     status;
 
+  XMLTreeInfo
+    *about;
+
   status=WizardFalse;
   authenticate_blob=OpenBlob(argv[argc-1],WriteBinaryBlobMode,WizardTrue,
     exception);
@@ -284,13 +288,19 @@ static WizardBooleanType AuthenticateDigest(int argc,char **argv,
               Get the key.
             */
             p=key;
+            quote='\0';
             do
             {
-              if (isspace((int) ((unsigned char) c)) != 0)
-                break;
-              if (c == (int) '>')
-                break;
-              if ((size_t) (p-key) < WizardPathExtent)
+              if (quote == '\0')
+                {
+                  if (isspace((int) ((unsigned char) c)) != 0)
+                    break;
+                  if (c == (int) '>')
+                    break;
+                }
+              if (c == (int) '"')
+                quote=quote == '\0' ? '"' : '\0';
+              if ((size_t) (p-key) < (WizardPathExtent-1))
                 *p++=(char) c;
               c=ReadBlobByte(digest_blob);
             } while (c != EOF);
@@ -381,7 +391,15 @@ static WizardBooleanType AuthenticateDigest(int argc,char **argv,
                     StripString(key+10);
                     if (path != (char *) NULL)
                       path=DestroyString(path);
-                    path=ConstantString(key+10);
+                    path=AcquireString("<rdf:about>");
+                    (void) ConcatenateString(&path,key+10);
+                    (void) ConcatenateString(&path,"</rdf:about>");
+                    about=NewXMLTree(path,exception);
+                    path=DestroyString(path);
+                    path=ConstantString(about == (XMLTreeInfo *) NULL ?
+                      key+10 : GetXMLTreeContent(about));
+                    if (about != (XMLTreeInfo *) NULL)
+                      about=DestroyXMLTree(about);
                     if (digest != (char *) NULL)
                       {
                         digest=DestroyString(digest);
-- 
2.43.0


From cdbc38e5ec103914b4b558f2d004598da37a54db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:19 +0000
Subject: [PATCH 32/92] fix: a damaged digest manifest is read to its end

A character that is neither printable nor white space closed the manifest and
was then read over and over again.
---
 utilities/digest.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/utilities/digest.c b/utilities/digest.c
index 84e72eb..05d13ba 100644
--- a/utilities/digest.c
+++ b/utilities/digest.c
@@ -502,9 +502,12 @@ static WizardBooleanType AuthenticateDigest(int argc,char **argv,
           c=ReadBlobByte(digest_blob);
       }
       options=DestroyString(options);
-      if (CloseBlob(digest_blob) == WizardFalse)
-        ThrowFileException(exception,FileError,argv[i]);
+      if ((c != '>') && (c != EOF))
+        c=ReadBlobByte(digest_blob);
     }
+    if (CloseBlob(digest_blob) == WizardFalse)
+      ThrowFileException(exception,FileError,argv[i]);
+    digest_blob=DestroyBlob(digest_blob);
     if (path != (char *) NULL)
       path=DestroyString(path);
     if (digest != (char *) NULL)
-- 
2.43.0


From d2a98d4649752d28eb54c0e9aa9699cf9751b452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:00 +0000
Subject: [PATCH 33/92] fix: refuse cipher properties that end before their
 trailer

Enciphered content cut off inside the trailer of its properties deciphered to
an empty file, with success.
---
 utilities/content.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/utilities/content.c b/utilities/content.c
index ede3564..03f505b 100644
--- a/utilities/content.c
+++ b/utilities/content.c
@@ -596,8 +596,16 @@ WizardExport WizardBooleanType GetContentInfo(ContentInfo *content_info,
     while (isspace((int) ((unsigned char) c)) != 0)
       c=ReadBlobByte(cipher_blob);
   }
-  c=ReadBlobByte(cipher_blob);
-  c=ReadBlobByte(cipher_blob);
+  if (c != EOF)
+    c=ReadBlobByte(cipher_blob);
+  if (c != EOF)
+    c=ReadBlobByte(cipher_blob);
+  if (c == EOF)
+    {
+      (void) ThrowWizardException(exception,GetWizardModule(),AuthenticateError,
+        "authentication error: `%s'",GetBlobFilename(cipher_blob));
+      return(WizardFalse);
+    }
   return(WizardTrue);
 }
 
-- 
2.43.0


From 0982d07352a0a6a6d2fd52d2a8af2d7ecc587ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:00 +0000
Subject: [PATCH 34/92] fix: do not encode UTF-8 content as UTF-8 once more

Content is taken for Latin-1 only when it is not UTF-8 already.  An element
with UTF-8 content did not survive being serialized and parsed, and a digest
manifest or key ring listing held another name than that of the file.
---
 wizard/xml-tree.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index bd9ceee..cab1009 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -334,6 +334,27 @@ static unsigned char *ConvertLatin1ToUTF8(const unsigned char *content)
   return(utf8);
 }
 
+static WizardBooleanType IsUTF8(const unsigned char *content)
+{
+   const unsigned char
+    *p;
+
+   ssize_t
+    i;
+
+  for (p=content; *p != '\0'; p++)
+  {
+    if (*p < 0x80)
+      continue;
+    if ((*p < 0xc2) || (*p > 0xf4))
+      return(WizardFalse);
+    for (i=*p < 0xe0 ? 1 : *p < 0xf0 ? 2 : 3; i > 0; i--)
+      if ((*++p & 0xc0) != 0x80)
+        return(WizardFalse);
+  }
+  return(WizardTrue);
+}
+
 WizardExport char *CanonicalXMLContent(const char *content,
   const WizardBooleanType pedantic)
 {
@@ -354,7 +375,10 @@ WizardExport char *CanonicalXMLContent(const char *content,
   unsigned char
     *utf8;
 
-  utf8=ConvertLatin1ToUTF8((const unsigned char *) content);
+  if (IsUTF8((const unsigned char *) content) != WizardFalse)
+    utf8=(unsigned char *) ConstantString(content);
+  else
+    utf8=ConvertLatin1ToUTF8((const unsigned char *) content);
   if (utf8 == (unsigned char *) NULL)
     return((char *) NULL);
   for (p=utf8; *p != '\0'; p++)
-- 
2.43.0


From ebd7cee4ebf1951698d7e97380eb80a91a0bff15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:55 +0000
Subject: [PATCH 35/92] fix: leave no key behind when authentication is refused

After a wrong passphrase the secret held a wrongly deciphered key, and
after an unknown identifier the key of the previous attempt.
---
 wizard/secret.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wizard/secret.c b/wizard/secret.c
index 38f0966..434aea1 100644
--- a/wizard/secret.c
+++ b/wizard/secret.c
@@ -180,6 +180,8 @@ WizardExport WizardBooleanType AuthenticateSecretKey(SecretInfo *secret_info,
   (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
   WizardAssert(AuthenticateDomain,secret_info != (SecretInfo *) NULL);
   WizardAssert(AuthenticateDomain,secret_info->signature == WizardSignature);
+  if (secret_info->key != (StringInfo *) NULL)
+    secret_info->key=DestroyStringInfo(secret_info->key);
   SetKeyringId(secret_info->keyring_info,secret_info->id);
   status=ExportKeyringKey(secret_info->keyring_info,exception);
   if (status == WizardFalse)
@@ -193,8 +195,6 @@ WizardExport WizardBooleanType AuthenticateSecretKey(SecretInfo *secret_info,
   SetCipherKey(secret_info->cipher_info,phrase);
   SetCipherNonce(secret_info->cipher_info,GetKeyringNonce(
     secret_info->keyring_info));
-  if (secret_info->key != (StringInfo *) NULL)
-    secret_info->key=DestroyStringInfo(secret_info->key);
   secret_info->key=CloneStringInfo(GetKeyringKey(secret_info->keyring_info));
   (void) DecipherCipher(secret_info->cipher_info,secret_info->key);
   ConstructHMAC(secret_info->hmac_info,phrase,secret_info->key);
@@ -203,6 +203,7 @@ WizardExport WizardBooleanType AuthenticateSecretKey(SecretInfo *secret_info,
   if (CompareStringInfo(secret_info->id,digest) != 0)
     {
       digest=DestroyStringInfo(digest);
+      secret_info->key=DestroyStringInfo(secret_info->key);
       return(WizardFalse);
     }
   digest=DestroyStringInfo(digest);
-- 
2.43.0


From f7938f036017dccd46abab3d57c5d7cce51e5cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:55 +0000
Subject: [PATCH 36/92] fix: report a generated key that could not be stored in
 the key ring

---
 wizard/secret.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/secret.c b/wizard/secret.c
index 434aea1..abf5b78 100644
--- a/wizard/secret.c
+++ b/wizard/secret.c
@@ -333,7 +333,7 @@ WizardExport WizardBooleanType GenerateSecretKey(SecretInfo *secret_info,
   status=ImportKeyringKey(secret_info->keyring_info,exception);
   phrase=DestroyStringInfo(phrase);
   key=DestroyStringInfo(key);
-  return(WizardTrue);
+  return(status);
 }
 
 /*
-- 
2.43.0


From 1af615c19ba05f9dc49242d18ec8532294ce8e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:15 +0000
Subject: [PATCH 37/92] fix: keep XML attributes whose names start with ':' or
 a non-ASCII letter

When the first attribute of a tag had such a name, all attributes of the
tag were dropped, or the document refused.
---
 wizard/xml-tree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index cab1009..59beb70 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2095,8 +2095,8 @@ WizardExport XMLTreeInfo *NewXMLTree(const char *xml,ExceptionInfo *exception)
         p+=strcspn(p,XMLWhitespace "/>");
         while (isspace((int) ((unsigned char) *p)) != 0)
           *p++='\0';
-        if (((isalpha((int) ((unsigned char) *p)) != 0) || (*p == '_')) &&
-            (ignore_depth == 0))
+        if (((isalpha((int) ((unsigned char) *p)) != 0) || (*p == '_') ||
+             (*p == ':') || ((*p & 0x80) != 0)) && (ignore_depth == 0))
           {
             if ((*p != '\0') && (*p != '/') && (*p != '>'))
               {
-- 
2.43.0


From 6d5262520212d240f9a88e905b49ae89ee398f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:15 +0000
Subject: [PATCH 38/92] fix: skip quoted attribute values inside XML
 collections

A '/' or '>' in an attribute value inside rdf:Bag or rdf:Seq ended the tag.
---
 wizard/xml-tree.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 59beb70..f6d57ee 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2179,7 +2179,13 @@ WizardExport XMLTreeInfo *NewXMLTree(const char *xml,ExceptionInfo *exception)
         else
           {
             while((*p != '\0') && (*p != '/') && (*p != '>'))
-              p++;
+            {
+              c=(*p);
+              if ((c == '"') || (c == '\''))
+                for (p++; (*p != '\0') && (*p != c); p++) ;
+              if (*p != '\0')
+                p++;
+            }
           }
         if (*p == '/')
           {
-- 
2.43.0


From 13b06efebef85c8a0b66ffeef32687d9083908a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:15 +0000
Subject: [PATCH 39/92] fix: refuse an XML close tag without its '>'

---
 wizard/xml-tree.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index f6d57ee..28b1ade 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2265,6 +2265,13 @@ WizardExport XMLTreeInfo *NewXMLTree(const char *xml,ExceptionInfo *exception)
           *p=c;
           if (isspace((int) ((unsigned char) *p)) != 0)
             p+=strspn(p,XMLWhitespace);
+          if ((*p != '>') && ((*p != '\0') || (terminal != '>')))
+            {
+              (void) ThrowWizardException(exception,GetWizardModule(),
+                OptionWarning,"missing >");
+              utf8=DestroyString(utf8);
+              return(&root->root);
+            }
         }
       else
         if (strncmp(p,"!--",3) == 0)
-- 
2.43.0


From a028231665e00e175448fec86f16127f55750f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:11:01 +0000
Subject: [PATCH 40/92] fix: tell circular XML entities from ones that merely
 refer to others

The search for the entity referred to stopped at the first other entity,
so any reference in an entity value was taken for a circular one, and
real circles could be missed.
---
 wizard/xml-tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 28b1ade..274d5b7 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -1654,7 +1654,7 @@ static WizardBooleanType ValidateEntities(char *tag,char *xml,
       return(WizardFalse);
     i=0;
     while ((entities[i] != (char *) NULL) &&
-           (strncmp(entities[i],xml+1,strlen(entities[i])) == 0))
+           (strncmp(entities[i],xml+1,strlen(entities[i])) != 0))
       i+=2;
     if ((entities[i] != (char *) NULL) &&
         (ValidateEntities(tag,entities[i+1],depth+1,entities) == 0))
-- 
2.43.0


From 7001ba899400547ee3362fbfcb438bb7bf51b95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:11:01 +0000
Subject: [PATCH 41/92] fix: collect default XML attributes under the tag they
 are declared for

A second declaration for a tag started another list that was never used.
---
 wizard/xml-tree.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 274d5b7..778afcc 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -1855,8 +1855,7 @@ static WizardBooleanType ParseInternalDoctype(XMLTreeRoot *root,char *xml,
             *xml='\0';
             i=0;
             while ((root->attributes[i] != (char **) NULL) &&
-                   (n != (char *) NULL) &&
-                   (strcmp(n,root->attributes[i][0]) != 0))
+                   (strcmp(t,root->attributes[i][0]) != 0))
               i++;
             while ((*(n=xml+strspn(xml+1,XMLWhitespace)+1) != '\0') &&
                    (*n != '>'))
-- 
2.43.0


From ecc5a35562bb502754e67bd490fa3e9b805ccdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:11:01 +0000
Subject: [PATCH 42/92] fix: read on in an XML document type after a default
 attribute value

The closing quote, overwritten with a NUL, ended the whole subset.
---
 wizard/xml-tree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 778afcc..f6684e1 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -1944,6 +1944,7 @@ static WizardBooleanType ParseInternalDoctype(XMLTreeRoot *root,char *xml,
                 root->attributes[i][j+1]=ParseEntities(v,root->entities,*c);
               root->attributes[i][j]=ConstantString(n);
             }
+            xml=n;
         }
       else
         if (strncmp(xml, "<!--", 4) == 0)
-- 
2.43.0


From fa5229699aea98874bd8a0724df2b0434c050547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:11:26 +0000
Subject: [PATCH 43/92] fix: do not lose the text after a reference to an empty
 XML entity

---
 wizard/xml-tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index f6684e1..7bfe1d3 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -1526,7 +1526,7 @@ static char *ParseEntities(char *xml,char **entities,int state)
                 length=strlen(entities[i]);
                 entity=strchr(xml,';');
                 if ((entity != (char *) NULL) &&
-                    ((length-1L) >= (size_t) (entity-xml)))
+                    (length > (size_t) (entity-xml)))
                   {
                     offset=(ssize_t) (xml-p);
                     extent=(size_t) (offset+length+strlen(entity));
-- 
2.43.0


From c3b94ad2370b82614a884d7fa11dee5e895453ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:27:03 +0000
Subject: [PATCH 44/92] fix: stay inside the buffer when XML text starts with a
 UTF-16 mark

---
 wizard/xml-tree.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 7bfe1d3..49242da 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -1409,7 +1409,7 @@ static char *ConvertUTF16ToUTF8(const char *content,size_t *length)
     }
   }
   *length=(size_t) j;
-  utf8=(char *) ResizeQuantumMemory(utf8,*length,sizeof(*utf8));
+  utf8=(char *) ResizeQuantumMemory(utf8,*length+1,sizeof(*utf8));
   if (utf8 != (char *) NULL)
     utf8[*length]='\0';
   return(utf8);
@@ -2059,8 +2059,12 @@ WizardExport XMLTreeInfo *NewXMLTree(const char *xml,ExceptionInfo *exception)
         "memory allocation failed `%s'",strerror(errno));
       return((XMLTreeInfo *) NULL);
     }
-  terminal=utf8[length-1];
-  utf8[length-1]='\0';
+  terminal='\0';
+  if (length != 0)
+    {
+      terminal=utf8[length-1];
+      utf8[length-1]='\0';
+    }
   p=utf8;
   while ((*p != '\0') && (*p != '<'))
     p++;
-- 
2.43.0


From a230183435e95e595d03de57d7dbf1f17ad5c748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:07 +0000
Subject: [PATCH 45/92] fix: write the children of an XML element without
 content inside it

The element was closed before its children, so that the text did not
parse back.
---
 wizard/xml-tree.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 49242da..32bf4b9 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2800,7 +2800,8 @@ static char *XMLTreeTagToXML(XMLTreeInfo *xml_info,char **source,size_t *length,
     *length+=FormatLocaleString(*source+(*length),*extent,"\"");
     j+=3;
   }
-  *length+=FormatLocaleString(*source+(*length),*extent,*xml_info->content ?
+  *length+=FormatLocaleString(*source+(*length),*extent,
+    (*xml_info->content != '\0') || (xml_info->child != (XMLTreeInfo *) NULL) ?
     ">" : "/>");
   if (xml_info->child != (XMLTreeInfo *) NULL)
     *source=XMLTreeTagToXML(xml_info->child,source,length,extent,0,attributes);
@@ -2814,7 +2815,8 @@ static char *XMLTreeTagToXML(XMLTreeInfo *xml_info,char **source,size_t *length,
       if (*source == (char *) NULL)
         return((char *) NULL);
     }
-  if (*xml_info->content != '\0')
+  if ((*xml_info->content != '\0') ||
+      (xml_info->child != (XMLTreeInfo *) NULL))
     *length+=FormatLocaleString(*source+(*length),*extent,"</%s>",
       xml_info->tag);
   while ((offset < xml_info->offset) && (content[offset] != '\0'))
-- 
2.43.0


From 65fdc0f824389e83193e267dd918c145b2a4cba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:07 +0000
Subject: [PATCH 46/92] fix: set a second attribute of an XML element

Its value was read and freed before there was one.
---
 wizard/xml-tree.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 32bf4b9..a9b902b 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2589,17 +2589,13 @@ WizardExport XMLTreeInfo *SetXMLTreeAttribute(XMLTreeInfo *xml_info,
         xml_info->attributes=(char **) ResizeQuantumMemory(
           xml_info->attributes,(size_t) (i+4),sizeof(*xml_info->attributes));
       else
-        {
-          xml_info->attributes=(char **) AcquireQuantumMemory(4,
-            sizeof(*xml_info->attributes));
-          if (xml_info->attributes != (char **) NULL)
-            xml_info->attributes[1]=ConstantString("");
-        }
+        xml_info->attributes=(char **) AcquireQuantumMemory(4,
+          sizeof(*xml_info->attributes));
       if (xml_info->attributes == (char **) NULL)
         ThrowFatalException(ResourceFatalError,"unable to acquire string `%s'");
       xml_info->attributes[i]=ConstantString(tag);
+      xml_info->attributes[i+1]=(char *) NULL;
       xml_info->attributes[i+2]=(char *) NULL;
-      (void) strlen(xml_info->attributes[i+1]);
     }
   /*
     Add new value to an existing attribute.
-- 
2.43.0


From c3cb6bdf94c177546ba410ef2cca966af596da68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:07 +0000
Subject: [PATCH 47/92] fix: remove an attribute of an XML element without
 writing past the list

What followed the last attribute was taken for a string of flags.
---
 wizard/xml-tree.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index a9b902b..882293c 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2616,9 +2616,6 @@ WizardExport XMLTreeInfo *SetXMLTreeAttribute(XMLTreeInfo *xml_info,
     (size_t) (j+2),sizeof(*xml_info->attributes));
   if (xml_info->attributes == (char **) NULL)
     ThrowFatalException(ResourceFatalError,"unable to acquire string `%s'");
-  j-=2;
-  (void) memmove(xml_info->attributes[j+1]+(i/2),xml_info->attributes[j+1]+
-    (i/2)+1,(size_t) (((j+2)/2)-(i/2))*sizeof(**xml_info->attributes));
   return(xml_info);
 }
 
-- 
2.43.0


From 6bb37b2825a65aeeca7a00748598508e9c222481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:17 +0000
Subject: [PATCH 48/92] fix: write each XML processing instruction once and on
 its side of the root

The first of each target was written twice, and the note of where it
belongs was read past its end.
---
 wizard/xml-tree.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 882293c..4d043f1 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2875,7 +2875,7 @@ WizardExport char *XMLTreeInfoToXML(XMLTreeInfo *xml_info)
       {
         if (root->processing_instructions[i][k][j-1] == '>')
           {
-            p=root->processing_instructions[i][j];
+            p=root->processing_instructions[i][j+1];
             continue;
           }
         q=root->processing_instructions[i][0];
@@ -2888,7 +2888,7 @@ WizardExport char *XMLTreeInfoToXML(XMLTreeInfo *xml_info)
           }
         length+=FormatLocaleString(xml+length,extent,"<?%s%s%s?>\n",q,
           *p != '\0' ? " " : "",p);
-        p=root->processing_instructions[i][j];
+        p=root->processing_instructions[i][j+1];
       }
     }
   ordered=xml_info->ordered;
@@ -2909,7 +2909,7 @@ WizardExport char *XMLTreeInfoToXML(XMLTreeInfo *xml_info)
       {
         if (root->processing_instructions[i][k][j-1] == '<')
           {
-            p=root->processing_instructions[i][j];
+            p=root->processing_instructions[i][j+1];
             continue;
           }
         q=root->processing_instructions[i][0];
@@ -2922,7 +2922,7 @@ WizardExport char *XMLTreeInfoToXML(XMLTreeInfo *xml_info)
           }
         length+=FormatLocaleString(xml+length,extent,"\n<?%s%s%s?>",q,
           *p != '\0' ? " " : "",p);
-        p=root->processing_instructions[i][j];
+        p=root->processing_instructions[i][j+1];
       }
     }
   return((char *) ResizeQuantumMemory(xml,length+1,sizeof(*xml)));
-- 
2.43.0


From 546862e37c95c03bc5fff7c2fefa31e5d9a98d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:17 +0000
Subject: [PATCH 49/92] fix: write an XML element placed past the end of its
 parent's content

---
 wizard/xml-tree.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 4d043f1..cfb39d2 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2695,7 +2695,8 @@ static char *EncodePredefinedEntities(const char *source,ssize_t offset,
         *content;
 
       content=AcquireString(source);
-      content[offset]='\0';
+      if (offset < (ssize_t) strlen(content))
+        content[offset]='\0';
       canonical_content=CanonicalXMLContent(content,pedantic);
       content=DestroyString(content);
     }
-- 
2.43.0


From 786cd1acbd9708f611df138bf5cf3ad33f25afd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:09 +0000
Subject: [PATCH 50/92] fix: insert an XML tag before the first of the same
 name

The former first stayed in the list of first tags, after the new one.
---
 wizard/xml-tree.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index cfb39d2..e972411 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -1294,6 +1294,10 @@ WizardExport XMLTreeInfo *InsertTagIntoXMLTree(XMLTreeInfo *xml_info,
       if ((previous != (XMLTreeInfo *) NULL) && (node != (XMLTreeInfo *) NULL))
         previous->sibling=node->sibling;
       child->next=node;
+      if (node == head)
+        head=node->sibling;
+      if (node != (XMLTreeInfo *) NULL)
+        node->sibling=(XMLTreeInfo *) NULL;
       previous=(XMLTreeInfo *) NULL;
       node=head;
       while ((node != (XMLTreeInfo *) NULL) && (node->offset <= offset))
-- 
2.43.0


From 817265b473edc918f73fbdf6703208d6193154e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:09 +0000
Subject: [PATCH 51/92] fix: keep the other tags when the first XML tag of a
 name is pruned

The next tag of that name took the place of the pruned one in the list of
first tags although it may come later, or was left out of it.
---
 wizard/xml-tree.c | 62 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 18 deletions(-)

diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index e972411..5569464 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -2495,17 +2495,19 @@ WizardExport XMLTreeInfo *NewXMLTreeTag(const char *tag)
 WizardExport XMLTreeInfo *PruneTagFromXMLTree(XMLTreeInfo *xml_info)
 {
   XMLTreeInfo
-    *node;
+    *head,
+    *node,
+    *ordered,
+    *previous;
 
   WizardAssert(ResourceDomain,xml_info != (XMLTreeInfo *) NULL);
   WizardAssert(ResourceDomain,(xml_info->signature == WizardSignature) ||
          (((XMLTreeRoot *) xml_info)->signature == WizardSignature));
   (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
-  if (xml_info->next != (XMLTreeInfo *) NULL)
-    xml_info->next->sibling=xml_info->sibling;
   if (xml_info->parent != (XMLTreeInfo *) NULL)
     {
-      node=xml_info->parent->child;
+      head=xml_info->parent->child;
+      node=head;
       if (node == xml_info)
         xml_info->parent->child=xml_info->ordered;
       else
@@ -2513,22 +2515,46 @@ WizardExport XMLTreeInfo *PruneTagFromXMLTree(XMLTreeInfo *xml_info)
           while (node->ordered != xml_info)
             node=node->ordered;
           node->ordered=node->ordered->ordered;
-          node=xml_info->parent->child;
-          if (strcmp(node->tag,xml_info->tag) != 0)
+        }
+      previous=(XMLTreeInfo *) NULL;
+      node=head;
+      while (strcmp(node->tag,xml_info->tag) != 0)
+      {
+        previous=node;
+        node=node->sibling;
+      }
+      if (node != xml_info)
+        {
+          while (node->next != xml_info)
+            node=node->next;
+          node->next=node->next->next;
+        }
+      else
+        {
+          if (previous == (XMLTreeInfo *) NULL)
+            head=xml_info->sibling;
+          else
+            previous->sibling=xml_info->sibling;
+          if (xml_info->next != (XMLTreeInfo *) NULL)
             {
-              while (strcmp(node->sibling->tag,xml_info->tag) != 0)
-                node=node->sibling;
-              if (node->sibling != xml_info)
-                node=node->sibling;
-              else
-                node->sibling=(xml_info->next != (XMLTreeInfo *) NULL) ?
-                  xml_info->next : node->sibling->sibling;
+              /*
+                The next tag is now the first of its name.
+              */
+              previous=(XMLTreeInfo *) NULL;
+              for (node=head; node != (XMLTreeInfo *) NULL; node=node->sibling)
+              {
+                ordered=node;
+                while ((ordered != (XMLTreeInfo *) NULL) &&
+                       (ordered != xml_info->next))
+                  ordered=ordered->ordered;
+                if (ordered == (XMLTreeInfo *) NULL)
+                  break;
+                previous=node;
+              }
+              xml_info->next->sibling=node;
+              if (previous != (XMLTreeInfo *) NULL)
+                previous->sibling=xml_info->next;
             }
-          while ((node->next != (XMLTreeInfo *) NULL) &&
-                 (node->next != xml_info))
-            node=node->next;
-          if (node->next != (XMLTreeInfo *) NULL)
-            node->next=node->next->next;
         }
     }
   xml_info->ordered=(XMLTreeInfo *) NULL;
-- 
2.43.0


From 46e6e448b834534315f9ea2314734d8865a3cc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:18 +0000
Subject: [PATCH 52/92] fix: stop at the end of a file after an earlier
 interrupted call

The end of a file leaves errno as it was, and an old EINTR made the readers
try again forever.
---
 wizard/blob.c     | 4 ++++
 wizard/string.c   | 1 +
 wizard/xml-tree.c | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/wizard/blob.c b/wizard/blob.c
index 7cb3ff6..1e97be3 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -598,6 +598,7 @@ WizardExport void *FileToBlob(const char *filename,const size_t extent,
       blob=(unsigned char *) AcquireQuantumMemory(quantum,sizeof(*blob));
       for (i=0; blob != (unsigned char *) NULL; i+=count)
       {
+        errno=0;
         count=read(file,blob+i,quantum);
         if (count <= 0)
           {
@@ -666,6 +667,7 @@ WizardExport void *FileToBlob(const char *filename,const size_t extent,
           "unable to seek blob `%s': %s",filename,strerror(errno));
       for (i=0; i < *length; i+=count)
       {
+        errno=0;
         count=read(file,blob+i,Min(*length-i,(size_t) SSIZE_MAX));
         if (count <= 0)
           {
@@ -1548,6 +1550,7 @@ WizardExport ssize_t ReadBlobChunk(BlobInfo *blob_info,const size_t length,
   count=0;
   for (i=0; i < (ssize_t) length; i+=count)
   {
+    errno=0;
     count=ReadBlob(blob_info,(size_t) WizardMin(length-i,SSIZE_MAX),
       (unsigned char *) data+i);
     if (count <= 0)
@@ -2143,6 +2146,7 @@ WizardExport ssize_t WriteBlobChunk(BlobInfo *blob_info,const size_t length,
   count=0;
   for (i=0; i < (ssize_t) length; i+=count)
   {
+    errno=0;
     count=WriteBlob(blob_info,(size_t) WizardMin(length-i,SSIZE_MAX),
       (const unsigned char *) data+i);
     if (count <= 0)
diff --git a/wizard/string.c b/wizard/string.c
index 8e2f69f..33eed56 100644
--- a/wizard/string.c
+++ b/wizard/string.c
@@ -600,6 +600,7 @@ WizardExport StringInfo *ConfigureFileToStringInfo(const char *filename)
       (void) lseek(file,0,SEEK_SET);
       for (i=0; i < length; i+=count)
       {
+        errno=0;
         count=read(file,string+i,(size_t) WizardMin(length-i,(size_t)
           SSIZE_MAX));
         if (count <= 0)
diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 5569464..0287069 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -705,6 +705,7 @@ WizardPrivate char *FileToXML(const char *filename,const size_t extent)
       xml=(char *) AcquireQuantumMemory(quantum,sizeof(*xml));
       for (i=0; xml != (char *) NULL; i+=count)
       {
+        errno=0;
         count=read(file,xml+i,quantum);
         if (count <= 0)
           {
@@ -754,6 +755,7 @@ WizardPrivate char *FileToXML(const char *filename,const size_t extent)
       (void) lseek(file,0,SEEK_SET);
       for (i=0; i < length; i+=count)
       {
+        errno=0;
         count=read(file,xml+i,(size_t) WizardMin(length-i,(ssize_t) SSIZE_MAX));
         if (count <= 0)
           {
-- 
2.43.0


From 06e2a15dc3d9a2328eec5eb509d1a6ef7a12ead3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:18 +0000
Subject: [PATCH 53/92] fix: make room for the next part of a file that cannot
 be sought

The buffer was sized without the bytes just read, and the next read went
past its end.
---
 wizard/blob.c     | 4 ++--
 wizard/xml-tree.c | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index 1e97be3..bce9acd 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -606,12 +606,12 @@ WizardExport void *FileToBlob(const char *filename,const size_t extent,
             if (errno != EINTR)
               break;
           }
-        if (~((size_t) i) < (quantum+1))
+        if (~((size_t) i+count) < (quantum+1))
           {
             blob=(unsigned char *) RelinquishWizardMemory(blob);
             break;
           }
-        blob=(unsigned char *) ResizeQuantumMemory(blob,i+quantum+1,
+        blob=(unsigned char *) ResizeQuantumMemory(blob,i+count+quantum+1,
           sizeof(*blob));
         if ((size_t) (i+count) >= extent)
           break;
diff --git a/wizard/xml-tree.c b/wizard/xml-tree.c
index 0287069..11a69ea 100644
--- a/wizard/xml-tree.c
+++ b/wizard/xml-tree.c
@@ -713,12 +713,13 @@ WizardPrivate char *FileToXML(const char *filename,const size_t extent)
             if (errno != EINTR)
               break;
           }
-        if (~((size_t) i) < (quantum+1))
+        if (~((size_t) i+count) < (quantum+1))
           {
             xml=(char *) RelinquishWizardMemory(xml);
             break;
           }
-        xml=(char *) ResizeQuantumMemory(xml,i+quantum+1,sizeof(*xml));
+        xml=(char *) ResizeQuantumMemory(xml,i+count+quantum+1,
+          sizeof(*xml));
         if ((size_t) (i+count) >= extent)
           break;
       }
-- 
2.43.0


From d7c26f136a48128eed00a3464c50d68e2f4a2afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:18 +0000
Subject: [PATCH 54/92] fix: keep the position and the bytes of a stream when
 its extent is set

fseek() returns a status, not the position: a byte inside a longer file was
overwritten and the stream went on from its start.
---
 wizard/blob.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index bce9acd..58f2789 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -1614,18 +1614,22 @@ WizardExport WizardBooleanType SetBlobExtent(BlobInfo *blob_info,
 
       if (extent != (WizardSizeType) ((off_t) extent))
         return(WizardFalse);
-      offset=fseek(blob_info->file_info.file,0,SEEK_END);
+      offset=ftell(blob_info->file_info.file);
       if (offset < 0)
         return(WizardFalse);
-      if ((WizardSizeType) offset >= extent)
-        break;
-      offset=fseek(blob_info->file_info.file,(WizardOffsetType) extent-1,
-        SEEK_SET);
-      if (offset < 0)
-        break;
-      count=(ssize_t) fwrite((const unsigned char *) "",1,1,
-        blob_info->file_info.file);
-      offset=fseek(blob_info->file_info.file,offset,SEEK_SET);
+      if (fseek(blob_info->file_info.file,0,SEEK_END) < 0)
+        return(WizardFalse);
+      count=1;
+      if ((WizardSizeType) ftell(blob_info->file_info.file) < extent)
+        {
+          count=0;
+          if (fseek(blob_info->file_info.file,(WizardOffsetType) extent-1,
+                SEEK_SET) == 0)
+            count=(ssize_t) fwrite((const unsigned char *) "",1,1,
+              blob_info->file_info.file);
+        }
+      if (fseek(blob_info->file_info.file,offset,SEEK_SET) < 0)
+        return(WizardFalse);
       if (count != 1)
         return(WizardFalse);
       break;
-- 
2.43.0


From 7befd07bb48b1272301fa28a6bd845f1ba13c696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:18 +0000
Subject: [PATCH 55/92] fix: keep a mapped stream when its extent cannot be set

The mapping was undone before the request was refused.
---
 wizard/blob.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index 58f2789..fe722d9 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -1654,10 +1654,10 @@ WizardExport WizardBooleanType SetBlobExtent(BlobInfo *blob_info,
           WizardOffsetType
             offset;
 
-          (void) UnmapBlob(blob_info->data,blob_info->length);
-          RelinquishWizardResource(MapResource,blob_info->length);
           if (blob_info->file_info.file == (FILE *) NULL)
             return(WizardFalse);
+          (void) UnmapBlob(blob_info->data,blob_info->length);
+          RelinquishWizardResource(MapResource,blob_info->length);
           offset=fseek(blob_info->file_info.file,0,SEEK_END);
           if (offset < 0)
             return(WizardFalse);
-- 
2.43.0


From 55268fc02b81bc3fb13c707dc904bfa043fc79b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:18 +0000
Subject: [PATCH 56/92] fix: close the pipe to a command

The command never saw the end of its input and was never waited for.
---
 wizard/blob.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index fe722d9..3ff0595 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -1106,7 +1106,6 @@ WizardExport BlobInfo *OpenBlob(const char *filename,const BlobMode mode,
           return((BlobInfo *) NULL);
         }
       blob_info->type=PipeStream;
-      blob_info->exempt=WizardTrue;
       return(blob_info);
     }
 #endif
-- 
2.43.0


From 1c73162e93e46add94dbc68d5ebd5506a6fc6e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:18 +0000
Subject: [PATCH 57/92] fix: close a named pipe opened as a stream

Whoever reads the other end never saw the end of the data.
---
 wizard/blob.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index 3ff0595..a55919a 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -1123,7 +1123,6 @@ WizardExport BlobInfo *OpenBlob(const char *filename,const BlobMode mode,
           return((BlobInfo *) NULL);
         }
       blob_info->type=FileStream;
-      blob_info->exempt=WizardTrue;
       return(blob_info);
     }
 #endif
-- 
2.43.0


From 9aa15cee5e7338c7deac29601001ce30dedbc3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:18 +0000
Subject: [PATCH 58/92] fix: tell the end of a compressed stream

---
 wizard/blob.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index a55919a..141d083 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -489,21 +489,13 @@ WizardExport int EOFBlob(BlobInfo *blob_info)
     }
     case ZipStream:
     {
-      blob_info->eof=WizardFalse;
-      break;
-    }
-    case BZipStream:
-    {
-#if defined(WIZARDSTOOLKIT_BZLIB_DELEGATE)
-      int
-        status;
-
-      status=0;
-      (void) BZ2_bzerror(blob_info->file_info.bzfile,&status);
-      blob_info->eof=status == BZ_UNEXPECTED_EOF ? WizardTrue : WizardFalse;
+#if defined(WIZARDSTOOLKIT_ZLIB_DELEGATE)
+      blob_info->eof=gzeof(blob_info->file_info.gzfile) != 0 ? WizardTrue :
+        WizardFalse;
 #endif
       break;
     }
+    case BZipStream:
     case BlobStream:
       break;
   }
@@ -1409,6 +1401,8 @@ WizardExport ssize_t ReadBlob(BlobInfo *blob_info,const size_t length,
     {
 #if defined(WIZARDSTOOLKIT_BZLIB_DELEGATE)
       count=(ssize_t) BZ2_bzread(blob_info->file_info.bzfile,q,(int) length);
+      if (count != (ssize_t) length)
+        blob_info->eof=WizardTrue;
 #endif
       break;
     }
-- 
2.43.0


From de550ba73ae0b8ca2b58c23138d40cd21ddd816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:06:18 +0000
Subject: [PATCH 59/92] fix: report damage seen while reading a gzip stream
 when it is closed

The status of the close took the place of the earlier error.
---
 wizard/blob.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index 141d083..d2310b4 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -323,7 +323,8 @@ WizardExport WizardBooleanType CloseBlob(BlobInfo *blob_info)
     case ZipStream:
     {
 #if defined(WIZARDSTOOLKIT_ZLIB_DELEGATE)
-      status=gzclose(blob_info->file_info.gzfile);
+      if (gzclose(blob_info->file_info.gzfile) != Z_OK)
+        status=Z_ERRNO;
       if (status != Z_OK)
         ThrowBlobException(blob_info);
 #endif
-- 
2.43.0


From 211ec00dbe1c65ab29958b06e25b326a803ddbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:59 +0000
Subject: [PATCH 60/92] fix: report bytes that could not be written when a
 stream is closed

The status of the close took the place of the earlier error.
---
 wizard/blob.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index d2310b4..097ad4c 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -259,8 +259,9 @@ WizardExport WizardBooleanType CloseBlob(BlobInfo *blob_info)
     case FileStream:
     case PipeStream:
     {
-      if ((status != 0) && (ferror(blob_info->file_info.file) != 0))
+      if (ferror(blob_info->file_info.file) != 0)
         ThrowBlobException(blob_info);
+      status=blob_info->status;
       break;
     }
     case ZipStream:
@@ -305,18 +306,18 @@ WizardExport WizardBooleanType CloseBlob(BlobInfo *blob_info)
     {
       if (blob_info->file_info.file != (FILE *) NULL)
         {
-          status=fclose(blob_info->file_info.file);
-          if (status != 0)
+          if (fclose(blob_info->file_info.file) != 0)
             ThrowBlobException(blob_info);
+          status=blob_info->status;
         }
       break;
     }
     case PipeStream:
     {
 #if defined(WIZARDSTOOLKIT_HAVE_POPEN)
-      status=pclose(blob_info->file_info.file);
-      if (status != 0)
+      if (pclose(blob_info->file_info.file) != 0)
         ThrowBlobException(blob_info);
+      status=blob_info->status;
 #endif
       break;
     }
-- 
2.43.0


From c8c933b308b75414d72e0834dbc0baa0b0626ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:31 +0000
Subject: [PATCH 61/92] fix: grant a resource only when the total stays under
 its limit

Requests and limits of 2^63 and more were compared as negative numbers.
A huge request was granted under a small limit, and a huge limit refused
every request.
---
 wizard/resource.c | 54 ++++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/wizard/resource.c b/wizard/resource.c
index 361db6c..3b34c36 100755
--- a/wizard/resource.c
+++ b/wizard/resource.c
@@ -385,6 +385,24 @@ WizardExport int AcquireUniqueFileResource(const char *path,char *filename,
 %    o size: The number of bytes needed from for this resource.
 %
 */
+
+static inline WizardBooleanType IsResourceAvailable(
+  const WizardOffsetType current,const WizardSizeType size,
+  const WizardSizeType limit)
+{
+  WizardSizeType
+    maximum,
+    request;
+
+  maximum=(~(WizardSizeType) 0) >> 1;
+  if (size > (maximum-(WizardSizeType) current))
+    return(WizardFalse);
+  request=(WizardSizeType) current+size;
+  if ((limit == WizardResourceInfinity) || (request < limit))
+    return(WizardTrue);
+  return(WizardFalse);
+}
+
 WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
   const WizardSizeType size)
 {
@@ -420,13 +438,10 @@ WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
     }
     case MemoryResource:
     {
-      resource_info.memory+=size;
       limit=resource_info.memory_limit;
-      if ((limit == WizardResourceInfinity) ||
-          (resource_info.memory < (WizardOffsetType) limit))
-        status=WizardTrue;
-      else
-        resource_info.memory-=(WizardOffsetType) size;
+      status=IsResourceAvailable(resource_info.memory,size,limit);
+      if (status != WizardFalse)
+        resource_info.memory+=(WizardOffsetType) size;
       (void) FormatWizardSize((WizardSizeType) resource_info.memory,WizardTrue,
         WizardFormatExtent,resource_current);
       (void) FormatWizardSize(resource_info.memory_limit,WizardTrue,
@@ -435,13 +450,10 @@ WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
     }
     case MapResource:
     {
-      resource_info.map+=size;
       limit=resource_info.map_limit;
-      if ((limit == WizardResourceInfinity) ||
-          (resource_info.map < (WizardOffsetType) limit))
-        status=WizardTrue;
-      else
-        resource_info.map-=(WizardOffsetType) size;
+      status=IsResourceAvailable(resource_info.map,size,limit);
+      if (status != WizardFalse)
+        resource_info.map+=(WizardOffsetType) size;
       (void) FormatWizardSize((WizardSizeType) resource_info.map,WizardTrue,
         WizardFormatExtent,resource_current);
       (void) FormatWizardSize(resource_info.map_limit,WizardTrue,
@@ -450,13 +462,10 @@ WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
     }
     case DiskResource:
     {
-      resource_info.disk+=size;
       limit=resource_info.disk_limit;
-      if ((limit == WizardResourceInfinity) ||
-          (resource_info.disk < (WizardOffsetType) limit))
-        status=WizardTrue;
-      else
-        resource_info.disk-=(WizardOffsetType) size;
+      status=IsResourceAvailable(resource_info.disk,size,limit);
+      if (status != WizardFalse)
+        resource_info.disk+=(WizardOffsetType) size;
       (void) FormatWizardSize((WizardSizeType) resource_info.disk,WizardTrue,
         WizardFormatExtent,resource_current);
       (void) FormatWizardSize(resource_info.disk_limit,WizardTrue,
@@ -465,13 +474,10 @@ WizardExport WizardBooleanType AcquireWizardResource(const ResourceType type,
     }
     case FileResource:
     {
-      resource_info.file+=size;
       limit=resource_info.file_limit;
-      if ((limit == WizardResourceInfinity) ||
-          (resource_info.file < (WizardOffsetType) limit))
-        status=WizardTrue;
-      else
-        resource_info.file-=(WizardOffsetType) size;
+      status=IsResourceAvailable(resource_info.file,size,limit);
+      if (status != WizardFalse)
+        resource_info.file+=(WizardOffsetType) size;
       (void) FormatWizardSize((WizardSizeType) resource_info.file,WizardFalse,
         WizardFormatExtent,resource_current);
       (void) FormatWizardSize((WizardSizeType) resource_info.file_limit,
-- 
2.43.0


From dd916f845b2199f3d9588589c9d8a5aa17c64516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:31 +0000
Subject: [PATCH 62/92] fix: give back only the resources virtual memory was
 granted

When the memory, map or disk limit refused the request, the amount was
subtracted from the count all the same, which ended in a failed assertion.
---
 wizard/memory.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wizard/memory.c b/wizard/memory.c
index e82d8a2..71c6070 100644
--- a/wizard/memory.c
+++ b/wizard/memory.c
@@ -496,8 +496,8 @@ WizardExport MemoryInfo *AcquireVirtualMemory(const size_t count,
           memory_info->type=AlignedVirtualMemory;
           return(memory_info);
         }
+      RelinquishWizardResource(MemoryResource,length);
     }
-  RelinquishWizardResource(MemoryResource,length);
   if (AcquireWizardResource(MapResource,length) != WizardFalse)
     {
       /*
@@ -545,10 +545,10 @@ WizardExport MemoryInfo *AcquireVirtualMemory(const size_t count,
                 WizardTrue);
               *memory_info->filename = '\0';
             }
+          RelinquishWizardResource(DiskResource,length);
         }
-      RelinquishWizardResource(DiskResource,length);
+      RelinquishWizardResource(MapResource,length);
     }
-  RelinquishWizardResource(MapResource,length);
   if (memory_info->blob == NULL)
     {
       memory_info->blob=AcquireWizardMemory(length);
-- 
2.43.0


From 0ca3ff77bdfc6e5ced301a2f1969352ac5f2198b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:37:02 +0000
Subject: [PATCH 63/92] fix: remove the temporary file when the file limit
 refuses it

The directory the caller named was passed to remove() instead, so the
file stayed behind and an empty directory was lost.
---
 wizard/resource.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/resource.c b/wizard/resource.c
index 3b34c36..d274b97 100755
--- a/wizard/resource.c
+++ b/wizard/resource.c
@@ -341,7 +341,7 @@ WizardExport int AcquireUniqueFileResource(const char *path,char *filename,
       if (close(file) == -1)
         (void) ThrowWizardException(exception,GetWizardModule(),ResourceError,
           "unable to close file `%s': %s",filename,strerror(errno));
-      if (remove_utf8(path) == -1)
+      if (remove_utf8(filename) == -1)
         (void) ThrowWizardException(exception,GetWizardModule(),ResourceError,
           "unable to remove file `%s': %s",filename,strerror(errno));
       return(-1);
-- 
2.43.0


From ea3e55991688bce6eef8479c4041888a9c9b26d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:37:02 +0000
Subject: [PATCH 64/92] fix: give up a temporary file as asked

The file was removed even when the caller asked to keep it, and giving it
up with removal reported failure since it was gone already.  The count of
files in use was never lowered, and a name that differed only in case
could be given up instead.
---
 wizard/resource.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/wizard/resource.c b/wizard/resource.c
index d274b97..a3f9ac2 100755
--- a/wizard/resource.c
+++ b/wizard/resource.c
@@ -351,10 +351,10 @@ WizardExport int AcquireUniqueFileResource(const char *path,char *filename,
   LockSemaphoreInfo(resource_semaphore);
   if (temporary_resources == (SplayTreeInfo *) NULL)
     temporary_resources=NewSplayTree(CompareSplayTreeString,
-      DestroyTemporaryResources,(void *(*)(void *)) NULL);
+      RelinquishWizardMemory,DestroyTemporaryResources);
   UnlockSemaphoreInfo(resource_semaphore);
   (void) AddValueToSplayTree(temporary_resources,ConstantString(filename),
-    (const void *) NULL);
+    ConstantString(filename));
   return(file);
 }
 
@@ -853,19 +853,15 @@ WizardExport WizardBooleanType RelinquishUniqueFileResource(const char *path,
   (void) LogWizardEvent(ResourceEvent,GetWizardModule(),"%s",path);
   if (temporary_resources != (SplayTreeInfo *) NULL)
     {
-       char
+      char
         *p;
 
-      ResetSplayTreeIterator(temporary_resources);
-      p=(char *) GetNextKeyInSplayTree(temporary_resources);
-      while (p != (char *) NULL)
-      {
-        if (LocaleCompare(p,path) == 0)
-          break;
-        p=(char *) GetNextKeyInSplayTree(temporary_resources);
-      }
+      p=(char *) RemoveNodeFromSplayTree(temporary_resources,path);
       if (p != (char *) NULL)
-        (void) DeleteNodeFromSplayTree(temporary_resources,p);
+        {
+          p=DestroyString(p);
+          RelinquishWizardResource(FileResource,1);
+        }
     }
   if (trash == WizardFalse)
     return(WizardTrue);
-- 
2.43.0


From f726ec917c1b4b42ae66a13f00acf960385207ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:45 +0000
Subject: [PATCH 65/92] fix: deliver fatal errors, and only those, to the fatal
 error handler

The severity of the last recorded error decided for all of them: earlier
warnings went to the fatal handler too, and a fatal error followed by a
warning was not delivered at all.
---
 wizard/exception.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/exception.c b/wizard/exception.c
index c32c5b2..43b3bde 100644
--- a/wizard/exception.c
+++ b/wizard/exception.c
@@ -242,7 +242,7 @@ WizardExport void CatchException(ExceptionInfo *exception)
       WizardWarning(p->severity,p->reason,p->description);
     if ((p->severity >= ErrorException) && (p->severity < FatalErrorException))
       WizardError(p->severity,p->reason,p->description);
-    if (exception->severity >= FatalErrorException)
+    if (p->severity >= FatalErrorException)
       WizardFatalError(p->severity,p->reason,p->description);
     p=(const ExceptionInfo *) GetNextValueInLinkedList((LinkedListInfo *)
       exception->exceptions);
-- 
2.43.0


From ae45098825a5bd770dc82b7aa5bd10c0ecaa2e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:43 +0000
Subject: [PATCH 66/92] fix: survive a corrupt random reservoir

The path of the file was taken from a structure that had just been
destroyed, so every program that needed random numbers aborted.
---
 wizard/random.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/wizard/random.c b/wizard/random.c
index ad344d5..8a7a82e 100644
--- a/wizard/random.c
+++ b/wizard/random.c
@@ -689,9 +689,11 @@ static StringInfo *GetEntropyFromReservoir(RandomInfo *random_info,
     GetStringInfoLength(target));
   if ((status == WizardFalse) || (CompareStringInfo(target,magick) != 0))
     {
-      file_info=DestroyFileInfo(file_info,exception);
+      magick=DestroyStringInfo(magick);
+      target=DestroyStringInfo(target);
       (void) ThrowWizardException(exception,GetWizardModule(),RandomError,
         "corrupt random reservoir file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       UnlockSemaphoreInfo(random_info->semaphore);
       return((StringInfo *) NULL);
     }
@@ -706,9 +708,9 @@ static StringInfo *GetEntropyFromReservoir(RandomInfo *random_info,
     {
       filetype=DestroyStringInfo(filetype);
       target=DestroyStringInfo(target);
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),RandomError,
         "corrupt random reservoir file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       UnlockSemaphoreInfo(random_info->semaphore);
       return((StringInfo *) NULL);
     }
@@ -727,9 +729,9 @@ static StringInfo *GetEntropyFromReservoir(RandomInfo *random_info,
   status&=ReadFile32Bits(file_info,&length);
   if (status == WizardFalse)
     {
-      file_info=DestroyFileInfo(file_info,exception);
       (void) ThrowWizardException(exception,GetWizardModule(),RandomError,
         "corrupt random reservoir file `%s'",GetFilePath(file_info));
+      file_info=DestroyFileInfo(file_info,exception);
       UnlockSemaphoreInfo(random_info->semaphore);
       return((StringInfo *) NULL);
     }
-- 
2.43.0


From cd8e02768b8b3457fcbd4425e300eeced0420580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:43 +0000
Subject: [PATCH 67/92] fix: do not trust the length recorded in the random
 reservoir

A damaged length made the reader allocate up to four gigabytes.
---
 wizard/random.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wizard/random.c b/wizard/random.c
index 8a7a82e..01bb932 100644
--- a/wizard/random.c
+++ b/wizard/random.c
@@ -727,7 +727,9 @@ static StringInfo *GetEntropyFromReservoir(RandomInfo *random_info,
       random_info->timestamp=(time_t) timestamp;
     }
   status&=ReadFile32Bits(file_info,&length);
-  if (status == WizardFalse)
+  if ((status == WizardFalse) ||
+      ((WizardSizeType) length > (WizardSizeType)
+       GetFileProperties(file_info)->st_size))
     {
       (void) ThrowWizardException(exception,GetWizardModule(),RandomError,
         "corrupt random reservoir file `%s'",GetFilePath(file_info));
-- 
2.43.0


From 6032e75398219849676498b528a70f2a8c739621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:27 +0000
Subject: [PATCH 68/92] fix: use what the random device returned when a read
 fails

A failed read was reported as a length of -1, which ended the program with
a memory allocation failure.
---
 wizard/random.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/wizard/random.c b/wizard/random.c
index 01bb932..4b3bc3e 100644
--- a/wizard/random.c
+++ b/wizard/random.c
@@ -348,10 +348,12 @@ static ssize_t ReadRandom(int file,unsigned char *source,size_t length)
     count=(ssize_t) read(file,q,length);
     if (count <= 0)
       {
-        count=0;
-        if (errno == EINTR)
-          continue;
-        return(-1);
+        if ((count < 0) && (errno == EINTR))
+          {
+            count=0;
+            continue;
+          }
+        return(offset);
       }
     q+=count;
     offset+=count;
-- 
2.43.0


From 947052d0bd2a4984c6744566212b0f54825809a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:07 +0000
Subject: [PATCH 69/92] fix: keep entropy in the random reservoir

The authentication code was read before it was computed, so the random
nonce started at zero and the stored reservoir held nothing but zeros.
---
 wizard/random.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wizard/random.c b/wizard/random.c
index 4b3bc3e..53290b7 100644
--- a/wizard/random.c
+++ b/wizard/random.c
@@ -209,6 +209,8 @@ WizardExport RandomInfo *AcquireRandomInfo(const HashType hash)
     ThrowFatalException(RandomFatalError,"Failed to initialize random "
       "reservoir `%s'");
   InitializeHMAC(random_info->hmac_info,nonce);
+  UpdateHMAC(random_info->hmac_info,nonce);
+  FinalizeHMAC(random_info->hmac_info);
   SetStringInfoLength(nonce,(GetHMACDigestsize(random_info->hmac_info)+1)/2);
   SetStringInfo(nonce,GetHMACDigest(random_info->hmac_info));
   SetStringInfo(random_info->nonce,nonce);
@@ -221,6 +223,8 @@ WizardExport RandomInfo *AcquireRandomInfo(const HashType hash)
     ThrowFatalException(RandomFatalError,"Failed to initialize random "
       "reservoir `%s'");
   InitializeHMAC(random_info->hmac_info,entropy);
+  UpdateHMAC(random_info->hmac_info,entropy);
+  FinalizeHMAC(random_info->hmac_info);
   SetStringInfo(random_info->reservoir,GetHMACDigest(random_info->hmac_info));
   status=SaveEntropyToReservoir(random_info,exception);
   entropy=DestroyStringInfo(entropy);
-- 
2.43.0


From e74d55bc6aa26c5f8bec0b853b2ca5d5727a8903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:58 +0000
Subject: [PATCH 70/92] fix: apply the mask of a mime entry to the content

The mask was applied to the value in the table instead, so an entry with a
mask matched only content without any of the bits it leaves open.
---
 wizard/mime.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wizard/mime.c b/wizard/mime.c
index 8aa9e57..632eb96 100644
--- a/wizard/mime.c
+++ b/wizard/mime.c
@@ -293,7 +293,7 @@ WizardExport const MimeInfo *GetMimeInfo(const char *filename,
           }
         else
           {
-            if ((p->value & p->mask) == value)
+            if ((value & p->mask) == p->value)
               mime_info=p;
           }
         break;
@@ -323,7 +323,7 @@ WizardExport const MimeInfo *GetMimeInfo(const char *filename,
           }
         else
           {
-            if ((p->value & p->mask) == value)
+            if ((value & p->mask) == p->value)
               mime_info=p;
           }
         break;
@@ -357,7 +357,7 @@ WizardExport const MimeInfo *GetMimeInfo(const char *filename,
           }
         else
           {
-            if ((p->value & p->mask) == value)
+            if ((value & p->mask) == p->value)
               mime_info=p;
           }
         break;
-- 
2.43.0


From 3fa40b41f150ac4c048c1a5fd50f7203c636aa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:58 +0000
Subject: [PATCH 71/92] fix: match one and two byte magic at the end of the
 content

Four bytes were required for any number, so short content was never
recognized.
---
 wizard/mime.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wizard/mime.c b/wizard/mime.c
index 632eb96..ff4b542 100644
--- a/wizard/mime.c
+++ b/wizard/mime.c
@@ -282,7 +282,7 @@ WizardExport const MimeInfo *GetMimeInfo(const char *filename,
     {
       case ByteData:
       {
-        if ((size_t) (p->offset+4) > length)
+        if ((size_t) (p->offset+1) > length)
           break;
         q=magic+p->offset;
         value=(ssize_t) (*q++);
@@ -300,7 +300,7 @@ WizardExport const MimeInfo *GetMimeInfo(const char *filename,
       }
       case ShortData:
       {
-        if ((size_t) (p->offset+4) > length)
+        if ((size_t) (p->offset+2) > length)
           break;
         q=magic+p->offset;
         endian=p->endian;
-- 
2.43.0


From d2c78bab36f8d19097588c3392152dbe421c5578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:58 +0000
Subject: [PATCH 72/92] fix: do not match content against a mime entry without
 magic

Looking up content without a file name returned any entry that has only a
file name pattern, whatever the content.
---
 wizard/mime.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wizard/mime.c b/wizard/mime.c
index ff4b542..9b36fe5 100644
--- a/wizard/mime.c
+++ b/wizard/mime.c
@@ -278,6 +278,11 @@ WizardExport const MimeInfo *GetMimeInfo(const char *filename,
         p=(const MimeInfo *) GetNextValueInLinkedList(mime_cache);
         continue;
       }
+    if (p->magic == (unsigned char *) NULL)
+      {
+        p=(const MimeInfo *) GetNextValueInLinkedList(mime_cache);
+        continue;
+      }
     switch (p->data_type)
     {
       case ByteData:
-- 
2.43.0


From 204bf3cdaf04aa9a2ac400724a4d23037393a4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:58 +0000
Subject: [PATCH 73/92] fix: read at most three octal digits in a mime escape

An escaped digit 8 or 9 kept the loader writing past the end of its buffer
forever, and digits after the escape were swallowed.
---
 wizard/mime.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/wizard/mime.c b/wizard/mime.c
index 9b36fe5..4f94fdc 100644
--- a/wizard/mime.c
+++ b/wizard/mime.c
@@ -906,13 +906,16 @@ static WizardBooleanType LoadMimeCache(LinkedListInfo *mime_cache,
           if (*p == '\\')
             {
               p++;
-              if (isdigit((int) ((unsigned char) *p)) != 0)
+              if ((*p >= '0') && (*p <= '7'))
                 {
-                  char
-                    *end;
+                  ssize_t
+                    i,
+                    octal;
 
-                  *q++=(unsigned char) strtol(p,&end,8);
-                  p+=(end-p);
+                  octal=0;
+                  for (i=0; (i < 3) && (*p >= '0') && (*p <= '7'); i++)
+                    octal=8*octal+(*p++-'0');
+                  *q++=(unsigned char) octal;
                   mime_info->length++;
                   continue;
                 }
-- 
2.43.0


From 84c8d30acf42af46dedca551cfa3a2810fe2afc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:58 +0000
Subject: [PATCH 74/92] fix: sort the list of mime types by name

The comparison looked at the addresses of the names instead.
---
 wizard/mime.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wizard/mime.c b/wizard/mime.c
index 4f94fdc..949bcbf 100644
--- a/wizard/mime.c
+++ b/wizard/mime.c
@@ -525,13 +525,13 @@ extern "C" {
 
 static int MimeCompare(const void *x,const void *y)
 {
-   char
-    *p,
-    *q;
+  const char
+    **p,
+    **q;
 
-  p=(char *) x;
-  q=(char *) y;
-  return(strcasecmp(p,q));
+  p=(const char **) x;
+  q=(const char **) y;
+  return(strcasecmp(*p,*q));
 }
 
 #if defined(__cplusplus) || defined(c_plusplus)
-- 
2.43.0


From 397cede8f19e36b6c3643efcc75da7dc1640a4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:07:24 +0000
Subject: [PATCH 75/92] fix: name the configured log handlers when listing the
 log settings

The position of a handler in the table of names was taken for its bit in the
handler mask, so stdout was listed as debug, stderr as event, and so on.
---
 wizard/log.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/wizard/log.c b/wizard/log.c
index f4b50ff..641e43d 100644
--- a/wizard/log.c
+++ b/wizard/log.c
@@ -766,14 +766,9 @@ WizardExport WizardBooleanType ListLogInfo(FILE *file,ExceptionInfo *exception)
         length=0;
         for (j=0; j < (ssize_t) (8*sizeof(LogHandlerType)); j++)
         {
-          size_t
-            mask;
-
           if (*LogHandlers[j].name == '\0')
             break;
-          mask=1;
-          mask<<=j;
-          if ((log_info[i]->handler_mask & mask) != 0)
+          if ((log_info[i]->handler_mask & LogHandlers[j].handler) != 0)
             {
               (void) fprintf(file,"%s ",LogHandlers[j].name);
               length+=strlen(LogHandlers[j].name);
-- 
2.43.0


From a917ad847b43658280613c0bdba04fea59efe229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:07:24 +0000
Subject: [PATCH 76/92] fix: do not roll over a log file without a limit

An unlimited size overflowed to a negative number of bytes, which every file
exceeds, including the one that is not open yet.
---
 wizard/log.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wizard/log.c b/wizard/log.c
index 641e43d..00b56fd 100644
--- a/wizard/log.c
+++ b/wizard/log.c
@@ -1331,7 +1331,8 @@ WizardBooleanType LogWizardEventList(const LogEventType type,const char *module,
       file_info.st_size=0;
       if (log_info->file != (FILE *) NULL)
         (void) fstat(fileno(log_info->file),&file_info);
-      if (file_info.st_size > (WizardOffsetType) (1024*1024*log_info->limit))
+      if ((log_info->limit != (~0UL)) &&
+          (file_info.st_size > (WizardOffsetType) (1024*1024*log_info->limit)))
         {
           (void) fprintf(log_info->file,"</log>\n");
           (void) fclose(log_info->file);
-- 
2.43.0


From bad06e425e1482db5e90ca9d44c6d65ccab690c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:07:24 +0000
Subject: [PATCH 77/92] fix: do not change the log format or close the log
 under a running event

Events are formatted and written under the event semaphore, while the format
and the file were replaced under another one.
---
 wizard/log.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wizard/log.c b/wizard/log.c
index 00b56fd..a69b29f 100644
--- a/wizard/log.c
+++ b/wizard/log.c
@@ -348,14 +348,16 @@ WizardExport void CloseWizardLog(void)
   exception=AcquireExceptionInfo();
   log_info=(LogInfo *) GetLogInfo("*",exception);
   exception=DestroyExceptionInfo(exception);
-  LockSemaphoreInfo(log_semaphore);
+  if (log_info->event_semaphore == (SemaphoreInfo *) NULL)
+    ActivateSemaphoreInfo(&log_info->event_semaphore);
+  LockSemaphoreInfo(log_info->event_semaphore);
   if (log_info->file != (FILE *) NULL)
     {
       (void) fprintf(log_info->file,"</log>\n");
       (void) fclose(log_info->file);
       log_info->file=(FILE *) NULL;
     }
-  UnlockSemaphoreInfo(log_semaphore);
+  UnlockSemaphoreInfo(log_info->event_semaphore);
 }
 
 /*
@@ -1781,11 +1783,13 @@ WizardExport void SetLogFormat(const char *format)
   exception=AcquireExceptionInfo();
   log_info=(LogInfo *) GetLogInfo("*",exception);
   exception=DestroyExceptionInfo(exception);
-  LockSemaphoreInfo(log_semaphore);
+  if (log_info->event_semaphore == (SemaphoreInfo *) NULL)
+    ActivateSemaphoreInfo(&log_info->event_semaphore);
+  LockSemaphoreInfo(log_info->event_semaphore);
   if (log_info->format != (char *) NULL)
     log_info->format=DestroyString(log_info->format);
   log_info->format=ConstantString(format);
-  UnlockSemaphoreInfo(log_semaphore);
+  UnlockSemaphoreInfo(log_info->event_semaphore);
 }
 
 /*
-- 
2.43.0


From 628548bc8d0f5830e258a69dbb9d3b74f1e7530f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:07:24 +0000
Subject: [PATCH 78/92] fix: round the elapsed time of an event before
 splitting it

An elapsed time a rounding error below a whole second was logged as the
second before and 1000 milliseconds.
---
 wizard/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/log.c b/wizard/log.c
index a69b29f..8fd4669 100644
--- a/wizard/log.c
+++ b/wizard/log.c
@@ -953,7 +953,7 @@ static char *TranslateEvent(const LogEventType wizard_unused(type),
   log_info=(LogInfo *) GetLogInfo("*",exception);
   exception=DestroyExceptionInfo(exception);
   seconds=time((time_t *) NULL);
-  elapsed_time=GetElapsedTime(log_info->timer);
+  elapsed_time=floor(1000.0*GetElapsedTime(log_info->timer)+0.5)/1000.0;
   user_time=GetUserTime(log_info->timer);
   text=AcquireString(event);
   if (log_info->format == (char *) NULL)
-- 
2.43.0


From 527255ac77757fb8eb4f6bbeea5aa43fe50cbcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:09 +0000
Subject: [PATCH 79/92] fix: log an exception by its own severity

Whether a report was logged as a warning or as an exception depended on the
report before it.
---
 wizard/exception.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wizard/exception.c b/wizard/exception.c
index 43b3bde..391fe55 100644
--- a/wizard/exception.c
+++ b/wizard/exception.c
@@ -1018,7 +1018,7 @@ WizardExport WizardBooleanType ThrowWizardExceptionList(
 #endif
   if (n < 0)
     reason[WizardPathExtent-1]='\0';
-  status=LogWizardEvent(exception->severity >= ErrorException ?
+  status=LogWizardEvent(severity >= ErrorException ?
     ExceptionEvent : WarningEvent,module,function,line,"%s",reason);
   (void) FormatLocaleString(message,WizardPathExtent,"%s @ %s/%s/%.20g",reason,
     module,function,(double) line);
-- 
2.43.0


From b2313c23d7a991a7c4323fff0d731cb9a26f5edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:09 +0000
Subject: [PATCH 80/92] fix: log to the other outputs when the log file cannot
 be opened

The event was dropped for stdout and stderr, its text leaked, and the timer
of the log stayed stopped.
---
 wizard/log.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/wizard/log.c b/wizard/log.c
index 8fd4669..27b8968 100644
--- a/wizard/log.c
+++ b/wizard/log.c
@@ -1279,8 +1279,12 @@ WizardBooleanType LogWizardEventList(const LogEventType type,const char *module,
   LogInfo
     *log_info;
 
+  WizardBooleanType
+    status;
+
   if (IsEventLogging() == WizardFalse)
     return(WizardFalse);
+  status=WizardTrue;
   exception=AcquireExceptionInfo();
   log_info=(LogInfo *) GetLogInfo("*",exception);
   exception=DestroyExceptionInfo(exception);
@@ -1355,19 +1359,22 @@ WizardBooleanType LogWizardEventList(const LogEventType type,const char *module,
           log_info->append=IsPathAcessible(filename);
           log_info->file=fopen_utf8(filename,"ab");
           filename=(char  *) RelinquishWizardMemory(filename);
-          if (log_info->file == (FILE *) NULL)
+          if (log_info->file != (FILE *) NULL)
             {
-              UnlockSemaphoreInfo(log_info->event_semaphore);
-              return(WizardFalse);
+              log_info->generation++;
+              if (log_info->append == WizardFalse)
+                (void) fprintf(log_info->file,"<?xml version=\"1.0\" "
+                  "encoding=\"UTF-8\" standalone=\"yes\"?>\n");
+              (void) fprintf(log_info->file,"<log>\n");
             }
-          log_info->generation++;
-          if (log_info->append == WizardFalse)
-            (void) fprintf(log_info->file,"<?xml version=\"1.0\" "
-              "encoding=\"UTF-8\" standalone=\"yes\"?>\n");
-          (void) fprintf(log_info->file,"<log>\n");
         }
-      (void) fprintf(log_info->file,"  <event>%s</event>\n",text);
-      (void) fflush(log_info->file);
+      if (log_info->file == (FILE *) NULL)
+        status=WizardFalse;
+      else
+        {
+          (void) fprintf(log_info->file,"  <event>%s</event>\n",text);
+          (void) fflush(log_info->file);
+        }
     }
   if ((log_info->handler_mask & StdoutHandler) != 0)
     {
@@ -1382,7 +1389,7 @@ WizardBooleanType LogWizardEventList(const LogEventType type,const char *module,
   text=(char  *) RelinquishWizardMemory(text);
   (void) ContinueTimer(log_info->timer);
   UnlockSemaphoreInfo(log_info->event_semaphore);
-  return(WizardTrue);
+  return(status);
 }
 
 WizardBooleanType LogWizardEvent(const LogEventType type,const char *module,
-- 
2.43.0


From b466024a804900b7da7f0a8f386129d6f9495b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:23:33 +0000
Subject: [PATCH 81/92] fix: look at a shared list only while holding its lock

---
 wizard/hashmap.c | 61 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index cf54003..99a062d 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -154,14 +154,18 @@ WizardExport WizardBooleanType AppendValueToLinkedList(
 
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  if (list_info->elements == list_info->capacity)
-    return(WizardFalse);
   next=(ElementInfo *) AcquireWizardMemory(sizeof(*next));
   if (next == (ElementInfo *) NULL)
     return(WizardFalse);
   next->value=(void *) value;
   next->next=(ElementInfo *) NULL;
   LockSemaphoreInfo(list_info->semaphore);
+  if (list_info->elements == list_info->capacity)
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      next=(ElementInfo *) RelinquishWizardMemory(next);
+      return(WizardFalse);
+    }
   if (list_info->next == (ElementInfo *) NULL)
     list_info->next=next;
   if (list_info->elements == 0)
@@ -450,9 +454,12 @@ WizardExport void *GetLastValueInLinkedList(LinkedListInfo *list_info)
 
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  if (list_info->elements == 0)
-    return((void *) NULL);
   LockSemaphoreInfo(list_info->semaphore);
+  if (list_info->elements == 0)
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      return((void *) NULL);
+    }
   value=list_info->tail->value;
   UnlockSemaphoreInfo(list_info->semaphore);
   return(value);
@@ -799,9 +806,12 @@ WizardExport void *GetValueFromLinkedList(LinkedListInfo *list_info,
 
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  if (index >= list_info->elements)
-    return((void *) NULL);
   LockSemaphoreInfo(list_info->semaphore);
+  if (index >= list_info->elements)
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      return((void *) NULL);
+    }
   if (index == 0)
     {
       value=list_info->head->value;
@@ -1002,15 +1012,19 @@ WizardExport WizardBooleanType InsertValueInLinkedList(
   assert(list_info->signature == WizardSignature);
   if (value == NULL)
     return(WizardFalse);
-  if ((index > list_info->elements) ||
-      (list_info->elements == list_info->capacity))
-    return(WizardFalse);
   next=(ElementInfo *) AcquireWizardMemory(sizeof(*next));
   if (next == (ElementInfo *) NULL)
     return(WizardFalse);
   next->value=(void *) value;
   next->next=(ElementInfo *) NULL;
   LockSemaphoreInfo(list_info->semaphore);
+  if ((index > list_info->elements) ||
+      (list_info->elements == list_info->capacity))
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      next=(ElementInfo *) RelinquishWizardMemory(next);
+      return(WizardFalse);
+    }
   if (list_info->elements == 0)
     {
       if (list_info->next == (ElementInfo *) NULL)
@@ -1107,14 +1121,18 @@ WizardExport WizardBooleanType InsertValueInSortedLinkedList(
   if ((compare == (int (*)(const void *,const void *)) NULL) ||
       (value == (const void *) NULL))
     return(WizardFalse);
-  if (list_info->elements == list_info->capacity)
-    return(WizardFalse);
   next=(ElementInfo *) AcquireWizardMemory(sizeof(*next));
   if (next == (ElementInfo *) NULL)
     return(WizardFalse);
   next->value=(void *) value;
   element=(ElementInfo *) NULL;
   LockSemaphoreInfo(list_info->semaphore);
+  if (list_info->elements == list_info->capacity)
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      next=(ElementInfo *) RelinquishWizardMemory(next);
+      return(WizardFalse);
+    }
   next->next=list_info->head;
   while (next->next != (ElementInfo *) NULL)
   {
@@ -1601,9 +1619,12 @@ WizardExport void *RemoveElementByValueFromLinkedList(LinkedListInfo *list_info,
 
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  if ((list_info->elements == 0) || (value == NULL))
-    return((void *) NULL);
   LockSemaphoreInfo(list_info->semaphore);
+  if ((list_info->elements == 0) || (value == NULL))
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      return((void *) NULL);
+    }
   if (value == list_info->head->value)
     {
       if (list_info->next == list_info->head)
@@ -1679,9 +1700,12 @@ WizardExport void *RemoveElementFromLinkedList(LinkedListInfo *list_info,
 
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  if (index >= list_info->elements)
-    return((void *) NULL);
   LockSemaphoreInfo(list_info->semaphore);
+  if (index >= list_info->elements)
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      return((void *) NULL);
+    }
   if (index == 0)
     {
       if (list_info->next == list_info->head)
@@ -1834,9 +1858,12 @@ WizardExport void *RemoveLastElementFromLinkedList(LinkedListInfo *list_info)
 
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  if (list_info->elements == 0)
-    return((void *) NULL);
   LockSemaphoreInfo(list_info->semaphore);
+  if (list_info->elements == 0)
+    {
+      UnlockSemaphoreInfo(list_info->semaphore);
+      return((void *) NULL);
+    }
   if (list_info->next == list_info->tail)
     list_info->next=(ElementInfo *) NULL;
   if (list_info->elements == 1UL)
-- 
2.43.0


From 20070d5b68537579f5032fe3b83acb5e58d4a389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:23:33 +0000
Subject: [PATCH 82/92] fix: look at a shared tree only while holding its lock

---
 wizard/splay-tree.c | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/wizard/splay-tree.c b/wizard/splay-tree.c
index 40be8b1..f21ef7d 100644
--- a/wizard/splay-tree.c
+++ b/wizard/splay-tree.c
@@ -610,9 +610,12 @@ WizardExport WizardBooleanType DeleteNodeFromSplayTree(
   WizardAssert(ResourceDomain,splay_tree->signature == WizardSignature);
   if (splay_tree->debug != WizardFalse)
     (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
-  if (splay_tree->root == (NodeInfo *) NULL)
-    return(WizardFalse);
   LockSemaphoreInfo(splay_tree->semaphore);
+  if (splay_tree->root == (NodeInfo *) NULL)
+    {
+      UnlockSemaphoreInfo(splay_tree->semaphore);
+      return(WizardFalse);
+    }
   SplaySplayTree(splay_tree,key);
   splay_tree->key=(void *) NULL;
   if (splay_tree->compare != (int (*)(const void *,const void *)) NULL)
@@ -774,10 +777,13 @@ WizardExport const void *GetNextKeyInSplayTree(SplayTreeInfo *splay_tree)
   WizardAssert(ResourceDomain,splay_tree->signature == WizardSignature);
   if (splay_tree->debug != WizardFalse)
     (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
+  LockSemaphoreInfo(splay_tree->semaphore);
   if ((splay_tree->root == (NodeInfo *) NULL) ||
       (splay_tree->next == (void *) NULL))
-    return((void *) NULL);
-  LockSemaphoreInfo(splay_tree->semaphore);
+    {
+      UnlockSemaphoreInfo(splay_tree->semaphore);
+      return((void *) NULL);
+    }
   SplaySplayTree(splay_tree,splay_tree->next);
   splay_tree->next=(void *) NULL;
   node=splay_tree->root->right;
@@ -828,10 +834,13 @@ WizardExport const void *GetNextValueInSplayTree(SplayTreeInfo *splay_tree)
   WizardAssert(ResourceDomain,splay_tree->signature == WizardSignature);
   if (splay_tree->debug != WizardFalse)
     (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
+  LockSemaphoreInfo(splay_tree->semaphore);
   if ((splay_tree->root == (NodeInfo *) NULL) ||
       (splay_tree->next == (void *) NULL))
-    return((void *) NULL);
-  LockSemaphoreInfo(splay_tree->semaphore);
+    {
+      UnlockSemaphoreInfo(splay_tree->semaphore);
+      return((void *) NULL);
+    }
   SplaySplayTree(splay_tree,splay_tree->next);
   splay_tree->next=(void *) NULL;
   node=splay_tree->root->right;
@@ -884,9 +893,12 @@ WizardExport const void *GetValueFromSplayTree(SplayTreeInfo *splay_tree,
   WizardAssert(ResourceDomain,splay_tree->signature == WizardSignature);
   if (splay_tree->debug != WizardFalse)
     (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
-  if (splay_tree->root == (NodeInfo *) NULL)
-    return((void *) NULL);
   LockSemaphoreInfo(splay_tree->semaphore);
+  if (splay_tree->root == (NodeInfo *) NULL)
+    {
+      UnlockSemaphoreInfo(splay_tree->semaphore);
+      return((void *) NULL);
+    }
   SplaySplayTree(splay_tree,key);
   if (splay_tree->compare != (int (*)(const void *,const void *)) NULL)
     compare=splay_tree->compare(splay_tree->root->key,key);
@@ -1157,9 +1169,12 @@ WizardExport void *RemoveNodeByValueFromSplayTree(SplayTreeInfo *splay_tree,
   if (splay_tree->debug != WizardFalse)
     (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
   key=(void *) NULL;
-  if (splay_tree->root == (NodeInfo *) NULL)
-    return(key);
   LockSemaphoreInfo(splay_tree->semaphore);
+  if (splay_tree->root == (NodeInfo *) NULL)
+    {
+      UnlockSemaphoreInfo(splay_tree->semaphore);
+      return(key);
+    }
   next=(NodeInfo *) GetFirstSplayTreeNode(splay_tree);
   while (next != (NodeInfo *) NULL)
   {
@@ -1269,9 +1284,12 @@ WizardExport void *RemoveNodeFromSplayTree(SplayTreeInfo *splay_tree,
   if (splay_tree->debug != WizardFalse)
     (void) LogWizardEvent(TraceEvent,GetWizardModule(),"...");
   value=(void *) NULL;
-  if (splay_tree->root == (NodeInfo *) NULL)
-    return(value);
   LockSemaphoreInfo(splay_tree->semaphore);
+  if (splay_tree->root == (NodeInfo *) NULL)
+    {
+      UnlockSemaphoreInfo(splay_tree->semaphore);
+      return(value);
+    }
   SplaySplayTree(splay_tree,key);
   splay_tree->key=(void *) NULL;
   if (splay_tree->compare != (int (*)(const void *,const void *)) NULL)
-- 
2.43.0


From a4316014237616170a7930eae7dbd4070daac717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:58:24 +0000
Subject: [PATCH 83/92] fix: count the entries of a shared hash-map while
 holding its lock

---
 wizard/hashmap.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index 99a062d..b14bf4b 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -653,9 +653,15 @@ WizardExport void *GetNextValueInLinkedList(LinkedListInfo *list_info)
 WizardExport size_t GetNumberOfEntriesInHashmap(
   const HashmapInfo *hashmap_info)
 {
+  size_t
+    entries;
+
   assert(hashmap_info != (HashmapInfo *) NULL);
   assert(hashmap_info->signature == WizardSignature);
-  return(hashmap_info->entries);
+  LockSemaphoreInfo(hashmap_info->semaphore);
+  entries=hashmap_info->entries;
+  UnlockSemaphoreInfo(hashmap_info->semaphore);
+  return(entries);
 }
 
 /*
@@ -1196,7 +1202,8 @@ WizardExport WizardBooleanType IsHashmapEmpty(const HashmapInfo *hashmap_info)
 {
   assert(hashmap_info != (HashmapInfo *) NULL);
   assert(hashmap_info->signature == WizardSignature);
-  return(hashmap_info->entries == 0 ? WizardTrue : WizardFalse);
+  return(GetNumberOfEntriesInHashmap(hashmap_info) == 0 ? WizardTrue :
+    WizardFalse);
 }
 
 /*
-- 
2.43.0


From 3284af2e61787305bcbcc4c03273188796677b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:00:05 +0000
Subject: [PATCH 84/92] fix: count the elements of a shared list while holding
 its lock

---
 wizard/hashmap.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index b14bf4b..b3b86b4 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -691,9 +691,15 @@ WizardExport size_t GetNumberOfEntriesInHashmap(
 WizardExport size_t GetNumberOfElementsInLinkedList(
   const LinkedListInfo *list_info)
 {
+  size_t
+    elements;
+
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  return(list_info->elements);
+  LockSemaphoreInfo(list_info->semaphore);
+  elements=list_info->elements;
+  UnlockSemaphoreInfo(list_info->semaphore);
+  return(elements);
 }
 
 /*
@@ -1233,7 +1239,8 @@ WizardExport WizardBooleanType IsLinkedListEmpty(
 {
   assert(list_info != (LinkedListInfo *) NULL);
   assert(list_info->signature == WizardSignature);
-  return(list_info->elements == 0 ? WizardTrue : WizardFalse);
+  return(GetNumberOfElementsInLinkedList(list_info) == 0 ? WizardTrue :
+    WizardFalse);
 }
 
 /*
-- 
2.43.0


From 68de3dab5af650ab8fde9fa9324ceb85c1cbe50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:39:36 +0000
Subject: [PATCH 85/92] fix: count all bits of a message of 4 GiB or more

---
 wizard/sha1.c    | 2 +-
 wizard/sha2224.c | 2 +-
 wizard/sha2256.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/wizard/sha1.c b/wizard/sha1.c
index 6e3b556..5da1811 100644
--- a/wizard/sha1.c
+++ b/wizard/sha1.c
@@ -614,7 +614,7 @@ WizardExport WizardBooleanType UpdateSHA1(SHA1Info *sha_info,
   if (length < sha_info->low_order)
     sha_info->high_order++;
   sha_info->low_order=length;
-  sha_info->high_order+=(unsigned int) n >> 29;
+  sha_info->high_order+=(unsigned int) (n >> 29);
   p=GetStringInfoDatum(message);
   if (sha_info->offset != 0)
     {
diff --git a/wizard/sha2224.c b/wizard/sha2224.c
index 54cf2cb..32f9b7f 100644
--- a/wizard/sha2224.c
+++ b/wizard/sha2224.c
@@ -634,7 +634,7 @@ WizardExport WizardBooleanType UpdateSHA2224(SHA2224Info *sha_info,
   if (length < sha_info->low_order)
     sha_info->high_order++;
   sha_info->low_order=length;
-  sha_info->high_order+=(unsigned int) n >> 29;
+  sha_info->high_order+=(unsigned int) (n >> 29);
   p=GetStringInfoDatum(message);
   if (sha_info->offset != 0)
     {
diff --git a/wizard/sha2256.c b/wizard/sha2256.c
index 2aa0683..31e9a3a 100644
--- a/wizard/sha2256.c
+++ b/wizard/sha2256.c
@@ -635,7 +635,7 @@ WizardExport WizardBooleanType UpdateSHA2256(SHA2256Info *sha_info,
   if (length < sha_info->low_order)
     sha_info->high_order++;
   sha_info->low_order=length;
-  sha_info->high_order+=(unsigned int) n >> 29;
+  sha_info->high_order+=(unsigned int) (n >> 29);
   p=GetStringInfoDatum(message);
   if (sha_info->offset != 0)
     {
-- 
2.43.0


From 5f3ccbc80368fc556119e8add164a0b0343a0043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:53:05 +0000
Subject: [PATCH 86/92] fix: write the minutes of the time zone in a timestamp

---
 wizard/string.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/wizard/string.c b/wizard/string.c
index 33eed56..3f2c896 100644
--- a/wizard/string.c
+++ b/wizard/string.c
@@ -1142,14 +1142,15 @@ WizardExport ssize_t FormatWizardTime(const time_t time,const size_t length,
       (void) memcpy(&gm_time,my_time,sizeof(gm_time));
   }
 #endif
-  timezone=(time_t) ((local_time.tm_min-gm_time.tm_min)/60+
+  timezone=(time_t) (local_time.tm_min-gm_time.tm_min+60*(
     local_time.tm_hour-gm_time.tm_hour+24*((local_time.tm_year-
     gm_time.tm_year) != 0 ? (local_time.tm_year-gm_time.tm_year) :
-    (local_time.tm_yday-gm_time.tm_yday)));
+    (local_time.tm_yday-gm_time.tm_yday))));
   count=FormatLocaleString(timestamp,length,
-    "%04d-%02d-%02dT%02d:%02d:%02d%+03ld:00",local_time.tm_year+1900,
+    "%04d-%02d-%02dT%02d:%02d:%02d%c%02ld:%02ld",local_time.tm_year+1900,
     local_time.tm_mon+1,local_time.tm_mday,local_time.tm_hour,
-    local_time.tm_min,local_time.tm_sec,(long) timezone);
+    local_time.tm_min,local_time.tm_sec,timezone < 0 ? '-' : '+',
+    labs((long) timezone)/60,labs((long) timezone) % 60);
   return(count);
 }
 
-- 
2.43.0


From 78fa8708c82163c88bd65a70cbc361675a35cdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:53:05 +0000
Subject: [PATCH 87/92] fix: read timestamps of any time zone

---
 wizard/utility.c | 50 ++++++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/wizard/utility.c b/wizard/utility.c
index dd846f8..6091d50 100644
--- a/wizard/utility.c
+++ b/wizard/utility.c
@@ -960,7 +960,11 @@ WizardExport const char *ParseWizardTime(const char *timestamp,time_t *target)
     value;
 
   ssize_t
-    timezone;
+    days,
+    month,
+    sign,
+    timezone,
+    year;
 
    const char
     *p;
@@ -969,34 +973,19 @@ WizardExport const char *ParseWizardTime(const char *timestamp,time_t *target)
     i;
 
   static char
-    separators[] = "--T::-:";
+    separators[] = "--T::+:";
 
   struct tm
-    gm_time,
-    local_time,
     target_time;
 
-  *target=time((time_t *) NULL);
-#if defined(WIZARDSTOOLKIT_HAVE_LOCALTIME_R)
-  (void) localtime_r(target,&local_time);
-#else
-  (void) memcpy(&local_time,localtime(target),sizeof(local_time));
-#endif
-#if defined(WIZARDSTOOLKIT_HAVE_GMTIME_R)
-  (void) gmtime_r(target,&gm_time);
-#else
-  (void) memcpy(&gm_time,gmtime(target),sizeof(gm_time));
-#endif
-  timezone=(ssize_t) ((local_time.tm_min-gm_time.tm_min)/60+local_time.tm_hour-
-    gm_time.tm_hour+24*((local_time.tm_year-gm_time.tm_year) != 0 ?
-    (local_time.tm_year-gm_time.tm_year) : (local_time.tm_yday-
-    gm_time.tm_yday)));
   (void) memset(&target_time,0,sizeof(target_time));
+  sign=1;
+  timezone=0;
   p=timestamp;
   for (i=0; ; i++)
   {
     value=StringToDouble(p,&q);
-    if (*q != separators[i])
+    if ((*q != separators[i]) && ((i != 5) || (*q != '-')))
       break;
     switch (i)
     {
@@ -1005,8 +994,15 @@ WizardExport const char *ParseWizardTime(const char *timestamp,time_t *target)
       case 2: target_time.tm_mday=(int) (value+0.5); break;
       case 3: target_time.tm_hour=(int) (value+0.5); break;
       case 4: target_time.tm_min=(int) (value+0.5); break;
-      case 5: target_time.tm_sec=(int) (value+0.5); break;
-      case 6: timezone+=(int) (value+0.5); break;
+      case 5:
+      {
+        target_time.tm_sec=(int) (value+0.5);
+        if (*q == '-')
+          sign=(-1);
+        break;
+      }
+      case 6: timezone+=60*sign*(int) (value+0.5); break;
+      case 7: timezone+=sign*(int) (value+0.5); break;
       default: break;
     }
     p=q;
@@ -1014,7 +1010,15 @@ WizardExport const char *ParseWizardTime(const char *timestamp,time_t *target)
       break;
     p++;
   }
-  *target=mktime(&target_time)-3600*timezone;
+  /*
+    Days since the Epoch; the year begins in March.
+  */
+  year=(ssize_t) target_time.tm_year+1900-(target_time.tm_mon < 2 ? 1 : 0);
+  month=(ssize_t) (target_time.tm_mon+10) % 12;
+  days=365*year+year/4-year/100+year/400+(153*month+2)/5+target_time.tm_mday-
+    719469;
+  *target=(time_t) (86400*days+3600*target_time.tm_hour+60*
+    target_time.tm_min+target_time.tm_sec-60*timezone);
   return(p);
 }
 
-- 
2.43.0


From 0f78078b7710873ba82cffa70a46731194c81231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:14:13 +0000
Subject: [PATCH 88/92] fix: release the copy made to hash a string key

HashStringType() copies the key into a string to hash it and never releases
the copy, so every look-up in a map of strings lost a few kilobytes.
---
 wizard/hashmap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index b3b86b4..186e61b 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -929,6 +929,7 @@ WizardExport size_t HashStringType(const void *string)
   InitializeHash(hashmap_info);
   message=StringToStringInfo((const char *) string);
   UpdateHash(hashmap_info,message);
+  message=DestroyStringInfo(message);
   FinalizeHash(hashmap_info);
   hash=0;
   digest=GetHashDigest(hashmap_info);
-- 
2.43.0


From f3a72768b34761845c2bf1f5e0ce8e5170878df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:28:33 +0000
Subject: [PATCH 89/92] fix: release the codec when a message cannot be
 compressed or restored

Restoring a message that is not compressed data returned without ending the
zlib or bzip2 stream, so each refused message lost the memory of a decoder.
---
 wizard/bzip.c | 2 ++
 wizard/zip.c  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/wizard/bzip.c b/wizard/bzip.c
index fec4060..a056355 100644
--- a/wizard/bzip.c
+++ b/wizard/bzip.c
@@ -251,6 +251,7 @@ WizardExport WizardBooleanType IncreaseBZIP(BZIPInfo *bzip_info,
     {
       (void) ThrowWizardException(exception,GetWizardModule(),EntropyError,
         "unable to increase entropy `%s'",strerror(errno));
+      (void) BZ2_bzCompressEnd(&stream);
       return(WizardFalse);
     }
   SetStringInfoLength(bzip_info->chaos,(size_t) stream.total_out_lo32);
@@ -330,6 +331,7 @@ WizardExport WizardBooleanType RestoreBZIP(BZIPInfo *bzip_info,
     {
       (void) ThrowWizardException(exception,GetWizardModule(),EntropyError,
         "unable to restore entropy `%s'",strerror(errno));
+      (void) BZ2_bzDecompressEnd(&stream);
       return(WizardFalse);
     }
   SetStringInfoLength(bzip_info->chaos,(size_t) stream.total_out_lo32);
diff --git a/wizard/zip.c b/wizard/zip.c
index 3005d67..ab9d2fb 100644
--- a/wizard/zip.c
+++ b/wizard/zip.c
@@ -245,6 +245,7 @@ WizardExport WizardBooleanType IncreaseZIP(ZIPInfo *zip_info,
     {
       (void) ThrowWizardException(exception,GetWizardModule(),EntropyError,
         "unable to increase entropy `%s'",strerror(errno));
+      (void) deflateEnd(&stream);
       return(WizardFalse);
     }
   SetStringInfoLength(zip_info->chaos,(size_t) stream.total_out);
@@ -325,6 +326,7 @@ WizardExport WizardBooleanType RestoreZIP(ZIPInfo *zip_info,const size_t length,
     {
       (void) ThrowWizardException(exception,GetWizardModule(),EntropyError,
         "unable to restore entropy `%s'",strerror(errno));
+      (void) inflateEnd(&stream);
       return(WizardFalse);
     }
   SetStringInfoLength(zip_info->chaos,(size_t) stream.total_out);
-- 
2.43.0


From 7df5dbf855f70a9ebcb607c93e7f7a224e7e1294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:28:33 +0000
Subject: [PATCH 90/92] fix: release the passphrase file name with the secret
 it belongs to

The copy of the file name given for the passphrase was never released.
---
 wizard/secret.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wizard/secret.c b/wizard/secret.c
index abf5b78..bb6df0a 100644
--- a/wizard/secret.c
+++ b/wizard/secret.c
@@ -253,6 +253,8 @@ WizardExport SecretInfo *DestroySecretInfo(SecretInfo *secret_info)
     secret_info->id=DestroyStringInfo(secret_info->id);
   if (secret_info->digest != (StringInfo *) NULL)
     secret_info->digest=DestroyStringInfo(secret_info->digest);
+  if (secret_info->passphrase != (char *) NULL)
+    secret_info->passphrase=DestroyString(secret_info->passphrase);
   secret_info->signature=(~WizardSignature);
   secret_info=(SecretInfo *) RelinquishWizardMemory(secret_info);
   return(secret_info);
-- 
2.43.0


From 05af46ce65711d14ca6a171a4632dae3bb7d5ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:28:42 +0000
Subject: [PATCH 91/92] fix: release the semaphore of a blob that cannot be
 opened

Opening a file that cannot be opened released the blob alone, so each failed
open lost the semaphore made for it.
---
 wizard/blob.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wizard/blob.c b/wizard/blob.c
index 097ad4c..0ec38c1 100644
--- a/wizard/blob.c
+++ b/wizard/blob.c
@@ -1065,7 +1065,7 @@ WizardExport BlobInfo *OpenBlob(const char *filename,const BlobMode mode,
         {
           (void) ThrowWizardException(exception,GetWizardModule(),BlobError,
             "unable to open file `%s': %s",filename,strerror(errno));
-          blob_info=(BlobInfo *) RelinquishWizardMemory(blob_info);
+          blob_info=DestroyBlob(blob_info);
           return((BlobInfo *) NULL);
         }
 #if defined(WIZARDSTOOLKIT_WINDOWS_SUPPORT)
@@ -1096,7 +1096,7 @@ WizardExport BlobInfo *OpenBlob(const char *filename,const BlobMode mode,
         {
           (void) ThrowWizardException(exception,GetWizardModule(),BlobError,
             "unable to open file `%s': %s",filename,strerror(errno));
-          blob_info=(BlobInfo *) RelinquishWizardMemory(blob_info);
+          blob_info=DestroyBlob(blob_info);
           return((BlobInfo *) NULL);
         }
       blob_info->type=PipeStream;
@@ -1113,7 +1113,7 @@ WizardExport BlobInfo *OpenBlob(const char *filename,const BlobMode mode,
         {
           (void) ThrowWizardException(exception,GetWizardModule(),BlobError,
             "unable to open file `%s': %s",filename,strerror(errno));
-          blob_info=(BlobInfo *) RelinquishWizardMemory(blob_info);
+          blob_info=DestroyBlob(blob_info);
           return((BlobInfo *) NULL);
         }
       blob_info->type=FileStream;
@@ -1242,7 +1242,7 @@ WizardExport BlobInfo *OpenBlob(const char *filename,const BlobMode mode,
     {
       (void) ThrowWizardException(exception,GetWizardModule(),BlobError,
         "unable to open file `%s': %s",filename,strerror(errno));
-      blob_info=(BlobInfo *) RelinquishWizardMemory(blob_info);
+      blob_info=DestroyBlob(blob_info);
       return((BlobInfo *) NULL);
     }
   return(blob_info);
-- 
2.43.0


From e082ea819a3fb231b3ce0d4ae5b6aaa444e8ae3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:31:27 +0000
Subject: [PATCH 92/92] fix: release the first element of a sorted list when it
 is replaced

Replacing the value at the head of a sorted linked list lost the element that
held the old value.
---
 wizard/hashmap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wizard/hashmap.c b/wizard/hashmap.c
index 186e61b..40830da 100644
--- a/wizard/hashmap.c
+++ b/wizard/hashmap.c
@@ -1159,6 +1159,9 @@ WizardExport WizardBooleanType InsertValueInSortedLinkedList(
             if (element != (ElementInfo *) NULL)
               element->next=(ElementInfo *) RelinquishWizardMemory(
                 element->next);
+            else
+              list_info->head=(ElementInfo *) RelinquishWizardMemory(
+                list_info->head);
             list_info->elements--;
           }
         if (element != (ElementInfo *) NULL)
-- 
2.43.0

