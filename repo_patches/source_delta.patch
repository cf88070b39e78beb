From 90b1a8ac69c3dc06b0de8e7bcccbbf3844eec45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:23 +0000
Subject: [PATCH 01/42] verif hooks: make fixed capacities and the load
 footprint overridable (JPSTREAM_VERIF)

---
 JSONQuery/output.h         | 4 ++++
 JSONQuery/path_processor.h | 5 +++++
 JSONQuery/tuple_list.h     | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/JSONQuery/output.h b/JSONQuery/output.h
index d2bed6a..27cf8c1 100644
--- a/JSONQuery/output.h
+++ b/JSONQuery/output.h
@@ -3,7 +3,11 @@
 
 #include "utility.h"
 
+#ifdef JPSTREAM_VERIF
+#define MAX_OUTPUT JPSTREAM_VERIF_MAX_OUTPUT
+#else
 #define MAX_OUTPUT 800000 //290000
+#endif
 #define MAX_STRING 1000
 
 typedef struct Output{
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 4da0a57..0d6e79f 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -20,7 +20,12 @@
 #define NOCONTEXT 0
 #define FINISH 1
 #define INPROGRESS 0
+#ifdef JPSTREAM_VERIF
+extern int jpstream_verif_memory_footprint;
+#define MEMORY_FOOTPRINT jpstream_verif_memory_footprint
+#else
 #define MEMORY_FOOTPRINT 250000000
+#endif
 
 char* loadInputStream(char* file_name)
 {
diff --git a/JSONQuery/tuple_list.h b/JSONQuery/tuple_list.h
index 4eab925..2a4ab03 100644
--- a/JSONQuery/tuple_list.h
+++ b/JSONQuery/tuple_list.h
@@ -3,7 +3,11 @@
 
 #include "utility.h"
 
+#ifdef JPSTREAM_VERIF
+#define MAX_TUPLE_LIST JPSTREAM_VERIF_MAX_TUPLE_LIST
+#else
 #define MAX_TUPLE_LIST 5000000
+#endif
 #define MAX_TEXT 1000
 
 typedef struct Tuple{
-- 
2.43.0


From fe347003db74537191cdff6f905cabef894696ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:49 +0000
Subject: [PATCH 02/42] fix: lexer reports the exact text of primitives

A primitive directly after ':' kept its terminator ({"d":10} gave "10}"), a
negative number lost its sign and a line end did not terminate a primitive.
---
 JSONQuery/lexing.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index ee95f2e..dc98f07 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -86,7 +86,13 @@ Token nextToken(Lexer* lexer)
                         state = 0;
                         break;
                     default: //it might be a single primitive
-                        if((*p>='0'&&*p<='9')||(*p>='a'&&*p<='z')||(*p>='A'&&*p<='Z')) state=2;
+                        if((*p>='0'&&*p<='9')||(*p>='a'&&*p<='z')||(*p>='A'&&*p<='Z')||*p=='-')
+                        {
+                            //the primitive starts here
+                            start = p;
+                            token_pointer = p;
+                            state = 2;
+                        }
                         else
                         {
                             token_len = p - start + 1;
@@ -171,14 +177,11 @@ Token nextToken(Lexer* lexer)
                     case ',':
                     case ' ':
                     case '\t':
+                    case '\n':
+                    case '\r':
                    	{
                         int tempcount = p-start;
-                        templen = tempcount; 
-                        if(p[0]=='"')
-                            substring_in_place(sub1, start, 1 ,tempcount); 
-                        else if(token_pointer[tempcount-1]==',') 
-                            substring_in_place(sub1, token_pointer, 0, tempcount-1);
-                        else substring_in_place(sub1, token_pointer, 0, tempcount);
+                        substring_in_place(sub1, token_pointer, 0, tempcount);
                         strcopy(sub1,lexer->content);
                         token_len = p - start + 1;
                         token_pointer = start + token_len;
-- 
2.43.0


From da03fc322161ee5869b7d7c81d31daf99790184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:15 +0000
Subject: [PATCH 03/42] fix: lexer accepts a line end between a key and its
 colon

The key was reported as a string value, so nothing below it could match.
---
 JSONQuery/lexing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index dc98f07..99a6021 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -126,7 +126,7 @@ Token nextToken(Lexer* lexer)
                         token_pointer = start + token_len;
                         start = token_pointer;
 
-                        while(*(p+1)==' '||*(p+1)=='\t') //ignore space
+                        while(*(p+1)==' '||*(p+1)=='\t'||*(p+1)=='\n'||*(p+1)=='\r') //ignore space
                         {
                             p++;
                             token_len = p - start + 1;
-- 
2.43.0


From 213d31814ccdd6b777ecd8d1e52d78be2e5b8bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:15 +0000
Subject: [PATCH 04/42] fix: substring positions count from the start of the
 given text

Both substring functions skipped the text's leading blanks first, so with a
document or chunk that starts with blanks every extracted range was shifted.
---
 JSONQuery/utility.c | 196 ++++++++++++++++++++++----------------------
 1 file changed, 97 insertions(+), 99 deletions(-)

diff --git a/JSONQuery/utility.c b/JSONQuery/utility.c
index 2bf6487..3f3ba8d 100644
--- a/JSONQuery/utility.c
+++ b/JSONQuery/utility.c
@@ -1,99 +1,97 @@
-#include <stdio.h>
-#include <string.h>
-#include <stdlib.h>
-#include "utility.h"
-
-/*************************************************
-Function: void strcopy(char* src,char* dest)
-Description: similar as strcpy
-*************************************************/
-void strcopy(char* src,char* dest)
-{
-	int length=strlen(src);
-	int i;
-	for(i=0;i<=length;i++)
-	{
-		dest[i]=src[i];
-	}
-	dest[i]='\0';
-}
-
-/**************************************************************************
-Function: char* substring(char *pText, int begin, int end);
-Description: print the substring of the original string
-Input: pText--the original string; begin--start position; end--end position;
-Return: the final string
-***************************************************************************/
-char* substring(char *pText, int begin, int end)
-{
-    int i,j;
-    char * temp=pText;
-    temp = ltrim(pText);
-    char* temp1=NULL; 
-    temp1=(char*)malloc((end-begin+1)*sizeof(char));
-    for (j = 0,i = begin; i < end; i++,j++)
-    {
-        temp1[j]=temp[i];
-    }
-    temp1[j]='\0';
-    return temp1;
-}
-
-/***************************************************************************************************
-Function: char* substring_in_place(char* desc, char *pText, int begin, int end);
-Description: save the substring of pText into a destination string
-Input: desc -- the destination; pText--the original string; begin--start position; end--end position;
-****************************************************************************************************/
-void substring_in_place(char* desc, char *pText, int begin, int end)
-{
-    int i,j;
-    char * temp=pText;
-    temp = ltrim(pText);
-    for (j = 0,i = begin; i < end; i++,j++)
-    {
-        desc[j]=temp[i];
-    }
-    desc[j]='\0'; 
-}
-
-/******************************************************************************
-Function: char* allocate_and_copy(char *pText);
-Description: allocate new memory spaces and copy the content of original string
-Input: pText--the original string; 
-Return: the new string
-******************************************************************************/
-char* allocate_and_copy(char* pText)
-{
-    char* new = (char*)malloc((strlen(pText)+2)*sizeof(char)); 
-    strcopy(pText, new);
-    return new;
-}
-
-/*************************************************
-Function: char * ltrim(char *s);
-Description: remove the left blankets of a string
-Input: s--the original string; 
-Return: the final substring
-*************************************************/
-char * ltrim(char *s)
-{
-     char *temp;
-     temp = s;
-     while((*temp == ' ')&&temp){*temp++;}
-     return temp;
-}
-
-/*************************************************
-Function: int left_null_count(char *s);
-Description: calculate the number of blanket for each string
-Input: s--the original string; 
-Return: the number of blanket for each string
-*************************************************/
-int left_null_count(char *s)  
-{
-	 int count=0;
-     char *temp;
-     temp = s;
-     while((*temp == ' ')&&temp){*temp++; count++;}
-     return count;
-}
+#include <stdio.h>
+#include <string.h>
+#include <stdlib.h>
+#include "utility.h"
+
+/*************************************************
+Function: void strcopy(char* src,char* dest)
+Description: similar as strcpy
+*************************************************/
+void strcopy(char* src,char* dest)
+{
+	int length=strlen(src);
+	int i;
+	for(i=0;i<=length;i++)
+	{
+		dest[i]=src[i];
+	}
+	dest[i]='\0';
+}
+
+/**************************************************************************
+Function: char* substring(char *pText, int begin, int end);
+Description: print the substring of the original string
+Input: pText--the original string; begin--start position; end--end position;
+Return: the final string
+***************************************************************************/
+char* substring(char *pText, int begin, int end)
+{
+    int i,j;
+    char * temp=pText;
+    char* temp1=NULL; 
+    temp1=(char*)malloc((end-begin+1)*sizeof(char));
+    for (j = 0,i = begin; i < end; i++,j++)
+    {
+        temp1[j]=temp[i];
+    }
+    temp1[j]='\0';
+    return temp1;
+}
+
+/***************************************************************************************************
+Function: char* substring_in_place(char* desc, char *pText, int begin, int end);
+Description: save the substring of pText into a destination string
+Input: desc -- the destination; pText--the original string; begin--start position; end--end position;
+****************************************************************************************************/
+void substring_in_place(char* desc, char *pText, int begin, int end)
+{
+    int i,j;
+    char * temp=pText;
+    for (j = 0,i = begin; i < end; i++,j++)
+    {
+        desc[j]=temp[i];
+    }
+    desc[j]='\0'; 
+}
+
+/******************************************************************************
+Function: char* allocate_and_copy(char *pText);
+Description: allocate new memory spaces and copy the content of original string
+Input: pText--the original string; 
+Return: the new string
+******************************************************************************/
+char* allocate_and_copy(char* pText)
+{
+    char* new = (char*)malloc((strlen(pText)+2)*sizeof(char)); 
+    strcopy(pText, new);
+    return new;
+}
+
+/*************************************************
+Function: char * ltrim(char *s);
+Description: remove the left blankets of a string
+Input: s--the original string; 
+Return: the final substring
+*************************************************/
+char * ltrim(char *s)
+{
+     char *temp;
+     temp = s;
+     while((*temp == ' ')&&temp){*temp++;}
+     return temp;
+}
+
+/*************************************************
+Function: int left_null_count(char *s);
+Description: calculate the number of blanket for each string
+Input: s--the original string; 
+Return: the number of blanket for each string
+*************************************************/
+int left_null_count(char *s)  
+{
+	 int count=0;
+     char *temp;
+     temp = s;
+     while((*temp == ' ')&&temp){*temp++; count++;}
+     return count;
+}
-- 
2.43.0


From 18e2afee0823595f2ef48d81cf38c24cf5208cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:26 +0000
Subject: [PATCH 05/42] fix: [index] selects the array element

The DFA builder had no case for a single index and dropped the step, so
$.a[2].b was compiled as $.a.b.
---
 DFABuilder/src/dfa_builder.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index ffa8f92..b7cc517 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -246,6 +246,14 @@ struct StackContext {
                     array_range[model->size()-1] = {begin, end};
                     break;
                 }
+                // [index]
+                case jnt_number: {
+                    int begin = p->number;
+                    push({set_array_index, begin, begin+1});
+                    create_dfa();
+                    array_range[model->size()-1] = {begin, begin+1};
+                    break;
+                }
                 // [*]
                 case jnt_wildcard: {
                     push({set_array_all});
-- 
2.43.0


From 2fe308998c5022f2e87a037e25bdb50e16bb15aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:26 +0000
Subject: [PATCH 06/42] fix: '%' in filters binds like '*' and '/'

It had no precedence, so @.a%2==0 was parsed as @.a%(2==0).
---
 JSONPathParser/parser_j.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/JSONPathParser/parser_j.y b/JSONPathParser/parser_j.y
index ef61cca..fbbf3dd 100644
--- a/JSONPathParser/parser_j.y
+++ b/JSONPathParser/parser_j.y
@@ -42,7 +42,7 @@ void jerror (JLTYPE * yylloc, yyscan_t locp, ASTNode **root, const char *msg);
 %left OR AND
 %left NEQ LEQ GEQ EQ '<' '>'
 %left '+' '-'
-%left '*' '/' 
+%left '*' '/' '%'
 %right '!'
 %left '('
 
-- 
2.43.0


From 687cadef70819e6a72d9df55b81734d38a45a51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:26 +0000
Subject: [PATCH 07/42] fix: '&&' in filters binds tighter than '||'

Both had the same precedence, so @.a||@.b&&@.c was parsed as (@.a||@.b)&&@.c.
---
 JSONPathParser/parser_j.y | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/JSONPathParser/parser_j.y b/JSONPathParser/parser_j.y
index fbbf3dd..2b4a00e 100644
--- a/JSONPathParser/parser_j.y
+++ b/JSONPathParser/parser_j.y
@@ -39,7 +39,8 @@ void jerror (JLTYPE * yylloc, yyscan_t locp, ASTNode **root, const char *msg);
 %type <node> AllPath LocationPath Number Property IndexList Predicate Expr  
 %start AllPath
 
-%left OR AND
+%left OR
+%left AND
 %left NEQ LEQ GEQ EQ '<' '>'
 %left '+' '-'
 %left '*' '/' '%'
-- 
2.43.0


From b5d43a91d359ad0ddb7a8b28586390cae0f0b68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:26 +0000
Subject: [PATCH 08/42] fix: negative numbers are numbers in filters

---
 JSONPathParser/jsonpath_evaluator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 3d6be6e..68e0103 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -183,7 +183,7 @@ static inline JSONPathValue stringToValue(const char* str) {
         v.vtype = jvt_string; v.string = s;
         return v;
     }
-    if (isdigit(str[0])) {
+    if (isdigit(str[0]) || str[0] == '-') {
         v.vtype = jvt_number; v.number = atof(str);
         return v;
     }
-- 
2.43.0


From 5359656abdeb32e870557314e5abb358674738b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:01 +0000
Subject: [PATCH 09/42] fix: filters do not compare or compute with operands
 that are not numbers

A missing member or a string was read through the wrong union member, so
@.a<10 held for elements without a.
---
 JSONPathParser/jsonpath_evaluator.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 68e0103..430a563 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -88,6 +88,11 @@ static inline JSONPathValue computeBinaryOperator(JSONPathOperatorType opt, JSON
         v1 = computeTypeCast(v1);
         v2 = computeTypeCast(v2);
     }
+    // ordering and arithmetic are only defined between numbers
+    else if (opt != jot_equal && opt != jot_neq && (v1.vtype != jvt_number || v2.vtype != jvt_number)) {
+        v.vtype = jvt_null;
+        return v;
+    }
     // calculate 
     switch (opt) {
         case jot_or:
-- 
2.43.0


From 99e67c6ea633a075e93d167923cb53a3ab339042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:01 +0000
Subject: [PATCH 10/42] fix: '%' by zero in a filter is no value instead of a
 crash

---
 JSONPathParser/jsonpath_evaluator.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 430a563..f0a18d1 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -154,6 +154,10 @@ static inline JSONPathValue computeBinaryOperator(JSONPathOperatorType opt, JSON
             v.number = (v1.number / v2.number);
             return v;
         case jot_mod:
+            if ((long long int)(v2.number) == 0) {
+                v.vtype = jvt_null;
+                return v;
+            }
             v.vtype = jvt_number;
             v.number = (long long int)(v1.number) % (long long int)(v2.number);
             return v;
-- 
2.43.0


From d1ede35df8f0359dec5720dc9d52794b3695d751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:49 +0000
Subject: [PATCH 11/42] fix: partitionInputStream stays inside the stream and
 splits between tokens

The search for the next chunk start ran past the end of the stream when no
suitable quote was left, wrote past the 2000 bytes reserved for it, returned a
missing last chunk, and took the closing quote of a string like "a," for the
start of a token.
---
 JSONQuery/path_processor.h | 43 ++++++--------------------------------
 JSONQuery/utility.c        | 19 +++++++++++++++++
 JSONQuery/utility.h        | 22 ++++++++++---------
 3 files changed, 37 insertions(+), 47 deletions(-)

diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 0d6e79f..483fd7c 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -107,47 +107,16 @@ PartitionInfo partitionInputStream(char* input_stream, int num_core)
     for(i = 0; i<num_core; i++)
         stream[i] = NULL;
     long sum_size = 0;   //the number of bytes that have been processed
-    char ch = -1; 
-    for(i = 0; i<num_core-1; i++)
+    for(i = 0; i<num_core && (i==0||sum_size<stream_size); i++)
     {   
-        stream[i] = (char*)malloc((chunk_size+MAX_EXTENSION)*sizeof(char)); 
-        substring_in_place(stream[i], input_stream, sum_size, sum_size+chunk_size);
-        sum_size += chunk_size; 
-        int add = 0;
+        long end = sum_size+chunk_size;
+        if(i==num_core-1 || end>stream_size) end = stream_size;
         //look for the next complete token
-        while(sum_size<=stream_size)
-        {    
-            ch = input_stream[sum_size+add];
-            if(ch=='"')
-            {
-                char prev = stream[i][chunk_size+add-1];
-                int t = 1;
-                while(prev==' '||prev=='\t'||prev=='\n'||prev==13)
-                {
-                    prev = stream[i][chunk_size+add-t]; 
-                    t++;
-                }
-                if(prev==','||prev=='{'||prev=='[')
-                {
-                    stream[i][chunk_size+add] = ch;
-                    break;
-                }
-            }
-            stream[i][chunk_size+add] = ch; 
-            add = add+1;
-        }
-        stream[i][chunk_size+add] = '\0'; 
-        sum_size += add;
-        if((sum_size+chunk_size)>=stream_size) {i++; break;}
+        while(end<stream_size && !isTokenStart(input_stream, end)) end++;
+        stream[i] = substring(input_stream, sum_size, end);
+        sum_size = end;
     } 
     pInfo.num_chunk = i;
-    long remain_size = stream_size-sum_size;
-    if(remain_size>0)
-    {
-        stream[i] = substring(input_stream, sum_size, stream_size);
-        pInfo.num_chunk = i+1;
-    }
-    pInfo.num_chunk = i+1;
     pInfo.stream = stream;
     printf("stream partitioner: finish splitting the input stream\n");
     return pInfo;
diff --git a/JSONQuery/utility.c b/JSONQuery/utility.c
index 3f3ba8d..038e4fe 100644
--- a/JSONQuery/utility.c
+++ b/JSONQuery/utility.c
@@ -95,3 +95,22 @@ int left_null_count(char *s)
      while((*temp == ' ')&&temp){*temp++; count++;}
      return count;
 }
+
+/*************************************************
+Function: int isTokenStart(char* text, long position);
+Description: check whether a key or a string value starts at the position, so that the text can be split there
+             (a quote after ',' '{' or '[' can also be the end of a string like "a,", 
+             which is then followed by ',' ':' ']' or '}')
+Input: text--the original string; position--the position of the checked character; 
+Return: 1 if a token surely starts at this position, 0 otherwise
+*************************************************/
+int isTokenStart(char* text, long position)
+{
+    if(text[position]!='"') return 0;
+    long i = position-1;
+    while(i>=0 && (text[i]==' '||text[i]=='\t'||text[i]=='\n'||text[i]=='\r')) i--;
+    if(i<0 || !(text[i]==','||text[i]=='{'||text[i]=='[')) return 0;
+    i = position+1;
+    while(text[i]==' '||text[i]=='\t'||text[i]=='\n'||text[i]=='\r') i++;
+    return !(text[i]=='\0'||text[i]==','||text[i]==':'||text[i]==']'||text[i]=='}');
+}
diff --git a/JSONQuery/utility.h b/JSONQuery/utility.h
index 6fdd724..3d435c9 100644
--- a/JSONQuery/utility.h
+++ b/JSONQuery/utility.h
@@ -1,10 +1,12 @@
-#ifndef __UTILITY_H__
-#define __UTILITY_H__
-
-void strcopy(char* src,char* dest);
-char* substring(char *pText, int begin, int end);
-char* allocate_and_copy(char* pText);
-char* ltrim(char *s); //reduct blank from left
-int left_null_count(char *s);  //calculate the number of blanket for each string
-
-#endif // !__UTILITY_H__
+#ifndef __UTILITY_H__
+#define __UTILITY_H__
+
+void strcopy(char* src,char* dest);
+char* substring(char *pText, int begin, int end);
+char* allocate_and_copy(char* pText);
+char* ltrim(char *s); //reduct blank from left
+int left_null_count(char *s);  //calculate the number of blanket for each string
+
+int isTokenStart(char* text, long position);  //whether a key or string starts at the position
+
+#endif // !__UTILITY_H__
-- 
2.43.0


From 5e1fb627cafd3db5e5d1c26f2ae883b6edaae426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:49 +0000
Subject: [PATCH 12/42] fix: partitionFile splits the file into complete chunks
 between tokens

Its search had the faults of partitionInputStream, and it also wrote one byte
past the last chunk, never terminated the last chunk of a one-chunk file inside
its buffer, took the closing quote of a string for a token start, and left the
stream uninitialised and the file open.
---
 JSONQuery/file_partition.c | 74 +++++++-------------------------------
 1 file changed, 12 insertions(+), 62 deletions(-)

diff --git a/JSONQuery/file_partition.c b/JSONQuery/file_partition.c
index cf8b6fb..42ab6ee 100644
--- a/JSONQuery/file_partition.c
+++ b/JSONQuery/file_partition.c
@@ -5,12 +5,11 @@
 #include <string.h>
 #include "utility.h"
 
-#define MAX_EXTENSION 1000
-
 PartitionInfo partitionFile(char* file_name, int num_core)
 { 
     PartitionInfo pInfo;
     pInfo.num_chunk = 0;
+    pInfo.stream = NULL;
     char** stream=NULL;
     FILE *fp; 
     long file_size, chunk_size;
@@ -25,71 +24,22 @@ PartitionInfo partitionFile(char* file_name, int num_core)
     int i;
     for(i = 0; i<num_core; i++)
         stream[i] = NULL;
+    char* text = (char*)malloc((file_size+1)*sizeof(char));
+    file_size = fread(text,1,file_size,fp);
+    text[file_size] = '\0';
+    fclose(fp);
     long sum_size = 0;   //the number of bytes that have been processed
-    char ch = -1; 
-    for(i = 0; i<num_core-1; i++)
+    for(i = 0; i<num_core && (i==0||sum_size<file_size); i++)
     {
-        stream[i] = (char*)malloc((chunk_size+MAX_EXTENSION)*sizeof(char));
-        if(ch!=-1)
-        {
-            stream[i][0]=ch;
-            stream[i][1]='\0';
-            char * buff=(char*)malloc((chunk_size)*sizeof(char)); 
-            fread (buff,1,chunk_size-1,fp); 
-            buff[chunk_size-1]='\0'; 
-            stream[i]=strcat(stream[i],buff); 
-        }
-        else fread (stream[i],1,chunk_size,fp);
-        int add = 0;
+        long end = sum_size+chunk_size;
+        if(i==num_core-1 || end>file_size) end = file_size;
         //look for the next complete token
-        ch = fgetc(fp);
-        while(1)
-        {    
-            if(ch==EOF) break;
-            if(ch=='"')
-            {
-                char prev = stream[i][chunk_size+add-1];
-                int t = 1;
-                while(prev==' '||prev=='\t'||prev=='\n'||prev==13)
-                {
-                    prev = stream[i][chunk_size+add-t]; 
-                    t++;
-                }
-                if(prev==','||prev=='{'||prev=='[')
-                {
-                    break;
-                }
-            }
-            stream[i][chunk_size+add] = ch; 
-            add = add+1;
-            ch = fgetc(fp);
-        }
-        stream[i][chunk_size+add] = '\0'; 
-        sum_size += (chunk_size+add);
-        if((sum_size+chunk_size)>=file_size) {i++; break;}
+        while(end<file_size && !isTokenStart(text, end)) end++;
+        stream[i] = substring(text, sum_size, end);
+        sum_size = end;
     }
+    free(text);
     pInfo.num_chunk = i;
-    long remain_size = file_size-sum_size;
-    if(remain_size>0)
-    {
-        stream[i] = (char*)malloc((remain_size)*sizeof(char));
-        if(ch!=-1)
-        {
-            stream[i][0]=ch;
-            stream[i][1]='\0';
-            char* buff=(char*)malloc(remain_size*sizeof(char));
-            fread (buff,1,remain_size-1,fp);
-            buff[remain_size-1]='\0';
-            stream[i]=strcat(stream[i],buff);
-            stream[i][remain_size] = '\0'; 
-        }
-        else{
-            fread (stream[i],1,remain_size,fp);
-            stream[i][remain_size] = '\0';
-        }
-        pInfo.num_chunk = i+1;
-    }
-    pInfo.num_chunk = i+1;
     pInfo.stream = stream;
     printf("file partitioner: finish splitting the input stream\n");
     return pInfo;
-- 
2.43.0


From c206fd4d8edec62d2b2ee107ff5b9208600a2be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:26 +0000
Subject: [PATCH 13/42] fix: results of any length and number are kept intact

Tuples had 1000 bytes for a text and lists had a fixed number of elements; a
selected value of 1000 bytes or more, or too many results, overwrote the
neighbouring memory. Texts are now allocated and the lists grow.
---
 JSONQuery/output.h                      | 28 ++++++++---------
 JSONQuery/parallel_automata_execution.h |  7 +++--
 JSONQuery/tuple_list.h                  | 41 +++++++++++++++++--------
 3 files changed, 46 insertions(+), 30 deletions(-)

diff --git a/JSONQuery/output.h b/JSONQuery/output.h
index 27cf8c1..6e52744 100644
--- a/JSONQuery/output.h
+++ b/JSONQuery/output.h
@@ -1,35 +1,28 @@
 #ifndef __OUTPUT_H__
 #define __OUTPUT_H__
 
+#include <stdlib.h>
 #include "utility.h"
 
-#ifdef JPSTREAM_VERIF
-#define MAX_OUTPUT JPSTREAM_VERIF_MAX_OUTPUT
-#else
-#define MAX_OUTPUT 800000 //290000
-#endif
-#define MAX_STRING 1000
+#define INIT_OUTPUT 1024  //initial capacity
 
 typedef struct Output{
     char** element;
+    int capacity;
     int count;
 }Output;
 
 static inline void initOutput(Output* output)
 {
-    output->element = (char**)malloc(MAX_OUTPUT*sizeof(char*));
-    int i;
-    for(i=0; i<MAX_OUTPUT; i++)
-    {
-        output->element[i] = (char*)malloc(MAX_STRING*sizeof(char));
-    }
+    output->capacity = INIT_OUTPUT;
+    output->element = (char**)malloc(output->capacity*sizeof(char*));
     output->count = -1;
 }
 
 static inline void destroyOutput(Output* output)
 {
     int i;
-    for(i=0; i<MAX_OUTPUT; i++)
+    for(i=0; i<=output->count; i++)
     {
         if(output->element[i]!=NULL) free(output->element[i]);
     }
@@ -52,7 +45,12 @@ static inline void freeOutput(Output* output)
 static inline void addOutputElement(Output* output, char* text)
 {
     int index = (++output->count);
-    strcopy(text, output->element[index]); //printf("text %s %d\n", text, index);
+    if(index==output->capacity)
+    {
+        output->capacity *= 2;
+        output->element = (char**)realloc(output->element, output->capacity*sizeof(char*));
+    }
+    output->element[index] = allocate_and_copy(text);
 }
 
 static inline char* getOutputElement(Output* output, int index)
@@ -62,7 +60,7 @@ static inline char* getOutputElement(Output* output, int index)
 
 static inline void removeOutputElement(Output* output, int number)
 {
-    output->count-=number; 
+    while(number-->0) free(output->element[output->count--]);
 }
 
 static inline int getOutputSize(Output* output)
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 0419465..56aa121 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -318,7 +318,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                 //check array indexes
                 if(!(lower==0&&upper==0))
                 {
-                    if(strcmp(tuple.text, "}")==0||strcmp(tuple.text, "]")==0) { 
+                    if(tuple.text!=NULL && (strcmp(tuple.text, "}")==0||strcmp(tuple.text, "]")==0)) { 
                         qs.node[qs_elt.start].count++; 
                         if(qs.node[qs_elt.start].count>=upper) qs.node[qs_elt.start].query_state = 0; 
                         continue;
@@ -338,8 +338,9 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                     addTuple(tuple_list, tuple.state, tuple.text);
                 else
                 {   
-                    substring_in_place(tuple.text, thread_info[i].input_stream, tuple.start_position, tuple.end_position); 
-                    addTuple(tuple_list, tuple.state, tuple.text); 
+                    char* output_text = substring(thread_info[i].input_stream, tuple.start_position, tuple.end_position); 
+                    addTuple(tuple_list, tuple.state, output_text); 
+                    free(output_text);
                 }
                 sum++;
             }
diff --git a/JSONQuery/tuple_list.h b/JSONQuery/tuple_list.h
index 2a4ab03..dc430c7 100644
--- a/JSONQuery/tuple_list.h
+++ b/JSONQuery/tuple_list.h
@@ -1,14 +1,10 @@
 #ifndef __TUPLE_LIST_H__
 #define __TUPLE_LIST_H__
 
+#include <stdlib.h>
 #include "utility.h"
 
-#ifdef JPSTREAM_VERIF
-#define MAX_TUPLE_LIST JPSTREAM_VERIF_MAX_TUPLE_LIST
-#else
-#define MAX_TUPLE_LIST 5000000
-#endif
-#define MAX_TEXT 1000
+#define INIT_TUPLE_LIST 1024  //initial capacity
 
 typedef struct Tuple{
     //starting index for string text
@@ -16,18 +12,20 @@ typedef struct Tuple{
     //ending index for string text
     int end_position;
     int state;
-    char text[MAX_TEXT];
+    char* text;
     int next_index;
 }Tuple;
 
 typedef struct TupleList{
-    Tuple element[MAX_TUPLE_LIST];
+    Tuple* element;
+    int capacity;
     int count;
 }TupleList;
 
 static inline void initTupleList(TupleList* tl)
 {
-    //tl->element = (Tuple*)malloc(MAX_TUPLE_LIST*sizeof(Tuple));
+    tl->capacity = INIT_TUPLE_LIST;
+    tl->element = (Tuple*)malloc(tl->capacity*sizeof(Tuple));
     tl->count = -1;
 }
 
@@ -40,24 +38,43 @@ static inline TupleList* createTupleList()
 
 static inline void freeTupleList(TupleList* tl)
 {
+    int i;
+    for(i=0; i<=tl->count; i++)
+    {
+        if(tl->element[i].text!=NULL) free(tl->element[i].text);
+    }
+    free(tl->element);
     free(tl);
 }
 
+//append an element, the list grows when it is full
+static inline int nextTupleIndex(TupleList* tl)
+{
+    int index = (++tl->count);
+    if(index==tl->capacity)
+    {
+        tl->capacity *= 2;
+        tl->element = (Tuple*)realloc(tl->element, tl->capacity*sizeof(Tuple));
+    }
+    return index;
+}
+
 static inline void addTuple(TupleList* tl, int state, char* text)
 { 
-    int index = (++tl->count);
+    int index = nextTupleIndex(tl);
     tl->element[index].state = state;
     tl->element[index].start_position = -1;
-    strcopy(text, tl->element[index].text); 
+    tl->element[index].text = allocate_and_copy(text);
     tl->element[index].next_index  = -1;
 }
 
 static inline void addVirtualTuple(TupleList* tl, int state, int start_position, int end_position)
 {
-    int index = (++tl->count);
+    int index = nextTupleIndex(tl);
     tl->element[index].state = state;
     tl->element[index].start_position = start_position; 
     tl->element[index].end_position = end_position;
+    tl->element[index].text = NULL;
     tl->element[index].next_index  = -1;
 }
 
-- 
2.43.0


From 0ff996fd868858d87b710885f41e58824918c3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:26 +0000
Subject: [PATCH 14/42] fix: tokens of any length are kept intact

A string or number of 4000 bytes or more was copied past the end of the
lexer's content buffer.
---
 JSONQuery/lexing.c | 33 ++++++++++++++++++---------------
 JSONQuery/lexing.h |  6 ++++--
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index 99a6021..6f9cf56 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -5,7 +5,17 @@
 #include "utility.h"
 #include "lexing.h"
 
-#define MAX_PRIMITIVE 40000
+//save the text between start and end as the content of the current symbol
+static void saveContent(Lexer* lexer, char* start, char* end)
+{
+    int length = end-start;
+    if(length>=lexer->content_size)
+    {
+        lexer->content_size = length+1;
+        lexer->content = (char*)realloc(lexer->content, lexer->content_size*sizeof(char));
+    }
+    substring_in_place(lexer->content, start, 0, length);
+}
 
 Token nextToken(Lexer* lexer)
 {
@@ -14,12 +24,11 @@ Token nextToken(Lexer* lexer)
     char* head = lexer->begin_stream;
     char* end = lexer->end_stream;
     int state = lexer->lex_state; //lex_state 
-    int templen = 0;
     int token_len = 0;
     char* token_pointer = p; 
-    int tempcount;
     Token token;
-    char sub1[MAX_PRIMITIVE];
+    char* text_start; //the opening and closing quotes of a text
+    char* text_end;
     for (; p < end; p++)
     {   
         switch(state)
@@ -119,9 +128,8 @@ Token nextToken(Lexer* lexer)
                             if(count%2==1) {state = 1; break;}  //it is not a string
                         }
                         //string is found 
-                        tempcount = p-start;
-                        templen = tempcount; 
-                        substring_in_place(sub1, start , 1, tempcount);     
+                        text_start = start;
+                        text_end = p;
                         token_len = p - start + 1;
                         token_pointer = start + token_len;
                         start = token_pointer;
@@ -135,7 +143,7 @@ Token nextToken(Lexer* lexer)
                         } 
                         if(*(p+1)==':') //it is a key field
                         {
-                            strcopy(sub1,lexer->content);
+                            saveContent(lexer, text_start+1, text_end);
                             token_len = p - start+1;
                             token_pointer = start + token_len;
                             lexer->current_start = lexer->current_pointer+1; 
@@ -149,10 +157,7 @@ Token nextToken(Lexer* lexer)
                         }
                         else //primitive value
                         {
-                            lexer->content[0]='"';
-                            strcopy(sub1, lexer->content+1);
-                            lexer->content[strlen(lexer->content)]='"'; 
-                            lexer->content[strlen(lexer->content)+1]='\0'; 
+                            saveContent(lexer, text_start, text_end+1);
                             lexer->current_start = lexer->current_pointer+1; 
                             lexer->lex_state = 0; 
                             lexer->next_start = p+1; 
@@ -180,9 +185,7 @@ Token nextToken(Lexer* lexer)
                     case '\n':
                     case '\r':
                    	{
-                        int tempcount = p-start;
-                        substring_in_place(sub1, token_pointer, 0, tempcount);
-                        strcopy(sub1,lexer->content);
+                        saveContent(lexer, token_pointer, p);
                         token_len = p - start + 1;
                         token_pointer = start + token_len;
                         lexer->current_pointer = token_pointer;
diff --git a/JSONQuery/lexing.h b/JSONQuery/lexing.h
index 703b90f..0448b21 100644
--- a/JSONQuery/lexing.h
+++ b/JSONQuery/lexing.h
@@ -15,7 +15,7 @@
 #define ARRAY 9 //[]
 #define END -1  //ends
 
-#define MAX_SIZE_PRIMITIVE 4000
+#define MAX_SIZE_PRIMITIVE 4000  //initial size of the token content
 
 /* structure for tokens */
 typedef struct Lexer{
@@ -26,6 +26,7 @@ typedef struct Lexer{
     char* end_stream;         //ending position of input json
     int lex_state;       
     char* content;           //content of the current symbol
+    int content_size;        //allocated size of content
 }Lexer; 
 
 
@@ -37,7 +38,8 @@ static inline void initLexer(Lexer* lexer, char* json_stream)
     lexer->begin_stream = json_stream;
     lexer->end_stream = json_stream + strlen(json_stream);
     lexer->lex_state = 0;
-    lexer->content = (char*)malloc(MAX_SIZE_PRIMITIVE*sizeof(char));
+    lexer->content_size = MAX_SIZE_PRIMITIVE;
+    lexer->content = (char*)malloc(lexer->content_size*sizeof(char));
 }
 
 static inline void destroyLexer(Lexer* lexer)
-- 
2.43.0


From 80996739d3c7f1c6a0d652e09517c96794d2b3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:56 +0000
Subject: [PATCH 15/42] fix: looking ahead does not overwrite the content of
 the current token

The lookahead lexer of a worker shared its content buffer with the worker's
lexer, so a string at the start of a chunk was reported with the text of a
later token.
---
 JSONQuery/worker_automaton.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 9a6cfbb..ab3de21 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -45,10 +45,15 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
 }
 
 //syntax stack feasibility inference
-static inline void syntaxStackInference(Lexer* lexer, int input_token_type, SyntaxStack* shadow_ss, SyntaxStack* ss)
+static inline void syntaxStackInference(Lexer* cur_lexer, int input_token_type, SyntaxStack* shadow_ss, SyntaxStack* ss)
 {
+    //look ahead with a separate lexer, the content of the current token must stay
+    Lexer lookahead = *cur_lexer;
+    Lexer* lexer = &lookahead;
+    lexer->content = (char*)malloc(lexer->content_size*sizeof(char));
     Token first_token = nextToken(lexer);
     Token second_token = nextToken(lexer);
+    destroyLexer(lexer);
     if(input_token_type==RCB)
     {
         if(syntaxStackSize(ss)==1)
-- 
2.43.0


From 80005c5d60369967695d5f6bd005ad04cd38e108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:56 +0000
Subject: [PATCH 16/42] fix: initialise the state of a unit

---
 JSONQuery/unit.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/JSONQuery/unit.h b/JSONQuery/unit.h
index d54d9e7..cf7669c 100644
--- a/JSONQuery/unit.h
+++ b/JSONQuery/unit.h
@@ -52,6 +52,7 @@ static inline void initUnit(Unit* unit)
     unit->count_start_states = -1;
     unit->count_unmatched_symbols = -1;
     unit->num_root = -1;
+    unit->unit_state = UNIT_UNMATCHED;
     unit->has_pruned = UNPRUNED;
     unit->start = NULL;
     unit->end = NULL;
-- 
2.43.0


From dadbf039d9c6aae20b341491a275a9dac48757c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:27 +0000
Subject: [PATCH 17/42] fix: lexer reports a primitive completed by the end of
 the stream

---
 JSONQuery/lexing.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index 6f9cf56..33382d7 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -209,6 +209,18 @@ Token nextToken(Lexer* lexer)
         }
         
     }
+    //a primitive is also completed by the end of the stream
+    if(state==2)
+    {
+        saveContent(lexer, token_pointer, end);
+        lexer->current_pointer = end;
+        lexer->current_start = end;
+        lexer->lex_state = 0;
+        lexer->next_start = end;
+        token.token_type = PRI;
+        token.content = lexer->content;
+        return token;
+    }
     token.token_type = END;
     return token;
 }
-- 
2.43.0


From 33aff18b149b3abf614838ce45a501a9f7c7677f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:27 +0000
Subject: [PATCH 18/42] fix: a unit can start with a primitive

---
 JSONQuery/worker_automaton.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index ab3de21..551e6dd 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -166,6 +166,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
     //initialize lexer
     Lexer lexer;
     initLexer(&lexer, json_stream);
+    char* token_begin = lexer.next_start;   //where the lexer has looked for the current token
     Token token = nextToken(&lexer);
     int token_type = token.token_type;
 
@@ -566,7 +567,10 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     else if(syntaxStackTop(&shadow_ss)==LB)  
                     {
                         if(unit.unit_state!=UNIT_MATCHED)
+                        {
                             unit.unit_state = UNIT_MATCHED;
+                            addStartPosition(&unit, token_begin);
+                        }
                         int start_index=qs_elt.start, end_index=qs_elt.end;
                         while(start_index<=end_index)
                         {
@@ -583,6 +587,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                 }
                 break;
         }
+        token_begin = lexer.next_start;
         token = nextToken(&lexer);
         token_type = token.token_type; 
     }
-- 
2.43.0


From 75b0dd7137a65f0f9900e0d2cb1a800ff1332f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:49 +0000
Subject: [PATCH 19/42] fix: array indexes are counted across chunks by the
 position of each element

---
 JSONQuery/multi_stack.h                 | 24 +++++++++++++++++++++---
 JSONQuery/parallel_automata_execution.h | 25 ++++++-------------------
 JSONQuery/tuple_list.h                  |  9 +++++++++
 JSONQuery/worker_automaton.c            | 19 -------------------
 4 files changed, 36 insertions(+), 41 deletions(-)

diff --git a/JSONQuery/multi_stack.h b/JSONQuery/multi_stack.h
index 3155edc..011ef5d 100644
--- a/JSONQuery/multi_stack.h
+++ b/JSONQuery/multi_stack.h
@@ -322,6 +322,7 @@ static inline void addTupleInfo(QueryStacks* qs, int node_index, int query_state
          int root_index = qs->root_pointers[root_s];
          TreeNode root = qs->node[root_index];
          addTuple(tl, query_state, text_content);
+         setRootCount(tl, getTupleListSize(tl)-1, root.count);
          if(root.first_tuple_index>=0){
              int tuple_index = getTupleListSize(tl)-1;
              linkTuples(tl, root.last_tuple_index, tuple_index);
@@ -340,6 +341,7 @@ static inline void addTupleInfo(QueryStacks* qs, int node_index, int query_state
          int root_index = node_index;
          TreeNode root = qs->node[root_index];
          addTuple(tl, query_state, text_content);
+         setRootCount(tl, getTupleListSize(tl)-1, root.count);
          if(root.first_tuple_index>=0){
              int tuple_index = getTupleListSize(tl)-1;
              linkTuples(tl, root.last_tuple_index, tuple_index);
@@ -366,6 +368,7 @@ static inline void addVirtualTupleInfo(QueryStacks* qs, int node_index, int quer
          TreeNode root = qs->node[root_index];
          //only saves pointers for large object or array outputs, contents can be acquired during merging phase
          addVirtualTuple(tl, query_state, matched_start, matched_end);
+         setRootCount(tl, getTupleListSize(tl)-1, root.count);
          if(root.first_tuple_index>=0){
              int tuple_index = getTupleListSize(tl)-1;
              linkTuples(tl, root.last_tuple_index, tuple_index);
@@ -384,6 +387,7 @@ static inline void addVirtualTupleInfo(QueryStacks* qs, int node_index, int quer
          int root_index = node_index;
          TreeNode root = qs->node[root_index]; 
          addVirtualTuple(tl, query_state, matched_start, matched_end);
+         setRootCount(tl, getTupleListSize(tl)-1, root.count);
          if(root.first_tuple_index>=0){
              int tuple_index = getTupleListSize(tl)-1;
              linkTuples(tl, root.last_tuple_index, tuple_index);
@@ -398,7 +402,7 @@ static inline void addVirtualTupleInfo(QueryStacks* qs, int node_index, int quer
 }
 
 // combine one stack with multiple paths into another stack with a single path, can only be used during merging phase
-static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* dst_qs_elt, QueryStacks* src_qs, QueryStacksElement* src_qs_elt)
+static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* dst_qs_elt, QueryStacks* src_qs, QueryStacksElement* src_qs_elt, JSONQueryDFA* qa)
 {
     int i = 0;
     src_qs->item[++src_qs->top_item] = (*src_qs_elt);
@@ -422,6 +426,13 @@ static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* d
         } 
         if(root_index!=-1)
         { 
+            //the open array element is selected by the array indexes
+            JSONQueryIndexPair pair = getDFAArrayIndex(qa, query_state);
+            int counter = dst_qs->node[dst_qs_elt->start].count;
+            int selected = (pair.lower==0&&pair.upper==0)||(counter>=pair.lower && counter<pair.upper);
+            //it might be an output candidate itself
+            if(selected && src_qs->node[root_index].matched_start!=INVALID)
+                dst_qs->node[dst_qs_elt->start].matched_start = src_qs->node[root_index].matched_start;
             //use root information to find the correct paths in src_qs
             for(i = 1; i<=top_src; i++)
             {
@@ -438,9 +449,16 @@ static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* d
                         if(src_qs->root_pointers[root_start]==root_index)
                         {
                             int node_index = (dst_qs->num_node++); 
-                            dst_qs->node[node_index].query_state = src_qs->node[start].query_state;
+                            dst_qs->node[node_index].query_state = selected?src_qs->node[start].query_state:0;
                             dst_qs->node[node_index].count = src_qs->node[start].count;
-                            dst_qs->node[node_index].matched_start = src_qs->node[start].matched_start;
+                            dst_qs->node[node_index].matched_start = selected?src_qs->node[start].matched_start:INVALID;
+                            //the node has one parent node, and the root node is node 0
+                            dst_qs->node[node_index].parent_range.start = dst_qs->num_parent_pointers;
+                            dst_qs->node[node_index].parent_range.end = dst_qs->num_parent_pointers;
+                            dst_qs->parent_pointers[dst_qs->num_parent_pointers++] = dst_qs_elt->start;
+                            dst_qs->node[node_index].root_range.start = dst_qs->num_root_pointers;
+                            dst_qs->node[node_index].root_range.end = dst_qs->num_root_pointers;
+                            dst_qs->root_pointers[dst_qs->num_root_pointers++] = 0;
                             dst_qs_elt->start = node_index;
                             dst_qs_elt->end = node_index;
                             break;
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 56aa121..94f7ba7 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -314,25 +314,10 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                 JSONQueryIndexPair pair = getDFAArrayIndex(qa, query_state);
                 int lower = pair.lower; 
                 int upper = pair.upper; 
-                int counter = qs.node[qs_elt.start].count; 
+                //index of the array element that holds the tuple
+                int counter = qs.node[qs_elt.start].count+tuple.root_count; 
                 //check array indexes
-                if(!(lower==0&&upper==0))
-                {
-                    if(tuple.text!=NULL && (strcmp(tuple.text, "}")==0||strcmp(tuple.text, "]")==0)) { 
-                        qs.node[qs_elt.start].count++; 
-                        if(qs.node[qs_elt.start].count>=upper) qs.node[qs_elt.start].query_state = 0; 
-                        continue;
-                    }
-                    else if(!(counter>=lower && counter<upper)) { 
-                        if(qs.node[qs_elt.start].count>=upper) qs.node[qs_elt.start].query_state = 0;
-                        continue;
-                    }
-                    else
-                    {
-                        int matched_type = getMatchedType(qa, &qs.node[qs_elt.start]);
-                        if(matched_type==DFA_OUTPUT_CANDIDATE) qs.node[qs_elt.start].count++;
-                    }
-                }    
+                if(!((lower==0&&upper==0)||(counter>=lower && counter<upper))) continue;
                 // add corresponding tuple into the tuple list 
                 if(tuple.start_position==-1)
                     addTuple(tuple_list, tuple.state, tuple.text);
@@ -344,12 +329,14 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                 }
                 sum++;
             }
+            //the array elements completed inside the unit
+            if(l<unit.num_root) qs.node[qs_elt.start].count += unit.root_node[l].count;
         }
         //merge stack  
         if(merge_needed==1)
         {
             combineSyntaxStack(&ss, &wa->syntax_stack); 
-            combineQueryStacks(&qs, &qs_elt, &wa->query_stacks, &wa->query_stacks_element);  //merge query stacks
+            combineQueryStacks(&qs, &qs_elt, &wa->query_stacks, &wa->query_stacks_element, qa);  //merge query stacks
         }
     }
     seq_wa->syntax_stack = ss;
diff --git a/JSONQuery/tuple_list.h b/JSONQuery/tuple_list.h
index dc430c7..996fa90 100644
--- a/JSONQuery/tuple_list.h
+++ b/JSONQuery/tuple_list.h
@@ -14,6 +14,8 @@ typedef struct Tuple{
     int state;
     char* text;
     int next_index;
+    //array counter of the root node when the tuple has been found
+    int root_count;
 }Tuple;
 
 typedef struct TupleList{
@@ -66,6 +68,7 @@ static inline void addTuple(TupleList* tl, int state, char* text)
     tl->element[index].start_position = -1;
     tl->element[index].text = allocate_and_copy(text);
     tl->element[index].next_index  = -1;
+    tl->element[index].root_count = 0;
 }
 
 static inline void addVirtualTuple(TupleList* tl, int state, int start_position, int end_position)
@@ -76,6 +79,7 @@ static inline void addVirtualTuple(TupleList* tl, int state, int start_position,
     tl->element[index].end_position = end_position;
     tl->element[index].text = NULL;
     tl->element[index].next_index  = -1;
+    tl->element[index].root_count = 0;
 }
 
 static inline void linkTuples(TupleList* tl, int current_index, int next_index)
@@ -83,6 +87,11 @@ static inline void linkTuples(TupleList* tl, int current_index, int next_index)
     tl->element[current_index].next_index = next_index;
 }
 
+static inline void setRootCount(TupleList* tl, int index, int root_count)
+{
+    tl->element[index].root_count = root_count;
+}
+
 static inline Tuple getTuple(TupleList* tl, int index)
 {
     return tl->element[index];
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 551e6dd..a1bee77 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -1,6 +1,5 @@
 #include "worker_automaton.h"
 
-#define DFA_INCOMPLETE_INDEX 4
 #define DFA_UNSELECTED_CANDIDATE 5
 
 /* 
@@ -31,16 +30,6 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
             match = 0;
         }
     }
-    else if(tnode->root_range.end==-1)
-    {
-        JSONQueryIndexPair pair = getDFAArrayIndex(qa, tnode->query_state);
-        int lower = pair.lower; 
-        int upper = pair.upper;
-        int counter = tnode->count;
-        if(!((lower==0&&upper==0)||(counter<upper))) match = 0;
-        //unknown information about array indexes
-        else if(!(lower==0&&upper==0)) match = DFA_INCOMPLETE_INDEX; 
-    }
     return match;
 }
 
@@ -303,10 +292,6 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 {
                                     addTupleInfo(&qs, start_index, c_node.query_state, "}", tl);
                                 }
-                                else if(matched_type==DFA_INCOMPLETE_INDEX)
-                                {
-                                    addTupleInfo(&qs, start_index, c_node.query_state, "}", tl);  
-                                }
                                 start_index++;
                             }
                         }
@@ -401,10 +386,6 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 else addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
                                 qs.node[start_index].matched_start = INVALID; 
                             }
-                            else if(matched_type==DFA_INCOMPLETE_INDEX)
-                            {
-                                addTupleInfo(&qs, start_index, c_node.query_state, "]", tl);
-                            }
                         }
                         start_index++;
                     }
-- 
2.43.0


From 6f07d98906bfc172c758c23513b1b08361a7f92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:20 +0000
Subject: [PATCH 20/42] fix: matched objects and arrays may span any number of
 chunks

---
 JSONQuery/multi_stack.h                 |  8 ++--
 JSONQuery/parallel_automata_execution.h | 41 ++++++++++++-------
 JSONQuery/utility.c                     | 52 +++++++++++++++++++++++++
 JSONQuery/utility.h                     | 11 ++++++
 JSONQuery/worker_automaton.c            | 21 +++++++---
 JSONQuery/worker_automaton.h            |  8 ++++
 6 files changed, 118 insertions(+), 23 deletions(-)

diff --git a/JSONQuery/multi_stack.h b/JSONQuery/multi_stack.h
index 011ef5d..c2554f6 100644
--- a/JSONQuery/multi_stack.h
+++ b/JSONQuery/multi_stack.h
@@ -402,7 +402,7 @@ static inline void addVirtualTupleInfo(QueryStacks* qs, int node_index, int quer
 }
 
 // combine one stack with multiple paths into another stack with a single path, can only be used during merging phase
-static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* dst_qs_elt, QueryStacks* src_qs, QueryStacksElement* src_qs_elt, JSONQueryDFA* qa)
+static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* dst_qs_elt, QueryStacks* src_qs, QueryStacksElement* src_qs_elt, JSONQueryDFA* qa, int src_position)
 {
     int i = 0;
     src_qs->item[++src_qs->top_item] = (*src_qs_elt);
@@ -432,7 +432,7 @@ static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* d
             int selected = (pair.lower==0&&pair.upper==0)||(counter>=pair.lower && counter<pair.upper);
             //it might be an output candidate itself
             if(selected && src_qs->node[root_index].matched_start!=INVALID)
-                dst_qs->node[dst_qs_elt->start].matched_start = src_qs->node[root_index].matched_start;
+                dst_qs->node[dst_qs_elt->start].matched_start = src_position+src_qs->node[root_index].matched_start;
             //use root information to find the correct paths in src_qs
             for(i = 1; i<=top_src; i++)
             {
@@ -451,7 +451,9 @@ static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* d
                             int node_index = (dst_qs->num_node++); 
                             dst_qs->node[node_index].query_state = selected?src_qs->node[start].query_state:0;
                             dst_qs->node[node_index].count = src_qs->node[start].count;
-                            dst_qs->node[node_index].matched_start = selected?src_qs->node[start].matched_start:INVALID;
+                            dst_qs->node[node_index].matched_start = INVALID;
+                            if(selected && src_qs->node[start].matched_start!=INVALID)
+                                dst_qs->node[node_index].matched_start = src_position+src_qs->node[start].matched_start;
                             //the node has one parent node, and the root node is node 0
                             dst_qs->node[node_index].parent_range.start = dst_qs->num_parent_pointers;
                             dst_qs->node[node_index].parent_range.end = dst_qs->num_parent_pointers;
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 94f7ba7..6601932 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -126,6 +126,21 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
     return match;
 }
 
+//keep the text of the unfinished matches after the chunk has been merged
+static inline void keepUnfinishedMatches(WorkerAutomaton* seq_wa, QueryStacks* qs, char* stream)
+{
+    int i, start = INVALID;
+    for(i = 0; i<qs->num_node; i++)
+    {
+        int matched_start = qs->node[i].matched_start;
+        if(matched_start!=INVALID && (start==INVALID||matched_start<start)) start = matched_start;
+    }
+    keepPendingText(&seq_wa->pending_text, stream, start);
+    for(i = 0; i<qs->num_node; i++)
+        if(qs->node[i].matched_start!=INVALID) qs->node[i].matched_start -= start;
+    seq_wa->stream_position = seq_wa->pending_text.size;
+}
+
 // merging results from different chunks
 TupleList* combine(ThreadInfo* thread_info, int num_thread)
 {
@@ -144,6 +159,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
     UnmatchedSymbol us;
     int sum = getTupleListSize(tuple_list); 
 
+    keepUnfinishedMatches(seq_wa, &qs, thread_info[0].input_stream);
     for(int i = 1; i<num_thread; i++)
     {
         WorkerAutomaton* wa = thread_info[i].worker_automaton;
@@ -176,13 +192,10 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                             int matched_type = getMatchedType(qa,&c_node);
                             if(matched_type==DFA_OUTPUT_CANDIDATE)
                             {  
-                                int left_len = strlen(thread_info[i-1].input_stream)-c_node.matched_start;
-                                int right_len = us.index+1;
-                                int strlen = left_len+right_len;
-                                char* object_text = (char*)malloc((strlen+1)*sizeof(char));
-                                substring_in_place(object_text, thread_info[i-1].input_stream, c_node.matched_start, c_node.matched_start+left_len);
-                                substring_in_place(object_text+left_len, thread_info[i].input_stream, 0, us.index+1);
+                                int matched_end = seq_wa->pending_text.size+us.index+1;
+                                char* object_text = pendingSubstring(&seq_wa->pending_text, thread_info[i].input_stream, c_node.matched_start, matched_end);
                                 addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
+                                free(object_text);
                                 qs.node[node_index].matched_start = INVALID;
                                 sum++;
                             }
@@ -220,20 +233,18 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                     if(syntaxStackSize(&ss) > 0)
                     {
                         QueryStacksElement top_qs_elt = queryStacksTop(&qs);
-                        c_node = qs.node[top_qs_elt.start]; 
+                        node_index = top_qs_elt.start;
+                        c_node = qs.node[node_index]; 
                         if(c_node.matched_start!=INVALID)
                         {
                             
                             int matched_type = getMatchedType(qa,&c_node);
                             if(matched_type==DFA_OUTPUT_CANDIDATE)
                             {  
-                                int left_len = strlen(thread_info[i-1].input_stream)-c_node.matched_start;
-                                int right_len = us.index;
-                                int strlen = left_len+right_len;
-                                char* object_text = (char*)malloc((strlen+1)*sizeof(char));
-                                substring_in_place(object_text, thread_info[i-1].input_stream, c_node.matched_start, c_node.matched_start+left_len);
-                                substring_in_place(object_text+left_len, thread_info[i].input_stream, 0, us.index+1);
+                                int matched_end = seq_wa->pending_text.size+us.index+1;
+                                char* object_text = pendingSubstring(&seq_wa->pending_text, thread_info[i].input_stream, c_node.matched_start, matched_end);
                                 addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
+                                free(object_text);
                                 qs.node[node_index].matched_start = INVALID;
                                 sum++;
                             }
@@ -292,6 +303,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                     seq_wa->query_stacks = qs;
                     seq_wa->query_stacks_element = qs_elt;
                     seq_wa->need_reprocess = REPROCESS;
+                    seq_wa->stream_position = seq_wa->pending_text.size+start_index;
                     printf("start reprocessing the %dth unit in the %dth chunk\n", j, i);
                     executeWorkerAutomaton(seq_wa, streaming); 
                     printf("the %dth unit in the %dth chunk has been reprocessed successfully\n", j, i);
@@ -336,8 +348,9 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
         if(merge_needed==1)
         {
             combineSyntaxStack(&ss, &wa->syntax_stack); 
-            combineQueryStacks(&qs, &qs_elt, &wa->query_stacks, &wa->query_stacks_element, qa);  //merge query stacks
+            combineQueryStacks(&qs, &qs_elt, &wa->query_stacks, &wa->query_stacks_element, qa, seq_wa->pending_text.size);  //merge query stacks
         }
+        keepUnfinishedMatches(seq_wa, &qs, thread_info[i].input_stream);
     }
     seq_wa->syntax_stack = ss;
     seq_wa->query_stacks = qs;
diff --git a/JSONQuery/utility.c b/JSONQuery/utility.c
index 038e4fe..1fb9946 100644
--- a/JSONQuery/utility.c
+++ b/JSONQuery/utility.c
@@ -114,3 +114,55 @@ int isTokenStart(char* text, long position)
     while(text[i]==' '||text[i]=='\t'||text[i]=='\n'||text[i]=='\r') i++;
     return !(text[i]=='\0'||text[i]==','||text[i]==':'||text[i]==']'||text[i]=='}');
 }
+
+/*************************************************
+Function: void initPendingText(PendingText* pending);
+Description: there is no pending text at the beginning
+*************************************************/
+void initPendingText(PendingText* pending)
+{
+    pending->text = NULL;
+    pending->size = 0;
+}
+
+/*************************************************
+Function: void destroyPendingText(PendingText* pending);
+Description: free the pending text
+*************************************************/
+void destroyPendingText(PendingText* pending)
+{
+    if(pending->text!=NULL) free(pending->text);
+    initPendingText(pending);
+}
+
+/*************************************************
+Function: char* pendingSubstring(PendingText* pending, char* pText, int begin, int end);
+Description: similar as substring, but works on the pending text followed by pText
+*************************************************/
+char* pendingSubstring(PendingText* pending, char* pText, int begin, int end)
+{
+    if(begin>=pending->size) return substring(pText, begin-pending->size, end-pending->size);
+    char* text = (char*)malloc((end-begin+1)*sizeof(char));
+    int left = pending->size-begin;
+    substring_in_place(text, pending->text, begin, pending->size);
+    substring_in_place(text+left, pText, 0, end-pending->size);
+    return text;
+}
+
+/*************************************************
+Function: void keepPendingText(PendingText* pending, char* pText, int begin);
+Description: the text from the position begin on becomes the pending text, a negative position keeps nothing
+*************************************************/
+void keepPendingText(PendingText* pending, char* pText, int begin)
+{
+    PendingText next;
+    initPendingText(&next);
+    if(begin>=0)
+    {
+        int end = pending->size+strlen(pText);
+        next.text = pendingSubstring(pending, pText, begin, end);
+        next.size = end-begin;
+    }
+    destroyPendingText(pending);
+    *pending = next;
+}
diff --git a/JSONQuery/utility.h b/JSONQuery/utility.h
index 3d435c9..f67a528 100644
--- a/JSONQuery/utility.h
+++ b/JSONQuery/utility.h
@@ -1,6 +1,12 @@
 #ifndef __UTILITY_H__
 #define __UTILITY_H__
 
+//the text of earlier chunks that belongs to unfinished matches
+typedef struct PendingText{
+    char* text;
+    int size;
+}PendingText;
+
 void strcopy(char* src,char* dest);
 char* substring(char *pText, int begin, int end);
 char* allocate_and_copy(char* pText);
@@ -9,4 +15,9 @@ int left_null_count(char *s);  //calculate the number of blanket for each string
 
 int isTokenStart(char* text, long position);  //whether a key or string starts at the position
 
+void initPendingText(PendingText* pending);
+void destroyPendingText(PendingText* pending);
+char* pendingSubstring(PendingText* pending, char* pText, int begin, int end);  //substring of the pending text followed by pText
+void keepPendingText(PendingText* pending, char* pText, int begin);  //keep the text from a position on
+
 #endif // !__UTILITY_H__
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index a1bee77..670df4a 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -106,6 +106,13 @@ static inline void syntaxStackInference(Lexer* cur_lexer, int input_token_type,
     }
 }
 
+//the text between two positions, it might begin in a previous chunk
+static inline char* matchedText(WorkerAutomaton* wa, char* stream, int start, int end)
+{
+    if(start>=wa->stream_position) return substring(stream, start-wa->stream_position, end-wa->stream_position);
+    return pendingSubstring(&wa->pending_text, stream, start, end);
+}
+
 void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
 {
     //query automaton
@@ -191,7 +198,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                         int matched_type = getMatchedType(qa,&c_node); 
                         if(matched_type==DFA_OUTPUT_CANDIDATE ||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))  
                         { 
-                            qs.node[start_index].matched_start = lexer.next_start - lexer.begin_stream - 1; 
+                            qs.node[start_index].matched_start = wa->stream_position + (lexer.next_start - lexer.begin_stream - 1); 
                         }
                         else if(matched_type==DFA_PREDICATE)
                         {   
@@ -219,10 +226,11 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 int matched_type = getMatchedType(qa,&c_node);
                                 if(matched_type==DFA_OUTPUT_CANDIDATE||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
                                 {  
-                                    int matched_end = lexer.next_start - lexer.begin_stream;
+                                    int matched_end = wa->stream_position + (lexer.next_start - lexer.begin_stream);
                                     if(wa->id==0){
-                                        char* output_text = substring(lexer.begin_stream, c_node.matched_start, matched_end);
+                                        char* output_text = matchedText(wa, lexer.begin_stream, c_node.matched_start, matched_end);
                                         addTupleInfo(&qs, start_index, c_node.query_state, output_text, tl); 
+                                        free(output_text);
                                     }
                                     else addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
                                     qs.node[start_index].matched_start = INVALID; 
@@ -353,7 +361,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                         int matched_type = getMatchedType(qa,&c_node);
                         if(matched_type==DFA_OUTPUT_CANDIDATE ||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))  
                         { 
-                            qs.node[start_index].matched_start = lexer.next_start - lexer.begin_stream - 1; 
+                            qs.node[start_index].matched_start = wa->stream_position + (lexer.next_start - lexer.begin_stream - 1); 
                         }
                         else if(matched_type==DFA_CONDITION)
                         {   
@@ -378,10 +386,11 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                             int matched_type = getMatchedType(qa,&c_node);
                             if(matched_type==DFA_OUTPUT_CANDIDATE||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
                             {   
-                                int matched_end = lexer.next_start - lexer.begin_stream;
+                                int matched_end = wa->stream_position + (lexer.next_start - lexer.begin_stream);
                                 if(wa->id==0){
-                                    char* output_text = substring(lexer.begin_stream, c_node.matched_start, matched_end);
+                                    char* output_text = matchedText(wa, lexer.begin_stream, c_node.matched_start, matched_end);
                                     addTupleInfo(&qs, start_index, c_node.query_state, output_text, tl); 
+                                    free(output_text);
                                 }
                                 else addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
                                 qs.node[start_index].matched_start = INVALID; 
diff --git a/JSONQuery/worker_automaton.h b/JSONQuery/worker_automaton.h
index 4a38b49..3072122 100644
--- a/JSONQuery/worker_automaton.h
+++ b/JSONQuery/worker_automaton.h
@@ -5,6 +5,7 @@
 #include "unit.h"
 #include "tuple_list.h"
 #include "lexing.h"
+#include "utility.h"
 #include "stack.h"
 #include "constraint.h"
 
@@ -45,6 +46,10 @@ typedef struct WorkerAutomaton{
     // whether the input stream needs to be reprocessed
     int need_reprocess;
     int initial_flag;
+    // text of the previous chunks that belongs to unfinished matches
+    PendingText pending_text;
+    // position of the input stream behind the beginning of the pending text
+    int stream_position;
 }WorkerAutomaton;
 
 // wa -- worker automaton qa -- query automaton
@@ -56,6 +61,8 @@ static inline void initWorkerAutomaton(WorkerAutomaton* wa, JSONQueryDFA* qa)
     wa->tuple_list = createTupleList();
     wa->need_reprocess = NOREPROCESS;
     wa->initial_flag = NOINITIAL;
+    initPendingText(&wa->pending_text);
+    wa->stream_position = 0;
 }
 
 static inline void destroyWorkerAutomaton(WorkerAutomaton* wa)
@@ -64,6 +71,7 @@ static inline void destroyWorkerAutomaton(WorkerAutomaton* wa)
     {
         freeTupleList(wa->tuple_list);
     }   
+    destroyPendingText(&wa->pending_text);
 }
 
 static inline WorkerAutomaton* createWorkerAutomaton(JSONQueryDFA* qa, int thread_id, ConstraintTable* ct)
-- 
2.43.0


From 6af9730cb285f50710ff3ff82f35cf50794c1977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:25 +0000
Subject: [PATCH 21/42] fix: restore the line ends of utility.c and utility.h

---
 JSONQuery/utility.c | 336 ++++++++++++++++++++++----------------------
 JSONQuery/utility.h |  46 +++---
 2 files changed, 191 insertions(+), 191 deletions(-)

diff --git a/JSONQuery/utility.c b/JSONQuery/utility.c
index 1fb9946..d1041e0 100644
--- a/JSONQuery/utility.c
+++ b/JSONQuery/utility.c
@@ -1,168 +1,168 @@
-#include <stdio.h>
-#include <string.h>
-#include <stdlib.h>
-#include "utility.h"
-
-/*************************************************
-Function: void strcopy(char* src,char* dest)
-Description: similar as strcpy
-*************************************************/
-void strcopy(char* src,char* dest)
-{
-	int length=strlen(src);
-	int i;
-	for(i=0;i<=length;i++)
-	{
-		dest[i]=src[i];
-	}
-	dest[i]='\0';
-}
-
-/**************************************************************************
-Function: char* substring(char *pText, int begin, int end);
-Description: print the substring of the original string
-Input: pText--the original string; begin--start position; end--end position;
-Return: the final string
-***************************************************************************/
-char* substring(char *pText, int begin, int end)
-{
-    int i,j;
-    char * temp=pText;
-    char* temp1=NULL; 
-    temp1=(char*)malloc((end-begin+1)*sizeof(char));
-    for (j = 0,i = begin; i < end; i++,j++)
-    {
-        temp1[j]=temp[i];
-    }
-    temp1[j]='\0';
-    return temp1;
-}
-
-/***************************************************************************************************
-Function: char* substring_in_place(char* desc, char *pText, int begin, int end);
-Description: save the substring of pText into a destination string
-Input: desc -- the destination; pText--the original string; begin--start position; end--end position;
-****************************************************************************************************/
-void substring_in_place(char* desc, char *pText, int begin, int end)
-{
-    int i,j;
-    char * temp=pText;
-    for (j = 0,i = begin; i < end; i++,j++)
-    {
-        desc[j]=temp[i];
-    }
-    desc[j]='\0'; 
-}
-
-/******************************************************************************
-Function: char* allocate_and_copy(char *pText);
-Description: allocate new memory spaces and copy the content of original string
-Input: pText--the original string; 
-Return: the new string
-******************************************************************************/
-char* allocate_and_copy(char* pText)
-{
-    char* new = (char*)malloc((strlen(pText)+2)*sizeof(char)); 
-    strcopy(pText, new);
-    return new;
-}
-
-/*************************************************
-Function: char * ltrim(char *s);
-Description: remove the left blankets of a string
-Input: s--the original string; 
-Return: the final substring
-*************************************************/
-char * ltrim(char *s)
-{
-     char *temp;
-     temp = s;
-     while((*temp == ' ')&&temp){*temp++;}
-     return temp;
-}
-
-/*************************************************
-Function: int left_null_count(char *s);
-Description: calculate the number of blanket for each string
-Input: s--the original string; 
-Return: the number of blanket for each string
-*************************************************/
-int left_null_count(char *s)  
-{
-	 int count=0;
-     char *temp;
-     temp = s;
-     while((*temp == ' ')&&temp){*temp++; count++;}
-     return count;
-}
-
-/*************************************************
-Function: int isTokenStart(char* text, long position);
-Description: check whether a key or a string value starts at the position, so that the text can be split there
-             (a quote after ',' '{' or '[' can also be the end of a string like "a,", 
-             which is then followed by ',' ':' ']' or '}')
-Input: text--the original string; position--the position of the checked character; 
-Return: 1 if a token surely starts at this position, 0 otherwise
-*************************************************/
-int isTokenStart(char* text, long position)
-{
-    if(text[position]!='"') return 0;
-    long i = position-1;
-    while(i>=0 && (text[i]==' '||text[i]=='\t'||text[i]=='\n'||text[i]=='\r')) i--;
-    if(i<0 || !(text[i]==','||text[i]=='{'||text[i]=='[')) return 0;
-    i = position+1;
-    while(text[i]==' '||text[i]=='\t'||text[i]=='\n'||text[i]=='\r') i++;
-    return !(text[i]=='\0'||text[i]==','||text[i]==':'||text[i]==']'||text[i]=='}');
-}
-
-/*************************************************
-Function: void initPendingText(PendingText* pending);
-Description: there is no pending text at the beginning
-*************************************************/
-void initPendingText(PendingText* pending)
-{
-    pending->text = NULL;
-    pending->size = 0;
-}
-
-/*************************************************
-Function: void destroyPendingText(PendingText* pending);
-Description: free the pending text
-*************************************************/
-void destroyPendingText(PendingText* pending)
-{
-    if(pending->text!=NULL) free(pending->text);
-    initPendingText(pending);
-}
-
-/*************************************************
-Function: char* pendingSubstring(PendingText* pending, char* pText, int begin, int end);
-Description: similar as substring, but works on the pending text followed by pText
-*************************************************/
-char* pendingSubstring(PendingText* pending, char* pText, int begin, int end)
-{
-    if(begin>=pending->size) return substring(pText, begin-pending->size, end-pending->size);
-    char* text = (char*)malloc((end-begin+1)*sizeof(char));
-    int left = pending->size-begin;
-    substring_in_place(text, pending->text, begin, pending->size);
-    substring_in_place(text+left, pText, 0, end-pending->size);
-    return text;
-}
-
-/*************************************************
-Function: void keepPendingText(PendingText* pending, char* pText, int begin);
-Description: the text from the position begin on becomes the pending text, a negative position keeps nothing
-*************************************************/
-void keepPendingText(PendingText* pending, char* pText, int begin)
-{
-    PendingText next;
-    initPendingText(&next);
-    if(begin>=0)
-    {
-        int end = pending->size+strlen(pText);
-        next.text = pendingSubstring(pending, pText, begin, end);
-        next.size = end-begin;
-    }
-    destroyPendingText(pending);
-    *pending = next;
-}
+#include <stdio.h>
+#include <string.h>
+#include <stdlib.h>
+#include "utility.h"
+
+/*************************************************
+Function: void strcopy(char* src,char* dest)
+Description: similar as strcpy
+*************************************************/
+void strcopy(char* src,char* dest)
+{
+	int length=strlen(src);
+	int i;
+	for(i=0;i<=length;i++)
+	{
+		dest[i]=src[i];
+	}
+	dest[i]='\0';
+}
+
+/**************************************************************************
+Function: char* substring(char *pText, int begin, int end);
+Description: print the substring of the original string
+Input: pText--the original string; begin--start position; end--end position;
+Return: the final string
+***************************************************************************/
+char* substring(char *pText, int begin, int end)
+{
+    int i,j;
+    char * temp=pText;
+    char* temp1=NULL; 
+    temp1=(char*)malloc((end-begin+1)*sizeof(char));
+    for (j = 0,i = begin; i < end; i++,j++)
+    {
+        temp1[j]=temp[i];
+    }
+    temp1[j]='\0';
+    return temp1;
+}
+
+/***************************************************************************************************
+Function: char* substring_in_place(char* desc, char *pText, int begin, int end);
+Description: save the substring of pText into a destination string
+Input: desc -- the destination; pText--the original string; begin--start position; end--end position;
+****************************************************************************************************/
+void substring_in_place(char* desc, char *pText, int begin, int end)
+{
+    int i,j;
+    char * temp=pText;
+    for (j = 0,i = begin; i < end; i++,j++)
+    {
+        desc[j]=temp[i];
+    }
+    desc[j]='\0'; 
+}
+
+/******************************************************************************
+Function: char* allocate_and_copy(char *pText);
+Description: allocate new memory spaces and copy the content of original string
+Input: pText--the original string; 
+Return: the new string
+******************************************************************************/
+char* allocate_and_copy(char* pText)
+{
+    char* new = (char*)malloc((strlen(pText)+2)*sizeof(char)); 
+    strcopy(pText, new);
+    return new;
+}
+
+/*************************************************
+Function: char * ltrim(char *s);
+Description: remove the left blankets of a string
+Input: s--the original string; 
+Return: the final substring
+*************************************************/
+char * ltrim(char *s)
+{
+     char *temp;
+     temp = s;
+     while((*temp == ' ')&&temp){*temp++;}
+     return temp;
+}
+
+/*************************************************
+Function: int left_null_count(char *s);
+Description: calculate the number of blanket for each string
+Input: s--the original string; 
+Return: the number of blanket for each string
+*************************************************/
+int left_null_count(char *s)  
+{
+	 int count=0;
+     char *temp;
+     temp = s;
+     while((*temp == ' ')&&temp){*temp++; count++;}
+     return count;
+}
+
+/*************************************************
+Function: int isTokenStart(char* text, long position);
+Description: check whether a key or a string value starts at the position, so that the text can be split there
+             (a quote after ',' '{' or '[' can also be the end of a string like "a,", 
+             which is then followed by ',' ':' ']' or '}')
+Input: text--the original string; position--the position of the checked character; 
+Return: 1 if a token surely starts at this position, 0 otherwise
+*************************************************/
+int isTokenStart(char* text, long position)
+{
+    if(text[position]!='"') return 0;
+    long i = position-1;
+    while(i>=0 && (text[i]==' '||text[i]=='\t'||text[i]=='\n'||text[i]=='\r')) i--;
+    if(i<0 || !(text[i]==','||text[i]=='{'||text[i]=='[')) return 0;
+    i = position+1;
+    while(text[i]==' '||text[i]=='\t'||text[i]=='\n'||text[i]=='\r') i++;
+    return !(text[i]=='\0'||text[i]==','||text[i]==':'||text[i]==']'||text[i]=='}');
+}
+
+/*************************************************
+Function: void initPendingText(PendingText* pending);
+Description: there is no pending text at the beginning
+*************************************************/
+void initPendingText(PendingText* pending)
+{
+    pending->text = NULL;
+    pending->size = 0;
+}
+
+/*************************************************
+Function: void destroyPendingText(PendingText* pending);
+Description: free the pending text
+*************************************************/
+void destroyPendingText(PendingText* pending)
+{
+    if(pending->text!=NULL) free(pending->text);
+    initPendingText(pending);
+}
+
+/*************************************************
+Function: char* pendingSubstring(PendingText* pending, char* pText, int begin, int end);
+Description: similar as substring, but works on the pending text followed by pText
+*************************************************/
+char* pendingSubstring(PendingText* pending, char* pText, int begin, int end)
+{
+    if(begin>=pending->size) return substring(pText, begin-pending->size, end-pending->size);
+    char* text = (char*)malloc((end-begin+1)*sizeof(char));
+    int left = pending->size-begin;
+    substring_in_place(text, pending->text, begin, pending->size);
+    substring_in_place(text+left, pText, 0, end-pending->size);
+    return text;
+}
+
+/*************************************************
+Function: void keepPendingText(PendingText* pending, char* pText, int begin);
+Description: the text from the position begin on becomes the pending text, a negative position keeps nothing
+*************************************************/
+void keepPendingText(PendingText* pending, char* pText, int begin)
+{
+    PendingText next;
+    initPendingText(&next);
+    if(begin>=0)
+    {
+        int end = pending->size+strlen(pText);
+        next.text = pendingSubstring(pending, pText, begin, end);
+        next.size = end-begin;
+    }
+    destroyPendingText(pending);
+    *pending = next;
+}
diff --git a/JSONQuery/utility.h b/JSONQuery/utility.h
index f67a528..9ab3672 100644
--- a/JSONQuery/utility.h
+++ b/JSONQuery/utility.h
@@ -1,23 +1,23 @@
-#ifndef __UTILITY_H__
-#define __UTILITY_H__
-
-//the text of earlier chunks that belongs to unfinished matches
-typedef struct PendingText{
-    char* text;
-    int size;
-}PendingText;
-
-void strcopy(char* src,char* dest);
-char* substring(char *pText, int begin, int end);
-char* allocate_and_copy(char* pText);
-char* ltrim(char *s); //reduct blank from left
-int left_null_count(char *s);  //calculate the number of blanket for each string
-
-int isTokenStart(char* text, long position);  //whether a key or string starts at the position
-
-void initPendingText(PendingText* pending);
-void destroyPendingText(PendingText* pending);
-char* pendingSubstring(PendingText* pending, char* pText, int begin, int end);  //substring of the pending text followed by pText
-void keepPendingText(PendingText* pending, char* pText, int begin);  //keep the text from a position on
-
-#endif // !__UTILITY_H__
+#ifndef __UTILITY_H__
+#define __UTILITY_H__
+
+//the text of earlier chunks that belongs to unfinished matches
+typedef struct PendingText{
+    char* text;
+    int size;
+}PendingText;
+
+void strcopy(char* src,char* dest);
+char* substring(char *pText, int begin, int end);
+char* allocate_and_copy(char* pText);
+char* ltrim(char *s); //reduct blank from left
+int left_null_count(char *s);  //calculate the number of blanket for each string
+
+int isTokenStart(char* text, long position);  //whether a key or string starts at the position
+
+void initPendingText(PendingText* pending);
+void destroyPendingText(PendingText* pending);
+char* pendingSubstring(PendingText* pending, char* pText, int begin, int end);  //substring of the pending text followed by pText
+void keepPendingText(PendingText* pending, char* pText, int begin);  //keep the text from a position on
+
+#endif // !__UTILITY_H__
-- 
2.43.0


From 0f7fe3b592d5850acb8ac00ddff08ff1daf05db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:47 +0000
Subject: [PATCH 22/42] fix: a query state can be output, condition and filter
 at once

A state of the query automaton had a single role, so that a filter whose
condition (or whose own elements) was also selected by the path, or filters
with common conditions, lost results or evaluated the wrong values. The accept
type is now a set of roles, tuples carry the role that produced them, and every
object under a filter has its own condition values.
---
 DFABuilder/include/dfa.h                | 10 +--
 DFABuilder/src/dfa_builder.cpp          | 94 ++++++++++++++++++-------
 JSONQuery/multi_stack.h                 | 12 ++--
 JSONQuery/parallel_automata_execution.h | 20 +++---
 JSONQuery/predicate.c                   | 38 +++++-----
 JSONQuery/predicate.h                   | 26 ++++++-
 JSONQuery/streaming_automaton.c         | 45 ++++++------
 JSONQuery/tuple_list.h                  |  8 ++-
 JSONQuery/worker_automaton.c            | 70 +++++++++++-------
 9 files changed, 204 insertions(+), 119 deletions(-)

diff --git a/DFABuilder/include/dfa.h b/DFABuilder/include/dfa.h
index 18c183c..03a578d 100644
--- a/DFABuilder/include/dfa.h
+++ b/DFABuilder/include/dfa.h
@@ -20,7 +20,7 @@ typedef struct JSONQueryDFA {
     uint32_t states_num, inputs_num;
     int32_t* table; // states_num x inputs_num
     int32_t* stop_state; // states_num
-    int32_t* accept_type; // states_num : 1 is output & 2 is predicate
+    int32_t* accept_type; // states_num : union of the roles below, 0 if there is none
     JSONQueryIndexPair* array_index; // states_num
     char** names; // inputs_num
 } JSONQueryDFA;
@@ -29,7 +29,7 @@ typedef struct JSONQueryDFA {
 
 #define DFA_OUTPUT_CANDIDATE (1)
 #define DFA_CONDITION (2)
-#define DFA_PREDICATE (3)
+#define DFA_PREDICATE (4)
 
 static inline void initJSONQueryDFA(JSONQueryDFA* dfa, uint32_t states_num, uint32_t inputs_num) {
     dfa->states_num = states_num;
@@ -130,11 +130,11 @@ static inline void printDFA(JSONQueryDFA* dfa) {
         if ((l = getDFAStopState(dfa, i)) != 0) {
             printf("#%d",l);
         }
-        if (getDFAAcceptType(dfa, i) == DFA_OUTPUT_CANDIDATE) 
+        if (getDFAAcceptType(dfa, i) & DFA_OUTPUT_CANDIDATE) 
             printf("!");
-        if (getDFAAcceptType(dfa, i) == DFA_CONDITION) 
+        if (getDFAAcceptType(dfa, i) & DFA_CONDITION) 
             printf("*");
-        if (getDFAAcceptType(dfa, i) == DFA_PREDICATE) 
+        if (getDFAAcceptType(dfa, i) & DFA_PREDICATE) 
             printf("[");
         for (int j = 1; j< inputs; ++j) {
             int next = dfaNextState(dfa, i, j);
diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index b7cc517..f4b86e8 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -127,7 +127,11 @@ struct StackContext {
     bool create_dfa(bool in_predicate = false) {
         string s = getOutput();
         if (check.find(s) == check.end()) check[s] = model->size()+1;
-        else return true;
+        else {
+            // the output might have the same path as a condition
+            if (!in_predicate) last_id_generated = check[s];
+            return true;
+        }
         print();
         last_st_generated = true;
         for (auto& se: st) 
@@ -288,7 +292,45 @@ struct StackContext {
 
 extern "C" {
 
-static JSONQueryDFA* create_dfa(StackContext* ctx, DFACompressed* cpd_dfa) {
+// for each state, all the rules accepted there (the first rule is 1)
+static vector< set<int> > find_accepted_rules(StackContext* ctx, DFACompressed* cpd_dfa) {
+    RegexModel* model = ctx->model;
+    vector< set<int> > accepted(cpd_dfa->getStateSum());
+    vector< vector<int> > rule_states(cpd_dfa->getStateSum());
+    vector<int> queue;
+    rule_states[1] = vector<int>(model->size(), 1);
+    queue.push_back(1);
+    for (int k = 0; k < queue.size(); ++k) {
+        int s = queue[k];
+        for (int r = 0; r < model->size(); ++r)
+            if (rule_states[s][r] && model->at(r)->dfa->isStopState(rule_states[s][r]))
+                accepted[s].insert(r+1);
+        for (int c = 1; c < cpd_dfa->getInputSize(); ++c) {
+            int next = cpd_dfa->nextState(s, c);
+            if (next == 0 || !rule_states[next].empty()) continue;
+            for (int r = 0; r < model->size(); ++r)
+                rule_states[next].push_back(rule_states[s][r] ? model->at(r)->dfa->nextState(rule_states[s][r], c) : 0);
+            queue.push_back(next);
+        }
+    }
+    return accepted;
+}
+
+// the last accepted rule that is a filter (or a condition of a filter), 0 if there is none
+static int accepted_filter(StackContext* ctx, const set<int>& accepted) {
+    for (auto i = accepted.rbegin(); i != accepted.rend(); ++i)
+        if (ctx->states_mapping.find(*i - 1) != ctx->states_mapping.end()) return *i;
+    return 0;
+}
+
+static int accepted_condition(StackContext* ctx, const set<int>& accepted) {
+    for (auto i = accepted.rbegin(); i != accepted.rend(); ++i)
+        if (ctx->tree_mapping[*i - 1] && ctx->tree_mapping[*i - 1]->node_type == jnt_variable &&
+            ctx->states_mapping.find(*i - 1) == ctx->states_mapping.end()) return *i;
+    return 0;
+}
+
+static JSONQueryDFA* create_dfa(StackContext* ctx, DFACompressed* cpd_dfa, const vector< set<int> >& accepted) {
     JSONQueryDFA* dfa = createJSONQueryDFA(cpd_dfa->getStateSum(), cpd_dfa->getInputSize());
     for (int i = 0; i < dfa->states_num; ++i) {
         for (int j = 0; j < dfa->inputs_num; ++j ) {
@@ -299,24 +341,15 @@ static JSONQueryDFA* create_dfa(StackContext* ctx, DFACompressed* cpd_dfa) {
         int stop_state = cpd_dfa->isStopState(i);
         dfa->stop_state[i] = stop_state;
         if (stop_state) {
-            if (ctx->output_states.find(stop_state) != ctx->output_states.end())
-                dfa->accept_type[i] = DFA_OUTPUT_CANDIDATE;
-            else {
-                dfa->accept_type[i] = DFA_CONDITION;
-                for (int j = 0; j < cpd_dfa->getStateSum(); ++j) {
-                    if (cpd_dfa->nextState(j, 2) == i) {
-                        dfa->accept_type[i] = DFA_PREDICATE;
-                        break;
-                    }
-                }
-            }
+            for (int rule: accepted[i])
+                if (ctx->output_states.find(rule) != ctx->output_states.end())
+                    dfa->accept_type[i] = DFA_OUTPUT_CANDIDATE;
+            if (accepted_filter(ctx, accepted[i])) dfa->accept_type[i] |= DFA_PREDICATE;
+            else if (accepted_condition(ctx, accepted[i])) dfa->accept_type[i] |= DFA_CONDITION;
             auto pair = ctx->array_range[stop_state-1];
             if (pair.first || pair.second) {
                 dfa->array_index[i] = {pair.first, pair.second};
-                if (dfa->accept_type[i] != DFA_OUTPUT_CANDIDATE) {
-                    dfa->stop_state[i] = 0;
-                    dfa->accept_type[i] = 0;
-                }
+                if (dfa->accept_type[i] == 0) dfa->stop_state[i] = 0;
             }
         }
     }
@@ -328,16 +361,16 @@ static JSONQueryDFA* create_dfa(StackContext* ctx, DFACompressed* cpd_dfa) {
     return dfa;
 }
 
-static int acc_id2state(DFACompressed* cpd_dfa, int acc) {
-    for (int i = 0; i < cpd_dfa->getStateSum(); ++i) {
-        if (acc == cpd_dfa->isStopState(i)) {
+static int acc_id2state(StackContext* ctx, const vector< set<int> >& accepted, int acc) {
+    for (int i = 0; i < accepted.size(); ++i) {
+        if (acc == accepted_condition(ctx, accepted[i])) {
             return i;
         }
     }
     return -1;
 } 
 
-static void create_context(StackContext* ctx, DFACompressed* cpd_dfa, JSONQueryDFA* m_dfa, JSONQueryDFAContext* context) {
+static void create_context(StackContext* ctx, DFACompressed* cpd_dfa, JSONQueryDFA* m_dfa, JSONQueryDFAContext* context, const vector< set<int> >& accepted) {
     context->states_num = cpd_dfa->getStateSum();
     context->subtrees = (ASTNode**) calloc(cpd_dfa->getStateSum()+1, sizeof(ASTNode*));
     context->states_mapping = (JSONQueryIntVecPair*) calloc(cpd_dfa->getStateSum()+1, sizeof(JSONQueryIntVecPair));
@@ -346,16 +379,22 @@ static void create_context(StackContext* ctx, DFACompressed* cpd_dfa, JSONQueryD
     for (int i = 0; i < cpd_dfa->getStateSum(); ++i) {
         int acc = getDFAStopState(m_dfa, i);
         if (acc) {
-            context->subtrees[i] = ctx->tree_mapping[acc-1];
-            const auto& vec = ctx->states_mapping[acc-1];
+            // the filter or the condition of this state
+            int rule = 0;
+            if (m_dfa->accept_type[i] & DFA_PREDICATE) rule = accepted_filter(ctx, accepted[i]);
+            else if (m_dfa->accept_type[i] & DFA_CONDITION) rule = accepted_condition(ctx, accepted[i]);
+            if (rule == 0) continue;
+            context->subtrees[i] = ctx->tree_mapping[rule-1];
+            vector<int> vec;
+            if (m_dfa->accept_type[i] & DFA_PREDICATE) vec = ctx->states_mapping[rule-1];
             context->states_mapping[i].value_size = vec.size();
             if (!vec.empty()) {
                 context->states_mapping[i].value = (int*)calloc(vec.size(), sizeof(int));
                 for (int j = 0; j < vec.size(); ++j) {
-                    context->states_mapping[i].value[j] = acc_id2state(cpd_dfa, vec[j]+1);
+                    context->states_mapping[i].value[j] = acc_id2state(ctx, accepted, vec[j]+1);
                 }
             }
-            if (m_dfa->accept_type[i] == DFA_PREDICATE) {
+            if (m_dfa->accept_type[i] & DFA_PREDICATE) {
                 int k = context->array_predicate_states.value_size++;
                 context->array_predicate_states.value[k] = i;
             }
@@ -391,8 +430,9 @@ JSONQueryDFA* buildJSONQueryDFAFromAST(ASTNode* json_path, JSONQueryDFAContext*
     DFACompressed* dfa = (DFACompressed*)(data->main_dfa);
     // dfa->print();
 
-    JSONQueryDFA* m_dfa = create_dfa(ctx, dfa);
-    create_context(ctx, dfa, m_dfa, context);
+    vector< set<int> > accepted = find_accepted_rules(ctx, dfa);
+    JSONQueryDFA* m_dfa = create_dfa(ctx, dfa, accepted);
+    create_context(ctx, dfa, m_dfa, context, accepted);
     printDFA(m_dfa);
 
     delete model;
diff --git a/JSONQuery/multi_stack.h b/JSONQuery/multi_stack.h
index c2554f6..1313a1e 100644
--- a/JSONQuery/multi_stack.h
+++ b/JSONQuery/multi_stack.h
@@ -311,7 +311,7 @@ static inline QueryStacksElement queryStacksSecondTop(QueryStacks* qs)
 }
 
 //add tuple information into tuple list and corresponding root node on stack tree, works for primitive matches
-static inline void addTupleInfo(QueryStacks* qs, int node_index, int query_state, char* text_content, TupleList* tl)
+static inline void addTupleInfo(QueryStacks* qs, int node_index, int query_state, int type, char* text_content, TupleList* tl)
 { 
      //iterate through all root nodes
      int root_s = qs->node[node_index].root_range.start;
@@ -321,7 +321,7 @@ static inline void addTupleInfo(QueryStacks* qs, int node_index, int query_state
      {
          int root_index = qs->root_pointers[root_s];
          TreeNode root = qs->node[root_index];
-         addTuple(tl, query_state, text_content);
+         addTuple(tl, query_state, type, text_content);
          setRootCount(tl, getTupleListSize(tl)-1, root.count);
          if(root.first_tuple_index>=0){
              int tuple_index = getTupleListSize(tl)-1;
@@ -340,7 +340,7 @@ static inline void addTupleInfo(QueryStacks* qs, int node_index, int query_state
      {
          int root_index = node_index;
          TreeNode root = qs->node[root_index];
-         addTuple(tl, query_state, text_content);
+         addTuple(tl, query_state, type, text_content);
          setRootCount(tl, getTupleListSize(tl)-1, root.count);
          if(root.first_tuple_index>=0){
              int tuple_index = getTupleListSize(tl)-1;
@@ -356,7 +356,7 @@ static inline void addTupleInfo(QueryStacks* qs, int node_index, int query_state
 }
 
 //similar function as addTupleInfo, but only works for object or array matches
-static inline void addVirtualTupleInfo(QueryStacks* qs, int node_index, int query_state, int matched_start, int matched_end, TupleList* tl)
+static inline void addVirtualTupleInfo(QueryStacks* qs, int node_index, int query_state, int type, int matched_start, int matched_end, TupleList* tl)
 { 
      //iterate through all root nodes
      int root_s = qs->node[node_index].root_range.start;
@@ -367,7 +367,7 @@ static inline void addVirtualTupleInfo(QueryStacks* qs, int node_index, int quer
          int root_index = qs->root_pointers[root_s];
          TreeNode root = qs->node[root_index];
          //only saves pointers for large object or array outputs, contents can be acquired during merging phase
-         addVirtualTuple(tl, query_state, matched_start, matched_end);
+         addVirtualTuple(tl, query_state, type, matched_start, matched_end);
          setRootCount(tl, getTupleListSize(tl)-1, root.count);
          if(root.first_tuple_index>=0){
              int tuple_index = getTupleListSize(tl)-1;
@@ -386,7 +386,7 @@ static inline void addVirtualTupleInfo(QueryStacks* qs, int node_index, int quer
      {
          int root_index = node_index;
          TreeNode root = qs->node[root_index]; 
-         addVirtualTuple(tl, query_state, matched_start, matched_end);
+         addVirtualTuple(tl, query_state, type, matched_start, matched_end);
          setRootCount(tl, getTupleListSize(tl)-1, root.count);
          if(root.first_tuple_index>=0){
              int tuple_index = getTupleListSize(tl)-1;
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 6601932..9f9e8e2 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -111,7 +111,7 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
 {
     int match = getDFAAcceptType(qa, tnode->query_state);
     //it is a matched output
-    if(match==DFA_OUTPUT_CANDIDATE)  
+    if(match&DFA_OUTPUT_CANDIDATE)  
     {   ///printf("candidate %d\n", tnode->query_state);
         JSONQueryIndexPair pair = getDFAArrayIndex(qa, tnode->query_state);
         int lower = pair.lower; 
@@ -120,7 +120,7 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
         //check array indexes
         if(!((lower==0&&upper==0)||(counter>=lower && counter<upper)))  
         {
-            match = 0; 
+            match &= ~DFA_OUTPUT_CANDIDATE; 
         }
     }
     return match;
@@ -190,11 +190,11 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                         if(c_node.matched_start!=INVALID)
                         {
                             int matched_type = getMatchedType(qa,&c_node);
-                            if(matched_type==DFA_OUTPUT_CANDIDATE)
+                            if(matched_type&DFA_OUTPUT_CANDIDATE)
                             {  
                                 int matched_end = seq_wa->pending_text.size+us.index+1;
                                 char* object_text = pendingSubstring(&seq_wa->pending_text, thread_info[i].input_stream, c_node.matched_start, matched_end);
-                                addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
+                                addTupleInfo(&qs, node_index, c_node.query_state, DFA_OUTPUT_CANDIDATE, object_text, tuple_list);
                                 free(object_text);
                                 qs.node[node_index].matched_start = INVALID;
                                 sum++;
@@ -219,10 +219,10 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                             //increase array counter 
                             qs.node[qs_elt.start].count++;  
                             int matched_type = getMatchedType(qa,&c_node);
-                            if(matched_type==DFA_PREDICATE)
+                            if(matched_type&DFA_PREDICATE)
                             {
                                 sum++; 
-                                addTupleInfo(&qs, node_index, c_node.query_state, "}", tuple_list);
+                                addTupleInfo(&qs, node_index, c_node.query_state, DFA_PREDICATE, "}", tuple_list);
                             }
                         }
                     }
@@ -239,11 +239,11 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                         {
                             
                             int matched_type = getMatchedType(qa,&c_node);
-                            if(matched_type==DFA_OUTPUT_CANDIDATE)
+                            if(matched_type&DFA_OUTPUT_CANDIDATE)
                             {  
                                 int matched_end = seq_wa->pending_text.size+us.index+1;
                                 char* object_text = pendingSubstring(&seq_wa->pending_text, thread_info[i].input_stream, c_node.matched_start, matched_end);
-                                addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
+                                addTupleInfo(&qs, node_index, c_node.query_state, DFA_OUTPUT_CANDIDATE, object_text, tuple_list);
                                 free(object_text);
                                 qs.node[node_index].matched_start = INVALID;
                                 sum++;
@@ -332,11 +332,11 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                 if(!((lower==0&&upper==0)||(counter>=lower && counter<upper))) continue;
                 // add corresponding tuple into the tuple list 
                 if(tuple.start_position==-1)
-                    addTuple(tuple_list, tuple.state, tuple.text);
+                    addTuple(tuple_list, tuple.state, tuple.type, tuple.text);
                 else
                 {   
                     char* output_text = substring(thread_info[i].input_stream, tuple.start_position, tuple.end_position); 
-                    addTuple(tuple_list, tuple.state, output_text); 
+                    addTuple(tuple_list, tuple.state, tuple.type, output_text); 
                     free(output_text);
                 }
                 sum++;
diff --git a/JSONQuery/predicate.c b/JSONQuery/predicate.c
index 2f6e374..f90c289 100644
--- a/JSONQuery/predicate.c
+++ b/JSONQuery/predicate.c
@@ -35,19 +35,20 @@ Output* generateFinalOutput(PredicateFilter* pf)
         int state = tuple.state;  //query state
         char* text = tuple.text;  //text content
         //starting position of an object
-        if(strcmp(text, "{")==0)
+        if(tuple.type==DFA_PREDICATE && strcmp(text, "{")==0)
         {
             PredicateStackElement ps_elt;
             ps_elt.predicate_state = state;
             ps_elt.output_buffer_pointer = getOutputSize(buffer);
+            ps_elt.conditions = createConditions(pf->predicate_conditions[state]);
             pushPredicateStack(&ps, ps_elt);
         }
         //ending position of an object, needs to evaluate predicate conditions
-        else if(strcmp(text, "}")==0)
+        else if(tuple.type==DFA_PREDICATE)
         {
             PredicateStackElement ps_elt = getTopPredicateStack(&ps);
             int pred_state = ps_elt.predicate_state;
-            PredicateCondition* pc = pf->predicate_conditions[pred_state];
+            PredicateCondition* pc = ps_elt.conditions;
             ASTNode* node = getContextSubtree(pf->ctx, pred_state);
             //evaluate predicate conditions 
             bool v = evaluateExpression(node, pc); 
@@ -69,29 +70,24 @@ Output* generateFinalOutput(PredicateFilter* pf)
             }  
             //clear the last few elements into buffer
             else removeOutputElement(buffer, rmv_num); 
-            //set the value of evaluate table to default value
-            clearPredicateCondtion(pc);
+            freeConditions(pc);
             popPredicateStack(&ps); 
         }
         else if(getPredicateStackSize(&ps)>0)
         {
             PredicateStackElement ps_elt = getTopPredicateStack(&ps);
-            int pred_state = ps_elt.predicate_state;
-            PredicateCondition* pc = pf->predicate_conditions[pred_state];
-        
-            //check whether the current state is a predicate condition
-            ASTNode* node = getContextSubtree(pf->ctx, state);
-            int index = 0;
-            while(node!=NULL)
-            {  
-                if(pc[index].name==NULL) break;
-                if(strcmp(pc[index].name, node->string)==0) break;
-                index++;
-            }
-            //update value for predicate condition
-            if(node!=NULL&&pc[index].name!=NULL)
-            {  
-                pc[index].text = allocate_and_copy(text); 
+            PredicateCondition* pc = ps_elt.conditions;
+            if(tuple.type==DFA_CONDITION)
+            {
+                ASTNode* node = getContextSubtree(pf->ctx, state);
+                int index = 0;
+                while(pc[index].name!=NULL && strcmp(pc[index].name, node->string)!=0) index++;
+                //update value for predicate condition
+                if(pc[index].name!=NULL)
+                {
+                    if(pc[index].text!=NULL) free(pc[index].text);
+                    pc[index].text = allocate_and_copy(text); 
+                }
             }
             else //add candidate output into buffer
             {
diff --git a/JSONQuery/predicate.h b/JSONQuery/predicate.h
index c750410..fa0a652 100644
--- a/JSONQuery/predicate.h
+++ b/JSONQuery/predicate.h
@@ -15,6 +15,8 @@ typedef struct PredicateStackElement{
     int predicate_state;  
     //point to the first candidate
     int output_buffer_pointer;  
+    //condition list of the current object
+    PredicateCondition* conditions;
 }PredicateStackElement;
 
 typedef struct PredicateStack{
@@ -63,6 +65,26 @@ static inline int getPredicateStackSize(PredicateStack* ps)
     return ps->top_element+1;
 }
 
+//condition list for a new object, without any values
+static inline PredicateCondition* createConditions(PredicateCondition* pc)
+{
+    int size = 0;
+    while(pc[size].name!=NULL) size++;
+    PredicateCondition* conditions = (PredicateCondition*)malloc((size+1)*sizeof(PredicateCondition));
+    for(int i = 0; i<=size; i++)
+    {
+        conditions[i].name = pc[i].name;
+        conditions[i].text = NULL;
+    }
+    return conditions;
+}
+
+static inline void freeConditions(PredicateCondition* conditions)
+{
+    clearPredicateCondtion(conditions);
+    free(conditions);
+}
+
 static inline void initPredicateFilter(PredicateFilter* pf, TupleList* tl, JSONQueryDFAContext* ctx)  
 {
     pf->tuple_list = tl;
@@ -103,7 +125,9 @@ static inline void destroyPredicateFilter(PredicateFilter* pf)
             free(pf->predicate_conditions[i]);
         }
     } 
-    if(pf->buffer!=NULL) free(pf->buffer);
+    while(getPredicateStackSize(&pf->pstack)>0)
+        freeConditions(popPredicateStack(&pf->pstack).conditions);
+    if(pf->buffer!=NULL) freeOutput(pf->buffer);
 }
 
 Output* generateFinalOutput(PredicateFilter* pf);
diff --git a/JSONQuery/streaming_automaton.c b/JSONQuery/streaming_automaton.c
index cd874a1..fc1ac85 100644
--- a/JSONQuery/streaming_automaton.c
+++ b/JSONQuery/streaming_automaton.c
@@ -15,7 +15,7 @@ static int getMatchedType(JSONQueryDFA* qa, QueryStackElement* qs_elt)
 {
     int match = getDFAAcceptType(qa, qs_elt->query_state);
     //it is a matched output
-    if(match==DFA_OUTPUT_CANDIDATE)  
+    if(match&DFA_OUTPUT_CANDIDATE)  
     {
         JSONQueryIndexPair pair = getDFAArrayIndex(qa, qs_elt->query_state);
         int lower = pair.lower; 
@@ -24,7 +24,7 @@ static int getMatchedType(JSONQueryDFA* qa, QueryStackElement* qs_elt)
         //check array indexes
         if(!((lower==0&&upper==0)||(counter>=lower && counter<upper)))  
         {
-            match = 0; 
+            match &= ~DFA_OUTPUT_CANDIDATE; 
         }
     }
     return match;
@@ -168,28 +168,29 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                 {
                     obj_s(ss);  
                     int matched_type = getMatchedType(qa,qs_elt);
-                    if(matched_type==DFA_OUTPUT_CANDIDATE)  
+                    if(matched_type&DFA_OUTPUT_CANDIDATE)  
                     { 
                         qs_elt->matched_start = lexer.next_start - lexer.begin_stream - 1; 
                     }
-                    else if(matched_type==DFA_PREDICATE)
+                    if(matched_type&DFA_PREDICATE)
                     {
-                        addTuple(tl, qs_elt->query_state, "{"); 
+                        addTuple(tl, qs_elt->query_state, DFA_PREDICATE, "{"); 
                     }
-                    else if(matched_type==DFA_CONDITION)
+                    if(matched_type&DFA_CONDITION)
                     {   
-                        addTuple(tl, qs_elt->query_state, "");
+                        addTuple(tl, qs_elt->query_state, DFA_CONDITION, "");
                     }
                 }
                 break;
             case RCB:   //right curly branket
                 //it is a matched output
-                if(qs_elt->matched_start!=INVALID && getMatchedType(qa, qs_elt)==DFA_OUTPUT_CANDIDATE)
+                if(qs_elt->matched_start!=INVALID && (getMatchedType(qa, qs_elt)&DFA_OUTPUT_CANDIDATE))
                 {
                     int position = lexer.next_start - lexer.begin_stream;
                     char* output_text = substring(lexer.begin_stream, qs_elt->matched_start, position);
                     qs_elt->matched_start = INVALID;
-                    addTuple(tl, qs_elt->query_state, output_text);
+                    addTuple(tl, qs_elt->query_state, DFA_OUTPUT_CANDIDATE, output_text);
+                    free(output_text);
                 }
                 //syntax stack only has one '{'
                 if(syntaxStackSize(ss) == 1)   
@@ -209,9 +210,9 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                     {
                         elt_obj_e(ss);
                         increaseArrayCounter(qs_elt);
-                        if(getMatchedType(qa, qs_elt)==DFA_PREDICATE)
+                        if(getMatchedType(qa, qs_elt)&DFA_PREDICATE)
                         {  
-                            addTuple(tl, qs_elt->query_state, "}");
+                            addTuple(tl, qs_elt->query_state, DFA_PREDICATE, "}");
                         }
                     }
                 } 
@@ -219,13 +220,14 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
             case LB:   //left square branket 
                 {
                     int matched_type = getMatchedType(qa, qs_elt);                 
-                    if(matched_type==DFA_OUTPUT_CANDIDATE)  
+                    //a filter only selects objects
+                    if((matched_type&DFA_OUTPUT_CANDIDATE) && !(matched_type&DFA_PREDICATE))  
                     { 
                         qs_elt->matched_start = lexer.next_start - lexer.begin_stream - 1;  
                     }
-                    else if(matched_type==DFA_CONDITION)
+                    if(matched_type&DFA_CONDITION)
                     {
-                        addTuple(tl, qs_elt->query_state, "");
+                        addTuple(tl, qs_elt->query_state, DFA_CONDITION, "");
                     }
                 }
                 if(data_constraint_flag==OPEN)
@@ -247,12 +249,14 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                 {
                     QueryStackElement top_qs_elt = queryStackTop(qs);
                     //it is a matched output
-                    if(top_qs_elt.matched_start!=INVALID && getMatchedType(qa, &top_qs_elt)==DFA_OUTPUT_CANDIDATE)  
+                    if(top_qs_elt.matched_start!=INVALID && (getMatchedType(qa, &top_qs_elt)&DFA_OUTPUT_CANDIDATE))  
                     { 
                         int position = lexer.next_start - lexer.begin_stream;
                         char* output_text = substring(lexer.begin_stream, top_qs_elt.matched_start, position); 
                         top_qs_elt.matched_start = INVALID;
-                        addTuple(tl, top_qs_elt.query_state, output_text);  
+                        queryStackTopUpdate(qs, top_qs_elt);
+                        addTuple(tl, top_qs_elt.query_state, DFA_OUTPUT_CANDIDATE, output_text);  
+                        free(output_text);
                     }
                     //syntax stack only has one '['
                     if(syntaxStackSize(ss) == 1)  
@@ -297,13 +301,14 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                 if(syntaxStackSize(ss) >= 1)
                 {
                     int matched_type = getMatchedType(qa,qs_elt);
-                    if(matched_type==DFA_OUTPUT_CANDIDATE)  
+                    //a filter only selects objects
+                    if((matched_type&DFA_OUTPUT_CANDIDATE) && !(matched_type&DFA_PREDICATE))  
                     { 
-                        addTuple(tl, qs_elt->query_state, token.content);  
+                        addTuple(tl, qs_elt->query_state, DFA_OUTPUT_CANDIDATE, token.content);  
                     }
-                    else if(matched_type==DFA_CONDITION)
+                    if(matched_type&DFA_CONDITION)
                     {
-                        addTuple(tl, qs_elt->query_state, token.content);
+                        addTuple(tl, qs_elt->query_state, DFA_CONDITION, token.content);
                     }
                     //the top element on syntax stack is a key field
                     if(syntaxStackTop(ss)==KY)  
diff --git a/JSONQuery/tuple_list.h b/JSONQuery/tuple_list.h
index 996fa90..943bbc7 100644
--- a/JSONQuery/tuple_list.h
+++ b/JSONQuery/tuple_list.h
@@ -12,6 +12,8 @@ typedef struct Tuple{
     //ending index for string text
     int end_position;
     int state;
+    //role of the state that has generated the tuple (DFA_OUTPUT_CANDIDATE, DFA_CONDITION or DFA_PREDICATE)
+    int type;
     char* text;
     int next_index;
     //array counter of the root node when the tuple has been found
@@ -61,20 +63,22 @@ static inline int nextTupleIndex(TupleList* tl)
     return index;
 }
 
-static inline void addTuple(TupleList* tl, int state, char* text)
+static inline void addTuple(TupleList* tl, int state, int type, char* text)
 { 
     int index = nextTupleIndex(tl);
     tl->element[index].state = state;
+    tl->element[index].type = type;
     tl->element[index].start_position = -1;
     tl->element[index].text = allocate_and_copy(text);
     tl->element[index].next_index  = -1;
     tl->element[index].root_count = 0;
 }
 
-static inline void addVirtualTuple(TupleList* tl, int state, int start_position, int end_position)
+static inline void addVirtualTuple(TupleList* tl, int state, int type, int start_position, int end_position)
 {
     int index = nextTupleIndex(tl);
     tl->element[index].state = state;
+    tl->element[index].type = type;
     tl->element[index].start_position = start_position; 
     tl->element[index].end_position = end_position;
     tl->element[index].text = NULL;
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 670df4a..23172e4 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -1,6 +1,6 @@
 #include "worker_automaton.h"
 
-#define DFA_UNSELECTED_CANDIDATE 5
+#define DFA_UNSELECTED_CANDIDATE 8
 
 /* 
    return matched type for current state
@@ -12,7 +12,7 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
 {
     int match = getDFAAcceptType(qa, tnode->query_state);
     //it is a matched output
-    if(match==DFA_OUTPUT_CANDIDATE)  
+    if(match&DFA_OUTPUT_CANDIDATE)  
     {   
         JSONQueryIndexPair pair = getDFAArrayIndex(qa, tnode->query_state);
         int lower = pair.lower; 
@@ -21,18 +21,24 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
         //check array indexes
         if(tnode->root_range.end==-1)  //root node
         {   
-            if(!((lower==0&&upper==0)||(counter<upper))) match = 0;
+            if(!((lower==0&&upper==0)||(counter<upper))) match &= ~DFA_OUTPUT_CANDIDATE;
             //current state might be DFA_OUTPUT_CANDIDATE
-            else if(!(lower==0&&upper==0)) match = DFA_UNSELECTED_CANDIDATE; 
+            else if(!(lower==0&&upper==0)) match = (match&~DFA_OUTPUT_CANDIDATE)|DFA_UNSELECTED_CANDIDATE; 
         }
         else if(!((lower==0&&upper==0)||(counter>=lower && counter<upper)))
         {
-            match = 0;
+            match &= ~DFA_OUTPUT_CANDIDATE;
         }
     }
     return match;
 }
 
+//whether an output candidate starts or ends here
+static inline int isCandidate(WorkerAutomaton* wa, int matched_type)
+{
+    return (matched_type&DFA_OUTPUT_CANDIDATE)||(wa->id>0 && (matched_type&DFA_UNSELECTED_CANDIDATE));
+}
+
 //syntax stack feasibility inference
 static inline void syntaxStackInference(Lexer* cur_lexer, int input_token_type, SyntaxStack* shadow_ss, SyntaxStack* ss)
 {
@@ -196,17 +202,17 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     {
                         TreeNode c_node = qs.node[start_index];
                         int matched_type = getMatchedType(qa,&c_node); 
-                        if(matched_type==DFA_OUTPUT_CANDIDATE ||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))  
+                        if(isCandidate(wa, matched_type))  
                         { 
                             qs.node[start_index].matched_start = wa->stream_position + (lexer.next_start - lexer.begin_stream - 1); 
                         }
-                        else if(matched_type==DFA_PREDICATE)
+                        if(matched_type&DFA_PREDICATE)
                         {   
-                            addTupleInfo(&qs, start_index, c_node.query_state, "{", tl);
+                            addTupleInfo(&qs, start_index, c_node.query_state, DFA_PREDICATE, "{", tl);
                         }
-                        else if(matched_type==DFA_CONDITION)
+                        if(matched_type&DFA_CONDITION)
                         {  
-                            addTupleInfo(&qs, start_index, c_node.query_state, "", tl);
+                            addTupleInfo(&qs, start_index, c_node.query_state, DFA_CONDITION, "", tl);
                         }
                         start_index++;
                     }
@@ -224,15 +230,15 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                             if(c_node.matched_start!=INVALID)
                             {  
                                 int matched_type = getMatchedType(qa,&c_node);
-                                if(matched_type==DFA_OUTPUT_CANDIDATE||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
+                                if(isCandidate(wa, matched_type))
                                 {  
                                     int matched_end = wa->stream_position + (lexer.next_start - lexer.begin_stream);
                                     if(wa->id==0){
                                         char* output_text = matchedText(wa, lexer.begin_stream, c_node.matched_start, matched_end);
-                                        addTupleInfo(&qs, start_index, c_node.query_state, output_text, tl); 
+                                        addTupleInfo(&qs, start_index, c_node.query_state, DFA_OUTPUT_CANDIDATE, output_text, tl); 
                                         free(output_text);
                                     }
-                                    else addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
+                                    else addVirtualTupleInfo(&qs, start_index, c_node.query_state, DFA_OUTPUT_CANDIDATE, c_node.matched_start, matched_end, tl);
                                     qs.node[start_index].matched_start = INVALID; 
                                 }
                             }
@@ -296,9 +302,9 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 //increase array counter
                                 qs.node[start_index].count++;
                                 int matched_type = getMatchedType(qa,&c_node); 
-                                if(matched_type==DFA_PREDICATE)
+                                if(matched_type&DFA_PREDICATE)
                                 {
-                                    addTupleInfo(&qs, start_index, c_node.query_state, "}", tl);
+                                    addTupleInfo(&qs, start_index, c_node.query_state, DFA_PREDICATE, "}", tl);
                                 }
                                 start_index++;
                             }
@@ -324,9 +330,9 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 //increase array counter
 				qs.node[start_index].count++;
                                 int matched_type = getMatchedType(qa,&c_node);
-                                if(matched_type==DFA_PREDICATE)
+                                if(matched_type&DFA_PREDICATE)
                                 {
-                                    addTupleInfo(&qs, start_index, c_node.query_state, "}", tl);
+                                    addTupleInfo(&qs, start_index, c_node.query_state, DFA_PREDICATE, "}", tl);
                                 }
                                 start_index++;
                             }
@@ -359,13 +365,13 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     {   
                         TreeNode c_node = qs.node[start_index];
                         int matched_type = getMatchedType(qa,&c_node);
-                        if(matched_type==DFA_OUTPUT_CANDIDATE ||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))  
+                        if(isCandidate(wa, matched_type) && !(matched_type&DFA_PREDICATE))  //a filter only selects objects  
                         { 
                             qs.node[start_index].matched_start = wa->stream_position + (lexer.next_start - lexer.begin_stream - 1); 
                         }
-                        else if(matched_type==DFA_CONDITION)
+                        if(matched_type&DFA_CONDITION)
                         {   
-                            addTupleInfo(&qs, start_index, c_node.query_state, "", tl);
+                            addTupleInfo(&qs, start_index, c_node.query_state, DFA_CONDITION, "", tl);
                         }
                         start_index++;
                     }
@@ -384,15 +390,15 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                         if(c_node.matched_start!=INVALID)
                         {
                             int matched_type = getMatchedType(qa,&c_node);
-                            if(matched_type==DFA_OUTPUT_CANDIDATE||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
+                            if(isCandidate(wa, matched_type))
                             {   
                                 int matched_end = wa->stream_position + (lexer.next_start - lexer.begin_stream);
                                 if(wa->id==0){
                                     char* output_text = matchedText(wa, lexer.begin_stream, c_node.matched_start, matched_end);
-                                    addTupleInfo(&qs, start_index, c_node.query_state, output_text, tl); 
+                                    addTupleInfo(&qs, start_index, c_node.query_state, DFA_OUTPUT_CANDIDATE, output_text, tl); 
                                     free(output_text);
                                 }
-                                else addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
+                                else addVirtualTupleInfo(&qs, start_index, c_node.query_state, DFA_OUTPUT_CANDIDATE, c_node.matched_start, matched_end, tl);
                                 qs.node[start_index].matched_start = INVALID; 
                             }
                         }
@@ -516,9 +522,14 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     {
                         TreeNode c_node = qs.node[start_index];
                         int matched_type = getMatchedType(qa,&c_node);
-                        if(matched_type==DFA_OUTPUT_CANDIDATE||matched_type==DFA_CONDITION||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
+                        //a filter only selects objects
+                        if(isCandidate(wa, matched_type) && !(matched_type&DFA_PREDICATE))
                         {
-                            addTupleInfo(&qs, start_index, c_node.query_state, token.content, tl);
+                            addTupleInfo(&qs, start_index, c_node.query_state, DFA_OUTPUT_CANDIDATE, token.content, tl);
+                        }
+                        if(matched_type&DFA_CONDITION)
+                        {
+                            addTupleInfo(&qs, start_index, c_node.query_state, DFA_CONDITION, token.content, tl);
                         }
                         if(syntaxStackTop(&ss)==LB)  
                             qs.node[start_index].count++;
@@ -566,9 +577,14 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                         {
                             TreeNode c_node = qs.node[start_index];
                             int matched_type = getMatchedType(qa,&c_node);
-                            if(matched_type==DFA_OUTPUT_CANDIDATE||matched_type==DFA_CONDITION||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
+                            //a filter only selects objects
+                            if(isCandidate(wa, matched_type) && !(matched_type&DFA_PREDICATE))
+                            {
+                                addTupleInfo(&qs, start_index, c_node.query_state, DFA_OUTPUT_CANDIDATE, token.content, tl);
+                            }
+                            if(matched_type&DFA_CONDITION)
                             {
-                                addTupleInfo(&qs, start_index, c_node.query_state, token.content, tl);
+                                addTupleInfo(&qs, start_index, c_node.query_state, DFA_CONDITION, token.content, tl);
                             }
                             qs.node[start_index].count++;
                             start_index++;
-- 
2.43.0


From 1f0e1d547965708bcb1e368a12f116c9e75a9646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:47 +0000
Subject: [PATCH 23/42] fix: a streaming context is empty before the first
 chunk

---
 JSONQuery/path_processor.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 483fd7c..33b9503 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -154,6 +154,9 @@ typedef struct StreamingContext{
 
 static inline void initStreamingContext(StreamingContext* ci)
 {
+    //nothing has been processed so far
+    memset(ci, 0, sizeof(StreamingContext));
+    initPredicateStack(&(ci->pf.pstack));
     ci->context_flag = NOCONTEXT;
     ci->finish_flag = INPROGRESS;
 }
-- 
2.43.0


From f0964c189795ab6ad64241dec653fbdaca14e118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:41 +0000
Subject: [PATCH 24/42] fix: conditions of three or more keys are not read
 after they are freed

---
 JSONPathParser/jsonpath_evaluator.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index f0a18d1..9799b93 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -299,12 +299,13 @@ static inline ASTNode* evaluatorModifyReference(ASTNode* node) {
             strcpy(name, node->left->string);
             strcat(name, ".");
             strcat(name, node->right->string);
-            free(node->left->string);
+            ASTNode* variable = node->left;
+            free(variable->string);
             free(node->right->string);
             free(node->right);
             free(node);
-            node->left->string = name;
-            return node->left;
+            variable->string = name;
+            return variable;
         }
     }
     return NULL;
-- 
2.43.0


From 32a062d24e1db30899315709e3fbb1c07a88ce30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:41 +0000
Subject: [PATCH 25/42] fix: evaluating a filter does not leak the values of
 its conditions

---
 JSONPathParser/jsonpath_evaluator.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 9799b93..1ccbd36 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -261,7 +261,11 @@ static inline JSONPathValue calculateExpression(ASTNode* node, JSONPathKeyValueP
 static inline bool evaluateExpression(ASTNode* node, PredicateCondition* conditions) {
     JSONPathKeyValuePair* table = createTableFromConditions(conditions);
     JSONPathValue v = calculateExpression(node, table);
-    return computeTypeCast(v).boolean;
+    bool result = computeTypeCast(v).boolean;
+    for (int i = 0; table[i].key != NULL; ++i)
+        if (table[i].value.vtype == jvt_string) free(table[i].value.string);
+    free(table);
+    return result;
 }
 
 
-- 
2.43.0


From ed47a53e7952f8b8d8758d62b44373b210ed4399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:41 +0000
Subject: [PATCH 26/42] fix: [0:0] selects nothing

---
 DFABuilder/src/dfa_builder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index f4b86e8..d59a4f5 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -245,6 +245,8 @@ struct StackContext {
                     else begin = INT_MIN;
                     if (p->right) end = p->right->number;
                     else end = INT_MAX;
+                    // {0, 0} stands for a state without indexes
+                    if (begin == 0 && end == 0) begin = 1;
                     push({set_array_index, begin, end});
                     create_dfa();
                     array_range[model->size()-1] = {begin, end};
-- 
2.43.0


From df519472b36c0ee61e7655f7707dcbcc15e2227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:41 +0000
Subject: [PATCH 27/42] fix: loadBoundedInputStream ends between tokens,
 whatever their length

---
 JSONQuery/path_processor.h | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 33b9503..1d6db9e 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -58,32 +58,38 @@ char* loadBoundedInputStream(char* file_name, int* start_pos)
     size = size - loaded_size;
     if(size > MEMORY_FOOTPRINT)
         size = MEMORY_FOOTPRINT;
-    if(size<=0) return NULL;    
+    if(size<=0)
+    {
+        fclose(fp);
+        return NULL;
+    }
     fseek(fp, loaded_size, SEEK_CUR);
-    char* stream =(char*)malloc((size+MAX_EXTENSION)*sizeof(char));
+    int capacity = size+MAX_EXTENSION;
+    char* stream =(char*)malloc(capacity*sizeof(char));
     fread(stream,1,size,fp);
     int add = 0;
     //look for the next complete token
-    char ch = fgetc(fp);
-    while(1)
+    int last = -1;   //position of the last character behind the limit that is not a white space
+    int ch = fgetc(fp);
+    while(ch!=EOF)
     {    
-        if(ch==EOF) break;
-        if(ch=='"')
+        if(size+add+2>capacity)
         {
-            char prev = stream[size+add-1];
-            int t = 1;
-            while(prev==' '||prev=='\t'||prev=='\n'||prev==13)
-            {
-                prev = stream[size+add-t]; 
-                t++;
-            }
-            if(prev==','||prev=='{'||prev=='[')
+            capacity *= 2;
+            stream = (char*)realloc(stream, capacity*sizeof(char));
+        }
+        stream[size+add] = ch; 
+        add = add+1;
+        if(!(ch==' '||ch=='\t'||ch=='\n'||ch=='\r'))
+        {
+            stream[size+add] = '\0';
+            if(last!=-1 && isTokenStart(stream, last))
             {
+                add = last-size;
                 break;
             }
+            last = size+add-1;
         }
-        stream[size+add] = ch; 
-        add = add+1;
         ch = fgetc(fp);
     }
     stream[size+add]='\0';
-- 
2.43.0


From 2cdb25ec669bdc313999a69537a5e926966c3f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:41 +0000
Subject: [PATCH 28/42] fix: training data that cannot be read gives no
 constraints

---
 JSONQuery/path_processor.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 1d6db9e..551e9f7 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -228,6 +228,7 @@ static inline Output* serialRun(PathProcessor* path_processor, char* file_name)
 static inline ConstraintTable* collectDataConstraints(PathProcessor* path_processor, char* file_name)
 {
     char* input_stream = loadInputStream(file_name);
+    if(input_stream == NULL) return NULL;
 
     JSONQueryDFAContext* ctx = path_processor->query_context;
     JSONQueryDFA* dfa = path_processor->query_automaton;
-- 
2.43.0


From 8ac914b2bb0857d4b6d9c4b7c0a975d15adb562e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:41 +0000
Subject: [PATCH 29/42] fix: the serial engine keeps unfinished matches between
 input chunks

---
 JSONQuery/path_processor.h      |  6 +++---
 JSONQuery/streaming_automaton.c | 29 +++++++++++++++++++++++------
 JSONQuery/streaming_automaton.h | 12 +++++++-----
 JSONQuery/tuple_list.h          |  9 ++++++++-
 4 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 551e9f7..cee59d2 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -190,7 +190,6 @@ static inline Output* serialPartialRun(PathProcessor* path_processor, char* inpu
 
     //run streaming automaton
     executeAutomaton(&streaming_automaton, input_stream, CLOSE);
-    ci->sa = streaming_automaton;
 
     //predicate filtering
     PredicateFilter pf;
@@ -199,8 +198,9 @@ static inline Output* serialPartialRun(PathProcessor* path_processor, char* inpu
     Output* output = generateFinalOutput(&pf);
     ci->pf = pf;
 
-    //free up dynamic memories
-    destroyStreamingAutomaton(&streaming_automaton);
+    //the tuples of this chunk are not needed any more
+    clearTupleList(streaming_automaton.tuple_list);
+    ci->sa = streaming_automaton;
 
     //set context flag
     ci->context_flag = CONTEXT;
diff --git a/JSONQuery/streaming_automaton.c b/JSONQuery/streaming_automaton.c
index fc1ac85..d1496d2 100644
--- a/JSONQuery/streaming_automaton.c
+++ b/JSONQuery/streaming_automaton.c
@@ -128,6 +128,21 @@ static inline void val_pmt(QueryStackElement* qs_elt, SyntaxStack* ss, QueryStac
     syntaxStackPop(ss);
 }
 
+//keep the text of the unfinished matches for the next chunk
+static void keepUnfinishedMatches(PendingText* pending, QueryStack* qs, QueryStackElement* qs_elt, char* json_stream)
+{
+    int i, start = qs_elt->matched_start;
+    for(i = 0; i<=qs->top_item; i++)
+    {
+        int matched_start = qs->item[i].matched_start;
+        if(matched_start!=INVALID && (start==INVALID||matched_start<start)) start = matched_start;
+    }
+    keepPendingText(pending, json_stream, start);
+    for(i = 0; i<=qs->top_item; i++)
+        if(qs->item[i].matched_start!=INVALID) qs->item[i].matched_start -= start;
+    if(qs_elt->matched_start!=INVALID) qs_elt->matched_start -= start;
+}
+
 // the execution of streaming automaton
 void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constraint_flag)
 {
@@ -135,6 +150,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
     SyntaxStack* ss = &sa->syntax_stack;      //syntax stack
     QueryStack* qs = &sa->query_stack;        //query stack
     TupleList* tl = sa->tuple_list;           //tuple list
+    PendingText* pending = &sa->pending_text; //text of the previous chunks
     QueryStackElement qs_element;                 //current state info
     qs_element.query_state = sa->query_state;
     qs_element.count = sa->count;
@@ -170,7 +186,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                     int matched_type = getMatchedType(qa,qs_elt);
                     if(matched_type&DFA_OUTPUT_CANDIDATE)  
                     { 
-                        qs_elt->matched_start = lexer.next_start - lexer.begin_stream - 1; 
+                        qs_elt->matched_start = pending->size + (lexer.next_start - lexer.begin_stream - 1); 
                     }
                     if(matched_type&DFA_PREDICATE)
                     {
@@ -186,8 +202,8 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                 //it is a matched output
                 if(qs_elt->matched_start!=INVALID && (getMatchedType(qa, qs_elt)&DFA_OUTPUT_CANDIDATE))
                 {
-                    int position = lexer.next_start - lexer.begin_stream;
-                    char* output_text = substring(lexer.begin_stream, qs_elt->matched_start, position);
+                    int position = pending->size + (lexer.next_start - lexer.begin_stream);
+                    char* output_text = pendingSubstring(pending, lexer.begin_stream, qs_elt->matched_start, position);
                     qs_elt->matched_start = INVALID;
                     addTuple(tl, qs_elt->query_state, DFA_OUTPUT_CANDIDATE, output_text);
                     free(output_text);
@@ -223,7 +239,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                     //a filter only selects objects
                     if((matched_type&DFA_OUTPUT_CANDIDATE) && !(matched_type&DFA_PREDICATE))  
                     { 
-                        qs_elt->matched_start = lexer.next_start - lexer.begin_stream - 1;  
+                        qs_elt->matched_start = pending->size + (lexer.next_start - lexer.begin_stream - 1);  
                     }
                     if(matched_type&DFA_CONDITION)
                     {
@@ -251,8 +267,8 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                     //it is a matched output
                     if(top_qs_elt.matched_start!=INVALID && (getMatchedType(qa, &top_qs_elt)&DFA_OUTPUT_CANDIDATE))  
                     { 
-                        int position = lexer.next_start - lexer.begin_stream;
-                        char* output_text = substring(lexer.begin_stream, top_qs_elt.matched_start, position); 
+                        int position = pending->size + (lexer.next_start - lexer.begin_stream);
+                        char* output_text = pendingSubstring(pending, lexer.begin_stream, top_qs_elt.matched_start, position); 
                         top_qs_elt.matched_start = INVALID;
                         queryStackTopUpdate(qs, top_qs_elt);
                         addTuple(tl, top_qs_elt.query_state, DFA_OUTPUT_CANDIDATE, output_text);  
@@ -326,6 +342,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
         token = nextToken(&lexer);
         token_type = token.token_type; 
     }
+    keepUnfinishedMatches(pending, qs, qs_elt, json_stream);
     destroyLexer(&lexer);
     sa->query_state = qs_elt->query_state;
     sa->count = qs_elt->count;
diff --git a/JSONQuery/streaming_automaton.h b/JSONQuery/streaming_automaton.h
index 58eac63..2739abc 100644
--- a/JSONQuery/streaming_automaton.h
+++ b/JSONQuery/streaming_automaton.h
@@ -6,6 +6,7 @@
 #include "tuple_list.h"
 #include "lexing.h"
 #include "constraint.h"
+#include "utility.h"
 
 #define OPEN 1
 #define CLOSE 0
@@ -27,6 +28,8 @@ typedef struct StreamingAutomaton{
     int constraint_flag;
     // saves data constraint table
     ConstraintTable* constraint_table;
+    // text of the previous chunks that belongs to unfinished matches
+    PendingText pending_text;
     int finish_flag;
 }StreamingAutomaton;
 
@@ -44,19 +47,18 @@ static inline void initStreamingAutomaton(StreamingAutomaton* sa, JSONQueryDFA*
     //by default don't generate any data constraints
     sa->constraint_flag = CLOSE;
     sa->constraint_table = NULL;
+    initPendingText(&sa->pending_text);
+    sa->finish_flag = INPROGRESS;
 }
 
 static inline void destroyStreamingAutomaton(StreamingAutomaton* sa)
 {
-    if(sa->tuple_list != NULL && sa->finish_flag == INPROGRESS)
+    if(sa->tuple_list != NULL)
     {   
         freeTupleList(sa->tuple_list); 
         sa->tuple_list = NULL;
     } 
-    if(sa->finish_flag == INPROGRESS)
-    {
-        sa->tuple_list = createTupleList();
-    }
+    destroyPendingText(&sa->pending_text);
 }
 
 // data_constraint_flag: whether sa needs to generate data constraints
diff --git a/JSONQuery/tuple_list.h b/JSONQuery/tuple_list.h
index 943bbc7..5fa48c4 100644
--- a/JSONQuery/tuple_list.h
+++ b/JSONQuery/tuple_list.h
@@ -40,13 +40,20 @@ static inline TupleList* createTupleList()
     return tl;
 }
 
-static inline void freeTupleList(TupleList* tl)
+//remove all the elements
+static inline void clearTupleList(TupleList* tl)
 {
     int i;
     for(i=0; i<=tl->count; i++)
     {
         if(tl->element[i].text!=NULL) free(tl->element[i].text);
     }
+    tl->count = -1;
+}
+
+static inline void freeTupleList(TupleList* tl)
+{
+    clearTupleList(tl);
     free(tl->element);
     free(tl);
 }
-- 
2.43.0


From a351fa727340faf3ce79c98ccf74e7aa000527c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:41 +0000
Subject: [PATCH 30/42] fix: the parallel engine keeps its state between input
 chunks, with any number of cores

---
 JSONQuery/parallel_automata_execution.h | 39 +++++++++++++++----------
 JSONQuery/path_processor.h              | 12 ++++----
 JSONQuery/worker_automaton.h            |  3 +-
 3 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 9f9e8e2..9334c5f 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -46,28 +46,35 @@ static inline void initParallelAutomata(ParallelAutomata* pa, JSONQueryDFA* qa)
     pa->query_automaton = qa;
     pa->tuple_list = NULL;
     pa->major_automaton = NULL;
+    pa->finish_flag = INPROGRESS;
 }
 
-static inline void destroyParallelAutomata(ParallelAutomata* pa)
+//the tuples of the current input are not needed any more
+static inline void clearParallelAutomata(ParallelAutomata* pa)
 {
-    if(pa->tuple_list != NULL&&pa->finish_flag==INPROGRESS)
-    {   
-        freeTupleList(pa->tuple_list); 
-        pa->tuple_list = NULL;
-    }
+    if(pa->tuple_list != NULL) clearTupleList(pa->tuple_list);
     if(pa->major_automaton != NULL)
-    {  
-        if(pa->finish_flag==INPROGRESS)
+    {
+        QueryStacks* qs = &pa->major_automaton->query_stacks;
+        for(int i = 0; i<qs->num_node; i++)
         {
-            pa->major_automaton->tuple_list = createTupleList();
-        }
-        else if(pa->finish_flag==FINISH)
-        {   
-            destroyWorkerAutomaton(pa->major_automaton);  
+            qs->node[i].first_tuple_index = -1;
+            qs->node[i].last_tuple_index = -1;
         }
     }
 }
 
+static inline void destroyParallelAutomata(ParallelAutomata* pa)
+{
+    //the tuple list belongs to the major automaton
+    pa->tuple_list = NULL;
+    if(pa->major_automaton != NULL)
+    {  
+        freeWorkerAutomaton(pa->major_automaton);
+        pa->major_automaton = NULL;
+    }
+}
+
 //main function for each thread
 void *main_thread(void *arg)
 {
@@ -365,7 +372,7 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
 {
     int num_cores = par_info.num_chunk;
     JSONQueryDFA* qa = pa->query_automaton;
-    ThreadInfo ti[MAX_THREAD]; 
+    ThreadInfo* ti = (ThreadInfo*)malloc(num_cores*sizeof(ThreadInfo));
     int i;
     for(i = 0; i<num_cores; i++)
     {
@@ -379,7 +386,8 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
     	if (rc)
         {
             printf("ERROR; return code is %d\n", rc);
-            return 0;
+            free(ti);
+            return;
         }
     }
     for (i = 0; i <num_cores; i++)
@@ -395,6 +403,7 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
     {
         freeWorkerAutomaton(ti[i].worker_automaton); 
     }
+    free(ti);
 }
 
 #endif // !__PARALLEL_AUTOMATA_EXECUTION_H__
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index cee59d2..a28d700 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -264,8 +264,6 @@ static inline Output* parallelPartialRun(PathProcessor* path_processor, char* in
     executeParallelAutomata(&pa, pInfo, NULL);
     TupleList* tl = pa.tuple_list;
 
-    ci->pa = pa;
-
     //predicate filtering
     PredicateFilter pf;
     if(cflag == CONTEXT) { pf = ci->pf; pf.tuple_list = tl;}
@@ -275,7 +273,8 @@ static inline Output* parallelPartialRun(PathProcessor* path_processor, char* in
    
     //free up dynamic memories
     freeInputChunks(pInfo);
-    destroyParallelAutomata(&pa);
+    clearParallelAutomata(&pa);
+    ci->pa = pa;
     ci->context_flag = CONTEXT;
     return output;
 }
@@ -316,8 +315,6 @@ static inline Output* parallelPartialRunOpt(PathProcessor* path_processor, char*
     executeParallelAutomata(&pa, pInfo, ct);
     TupleList* tl = pa.tuple_list;
 
-    ci->pa = pa;
-
     //predicate filtering
     PredicateFilter pf;
     if(cflag == CONTEXT) { pf = ci->pf; pf.tuple_list = tl;}
@@ -326,8 +323,9 @@ static inline Output* parallelPartialRunOpt(PathProcessor* path_processor, char*
     ci->pf = pf;
 
     //free up dynamic memories
-    freeInputChunks(pInfo);     
-    destroyParallelAutomata(&pa); 
+    freeInputChunks(pInfo);
+    clearParallelAutomata(&pa);
+    ci->pa = pa;
     ci->context_flag = CONTEXT;
     return output;
 }
diff --git a/JSONQuery/worker_automaton.h b/JSONQuery/worker_automaton.h
index 3072122..2e8ae6f 100644
--- a/JSONQuery/worker_automaton.h
+++ b/JSONQuery/worker_automaton.h
@@ -67,9 +67,10 @@ static inline void initWorkerAutomaton(WorkerAutomaton* wa, JSONQueryDFA* qa)
 
 static inline void destroyWorkerAutomaton(WorkerAutomaton* wa)
 {
-    if(wa->id>0 && wa->tuple_list != NULL)
+    if(wa->tuple_list != NULL)
     {
         freeTupleList(wa->tuple_list);
+        wa->tuple_list = NULL;
     }   
     destroyPendingText(&wa->pending_text);
 }
-- 
2.43.0


From 0ccd18497ea6fb27217365d073e4f98410d922cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:41 +0000
Subject: [PATCH 31/42] fix: free partitioned chunks and path processors
 completely

---
 DFABuilder/include/dfa.h   | 1 +
 JSONQuery/file_partition.h | 1 +
 JSONQuery/path_processor.h | 3 ++-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/DFABuilder/include/dfa.h b/DFABuilder/include/dfa.h
index 03a578d..a1e9699 100644
--- a/DFABuilder/include/dfa.h
+++ b/DFABuilder/include/dfa.h
@@ -50,6 +50,7 @@ static inline JSONQueryDFA* createJSONQueryDFA(uint32_t states_num, uint32_t inp
 static inline void destoryJSONQueryDFA(JSONQueryDFA* dfa) {
     if (dfa->table) free(dfa->table);
     if (dfa->stop_state) free(dfa->stop_state);
+    if (dfa->accept_type) free(dfa->accept_type);
     if (dfa->array_index) free(dfa->array_index);
     if (dfa->names) {
         for (int i = 0; i < dfa->inputs_num; ++i) 
diff --git a/JSONQuery/file_partition.h b/JSONQuery/file_partition.h
index bb23eb0..69af815 100644
--- a/JSONQuery/file_partition.h
+++ b/JSONQuery/file_partition.h
@@ -21,6 +21,7 @@ static inline void freeInputChunks(PartitionInfo pInfo)
     {
         if(stream[i]!=NULL) free(stream[i]);
     }
+    free(stream);
 }
 
 static inline void printChunk(char** stream, int num_core)
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index a28d700..44dbe16 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -146,7 +146,8 @@ static inline PathProcessor* createPathProcessor(char* path)
 
 static inline void freePathProcessor(PathProcessor* path_processor)
 {
-     destoryJSONQueryDFA(path_processor->query_automaton); 
+     freeJSONQueryDFA(&path_processor->query_automaton); 
+     free(path_processor->query_context);
      free(path_processor);
 }
 
-- 
2.43.0


From 8e1c3a569f8d3c4451a557d21ce7651333eed747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:57 +0000
Subject: [PATCH 32/42] fix: strcopy does not write behind the copied text

---
 JSONQuery/utility.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/JSONQuery/utility.c b/JSONQuery/utility.c
index d1041e0..372d94b 100644
--- a/JSONQuery/utility.c
+++ b/JSONQuery/utility.c
@@ -15,7 +15,6 @@ void strcopy(char* src,char* dest)
 	{
 		dest[i]=src[i];
 	}
-	dest[i]='\0';
 }
 
 /**************************************************************************
-- 
2.43.0


From 192e4e9aef36fec7c870960d7a2b76d355a704b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:57 +0000
Subject: [PATCH 33/42] fix: a constraint table stays within its bounds and
 keeps keys apart from arrays

---
 JSONQuery/constraint.h       | 14 ++++++++------
 JSONQuery/worker_automaton.c |  8 ++++++--
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/JSONQuery/constraint.h b/JSONQuery/constraint.h
index 6681e9e..6f61ed0 100644
--- a/JSONQuery/constraint.h
+++ b/JSONQuery/constraint.h
@@ -44,7 +44,7 @@ static inline void updateStateInfo(ConstraintTable* ct, ConstraintInfo* ci)
         char* constraint_key_name = ci->token_name;
         while(i<last)
         {
-            if(strcmp(constraint_key_name, ct->constraint_info[i].token_name)==0)
+            if(ct->constraint_info[i].type==KY && strcmp(constraint_key_name, ct->constraint_info[i].token_name)==0)
             {
                 ci->num_state = ct->constraint_info[i].num_state;
                 int j = 0;
@@ -64,7 +64,7 @@ static inline void updateStateInfo(ConstraintTable* ct, ConstraintInfo* ci)
         int last = ct->num_constraint_info; 
         while(i<last)
         {
-            if(ct->constraint_info[i].type==3)
+            if(ct->constraint_info[i].type==LB)
             {
                 ci->num_state = ct->constraint_info[i].num_state;
                 int j = 0;
@@ -85,12 +85,14 @@ static inline void addConstraintInfo(ConstraintTable* ct, int state, int type, c
 {
     int index = ct->num_constraint_info;
     int last = ct->num_constraint_info; 
+    //a symbol without constraints is never used to prune paths
+    if(type==KY && strlen(name)>=MAX_KEY_TEXT) return;
     if(type==KY) //key field
     {
         int i = 0;
         while(i<last)
         {
-            if(strcmp(name, ct->constraint_info[i].token_name)==0)
+            if(ct->constraint_info[i].type==KY && strcmp(name, ct->constraint_info[i].token_name)==0)
             {
                 index = i;
                 break;
@@ -121,16 +123,16 @@ static inline void addConstraintInfo(ConstraintTable* ct, int state, int type, c
                 break;
             state_index++;
         } 
-        if(state_index==state_last) //add state information
+        if(state_index==state_last && state_last<MAX_STATES) //add state information
         {
             int state_index = (ct->constraint_info[index].num_state++);
             ct->constraint_info[index].state_set[state_index] = state;
         }
     }
-    else{
+    else if(last<MAX_CONSTRAINT){
         ++ct->num_constraint_info;
         ct->constraint_info[index].type = type;
-        if(type==KY) strcopy(name, ct->constraint_info[index].token_name);
+        strcopy(type==KY?name:"", ct->constraint_info[index].token_name);
         ct->constraint_info[index].num_state = 0;
         int state_index = (ct->constraint_info[index].num_state++);
         ct->constraint_info[index].state_set[state_index] = state;
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 23172e4..ad6f310 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -504,8 +504,12 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                 {
                     ConstraintInfo ci;
                     ci.type = KY;
-                    strcopy(token.content, ci.token_name);
-                    updateStateInfo(ct, &ci);
+                    ci.num_state = INVALID;
+                    if(strlen(token.content)<MAX_KEY_TEXT)
+                    {
+                        strcopy(token.content, ci.token_name);
+                        updateStateInfo(ct, &ci);
+                    }
                     if(ci.num_state>0)
                     {   
                         qs_elt = pruneQueryPaths(&qs, ci.state_set, ci.num_state);
-- 
2.43.0


From c5956ca094b662ae3e9f9fe6b63d9600a9026f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:57 +0000
Subject: [PATCH 34/42] fix: the query stack tree has a node for every state on
 every level

---
 JSONQuery/multi_stack.h | 11 ++++++-----
 JSONQuery/unit.h        |  1 -
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/JSONQuery/multi_stack.h b/JSONQuery/multi_stack.h
index 1313a1e..ae5f226 100644
--- a/JSONQuery/multi_stack.h
+++ b/JSONQuery/multi_stack.h
@@ -6,7 +6,8 @@
 #include "tuple_list.h"
 #include "stack.h"
 
-#define MAX_NODE 500 //max node in query stack tree
+#define MAX_STATE 100  //maximum query states
+#define MAX_NODE (MAX_STACK*MAX_STATE) //max node in query stack tree
 #define INVALID -1  //invalid state
 
 typedef struct Range{
@@ -110,11 +111,11 @@ static inline QueryStacksElement queryStacksPush(QueryStacks* qs, QueryStacksEle
       during each iteration, parent pointers and root pointers for one single node might not be placed in consecutive position,
       so we need to record them temporarily, and update stack tree after iteration
     */
-    int parent_pointer[MAX_NODE][MAX_NODE];
-    int num_parent_pointer[MAX_NODE];
+    int parent_pointer[MAX_STATE][MAX_STATE];
+    int num_parent_pointer[MAX_STATE];
 
-    int root_pointer[MAX_NODE][MAX_NODE];
-    int num_root_pointer[MAX_NODE];
+    int root_pointer[MAX_STATE][MAX_STATE];
+    int num_root_pointer[MAX_STATE];
 
     for(i = qs_elt.start; i<=qs_elt.end; i++)
     {
diff --git a/JSONQuery/unit.h b/JSONQuery/unit.h
index cf7669c..e44e02e 100644
--- a/JSONQuery/unit.h
+++ b/JSONQuery/unit.h
@@ -5,7 +5,6 @@
 #include "dfa_builder.h"
 #include "tuple_list.h"
 
-#define MAX_STATE 100  //maximum query states
 #define MAX_UNMATCHED_SYMBOL 100 //maximum unmatched symbols
 #define UNIT_UNMATCHED 1 //unit starts with unmatched symbol
 #define UNIT_MATCHED 2   //finish handling unmatched symbol
-- 
2.43.0


From 357808335bc9d323390d7b825ac8d3290360f281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:14 +0000
Subject: [PATCH 35/42] fix: a filter rejects the array elements that are
 arrays

An array under a filter opened no scope of its own, so that its content was
taken for a part of the enclosing object of another filter.
---
 JSONQuery/parallel_automata_execution.h |  6 ++++++
 JSONQuery/predicate.c                   |  6 +++---
 JSONQuery/streaming_automaton.c         |  8 ++++++++
 JSONQuery/worker_automaton.c            | 14 ++++++++++++++
 4 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 9334c5f..6de6091 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -275,6 +275,12 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                             elt_ary_e(&qs_elt, &ss, &qs); 
                             //increase array counter
                             qs.node[qs_elt.start].count++;  
+                            int matched_type = getMatchedType(qa,&qs.node[qs_elt.start]);
+                            if(matched_type&DFA_PREDICATE)
+                            {
+                                sum++; 
+                                addTupleInfo(&qs, qs_elt.start, qs.node[qs_elt.start].query_state, DFA_PREDICATE, "]", tuple_list);
+                            }
                         }
                     }
                 }
diff --git a/JSONQuery/predicate.c b/JSONQuery/predicate.c
index f90c289..df3d069 100644
--- a/JSONQuery/predicate.c
+++ b/JSONQuery/predicate.c
@@ -34,8 +34,8 @@ Output* generateFinalOutput(PredicateFilter* pf)
         Tuple tuple = getTuple(tl, i); ///printf("text %s\n", tuple.text);
         int state = tuple.state;  //query state
         char* text = tuple.text;  //text content
-        //starting position of an object
-        if(tuple.type==DFA_PREDICATE && strcmp(text, "{")==0)
+        //starting position of an object (or an array, which is never selected)
+        if(tuple.type==DFA_PREDICATE && (strcmp(text, "{")==0 || strcmp(text, "[")==0))
         {
             PredicateStackElement ps_elt;
             ps_elt.predicate_state = state;
@@ -51,7 +51,7 @@ Output* generateFinalOutput(PredicateFilter* pf)
             PredicateCondition* pc = ps_elt.conditions;
             ASTNode* node = getContextSubtree(pf->ctx, pred_state);
             //evaluate predicate conditions 
-            bool v = evaluateExpression(node, pc); 
+            bool v = strcmp(text, "}")==0 && evaluateExpression(node, pc); 
             int first_idx = ps_elt.output_buffer_pointer;
             int buf_size = getOutputSize(buffer);
             int rmv_num = buf_size - first_idx;
diff --git a/JSONQuery/streaming_automaton.c b/JSONQuery/streaming_automaton.c
index d1496d2..f25e67d 100644
--- a/JSONQuery/streaming_automaton.c
+++ b/JSONQuery/streaming_automaton.c
@@ -241,6 +241,10 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                     { 
                         qs_elt->matched_start = pending->size + (lexer.next_start - lexer.begin_stream - 1);  
                     }
+                    if(matched_type&DFA_PREDICATE)
+                    {
+                        addTuple(tl, qs_elt->query_state, DFA_PREDICATE, "[");
+                    }
                     if(matched_type&DFA_CONDITION)
                     {
                         addTuple(tl, qs_elt->query_state, DFA_CONDITION, "");
@@ -292,6 +296,10 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                         {  
                             elt_ary_e(qs_elt, ss, qs); 
                             increaseArrayCounter(qs_elt);
+                            if(getMatchedType(qa, qs_elt)&DFA_PREDICATE)
+                            {
+                                addTuple(tl, qs_elt->query_state, DFA_PREDICATE, "]");
+                            }
                         }
                     }
                 }
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index ad6f310..4bbf24d 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -369,6 +369,10 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                         { 
                             qs.node[start_index].matched_start = wa->stream_position + (lexer.next_start - lexer.begin_stream - 1); 
                         }
+                        if(matched_type&DFA_PREDICATE)
+                        {   
+                            addTupleInfo(&qs, start_index, c_node.query_state, DFA_PREDICATE, "[", tl);
+                        }
                         if(matched_type&DFA_CONDITION)
                         {   
                             addTupleInfo(&qs, start_index, c_node.query_state, DFA_CONDITION, "", tl);
@@ -443,6 +447,11 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 TreeNode c_node = qs.node[start_index];
                                 //increase array counter
                                 qs.node[start_index].count++;
+                                int matched_type = getMatchedType(qa,&c_node);
+                                if(matched_type&DFA_PREDICATE)
+                                {
+                                    addTupleInfo(&qs, start_index, c_node.query_state, DFA_PREDICATE, "]", tl);
+                                }
                                 start_index++;
                             }
                         }
@@ -466,6 +475,11 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 TreeNode c_node = qs.node[start_index];
                                 //increase array counter
                                 qs.node[start_index].count++;
+                                int matched_type = getMatchedType(qa,&c_node);
+                                if(matched_type&DFA_PREDICATE)
+                                {
+                                    addTupleInfo(&qs, start_index, c_node.query_state, DFA_PREDICATE, "]", tl);
+                                }
                                 start_index++;
                             }
                         }
-- 
2.43.0


From 8c0b90ec25d04262c502e31aeda28cea30a32618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:43 +0000
Subject: [PATCH 36/42] fix: character sets merge ranges that overlap or touch

Adding a range next to or over another one could erase the wrong entries or
walk off the end of the map ("ab-c"), so a set held other characters than written.
---
 DFABuilder/src/Lexer/charset.cpp | 49 ++++++++++----------------------
 1 file changed, 15 insertions(+), 34 deletions(-)

diff --git a/DFABuilder/src/Lexer/charset.cpp b/DFABuilder/src/Lexer/charset.cpp
index 6e0969a..7390450 100644
--- a/DFABuilder/src/Lexer/charset.cpp
+++ b/DFABuilder/src/Lexer/charset.cpp
@@ -53,42 +53,23 @@ void CharSet::insert(regex_char p, regex_char q) {
         insert(p);
         return;
     }
-    charset[p].type = 1;
-    charset[q].type = -1;
-    map<regex_char, charset_value>::iterator f, l;
-    auto i = charset.find(p);
-    if (i == charset.begin() ||
-        ((i->first - (--i)->first > 1) && (i->second.type != 1))) {
-        // remove from here, without itself
-        if (i->first == p)
-            f = ++i;
-        else
-            f = ++++i;  // - -!
-    } else {
-        if (i->second.type == 1) {
-            // remove from here, withitself
-            f = ++i;
-        } else {
-            // remove before here
-            f = i;
+    if (p > q) return;
+    // widen the interval to everything that it overlaps or that is next to it
+    auto i = charset.begin();
+    while (i != charset.end()) {
+        auto begin = i, end = i;
+        if (begin->second.type == 1) ++end;
+        auto next = end;
+        ++next;
+        if (begin->first <= q + 1 && p <= end->first + 1) {
+            if (begin->first < p) p = begin->first;
+            if (end->first > q) q = end->first;
+            charset.erase(begin, next);
         }
+        i = next;
     }
-
-    auto j = charset.find(q);
-    if ((++j) == charset.end() ||
-        (j->first - (--j)->first > 1) && ((++j)->second.type != -1)) {
-        // remove before here
-        l = charset.find(q);
-    } else {
-        if (j->second.type == -1) {
-            // remove before here with itself
-            l = j;
-        } else {
-            // remove after here
-            l = ++j;
-        }
-    }
-    if (l->first > f->first) charset.erase(l, f);
+    charset[p].type = 1;
+    charset[q].type = -1;
 }
 
 void CharSet::insert(regex_char c) {
-- 
2.43.0


From e7983fff4b6c972dd7a37fdb47939d0c20473e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:06 +0000
Subject: [PATCH 37/42] fix: filters work in query automata of any size

The conditions of a filter were stored at the number of its state in an array of
100, so a query with more states wrote behind it.
---
 JSONQuery/predicate.c |  4 ++--
 JSONQuery/predicate.h | 16 +++++++++++-----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/JSONQuery/predicate.c b/JSONQuery/predicate.c
index df3d069..4f4f04e 100644
--- a/JSONQuery/predicate.c
+++ b/JSONQuery/predicate.c
@@ -10,10 +10,10 @@ Output* generateFinalOutput(PredicateFilter* pf)
     int end_index = getTupleListSize(tl);
     //check whether current query has any predicates
     int s;
-    for(s = 0; s < MAX_PREDICATE_STATE; s++)
+    for(s = 0; s < pf->num_state; s++)
         if(pf->predicate_conditions[s]!=NULL) break;
     //there is no predicates, simply add each text into final output
-    if(s==MAX_PREDICATE_STATE)
+    if(s==pf->num_state)
     {
        for(int i = start_index; i < end_index; i++) 
        {
diff --git a/JSONQuery/predicate.h b/JSONQuery/predicate.h
index fa0a652..35d76fa 100644
--- a/JSONQuery/predicate.h
+++ b/JSONQuery/predicate.h
@@ -6,7 +6,6 @@
 #include "tuple_list.h"
 #include "output.h"
 
-#define MAX_PREDICATE_STATE 100
 #define MAX_STACK_ELEMENT 100
 #define FINISH 1
 #define INPROGRESS 0
@@ -29,7 +28,8 @@ typedef struct PredicateFilter{
     //context information for dfa table
     JSONQueryDFAContext* ctx;
     //condition list for each predicate state
-    PredicateCondition* predicate_conditions[MAX_PREDICATE_STATE];
+    PredicateCondition** predicate_conditions;
+    int num_state;
     PredicateStack pstack;
     //save output buffer
     Output* buffer;
@@ -91,8 +91,13 @@ static inline void initPredicateFilter(PredicateFilter* pf, TupleList* tl, JSONQ
     pf->ctx = ctx;
     int pred_size = getContextSizeOfPredicateStates(ctx);
     //initialize state mapping table
-    for(int i = 0; i<MAX_PREDICATE_STATE; i++)
-        pf->predicate_conditions[i] = NULL;
+    pf->num_state = 0;
+    for(int i = 0; i < pred_size; i++)
+    {
+        int pred_state = getContextPredicateStates(ctx, i);
+        if(pred_state >= pf->num_state) pf->num_state = pred_state+1;
+    }
+    pf->predicate_conditions = (PredicateCondition**)calloc(pf->num_state+1, sizeof(PredicateCondition*));
     for(int i = 0; i < pred_size; i++)
     {
     	int pred_state = getContextPredicateStates(ctx, i);
@@ -118,13 +123,14 @@ static inline void initPredicateFilter(PredicateFilter* pf, TupleList* tl, JSONQ
 
 static inline void destroyPredicateFilter(PredicateFilter* pf)
 {
-    for(int i = 0; i<MAX_PREDICATE_STATE; i++)
+    for(int i = 0; i<pf->num_state; i++)
     {
         if(pf->predicate_conditions[i]!=NULL)
         {    
             free(pf->predicate_conditions[i]);
         }
     } 
+    free(pf->predicate_conditions);
     while(getPredicateStackSize(&pf->pstack)>0)
         freeConditions(popPredicateStack(&pf->pstack).conditions);
     if(pf->buffer!=NULL) freeOutput(pf->buffer);
-- 
2.43.0


From 3640c0d521dae7bf9e835af68f252dd7f4872eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:06 +0000
Subject: [PATCH 38/42] fix: queries with more states than the workers can hold
 run serially

The state sets of a worker hold 100 states; a larger query automaton
($..a.*.*.*.*.*.* has 130 states) overflowed them.
---
 JSONQuery/path_processor.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 44dbe16..02fef0d 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -282,6 +282,8 @@ static inline Output* parallelPartialRun(PathProcessor* path_processor, char* in
 
 static inline Output* parallelRun(PathProcessor* path_processor, char* file_name, int num_core)
 {
+    //the workers cannot keep so many states apart
+    if(getDFAStatesNumber(path_processor->query_automaton) > MAX_STATE) return serialRun(path_processor, file_name);
     StreamingContext ci; 
     initStreamingContext(&ci);
     char* input_stream = NULL;
@@ -333,6 +335,8 @@ static inline Output* parallelPartialRunOpt(PathProcessor* path_processor, char*
 
 static inline Output* parallelRunOpt(PathProcessor* path_processor, char* file_name, int num_core, ConstraintTable* ct)
 {
+    //the workers cannot keep so many states apart
+    if(getDFAStatesNumber(path_processor->query_automaton) > MAX_STATE) return serialRun(path_processor, file_name);
     StreamingContext ci; 
     initStreamingContext(&ci);
     char* input_stream = NULL;
-- 
2.43.0


From dd7b81001b5c2dcb6dcfdd48ad8d1a8543a6edaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:54 +0000
Subject: [PATCH 39/42] fix: remainder in filters stays defined for operands
 outside the integer range

@.a % @.b converted both doubles to long long: out of range that is
undefined, and LLONG_MIN % -1 stopped the process with SIGFPE.
---
 JSONPathParser/jsonpath_evaluator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 1ccbd36..66924f9 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -3,6 +3,7 @@
 
 #include "jsonpath_model.h"
 #include <string.h>
+#include <math.h>
 
 #ifdef __cplusplus
 extern "C" {
@@ -154,12 +155,12 @@ static inline JSONPathValue computeBinaryOperator(JSONPathOperatorType opt, JSON
             v.number = (v1.number / v2.number);
             return v;
         case jot_mod:
-            if ((long long int)(v2.number) == 0) {
+            if (trunc(v2.number) == 0) {
                 v.vtype = jvt_null;
                 return v;
             }
             v.vtype = jvt_number;
-            v.number = (long long int)(v1.number) % (long long int)(v2.number);
+            v.number = fmod(trunc(v1.number), trunc(v2.number));
             return v;
     }
     return v;
-- 
2.43.0


From 8d6500b41c50f87272b9ce854ae89047b1306e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:04 +0000
Subject: [PATCH 40/42] fix: freePathProcessor and building a query keep the
 automaton's rules, tables and syntax tree allocated

---
 DFABuilder/include/Lexer/dfa.hpp         |  3 ++-
 DFABuilder/include/Lexer/model_core.hpp  | 12 ++++++++++--
 DFABuilder/include/Lexer/regex_model.hpp |  2 +-
 DFABuilder/include/dfa_builder.h         | 11 +++++++++++
 DFABuilder/src/dfa_builder.cpp           |  5 ++++-
 JSONPathParser/jsonpath_model.h          |  9 +++++++++
 JSONQuery/path_processor.h               |  1 +
 7 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/DFABuilder/include/Lexer/dfa.hpp b/DFABuilder/include/Lexer/dfa.hpp
index 82edb64..d48927c 100644
--- a/DFABuilder/include/Lexer/dfa.hpp
+++ b/DFABuilder/include/Lexer/dfa.hpp
@@ -13,6 +13,8 @@ namespace dragontooth {
  */
 class DFA {
 public:
+	virtual ~DFA() {}
+
 	/// @brief used to get the next state
 	virtual int nextState(int s, regex_char a) = 0;
 
@@ -41,7 +43,6 @@ public:
 protected:
 	DFA() : input_max(256) {}
 	DFA(int input_max) : input_max(input_max) {}
-	virtual ~DFA() {}
 
 	int input_max;
 	uint32_t state_num = 1;
diff --git a/DFABuilder/include/Lexer/model_core.hpp b/DFABuilder/include/Lexer/model_core.hpp
index d276019..0f1569b 100644
--- a/DFABuilder/include/Lexer/model_core.hpp
+++ b/DFABuilder/include/Lexer/model_core.hpp
@@ -45,7 +45,15 @@ struct RegexModelItem {
 class RegexModel : public IPassable {
 public:
     RegexModel() : /* action_codes(1, 0), */ id_array(1), id_names(1) {}
-    ~RegexModel() {}
+    // the model owns its rules and all the DFAs
+    ~RegexModel() {
+        for (auto p : rules) {
+            delete p->root;
+            delete p->dfa;
+            delete p;
+        }
+        delete main_dfa;
+    }
     void Add(RegexItem* root) {
         auto p = new RegexModelItem{};
         p->rank = rules.size();
@@ -101,7 +109,7 @@ public:
     EquivalenceClass* ec = nullptr;
 
     // @brief the main DFA after combine all DFAs
-    DFA* main_dfa;
+    DFA* main_dfa = nullptr;
 
     friend std::ostream& operator<<(std::ostream& out, const RegexModel& that) {
         out << "RegexModel" << std::endl;
diff --git a/DFABuilder/include/Lexer/regex_model.hpp b/DFABuilder/include/Lexer/regex_model.hpp
index ecc60b1..f3fca9c 100644
--- a/DFABuilder/include/Lexer/regex_model.hpp
+++ b/DFABuilder/include/Lexer/regex_model.hpp
@@ -97,7 +97,7 @@ public:
     RegexList(const RegexList& other) : enableOr(other.enableOr), RegexItem(other) {
         for (auto p : other.items) items.push_back(p->deepCopy());
     }
-    virtual ~RegexList() {}
+    virtual ~RegexList() { for (auto p : items) delete p; }
 
     void Add(RegexItem* item) { items.push_back(item); }
     virtual RegexItemType getItemType() const { return rt_list; }
diff --git a/DFABuilder/include/dfa_builder.h b/DFABuilder/include/dfa_builder.h
index 4483878..1e5d791 100644
--- a/DFABuilder/include/dfa_builder.h
+++ b/DFABuilder/include/dfa_builder.h
@@ -18,6 +18,7 @@ typedef struct JSONQueryDFAContext {
     ASTNode** subtrees;
     JSONQueryIntVecPair* states_mapping;
     JSONQueryIntVecPair array_predicate_states;
+    ASTNode* query; // the AST owned by this context, the subtrees are parts of it
 } JSONQueryDFAContext;
 
 extern JSONQueryDFA* buildJSONQueryDFA(const char* json_path, JSONQueryDFAContext* context);
@@ -48,6 +49,16 @@ static inline int getContextPredicateStates(JSONQueryDFAContext* ctx, int idx) {
     return ctx->array_predicate_states.value[idx];
 }
 
+// release all the memory held by a context (but not the context itself)
+static inline void freeJSONQueryDFAContext(JSONQueryDFAContext* ctx) {
+    for (int i = 0; i < ctx->states_num; ++i)
+        free(ctx->states_mapping[i].value);
+    free(ctx->states_mapping);
+    free(ctx->subtrees);
+    free(ctx->array_predicate_states.value);
+    ASTNodeFree(ctx->query);
+}
+
 static inline void printJSONQueryDFAContext(JSONQueryDFAContext* ctx) {
     for (int i = 0; i < ctx->states_num; ++i) {
         if (ctx->subtrees[i]) {
diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index d59a4f5..8a4e77e 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -374,6 +374,7 @@ static int acc_id2state(StackContext* ctx, const vector< set<int> >& accepted, i
 
 static void create_context(StackContext* ctx, DFACompressed* cpd_dfa, JSONQueryDFA* m_dfa, JSONQueryDFAContext* context, const vector< set<int> >& accepted) {
     context->states_num = cpd_dfa->getStateSum();
+    context->query = NULL;
     context->subtrees = (ASTNode**) calloc(cpd_dfa->getStateSum()+1, sizeof(ASTNode*));
     context->states_mapping = (JSONQueryIntVecPair*) calloc(cpd_dfa->getStateSum()+1, sizeof(JSONQueryIntVecPair));
     context->array_predicate_states.value_size = 0;
@@ -407,7 +408,9 @@ static void create_context(StackContext* ctx, DFACompressed* cpd_dfa, JSONQueryD
 JSONQueryDFA* buildJSONQueryDFA(const char* json_path, JSONQueryDFAContext* context) {
     printf("\noriginal: %s\n", json_path);
     ASTNode* root = analysisJSONPath(json_path);
-    return buildJSONQueryDFAFromAST(root, context);
+    JSONQueryDFA* dfa = buildJSONQueryDFAFromAST(root, context);
+    context->query = root;
+    return dfa;
 }
 
 JSONQueryDFA* buildJSONQueryDFAFromAST(ASTNode* json_path, JSONQueryDFAContext* context) {
diff --git a/JSONPathParser/jsonpath_model.h b/JSONPathParser/jsonpath_model.h
index 5202d2b..2dd8e31 100644
--- a/JSONPathParser/jsonpath_model.h
+++ b/JSONPathParser/jsonpath_model.h
@@ -167,6 +167,15 @@ static inline ASTNode* ASTNodeCreateFliter(ASTNode* left) {
 }
 
 
+static inline void ASTNodeFree(ASTNode* node) {
+    if (node == NULL) return;
+    if (node->node_type == jnt_id || node->node_type == jnt_string || node->node_type == jnt_variable)
+        free(node->string);
+    ASTNodeFree(node->left);
+    ASTNodeFree(node->right);
+    free(node);
+}
+
 static inline void printIndentation(int n) {
     for (int i = 0; i < n; ++i) printf("  ");
 }
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 02fef0d..d7f89e1 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -147,6 +147,7 @@ static inline PathProcessor* createPathProcessor(char* path)
 static inline void freePathProcessor(PathProcessor* path_processor)
 {
      freeJSONQueryDFA(&path_processor->query_automaton); 
+     freeJSONQueryDFAContext(path_processor->query_context);
      free(path_processor->query_context);
      free(path_processor);
 }
-- 
2.43.0


From 22d2f8e9f0cae9b29719d932ca0bed50c5ab4957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:52 +0000
Subject: [PATCH 41/42] fix: a parallel run returns without results, and with
 its threads still running, when a thread cannot be created

---
 JSONQuery/parallel_automata_execution.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 6de6091..eb7278b 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -26,6 +26,7 @@
 typedef struct ThreadInfo{
     pthread_t thread;
     int thread_id;
+    int has_thread;   //whether the chunk is processed by a thread of its own
     char* input_stream;
     double execution_time;
     WorkerAutomaton* worker_automaton;
@@ -389,15 +390,16 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
         else 
             ti[i].worker_automaton = createWorkerAutomaton(qa, i, ct);
         int rc=pthread_create(&ti[i].thread, NULL, main_thread, &ti[i]);  
-    	if (rc)
+        ti[i].has_thread = (rc==0);
+        if (rc)
         {
-            printf("ERROR; return code is %d\n", rc);
-            free(ti);
-            return;
+            //no thread left, process the chunk in the current one
+            printf("WARNING; thread %d cannot be created, return code is %d\n", i, rc);
+            main_thread(&ti[i]);
         }
     }
     for (i = 0; i <num_cores; i++)
-        pthread_join(ti[i].thread, NULL);
+        if(ti[i].has_thread) pthread_join(ti[i].thread, NULL);
     printf("worker automata: finish parallel query processing\n");
     TupleList* tl = combine(ti, num_cores);
     printf("combiner: finish merging 2-tuple lists\n");
-- 
2.43.0


From a58366679e01915beeafb396329d0c6478fb8497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:15 +0000
Subject: [PATCH 42/42] fix: array positions that do not fit into an int, such
 as the upper bound of [1:4294967296], select nothing

---
 DFABuilder/src/dfa_builder.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index 8a4e77e..e51f674 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -37,6 +37,13 @@ static char* str_copy(const char* src) {
     return buffer;
 }
 
+// array positions beyond the range of int are never reached
+static int array_bound(double number) {
+    if (number >= INT_MAX) return INT_MAX;
+    if (number <= INT_MIN) return INT_MIN;
+    return number;
+}
+
 struct StackElement {
     SEType stype;
     union {
@@ -241,9 +248,9 @@ struct StackContext {
                 // [start:end]
                 case jnt_range: {
                     int begin, end;
-                    if (p->left) begin = p->left->number;
+                    if (p->left) begin = array_bound(p->left->number);
                     else begin = INT_MIN;
-                    if (p->right) end = p->right->number;
+                    if (p->right) end = array_bound(p->right->number);
                     else end = INT_MAX;
                     // {0, 0} stands for a state without indexes
                     if (begin == 0 && end == 0) begin = 1;
@@ -254,10 +261,11 @@ struct StackContext {
                 }
                 // [index]
                 case jnt_number: {
-                    int begin = p->number;
-                    push({set_array_index, begin, begin+1});
+                    int begin = array_bound(p->number);
+                    int end = begin==INT_MAX ? INT_MAX : begin+1;
+                    push({set_array_index, begin, end});
                     create_dfa();
-                    array_range[model->size()-1] = {begin, begin+1};
+                    array_range[model->size()-1] = {begin, end};
                     break;
                 }
                 // [*]
-- 
2.43.0

