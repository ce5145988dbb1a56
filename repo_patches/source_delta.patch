From b2f21924dfab8edb7c47fe0f6e50daff64d5fb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 01/60] fix: do not read past the end of the received bytes
 when parsing a message

---
 src/rtmessage/rtMessage.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/rtmessage/rtMessage.c b/src/rtmessage/rtMessage.c
index 99d9947..357adeb 100644
--- a/src/rtmessage/rtMessage.c
+++ b/src/rtmessage/rtMessage.c
@@ -102,7 +102,7 @@ rtMessage_Clone(rtMessage const message, rtMessage* copy)
 rtError
 rtMessage_FromBytes(rtMessage* message, uint8_t const* bytes, int n)
 {
-  (void) n;
+  char* text;
 
   #if 0
   printf("------------------------------------------\n")
@@ -120,7 +120,18 @@ rtMessage_FromBytes(rtMessage* message, uint8_t const* bytes, int n)
   *message = (rtMessage) rt_try_malloc(sizeof(struct _rtMessage));
   if(!*message)
     return rtErrorFromErrno(ENOMEM);
-  (*message)->json = cJSON_Parse((char *) bytes);
+  /* the bytes come from a receive buffer, which is not null terminated */
+  text = (char *) rt_try_malloc((size_t) n + 1);
+  if(!text)
+  {
+    free(*message);
+    *message = NULL;
+    return rtErrorFromErrno(ENOMEM);
+  }
+  memcpy(text, bytes, (size_t) n);
+  text[n] = '\0';
+  (*message)->json = cJSON_Parse(text);
+  free(text);
   if (!(*message)->json)
   {
     free(*message);
-- 
2.43.0


From 0b419888aa812fc2c51504d53241f3daadab1487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 02/60] fix: compare byte values over their common length only

---
 src/rbus/rbus_value.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index d95405e..8a10e31 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -940,7 +940,8 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
     }
     case RBUS_BYTES:
     {
-        int c = memcmp(v1->d.bytes->data, v2->d.bytes->data, v1->d.bytes->posWrite);
+        int c = memcmp(v1->d.bytes->data, v2->d.bytes->data,
+            v1->d.bytes->posWrite < v2->d.bytes->posWrite ? v1->d.bytes->posWrite : v2->d.bytes->posWrite);
         if(v1->d.bytes->posWrite < v2->d.bytes->posWrite && c == 0)
             c = -1;
         else if(v1->d.bytes->posWrite > v2->d.bytes->posWrite && c == 0)
-- 
2.43.0


From 5ea7029822b14dab8257280bf16c582f29b2f07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 03/60] fix: two different date-times are not equal

---
 src/rbus/rbus_value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 8a10e31..3d8c708 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -950,7 +950,7 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
     }
     case RBUS_DATETIME:
     {
-        if(memcmp(rbusValue_GetTime(v1), rbusValue_GetTime(v2), sizeof(rbusDateTime_t)))
+        if(memcmp(rbusValue_GetTime(v1), rbusValue_GetTime(v2), sizeof(rbusDateTime_t)) == 0)
             return 0;
 
         /*apply timezone and diff the times*/
-- 
2.43.0


From 430f0a2f34426ebc5befbe99d32c6401ac30f32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 04/60] fix: order date-times by the instant they denote

---
 src/rbus/rbus_value.c | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 3d8c708..fa74f7a 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -957,19 +957,12 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
         rbusDateTime_t dt1 = *rbusValue_GetTime(v1);
         rbusDateTime_t dt2 = *rbusValue_GetTime(v2);
 
-        dt1.m_time.tm_hour += (dt1.m_tz.m_isWest ? dt1.m_tz.m_tzhour * -1 : dt1.m_tz.m_tzhour);
-        dt1.m_time.tm_min += (dt1.m_tz.m_isWest ? dt1.m_tz.m_tzmin * -1 : dt1.m_tz.m_tzmin);
-        if(dt1.m_time.tm_min < 0)
-            dt1.m_time.tm_min += 60;
-        if(dt1.m_time.tm_min >= 60)
-            dt1.m_time.tm_min -= 60;
-
-        dt2.m_time.tm_hour += (dt2.m_tz.m_isWest ? dt2.m_tz.m_tzhour * -1 : dt2.m_tz.m_tzhour);
-        dt2.m_time.tm_min += (dt2.m_tz.m_isWest ? dt2.m_tz.m_tzmin * -1 : dt2.m_tz.m_tzmin);
-        if(dt2.m_time.tm_min < 0)
-            dt2.m_time.tm_min += 60;
-        if(dt2.m_time.tm_min >= 60)
-            dt2.m_time.tm_min -= 60;
+        /*west of GMT is behind it; mktime normalises the fields*/
+        dt1.m_time.tm_hour += (dt1.m_tz.m_isWest ? dt1.m_tz.m_tzhour : dt1.m_tz.m_tzhour * -1);
+        dt1.m_time.tm_min += (dt1.m_tz.m_isWest ? dt1.m_tz.m_tzmin : dt1.m_tz.m_tzmin * -1);
+
+        dt2.m_time.tm_hour += (dt2.m_tz.m_isWest ? dt2.m_tz.m_tzhour : dt2.m_tz.m_tzhour * -1);
+        dt2.m_time.tm_min += (dt2.m_tz.m_isWest ? dt2.m_tz.m_tzmin : dt2.m_tz.m_tzmin * -1);
 
         struct tm t1m, t2m;
         rbusValue_UnMarshallRBUStoTM(&t1m, &dt1);
-- 
2.43.0


From 5deaf48e864062f10db986d0d78b85b693e4942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 05/60] fix: compare integers exactly instead of as doubles

---
 src/rbus/rbus_value.c | 58 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index fa74f7a..f3a05f2 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -869,6 +869,50 @@ void rbusValue_Encode(rbusValue_t value, rbusBuffer_t buff)
     }
 }
 
+/*returns true if the integer is negative; out is its two's complement*/
+static bool rbusValue_CoerceIntegerToUInt64(rbusValue_t v, uint64_t* out)
+{
+    int64_t i;
+    switch(v->type)
+    {
+    case RBUS_BOOLEAN:
+        *out = rbusValue_GetBoolean(v);
+        return false;
+    case RBUS_BYTE:
+        *out = rbusValue_GetByte(v);
+        return false;
+    case RBUS_UINT8:
+        *out = rbusValue_GetUInt8(v);
+        return false;
+    case RBUS_UINT16:
+        *out = rbusValue_GetUInt16(v);
+        return false;
+    case RBUS_UINT32:
+        *out = rbusValue_GetUInt32(v);
+        return false;
+    case RBUS_UINT64:
+        *out = rbusValue_GetUInt64(v);
+        return false;
+    case RBUS_CHAR:
+        i = rbusValue_GetChar(v);
+        break;
+    case RBUS_INT8:
+        i = rbusValue_GetInt8(v);
+        break;
+    case RBUS_INT16:
+        i = rbusValue_GetInt16(v);
+        break;
+    case RBUS_INT32:
+        i = rbusValue_GetInt32(v);
+        break;
+    default:
+        i = rbusValue_GetInt64(v);
+        break;
+    }
+    *out = (uint64_t)i;
+    return i < 0;
+}
+
 static double rbusValue_CoerceNumericToDouble(rbusValue_t v)
 {
     switch(v->type)
@@ -910,6 +954,20 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
     if((!v1)||(!v2))
         return -1;
 
+    /*64 bit integers do not fit a double: compare integers as integers*/
+    if(v1->type <= RBUS_UINT64 && v2->type <= RBUS_UINT64)
+    {
+        uint64_t u1, u2;
+        bool neg1 = rbusValue_CoerceIntegerToUInt64(v1, &u1);
+        bool neg2 = rbusValue_CoerceIntegerToUInt64(v2, &u2);
+
+        if(neg1 != neg2)
+            return neg1 ? -1 : 1;
+        if(u1 == u2)
+            return 0;
+        return u1 < u2 ? -1 : 1;
+    }
+
     /*compare integral values being type insensitive*/
     if(v1->type <= RBUS_DOUBLE && v2->type <= RBUS_DOUBLE)
     {
-- 
2.43.0


From 4d30958f6575ad51391520322041c08bf8f4474c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 06/60] fix: do not take uninitialised fields into a parsed
 date-time

---
 src/rbus/rbus_value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index f3a05f2..6609753 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -1290,7 +1290,7 @@ bool rbusValue_SetFromString(rbusValue_t value, rbusValueType_t type, const char
         }
     case RBUS_DATETIME:
         {
-            struct tm tv;
+            struct tm tv = {0};
             rbusDateTime_t tvm = {{0},{0}};
             if(0 != strncmp(pStringInput,"0000-",5)) {
                 char *pRet = NULL;
-- 
2.43.0


From 4ac3f47176c0919422aa7d0af99c39b3c5d04360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 07/60] fix: rbusValue_ToString writes byte values within the
 given buffer

---
 src/rbus/rbus_value.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 6609753..682fc1c 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -242,8 +242,8 @@ char* rbusValue_ToString(rbusValue_t v, char* buf, size_t buflen)
                 n = v->d.bytes->posWrite;
             break;
         case RBUS_BYTES:
-            if(n > v->d.bytes->posWrite + 1)
-                n = v->d.bytes->posWrite + 1;
+            if(n > (2 * v->d.bytes->posWrite) + 1)
+                n = (2 * v->d.bytes->posWrite) + 1;
             break;
         default:
             break;
@@ -316,9 +316,10 @@ char* rbusValue_ToString(rbusValue_t v, char* buf, size_t buflen)
     case RBUS_BYTES:
     {
         int i = 0;
-        for (i = 0; i < v->d.bytes->posWrite; i++)
+        if(n > 0)
+            p[0] = 0;
+        for (i = 0; i < v->d.bytes->posWrite && (2 * i) + 3 <= n; i++)
             sprintf (&p[i * 2], "%02X", v->d.bytes->data[i]);
-        p[2 * v->d.bytes->posWrite] = 0;
         break;
     }
     case RBUS_BOOLEAN:
-- 
2.43.0


From d245129e8b560d219351d772f1774db9a9d71959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 08/60] fix: retain the new element before releasing the list
 that may hold it

---
 src/rbus/rbus_object.c   | 13 +++++++------
 src/rbus/rbus_property.c |  9 +++++----
 src/rbus/rbus_value.c    |  2 +-
 3 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/rbus/rbus_object.c b/src/rbus/rbus_object.c
index 68cef82..9c4914b 100644
--- a/src/rbus/rbus_object.c
+++ b/src/rbus/rbus_object.c
@@ -263,11 +263,12 @@ rbusProperty_t rbusObject_GetProperties(rbusObject_t object)
 void rbusObject_SetProperties(rbusObject_t object, rbusProperty_t properties)
 {
     VERIFY_NULL(object);
+    /*retain first: properties can be held by the list that is released*/
+    if(properties)
+        rbusProperty_Retain(properties);
     if(object->properties)
         rbusProperty_Release(object->properties);
     object->properties = properties;
-    if(object->properties)
-        rbusProperty_Retain(object->properties);
 }
 
 rbusProperty_t rbusObject_GetProperty(rbusObject_t object, char const* name)
@@ -413,11 +414,11 @@ rbusObject_t rbusObject_GetChildren(rbusObject_t object)
 void rbusObject_SetChildren(rbusObject_t object, rbusObject_t children)
 {
     VERIFY_NULL(object);
+    if(children)
+        rbusObject_Retain(children);
     if(object->children)
         rbusObject_Release(object->children);
     object->children = children;
-    if(object->children)
-        rbusObject_Retain(object->children);
 }
 
 rbusObject_t rbusObject_GetNext(rbusObject_t object)
@@ -430,11 +431,11 @@ rbusObject_t rbusObject_GetNext(rbusObject_t object)
 void rbusObject_SetNext(rbusObject_t object, rbusObject_t next)
 {
     VERIFY_NULL(object);
+    if(next)
+        rbusObject_Retain(next);
     if(object->next)
         rbusObject_Release(object->next);
     object->next = next;
-    if(object->next)
-        rbusObject_Retain(object->next);
 }
 
 rbusObjectType_t rbusObject_GetType(rbusObject_t object)
diff --git a/src/rbus/rbus_property.c b/src/rbus/rbus_property.c
index 368de22..d7bd178 100644
--- a/src/rbus/rbus_property.c
+++ b/src/rbus/rbus_property.c
@@ -170,11 +170,11 @@ rbusValue_t rbusProperty_GetValue(rbusProperty_t property)
 void rbusProperty_SetValue(rbusProperty_t property, rbusValue_t value)
 {
     VERIFY_NULL(property);
+    if(value)
+        rbusValue_Retain(value);
     if(property->value)
         rbusValue_Release(property->value);
     property->value = value;
-    if(property->value)
-        rbusValue_Retain(property->value);
 }
 
 rbusProperty_t rbusProperty_GetNext(rbusProperty_t property)
@@ -185,11 +185,12 @@ rbusProperty_t rbusProperty_GetNext(rbusProperty_t property)
 void rbusProperty_SetNext(rbusProperty_t property, rbusProperty_t next)
 {
     VERIFY_NULL(property);
+    /*retain first: next can be held by the list that is released*/
+    if(next)
+        rbusProperty_Retain(next);
     if(property->next)
         rbusProperty_Release(property->next);
     property->next = next;
-    if(property->next)
-        rbusProperty_Retain(property->next);
 }
 
 void rbusProperty_Append(rbusProperty_t property, rbusProperty_t back)
diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 682fc1c..6f90f0f 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -1064,9 +1064,9 @@ int rbusValue_Compare(rbusValue_t v1, rbusValue_t v2)
 
 void rbusValue_SetPointer(rbusValue_t* value1, rbusValue_t value2)
 {
+    rbusValue_Retain(value2);
     rbusValue_Release(*value1);
     *value1 = value2;
-    rbusValue_Retain(*value1);
 }
 
 void rbusValue_Swap(rbusValue_t* v1, rbusValue_t* v2)
-- 
2.43.0


From ccae75ad025b959f5de8c4b759b26d52e3df98a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 09/60] fix: bound the number of tokens and characters of a
 topic in the routing tree

A topic of more than 32 levels, or an expression of 33 levels, wrote past the
token arrays; the broker is one message away from memory corruption.
---
 src/rtmessage/rtRoutingTree.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index 84230ab..8e8d780 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -126,13 +126,14 @@ static int validateExpression(const char* expr)
 	       result = -1;
 	       break;
 	    }
-	    token_count++;
+	    if(*(expr + 1))
+	        token_count++;
 	}
         token_length++;
         expr++;	
     }
 
-    if((token_length > MAX_TOKEN_BUFFER_SIZE) || (token_count > MAX_TOKENS))
+    if((token_length >= MAX_TOKEN_BUFFER_SIZE) || (token_count >= MAX_TOKENS))
     {
         result = -1;
     }
@@ -146,8 +147,12 @@ static void tokenizeExpression(const char* expression)
     const char* from = expression;
     char* to = workBuffer;
     workTokenCount = 0;
+    if(strlen(expression) >= MAX_TOKEN_BUFFER_SIZE)
+        return;
     while(*from)
     {
+        if(i == MAX_TOKENS)
+            return;
         workTokens[i].name = to;
         
         while(*from && *from != '.')
-- 
2.43.0


From a53466a645385ac471e5d63cda67e7549a562838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 10/60] fix: removing an alias only removes the route of the
 client that asks

Any client could remove any address, the addresses below a removed one were
lost with it whoever owned them, and the routes kept for partial paths went
stale.
---
 src/rtmessage/rtRoutingTree.c | 119 +++++++++++++++++++---------------
 src/rtmessage/rtRoutingTree.h |   4 +-
 src/rtmessage/rtrouted.c      |   7 +-
 3 files changed, 76 insertions(+), 54 deletions(-)

diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index 8e8d780..78bb85b 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -166,37 +166,7 @@ static void tokenizeExpression(const char* expression)
     workTokenCount = i;
 }
 
-static void removeTopicFromRoutes(rtRoutingTree rt, rtTreeTopic* topic)
-{
-    rtListItem childItem;
-    rtTreeTopic* childTopic;
-    rtListItem routeItem;
-    rtTreeRoute* route;
-    size_t size;
-    rtList_GetFront(topic->routeList, &routeItem);
-    while(routeItem)
-    {
-        rtListItem_GetData(routeItem, (void**)&route);
-
-        rtList_RemoveItemByCompare(route->topicList, topic, rtList_ComparePointer, NULL);
-        /*if the route's topicList has become empty, then remove the whole route*/
-        rtList_GetSize(route->topicList, &size);
-        if(size == 0)
-            rtList_RemoveItemByCompare(rt->routeList, route, rtList_ComparePointer, freeTreeRoute);
-
-        rtListItem_GetNext(routeItem, &routeItem);
-    }
-
-    rtList_GetFront(topic->childList, &childItem);
-    while(childItem)
-    {
-        rtListItem_GetData(childItem, (void**)&childTopic);
-        removeTopicFromRoutes(rt, childTopic);
-        rtListItem_GetNext(childItem, &childItem);
-    }
-}
-
-static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const char* name, int create, int* created, int *error, int remove)
+static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const char* name, int create, int* created, int *error)
 {
     rtListItem item;
 
@@ -210,13 +180,6 @@ static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const
         rtListItem_GetData(item, (void**)&treeTopic);
         if(strcmp(treeTopic->name, name) == 0)
         {
-            /* we can remove if its an exact match*/
-            if(remove)
-            {
-              removeTopicFromRoutes(rt, treeTopic);
-              rtList_RemoveItem(parent->childList, item, freeTreeTopic);
-              return NULL;
-            }
             return treeTopic;
         }
         /* if a query contains a row instance id, a square bracket alias, or wildcard * 
@@ -233,8 +196,6 @@ static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const
         */
         else if(treeTopic->name[0] == '{' && (isdigit(name[0]) || name[0] == '[' || name[0] == '*'))
         {
-            /* note that we don't handle the remove flag here because you should never create or remove instance ids themselves in the tree
-               however, as a safeguard we only do remove in the above branch when name is an exact match*/
             return treeTopic;
         }
         /* Registration of property element as sibling to a table and vice versa not supported as per TR369/TR181 standard.*/
@@ -512,7 +473,7 @@ rtError rtRoutingTree_AddTopicRoute(rtRoutingTree rt, const char* topicPath, con
     int error = 0;
     for(i = 0; i < workTokenCount; ++i)
     {
-        topic = getChildByName(rt, topic, workTokens[i].name, 1/*create missing topic*/, &isCreated, &error, 0);
+        topic = getChildByName(rt, topic, workTokens[i].name, 1/*create missing topic*/, &isCreated, &error);
         if (error)
         {
             rtLog_Debug("Rejecting data registraion as per standard");
@@ -553,7 +514,7 @@ void rtRoutingTree_GetTopicRoutes(rtRoutingTree rt, const char* topic, rtList* r
 
     for(i = 0; i < workTokenCount; ++i)
     {
-        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL, 0);
+        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL);
 
         if(!treeTopic)
             return;
@@ -617,7 +578,7 @@ void rtRoutingTree_GetTopicRoutes(rtRoutingTree rt, const char* topic, rtList* r
           However, "Foo" doesn't have the route.  "Foo.{i}" has the route we want.
           So we need to search for the "{i}" child here and use its route.
         */
-        rtTreeTopic* curlyChild = getChildByName(rt, treeTopic, "{i}", 0, NULL, NULL, 0);
+        rtTreeTopic* curlyChild = getChildByName(rt, treeTopic, "{i}", 0, NULL, NULL);
         if(curlyChild)
         {
           *routes = curlyChild->routeList;
@@ -661,24 +622,80 @@ void rtRoutingTree_RemoveRoute(rtRoutingTree rt, const void* route)
     rtList_RemoveItem(rt->routeList, routeItem, freeTreeRoute);
 }
 
-void rtRoutingTree_RemoveTopic(rtRoutingTree rt, const char* topic)
+/*Does any child of the topic, at any depth, still have the route*/
+static int isRouteBelowTopic(rtTreeTopic* topic, const rtTreeRoute* route)
+{
+    rtListItem item = NULL;
+
+    if(!topic->childList)
+        return 0;
+
+    rtList_GetFront(topic->childList, &item);
+    while(item)
+    {
+        rtTreeTopic* child;
+        rtListItem_GetData(item, (void**)&child);
+        if((child->routeList && rtList_HasItem(child->routeList, route, rtList_ComparePointer)) || 
+           isRouteBelowTopic(child, route))
+            return 1;
+        rtListItem_GetNext(item, &item);
+    }
+    return 0;
+}
+
+void rtRoutingTree_RemoveTopicRoute(rtRoutingTree rt, const char* topicPath, const void* routeData)
 {
     int i;
-    rtTreeTopic* treeTopic = rt->topicRoot;
+    rtTreeTopic* topic = rt->topicRoot;
+    rtTreeRoute* route;
 
-    rtLog_Debug("%s topic=%s", __FUNCTION__, topic);
+    rtLog_Debug("%s topic=%s route=%p", __FUNCTION__, topicPath, routeData);
 
-    tokenizeExpression(topic);
+    route = getTreeRoute(rt, routeData, NULL);
+    if(!route)
+        return;
+
+    tokenizeExpression(topicPath);
     if(workTokenCount == 0)
         return;
 
     for(i = 0; i < workTokenCount; ++i)
     {
-        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL, i == workTokenCount-1);
-
-        if(!treeTopic)
+        topic = getChildByName(rt, topic, workTokens[i].name, 0, NULL, NULL);
+        if(!topic)
             return;
     }
+
+    /* only an exact match is removed: instance ids and aliases are never registered in the tree themselves */
+    if(strcmp(topic->name, workTokens[workTokenCount-1].name) != 0 ||
+       !topic->routeList || !rtList_HasItem(topic->routeList, route, rtList_ComparePointer))
+        return;
+
+    while(rtList_HasItem(topic->routeList, route, rtList_ComparePointer))
+        rtList_RemoveItemByCompare(topic->routeList, route, rtList_ComparePointer, NULL);
+    rtList_RemoveItemByCompare(route->topicList, topic, rtList_ComparePointer, NULL);
+
+    /* go up to the root: drop the topics nobody needs any more and the route from the topics it is not below any more */
+    while(topic->parent)
+    {
+        rtTreeTopic* parent = topic->parent;
+        size_t numChildren = 0;
+        size_t numRoutes = 0;
+
+        if(topic->childList)
+            rtList_GetSize(topic->childList, &numChildren);
+        if(topic->routeList)
+            rtList_GetSize(topic->routeList, &numRoutes);
+        if(topic->routeList2 && !isRouteBelowTopic(topic, route))
+            rtList_RemoveItemByCompare(topic->routeList2, route, rtList_ComparePointer, NULL);
+        if(numChildren == 0 && numRoutes == 0)
+        {
+            if(topic->name[0] == '{')
+                parent->isTable = 0;
+            rtList_RemoveItemByCompare(parent->childList, topic, rtList_ComparePointer, freeTreeTopic);
+        }
+        topic = parent;
+    }
 }
 
 void rtRoutingTree_ResolvePartialPath(rtRoutingTree rt, const char* partialPath, rtList topics)
@@ -692,7 +709,7 @@ void rtRoutingTree_ResolvePartialPath(rtRoutingTree rt, const char* partialPath,
 
     for(i = 0; i < workTokenCount; ++i)
     {
-        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL, 0);
+        treeTopic = getChildByName(rt, treeTopic, workTokens[i].name, 0, NULL, NULL);
         
         if(!treeTopic)
             return;
diff --git a/src/rtmessage/rtRoutingTree.h b/src/rtmessage/rtRoutingTree.h
index 1ba21a1..b7379c2 100644
--- a/src/rtmessage/rtRoutingTree.h
+++ b/src/rtmessage/rtRoutingTree.h
@@ -39,7 +39,7 @@ rtRoutingTree:
             rtRoutingTree_GetTopicRoutes        <= rtree_lookup_value
             rtRoutingTree_ResolvePartialPath    <= rtree_get_uniquely_resolvable_endpoints_for_expression
             rtRoutingTree_RemoveRoute           <= rtree_remove_nodes_matching_value
-            rtRoutingTree_RemoveTopic           <= rtree_remove_value
+            rtRoutingTree_RemoveTopicRoute      <= rtree_remove_value
             rtRoutingTree_LogStats              <= rtree_get_stats
             rtRoutingTree_LogTopicTree          <= rtree_traverse_and_log
         API new functions:
@@ -157,7 +157,7 @@ rtError rtRoutingTree_AddTopicRoute(rtRoutingTree rt, const char* topic, const v
 void rtRoutingTree_GetTopicRoutes(rtRoutingTree rt, const char* topic, rtList* routes);
 void rtRoutingTree_GetRouteTopics(rtRoutingTree rt, const void* route, rtList* topics);
 void rtRoutingTree_RemoveRoute(rtRoutingTree rt, const void* route);
-void rtRoutingTree_RemoveTopic(rtRoutingTree rt, const char* topic);
+void rtRoutingTree_RemoveTopicRoute(rtRoutingTree rt, const char* topic, const void* route);
 void rtRoutingTree_ResolvePartialPath(rtRoutingTree rt, const char* partialPath, rtList topics);
 void rtRoutingTree_LogStats(rtRoutingTree rt);
 void rtRoutingTree_LogTopicTree(rtRoutingTree rt);
diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 6c3b96b..f34131d 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -805,7 +805,12 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
         {
           //Not a route. Is it an alias?
           rtLog_Debug("Removing alias %s", expression);
-          rtRoutingTree_RemoveTopic(gRoutingTree, expression);
+          for (i = 0; i < rtVector_Size(gRoutes); i++)
+          {
+            rtRouteEntry* route = (rtRouteEntry *) rtVector_At(gRoutes, i);
+            if(route->subscription && (route->subscription->client == sender))
+              rtRoutingTree_RemoveTopicRoute(gRoutingTree, expression, (void *)route);
+          }
         }
       }
     }
-- 
2.43.0


From cbc269a99849ab6183016907478821db52594c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 11/60] fix: an address that is not registered does not resolve
 to a sibling of the table row

---
 src/rtmessage/rtRoutingTree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index 78bb85b..f81b5f1 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -199,7 +199,7 @@ static rtTreeTopic* getChildByName(rtRoutingTree rt, rtTreeTopic* parent, const
             return treeTopic;
         }
         /* Registration of property element as sibling to a table and vice versa not supported as per TR369/TR181 standard.*/
-        else if (treeTopic->name[0] == '{' || name[0] == '{')
+        else if (create && (treeTopic->name[0] == '{' || name[0] == '{'))
         {
             if (error)
             {
-- 
2.43.0


From 2230675118c9b15d477dace034076b07bfc99c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 12/60] fix: forget that a topic was a table when the table is
 gone

---
 src/rtmessage/rtRoutingTree.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index f81b5f1..d9fb16b 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -311,6 +311,8 @@ static void removeRouteFromTopicTree(rtRoutingTree rt, rtTreeTopic* treeTopic, r
         rtListItem_GetNext(childItem, &next);
         if(numChildren == 0 && numRoutes == 0)
         {
+            if(child->name[0] == '{')
+                treeTopic->isTable = 0;
             rtList_RemoveItem(treeTopic->childList, childItem, freeTreeTopic);
         }/*
         else if(numRoutes == 0 && numRoutes2 > 0)
-- 
2.43.0


From acccfaab58570693555d37e9908d4fcb8332655a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 13/60] fix: a name without owner can be registered again while
 names below it exist

The empty route list left behind by the former owner was taken for a duplicate.
A route is also kept only once per topic, so that none is left when it goes.
---
 src/rtmessage/rtRoutingTree.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rtmessage/rtRoutingTree.c b/src/rtmessage/rtRoutingTree.c
index d9fb16b..9d74d4a 100644
--- a/src/rtmessage/rtRoutingTree.c
+++ b/src/rtmessage/rtRoutingTree.c
@@ -448,6 +448,7 @@ rtError rtRoutingTree_AddTopicRoute(rtRoutingTree rt, const char* topicPath, con
     int i;
     rtTreeTopic* topic = rt->topicRoot;
     rtTreeRoute* route;
+    size_t numRoutes = 0;
 
     rtLog_Debug("%s: %s", __FUNCTION__, topicPath);
     
@@ -483,7 +484,10 @@ rtError rtRoutingTree_AddTopicRoute(rtRoutingTree rt, const char* topicPath, con
         }
     }
 
-    if (err_on_dup && (0 == isCreated) && (topic->routeList) && (0 != strcmp (topicPath, "_RTROUTED.ADVISORY")))
+    if(topic->routeList)
+        rtList_GetSize(topic->routeList, &numRoutes);
+
+    if (err_on_dup && (0 == isCreated) && (numRoutes > 0) && (0 != strcmp (topicPath, "_RTROUTED.ADVISORY")))
     {
         /* Controlled Error log will be printed in rtrouted */
         rtLog_Debug("Rejecting a duplicate registraion");
@@ -493,7 +497,7 @@ rtError rtRoutingTree_AddTopicRoute(rtRoutingTree rt, const char* topicPath, con
     if(!topic->routeList)
         rtList_Create(&topic->routeList);
 
-    rtList_PushBack(topic->routeList, route, NULL);
+    addPointerToListOnce(topic->routeList, route);
 
     addPointerToListOnce(route->topicList, topic);
 
-- 
2.43.0


From 36cb1be2e0a9537800290a64a2a23cd5508dd2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:14 +0000
Subject: [PATCH 14/60] fix: a client that announces impossible message lengths
 is disconnected instead of overflowing the read buffer

---
 src/rtmessage/rtrouteBase.c | 10 ++++++++++
 src/rtmessage/rtrouted.c    | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/rtmessage/rtrouteBase.c b/src/rtmessage/rtrouteBase.c
index 5f8bd67..062ffda 100644
--- a/src/rtmessage/rtrouteBase.c
+++ b/src/rtmessage/rtrouteBase.c
@@ -387,6 +387,11 @@ rtConnectedClient_Read(rtConnectedClient* clnt, rtRouteEntry* myDirectRoute)
           break;
         }
         rtEncoder_DecodeUInt16(&itr, &header_length);
+        if((header_length <= RTMESSAGEHEADER_PREAMBLE_LENGTH) || (header_length > clnt->read_buffer_capacity))
+        {
+          rtLog_Warn("Bad header length %u in message from %s", header_length, clnt->ident);
+          return RT_ERROR;
+        }
         clnt->bytes_to_read += (header_length - RTMESSAGEHEADER_PREAMBLE_LENGTH);
         clnt->state = rtConnectionState_ReadHeader;
       }
@@ -407,6 +412,11 @@ rtConnectedClient_Read(rtConnectedClient* clnt, rtRouteEntry* myDirectRoute)
         if(clnt->header.flags & rtMessageFlags_Tainted)
           clock_gettime(CLOCK_MONOTONIC, &g_entry_exit_timestamps[g_timestamp_index][0]);
 #endif
+        if(clnt->header.payload_length > (uint32_t)(INT32_MAX - clnt->bytes_to_read - clnt->bytes_read))
+        {
+          rtLog_Warn("Bad payload length %u in message from %s", clnt->header.payload_length, clnt->ident);
+          return RT_ERROR;
+        }
         clnt->bytes_to_read += clnt->header.payload_length;
         clnt->state = rtConnectionState_ReadPayload;
         int incoming_data_size = clnt->bytes_to_read + clnt->bytes_read;
diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index f34131d..18955cd 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -1571,6 +1571,11 @@ rtConnectedClient_Read(rtConnectedClient* clnt)
           break;
         }
         rtEncoder_DecodeUInt16(&itr, &header_length);
+        if((header_length <= RTMESSAGEHEADER_PREAMBLE_LENGTH) || (header_length > clnt->read_buffer_capacity))
+        {
+          rtLog_Warn("Bad header length %u in message from %s", header_length, clnt->ident);
+          return RT_ERROR;
+        }
         clnt->bytes_to_read += (header_length - RTMESSAGEHEADER_PREAMBLE_LENGTH);
         clnt->state = rtConnectionState_ReadHeader;
       }
@@ -1591,6 +1596,11 @@ rtConnectedClient_Read(rtConnectedClient* clnt)
         if(clnt->header.flags & rtMessageFlags_Tainted)
           clock_gettime(CLOCK_MONOTONIC, &g_entry_exit_timestamps[g_timestamp_index][0]);
 #endif
+        if(clnt->header.payload_length > (uint32_t)(INT32_MAX - clnt->bytes_to_read - clnt->bytes_read))
+        {
+          rtLog_Warn("Bad payload length %u in message from %s", clnt->header.payload_length, clnt->ident);
+          return RT_ERROR;
+        }
         clnt->bytes_to_read += clnt->header.payload_length;
         clnt->state = rtConnectionState_ReadPayload;
         int incoming_data_size = clnt->bytes_to_read + clnt->bytes_read;
-- 
2.43.0


From 77e52b5b53f2c4ec7b316d97c39a388fc27caa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 15/60] fix: a message without payload does not disconnect its
 sender

---
 src/rtmessage/rtrouteBase.c | 4 +++-
 src/rtmessage/rtrouted.c    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rtmessage/rtrouteBase.c b/src/rtmessage/rtrouteBase.c
index 062ffda..81239d6 100644
--- a/src/rtmessage/rtrouteBase.c
+++ b/src/rtmessage/rtrouteBase.c
@@ -438,8 +438,10 @@ rtConnectedClient_Read(rtConnectedClient* clnt, rtRouteEntry* myDirectRoute)
           }
         }
       }
+      if((clnt->state != rtConnectionState_ReadPayload) || (clnt->bytes_read != clnt->bytes_to_read))
+        break;
     }
-    break;
+    /* fallthrough */ /* no payload follows: the message is complete */
 
     case rtConnectionState_ReadPayload:
     {
diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index 18955cd..da95525 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -1622,8 +1622,10 @@ rtConnectedClient_Read(rtConnectedClient* clnt)
           }
         }
       }
+      if((clnt->state != rtConnectionState_ReadPayload) || (clnt->bytes_read != clnt->bytes_to_read))
+        break;
     }
-    break;
+    /* fallthrough */ /* no payload follows: the message is complete */
 
     case rtConnectionState_ReadPayload:
     {
-- 
2.43.0


From 0be121472b3a12b2da298d40893070bc1594e234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 16/60] fix: the broker does not wait for a payload it has no
 memory for

---
 src/rtmessage/rtrouted.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index da95525..b7d9063 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -1615,10 +1615,8 @@ rtConnectedClient_Read(rtConnectedClient* clnt)
           }
           else
           {
-            rtLog_Info("Couldn't not reallocate read buffer to accommodate %d bytes. Message will be dropped.", incoming_data_size);
-            _rtConnection_ReadAndDropBytes(clnt->fd, clnt->header.payload_length);
-            rtConnectedClient_Reset(clnt);
-            break;
+            rtLog_Warn("Couldn't not reallocate read buffer to accommodate %d bytes. %s will be disconnected.", incoming_data_size, clnt->ident);
+            return rtErrorFromErrno(ENOMEM);
           }
         }
       }
-- 
2.43.0


From b754fdba83d20b2b3742ce75855c86ed3edd1813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 17/60] fix: the broker survives malformed subscribe, hello and
 diagnostics messages

---
 src/rtmessage/rtrouted.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index b7d9063..b767f8a 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -744,7 +744,7 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
   uint32_t route_id = 0;
   uint32_t i = 0;
   int32_t add_subscrption = 0;
-  rtMessage m;
+  rtMessage m = NULL;
   rtMessage response = NULL;
   rtError rc = RT_OK;
 
@@ -820,7 +820,8 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
       rc = RT_ERROR_INVALID_ARG;
     }
   }
-  rtMessage_Release(m);
+  if(m)
+    rtMessage_Release(m);
 
   /* Send Response */
   if(hdr->flags & rtMessageFlags_Request)
@@ -847,7 +848,12 @@ rtRouted_OnMessageHello(rtConnectedClient* sender, rtMessageHeader* hdr, uint8_t
     rtLog_Warn("Sender %s", sender->ident);
     return;
   }
-  rtMessage_GetString(m, "inbox", &inbox);
+  if((RT_OK != rtMessage_GetString(m, "inbox", &inbox)) || (NULL == inbox) || (0 != validate_string(inbox, RTMSG_MAX_EXPRESSION_LEN)))
+  {
+    rtLog_Warn("Bad Hello message from %s", sender->ident);
+    rtMessage_Release(m);
+    return;
+  }
 
   rtSubscription* subscription = (rtSubscription *) rt_malloc(sizeof(rtSubscription));
   subscription->id = 0;
@@ -1160,11 +1166,21 @@ static void
 rtRouted_OnMessageDiagnostics(rtConnectedClient* sender, rtMessageHeader* hdr, uint8_t const* buff, int n)
 {
   rtMessage msg;
-  const char * cmd;
+  const char * cmd = NULL;
 
-  rtMessage_FromBytes(&msg, buff, n);
+  if(RT_OK != rtMessage_FromBytes(&msg, buff, n))
+  {
+    rtLog_Warn("Bad Diagnostics message");
+    rtLog_Warn("Sender %s", sender->ident);
+    return;
+  }
 
-  rtMessage_GetString(msg, RTROUTER_DIAG_CMD_KEY, &cmd);
+  if((RT_OK != rtMessage_GetString(msg, RTROUTER_DIAG_CMD_KEY, &cmd)) || (NULL == cmd))
+  {
+    rtLog_Warn("Bad Diagnostics message from %s", sender->ident);
+    rtMessage_Release(msg);
+    return;
+  }
 
   if(0 == strncmp(RTROUTER_DIAG_CMD_ENABLE_VERBOSE_LOGS, cmd, sizeof(RTROUTER_DIAG_CMD_ENABLE_VERBOSE_LOGS)))
     rtLog_SetLevel(RT_LOG_DEBUG);
-- 
2.43.0


From dbb26f7a58ba8b5bded4dc4247234b3f0d642c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 18/60] fix: an answer addressed to the broker itself has no
 client to go to

---
 src/rtmessage/rtrouted.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index b767f8a..c48cee9 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -500,7 +500,7 @@ rtRouted_SendMessage(rtMessageHeader * request_hdr, rtMessage message, rtConnect
       rtListItem_GetData(item, (void**)&treeRoute);
       rtListItem_GetNext(item, &item);
       route = treeRoute->route;
-      if(route)
+      if(route && route->subscription)
       {
         rtLog_Debug("SendMessage topic=%s expression=%s", request_hdr->topic, route->expression);
         found_dest = 1;
-- 
2.43.0


From 8b8b7c594b341eb07ba308d26508fd008d68f90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 19/60] fix: the direct server survives a malformed subscribe
 message

---
 src/rtmessage/rtrouteBase.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rtmessage/rtrouteBase.c b/src/rtmessage/rtrouteBase.c
index 81239d6..73efa5a 100644
--- a/src/rtmessage/rtrouteBase.c
+++ b/src/rtmessage/rtrouteBase.c
@@ -214,9 +214,13 @@ _rtdirect_OnMessage(rtConnectedClient* sender, rtMessageHeader* hdr, uint8_t con
     uint32_t route_id = 0;
     int32_t add_subscrption = 0;
 
-    rtMessage_FromBytes(&m, buff, n);
+    if(RT_OK != rtMessage_FromBytes(&m, buff, n))
+    {
+      rtLog_Warn("Bad Subscribe message from %s", sender->ident);
+      return RT_OK;
+    }
     if((RT_OK == rtMessage_GetInt32(m, "add", &add_subscrption)) &&
-       (RT_OK == rtMessage_GetString(m, "topic", &expression)) &&
+       (RT_OK == rtMessage_GetString(m, "topic", &expression)) && (NULL != expression) &&
        (RT_OK == rtMessage_GetInt32(m, "route_id", (int32_t *)&route_id)))
     {
       if(1 == add_subscrption)
-- 
2.43.0


From c7b3ae79bbe1b52b9a23d497cf16d5d1604548bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 20/60] fix: the direct server keeps its client when another
 one connects and closes it when done

---
 src/rtmessage/rtrouteBase.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/rtmessage/rtrouteBase.c b/src/rtmessage/rtrouteBase.c
index 73efa5a..ee6bd44 100644
--- a/src/rtmessage/rtrouteBase.c
+++ b/src/rtmessage/rtrouteBase.c
@@ -650,11 +650,21 @@ rtRouteDirect_StartInstance(const char* socket_name, rtDriectClientHandler messa
 
     if (FD_ISSET(myDirectListener->fd, &read_fds))
     {
+      rtConnectedClient* newClient = rtRouteDirect_AcceptClientConnection(myDirectListener);
       rtLog_Debug("This should be called only once as there should be only one client");
-      myDirectClient = rtRouteDirect_AcceptClientConnection(myDirectListener);
+      if (!myDirectClient)
+        myDirectClient = newClient;
+      else if (newClient)
+      {
+        rtLog_Warn("Only one client can use the direct connection; refusing %s", newClient->ident);
+        close(newClient->fd);
+        free(newClient->read_buffer);
+        free(newClient->send_buffer);
+        free(newClient);
+      }
     }
 
-    if (FD_ISSET(myDirectClient->fd, &read_fds))
+    if (myDirectClient && FD_ISSET(myDirectClient->fd, &read_fds))
     {
       rtError err = rtConnectedClient_Read(myDirectClient, route);
       if (err != RT_OK)
@@ -665,6 +675,7 @@ rtRouteDirect_StartInstance(const char* socket_name, rtDriectClientHandler messa
     }
   }
 
+  close(myDirectClient->fd);
   free(myDirectClient->read_buffer);
   free(myDirectClient->send_buffer);
   free(myDirectClient);
-- 
2.43.0


From 144425a7cea6e6225335cde9b578c79a2347c363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 21/60] fix: a request that timed out leaves the pending list
 under the connection mutex

---
 src/rtmessage/rtConnection.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index 142fba0..c72790f 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -1050,7 +1050,7 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
         else if(err == RT_NO_CONNECTION)
         {
           ret = err;
-          goto dequeue_and_continue;
+          break;
         }
         else
         {
@@ -1060,11 +1060,10 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
         }
       } while(RT_OK == err);
     }
+    pthread_mutex_lock(&con->mutex);
     if(RT_OK == ret)
     {
       /*Sem posted*/
-      pthread_mutex_lock(&con->mutex);
-
       if(queue_entry.response)
       {
         if(queue_entry.response->header.flags & rtMessageFlags_Undeliverable)
@@ -1086,6 +1085,11 @@ rtConnection_SendRequestInternal(rtConnection con, uint8_t const* pReq, uint32_t
         ret = RT_ERROR;
       }
     }
+    else if(queue_entry.response)
+    {
+      /*The response came in just after we gave up*/
+      rtMessageInfo_Release(queue_entry.response);
+    }
 
 dequeue_and_continue:
     rtList_RemoveItem(con->pending_requests_list, listItem, NULL);
-- 
2.43.0


From dd81f33044239dfefd7d63280f8fceed9351dbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 22/60] fix: a send that finds the reconnect already done takes
 its result instead of retrying forever

---
 src/rtmessage/rtConnection.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index c72790f..62a414d 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -126,6 +126,7 @@ struct _rtConnection
   rtTime_t                reconnect_time;
   rtTime_t                start_time;
   int                     reconnect_in_progress;
+  rtError                 reconnect_result;
 #ifdef WITH_SPAKE2
   rtCipher*               cipher;
   uint8_t*                encryption_buffer;
@@ -321,6 +322,7 @@ rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
       {
         first_to_handle = true;
         con->reconnect_in_progress = true;
+        con->reconnect_result = RT_NO_CONNECTION;
         rtTime_Now(&con->reconnect_time);
       }
     }
@@ -345,7 +347,7 @@ rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
       {
         rtLog_Debug("ConnectAndRegister reconnect previously complete");
       }
-      return RT_OK;
+      return con->reconnect_result;
     }
   }
 
@@ -357,16 +359,25 @@ rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
   rtLog_Debug("connecting to router");
   con->fd = socket(con->remote_endpoint.ss_family, SOCK_STREAM, 0);
   if (con->fd == -1)
+  {
+    con->reconnect_in_progress = 0;
     return rtErrorFromErrno(errno);
+  }
   rtLog_Debug("router connection up");
 
   fdManip = fcntl(con->fd, F_GETFD);
   if (fdManip < 0)
+  {
+    con->reconnect_in_progress = 0;
     return rtErrorFromErrno(errno);
+  }
 
   fdManip = fcntl(con->fd, F_SETFD, fdManip | FD_CLOEXEC);
   if (fdManip < 0)
+  {
+    con->reconnect_in_progress = 0;
     return rtErrorFromErrno(errno);
+  }
 
   if (setsockopt(con->fd, SOL_TCP, TCP_NODELAY, &i, sizeof(i)) < 0)
     rtLog_Debug("Error setting TCP_NODELAY: %s", strerror(errno));
@@ -417,6 +428,7 @@ rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
   /*first connect return here*/
   if(is_first_connect)
   {
+    con->reconnect_result = RT_OK;
     con->reconnect_in_progress = 0;
     return RT_OK;
   }
@@ -463,6 +475,7 @@ rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
     }
   }
 #endif
+  con->reconnect_result = RT_OK;
   con->reconnect_in_progress = 0;
   return RT_OK;
 }
@@ -571,6 +584,7 @@ rtConnection_CreateInternal(rtConnection* con, char const* application_name, cha
   c->run_threads = 0;
   c->read_tid = 0;
   c->reconnect_in_progress = 0;
+  c->reconnect_result = RT_OK;
   rtTime_Now(&c->start_time);
 #ifdef WITH_SPAKE2
   c->cipher = NULL;
-- 
2.43.0


From 3e066d0454dda1ea9d410ac6d61a45a62a9d004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:19 +0000
Subject: [PATCH 23/60] fix: a wildcard get keeps the values of a later
 destination when the first has none [P05]

---
 src/rbus/rbus.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index a063aad..0e6bfdc 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3670,6 +3670,7 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
             {
                 RBUSLOG_DEBUG("Query for expression %s was successful. See result below:", pParamNames[0]);
                 rbusProperty_t last = NULL;
+                *retProperties = NULL;
                 *numValues = 0;
                 if (0 == numDestinations)
                 {
@@ -3730,6 +3731,7 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
                                         }
                                         else
                                         {
+                                            rbusProperty_Retain(tmpProperties);
                                             last = tmpProperties;
                                             *retProperties = last;
                                         }
-- 
2.43.0


From 3383232eca31f0d1653a49d8c0341786d1842fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 24/60] fix: a multi-parameter get reports the error of any
 component that fails [P05]

---
 src/rbus/rbus.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 0e6bfdc..78417a5 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3869,6 +3869,7 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
                         if((errorcode = _getExt_response_parser(response, &batchNumVals, &batchResult)) != RBUS_ERROR_SUCCESS)
                         {
                             RBUSLOG_ERROR("error parsing response %d", errorcode);
+                            break;
                         }
                         else
                         {
@@ -3891,6 +3892,17 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
                     break;
                 }
             }
+
+            if(errorcode != RBUS_ERROR_SUCCESS)
+            {
+                /*the call failed as a whole: drop the batches not sent and the values received*/
+                for(i = 0; i < paramCount; ++i)
+                    free(componentNames[i]);
+                if(*retProperties)
+                    rbusProperty_Release(*retProperties);
+                *retProperties = NULL;
+                *numValues = 0;
+            }
         }
         else
         {
-- 
2.43.0


From b893684a2dc1eb43e603e95cdf85bd86a05bfdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 25/60] fix: a multi-parameter get with a wildcard in the list
 returns every requested value [P05]

---
 src/rbus/rbus.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 78417a5..bfcc81d 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3773,6 +3773,40 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
         }
     }
 
+    for(i = 0; paramCount > 1 && i < paramCount; ++i)
+    {
+        if(_is_wildcard_query(pParamNames[i]))
+        {
+            /*a query may have several destinations and any number of values: do the queries of the list one by one*/
+            rbusProperty_t all = NULL;
+            int total = 0;
+            for(i = 0; i < paramCount; ++i)
+            {
+                rbusProperty_t batchResult = NULL;
+                int batchNumVals = 0;
+                errorcode = rbus_getExt(handle, 1, &pParamNames[i], &batchNumVals, &batchResult);
+                if(errorcode != RBUS_ERROR_SUCCESS)
+                    break;
+                total += batchNumVals;
+                if(!all)
+                    all = batchResult;
+                else if(batchResult)
+                {
+                    rbusProperty_Append(all, batchResult);
+                    rbusProperty_Release(batchResult);
+                }
+            }
+            if(errorcode != RBUS_ERROR_SUCCESS && all)
+            {
+                rbusProperty_Release(all);
+                all = NULL;
+            }
+            *retProperties = all;
+            *numValues = all ? total : 0;
+            return errorcode;
+        }
+    }
+
     {
         rbusMessage request, response;
         int numComponents;
-- 
2.43.0


From 722c172ffcdf2db616afd6b958c4b964a0f78353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:18 +0000
Subject: [PATCH 26/60] fix: the empty name is neither a wildcard nor a valid
 query [P05]

---
 src/rbus/rbus.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index bfcc81d..c6c9e19 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -958,6 +958,8 @@ bool _is_valid_get_query(char const* name)
     {
         int length = strlen (name);
         int temp = 0;
+        if (length == 0)
+            return false;
         temp = length - 1;
         if (('!' == name[temp]) ||
             (')' == name[temp]) ||
@@ -987,7 +989,7 @@ bool _is_wildcard_query(char const* name)
         int temp = 0;
         temp = length - 1;
 
-        if (('.' == name[temp]) || (NULL != strstr (name, "*")))
+        if ((length > 0 && '.' == name[temp]) || (NULL != strstr (name, "*")))
         {
             RBUSLOG_DEBUG("The Query is having wildcard.. ");
             return true;
-- 
2.43.0


From 1291b8d79a36d181e5e9da803eadb3440bbae6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:50 +0000
Subject: [PATCH 27/60] fix: a set that fails on an unwritable or unknown
 parameter rolls back the parameters before it [P06]

---
 src/rbus/rbus.c | 50 +++++++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index c6c9e19..ae2efc6 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1579,25 +1579,8 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                         {
                             RBUSLOG_WARN("Set Failed for %s; Component Owner returned Error", paramName);
                             pFailedElement = paramName;
-                            if(rollBack == 1)
-                            {
-                                RBUSLOG_DEBUG("Reverting because set failed for this param:%s",pFailedElement);
-                                /*===========< Rollback old values >============*/
-                                rbusProperty_t prevProp = cachedData;
-                                while(prevProp)
-                                {
-                                    char const* prevParamName = rbusProperty_GetName(prevProp);
-                                    el = retrieveInstanceElement(handleInfo->elementRoot, prevParamName);
-                                    ELM_PRIVATE_LOCK(el);
-                                    err = el->cbTable.setHandler(handle, prevProp, &opts);
-                                    ELM_PRIVATE_UNLOCK(el);
-                                    prevProp = rbusProperty_GetNext(prevProp);
-                                    if(err != RBUS_ERROR_SUCCESS)
-                                    {
-                                        RBUSLOG_WARN("Reverting paramValues of %s to initial values failed",prevParamName);
-                                    }
-                                }
-                            }
+                            if(currentData)
+                                rbusProperty_Release(currentData);
                             break;
                         }
                         else
@@ -1622,8 +1605,6 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                         RBUSLOG_WARN("Set Failed for %s; No Handler found", paramName);
                         rc = RBUS_ERROR_NOT_WRITABLE;
                         pFailedElement = paramName;
-                        if(cachedData)
-                           rbusProperty_Release(cachedData);
                         break;
                     }
                 }
@@ -1635,6 +1616,30 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                     break;
                 }
             }
+            if(rc != RBUS_ERROR_SUCCESS && rollBack == 1)
+            {
+                RBUSLOG_DEBUG("Reverting because set failed for this param:%s",pFailedElement);
+                /*===========< Rollback old values >============*/
+                rbusProperty_t prevProp = cachedData;
+                while(prevProp)
+                {
+                    char const* prevParamName = rbusProperty_GetName(prevProp);
+                    el = retrieveInstanceElement(handleInfo->elementRoot, prevParamName);
+                    if(el && el->cbTable.setHandler)
+                    {
+                        ELM_PRIVATE_LOCK(el);
+                        err = el->cbTable.setHandler(handle, prevProp, &opts);
+                        ELM_PRIVATE_UNLOCK(el);
+                    }
+                    else
+                        err = RBUS_ERROR_ELEMENT_DOES_NOT_EXIST;
+                    prevProp = rbusProperty_GetNext(prevProp);
+                    if(err != RBUS_ERROR_SUCCESS)
+                    {
+                        RBUSLOG_WARN("Reverting paramValues of %s to initial values failed",prevParamName);
+                    }
+                }
+            }
         }
         else
         {
@@ -1656,10 +1661,11 @@ exit:
     if (rc == RBUS_ERROR_SUCCESS)
     {
         rbusPropertyList_appendToMessage(cachedData, *response);
-        rbusProperty_Release(cachedData);
     }
     else if(pFailedElement)
         rbusMessage_SetString(*response, pFailedElement);
+    if(cachedData)
+        rbusProperty_Release(cachedData);
 
     if(pProperties)
     {
-- 
2.43.0


From c9b57ca86a3fb51d361eb90b7d3fc1e6eae07547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:50 +0000
Subject: [PATCH 28/60] fix: rollback restores the oldest value of a parameter
 that was set twice and skips values that could not be read [P06]

---
 src/rbus/rbus.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index ae2efc6..a43f134 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1565,6 +1565,11 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                                 ELM_PRIVATE_LOCK(el);
                                 rc = el->cbTable.getHandler(handle, currentData, &options);
                                 ELM_PRIVATE_UNLOCK(el);
+                                if(rc != RBUS_ERROR_SUCCESS)
+                                {
+                                    rbusProperty_Release(currentData);
+                                    currentData = NULL;
+                                }
                            }
                            else
                                 RBUSLOG_INFO("%s is a write only parameter",paramName);
@@ -1589,13 +1594,13 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                             /* ======== < Old values backup >============= */
                             if (currentData)
                             {
-                                if (cachedData == NULL)
-                                    cachedData = currentData;
-                                else
+                                /*newest first, so that a parameter set twice gets its oldest value last*/
+                                if (cachedData)
                                 {
-                                    rbusProperty_Append(cachedData, currentData);
-                                    rbusProperty_Release(currentData);
+                                    rbusProperty_Append(currentData, cachedData);
+                                    rbusProperty_Release(cachedData);
                                 }
+                                cachedData = currentData;
                             }
 
                         }
-- 
2.43.0


From 8cdbbabf97bc62ef691cfd35cdb9c9e4e375cc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:09 +0000
Subject: [PATCH 29/60] fix: a failing set rolls back the parameters of every
 provider and always names the failing one [P06]

---
 src/rbus/rbus.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index a43f134..4d64626 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -4359,8 +4359,15 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
                         {
                             errorcode = RBUS_ERROR_SUCCESS;
                             RBUSLOG_DEBUG("Successfully Set the Value");
-                            rbusPropertyList_initFromMessage(&cachedProperties, setResponse);
-                            pFailedElement = NULL;
+                            rbusProperty_t batchCached = NULL;
+                            rbusPropertyList_initFromMessage(&batchCached, setResponse);
+                            if(cachedProperties && batchCached)
+                            {
+                                rbusProperty_Append(cachedProperties, batchCached);
+                                rbusProperty_Release(batchCached);
+                            }
+                            else if(batchCached)
+                                cachedProperties = batchCached;
                         }
                         else
                         {
-- 
2.43.0


From 0160c9d219dd619123c0c9aaebc8c69137fa3fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:09 +0000
Subject: [PATCH 30/60] fix: a multi-parameter set stops and rolls back when a
 provider cannot be reached [P06]

---
 src/rbus/rbus.c | 56 +++++++++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 4d64626..266f80d 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -4345,6 +4345,10 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
                     {
                         RBUSLOG_ERROR("%s for %s failed with error: %s", __FUNCTION__, firstParamName, rbusCoreErrorToString(err));
                         errorcode = rbusCoreError_to_rbusError(err);
+                        if(pFailedElement && !*pFailedElement)
+                            *pFailedElement = strdup(firstParamName);
+                        free(componentName);
+                        break;
                     }
                     else
                     {
@@ -4374,7 +4378,7 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
                             if(pFailedElement)
                             {
                                 rbusMessage_GetString(setResponse, &pErrorReason);
-                                *pFailedElement = strdup((char*)pErrorReason);
+                                *pFailedElement = strdup(pErrorReason ? pErrorReason : firstParamName);
                                 RBUSLOG_WARN("Failed to Set the Value For %s", *pFailedElement);
                             }
                             else
@@ -4382,32 +4386,6 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
                                 rbusMessage_GetString(setResponse, &pErrorReason);
                                 RBUSLOG_WARN("Failed to Set the Value for %s", pErrorReason);
                             }
-                            if(rollBack)
-                            {
-                                char *pTempFailedElement = NULL;
-                                rbusSetOptions_t revertOpts;
-                                if ((opts) && (opts->sessionId != 0))
-                                {
-                                    revertOpts.commit = true;
-                                    revertOpts.sessionId= opts->sessionId;
-                                }
-                                else
-                                {
-                                    revertOpts.commit = true;
-                                    revertOpts.sessionId = 0;
-                                }
-                                cachedNumProps = 0;
-                                cachedNumProps = rbusProperty_Count(cachedProperties);
-                                rbusError_t result;
-                                result = _setMultiInternal(handle, cachedNumProps, cachedProperties, &revertOpts, (int)timeout, &pTempFailedElement, false);
-                                if(result == RBUS_ERROR_SUCCESS)
-                                    RBUSLOG_DEBUG("Successfully reverted back the values");
-                                else if((result != RBUS_ERROR_SUCCESS) && (pTempFailedElement))
-                                {
-                                    RBUSLOG_WARN("Failed to rollback %s\n",pTempFailedElement);
-                                    free(pTempFailedElement);
-                                }
-                            }
                             if(legacyRetCode > RBUS_LEGACY_ERR_SUCCESS)
                             {
                                 errorcode = CCSPError_to_rbusError(legacyRetCode);
@@ -4429,6 +4407,30 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
                     break;
                 }
             }
+
+            if(errorcode != RBUS_ERROR_SUCCESS)
+            {
+                for(i = 0; i < numProps; ++i)
+                    free(componentNames[i]);
+                if(rollBack && cachedProperties)
+                {
+                    /*take back what the providers before the failing one have already set*/
+                    char *pTempFailedElement = NULL;
+                    rbusSetOptions_t revertOpts;
+                    rbusError_t result;
+                    revertOpts.commit = true;
+                    revertOpts.sessionId = opts ? opts->sessionId : 0;
+                    cachedNumProps = rbusProperty_Count(cachedProperties);
+                    result = _setMultiInternal(handle, cachedNumProps, cachedProperties, &revertOpts, (int)timeout, &pTempFailedElement, false);
+                    if(result == RBUS_ERROR_SUCCESS)
+                        RBUSLOG_DEBUG("Successfully reverted back the values");
+                    else if((result != RBUS_ERROR_SUCCESS) && (pTempFailedElement))
+                    {
+                        RBUSLOG_WARN("Failed to rollback %s\n",pTempFailedElement);
+                        free(pTempFailedElement);
+                    }
+                }
+            }
         }
         else
         {
-- 
2.43.0


From c8ec4a3c5ef6f32654ec82f52a919aa1e717e336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 31/60] fix: rbus_setMultiExt names the failing parameter in
 every case [P06]

---
 src/rbus/rbus.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 266f80d..287b4fe 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -4209,7 +4209,10 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
     {
         if (rbusProperty_Count(properties) == 1)
         {
-            return _setInternal(handle, rbusProperty_GetName(properties), rbusProperty_GetValue(properties), opts, timeout);
+            errorcode = _setInternal(handle, rbusProperty_GetName(properties), rbusProperty_GetValue(properties), opts, timeout);
+            if(errorcode != RBUS_ERROR_SUCCESS && pFailedElement && rbusProperty_GetName(properties))
+                *pFailedElement = strdup(rbusProperty_GetName(properties));
+            return errorcode;
         }
 
         char const** pParamNames;
@@ -4232,6 +4235,8 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
             if (_is_wildcard_query(pParamNames[i-1]))
             {
                 RBUSLOG_WARN("This method does not support wildcard query [%s]", pParamNames[i-1]);
+                if(pFailedElement && pParamNames[i-1])
+                    *pFailedElement = strdup(pParamNames[i-1]);
                 free(pParamNames);
                 return RBUS_ERROR_INVALID_INPUT;
             }
@@ -4239,6 +4244,8 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
             if (RBUS_NONE == type)
             {
                 RBUSLOG_DEBUG("Invalid data type passed in one of the data type\n");
+                if(pFailedElement)
+                    *pFailedElement = strdup(pParamNames[i-1]);
                 free(pParamNames);
                 return errorcode;
             }
@@ -4268,6 +4275,8 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
                 if(!componentNames[i] || !componentNames[i][0])
                 {
                     RBUSLOG_ERROR("Cannot find component for %s", rbusProperty_GetName(current));
+                    if(pFailedElement && errorcode == RBUS_ERROR_SUCCESS)
+                        *pFailedElement = strdup(rbusProperty_GetName(current));
                     errorcode = RBUS_ERROR_INVALID_INPUT;
                 }
             }
@@ -4444,6 +4453,19 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
                     componentNames[i] = NULL;
                 }
             }
+            /*find the parameter that nobody owns*/
+            for(i = 0; pFailedElement && !*pFailedElement && i < numProps; i++)
+            {
+                int found = 0;
+                char** names = NULL;
+                if(rbus_discoverComponentName(handle, 1, &pParamNames[i], &found, &names) != RBUS_ERROR_SUCCESS)
+                    found = 0;
+                if(found != 1 || !names[0] || !names[0][0])
+                    *pFailedElement = strdup(pParamNames[i]);
+                while(found > 0)
+                    free(names[--found]);
+                free(names);
+            }
         }
         if(pParamNames)
             free(pParamNames);
@@ -4462,6 +4484,8 @@ rbusError_t rbus_setMulti(rbusHandle_t handle, int numProps, rbusProperty_t prop
 
 rbusError_t rbus_setMultiExt(rbusHandle_t handle, uint32_t numProps, rbusProperty_t properties, rbusSetOptions_t* opts, uint32_t timeout, char** failedParameterName)
 {
+    if(failedParameterName)
+        *failedParameterName = NULL;
     return _setMultiInternal(handle, numProps,  properties, opts, timeout, failedParameterName, true);
 }
 
-- 
2.43.0


From 332797207932a4707f1c5259706025af73c59258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:08 +0000
Subject: [PATCH 32/60] fix: elements of a table can be registered in any
 order, also while it has rows [P08]

---
 src/rbus/rbus_element.c | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/rbus/rbus_element.c b/src/rbus/rbus_element.c
index 60cb5f1..18b9b1c 100644
--- a/src/rbus/rbus_element.c
+++ b/src/rbus/rbus_element.c
@@ -221,6 +221,14 @@ static void createElementChain(elementNode* node, elementNode*** chainOut, int*
 
 static void replicateAcrossTableRowInstances(elementNode* newNode);
 
+static elementNode* findChild(elementNode* node, char const* name)
+{
+    elementNode* child = node->child;
+    while(child && strcmp(child->name, name) != 0)
+        child = child->nextSibling;
+    return child;
+}
+
 elementNode* insertElement(elementNode* root, rbusDataElement_t* elem)
 {
     char* token = NULL;
@@ -357,12 +365,18 @@ elementNode* insertElement(elementNode* root, rbusDataElement_t* elem)
          */
         if(elem->type == RBUS_ELEMENT_TYPE_TABLE)
         {
-            elementNode* rowTemplate = getEmptyElementNode();
-            rowTemplate->parent = currentNode;
-            rowTemplate->name = strdup("{i}");
-            snprintf(buff, RBUS_MAX_NAME_LENGTH, "%s.%s", currentNode->fullName, rowTemplate->name);
-            rowTemplate->fullName = strdup(buff);
-            currentNode->child = rowTemplate;
+            elementNode* rowTemplate = findChild(currentNode, "{i}");
+            /*the template exists already if elements under it were registered before the table itself*/
+            if(!rowTemplate)
+            {
+                rowTemplate = getEmptyElementNode();
+                rowTemplate->parent = currentNode;
+                rowTemplate->name = strdup("{i}");
+                snprintf(buff, RBUS_MAX_NAME_LENGTH, "%s.%s", currentNode->fullName, rowTemplate->name);
+                rowTemplate->fullName = strdup(buff);
+                rowTemplate->nextSibling = currentNode->child;
+                currentNode->child = rowTemplate;
+            }
             currentNode->cbTable.tableSyncHandler = elem->cbTable.methodHandler;
         }
         else
@@ -1141,6 +1155,15 @@ void replicateAcrossTableRowInstancesInternal(elementNode* rowNode, elementNode*
                 /*go deeper*/
                 currentNode = childNode;
                 i++;
+                if(i == numChain)
+                {
+                    /*the instance exists already: give it what was registered now*/
+                    elementNode* rowTemplate = findChild(chain[i-1], "{i}");
+                    currentNode->type = chain[i-1]->type;
+                    currentNode->cbTable = chain[i-1]->cbTable;
+                    if(currentNode->type == RBUS_ELEMENT_TYPE_TABLE && rowTemplate && !findChild(currentNode, "{i}"))
+                        duplicateNode(rowTemplate, currentNode, "{i}");
+                }
             }
             else
             {
-- 
2.43.0


From e1b663d8cccef96d3ca27f8951e3c4b293d69a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 33/60] fix: removing a table row ends only the subscriptions
 made to that row [P09]

---
 src/rbus/rbus_subscriptions.c | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 4b8a90f..d31d6d2 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -319,8 +319,6 @@ void rbusSubscriptions_onElementDeleted(rbusSubscriptions_t subscriptions, eleme
             {
                 rtListItem item, tempitem;
                 rbusSubscription_t* sub;
-                bool val=false;
-                rbusSubscription_t* subscription = NULL;
 
                 rtList_GetFront(subscriptions->subList, &item);
 
@@ -344,26 +342,11 @@ void rbusSubscriptions_onElementDeleted(rbusSubscriptions_t subscriptions, eleme
                         {
                             rtList_RemoveItem(sub->instances, item2, NULL);
                             removeElementSubscription(child, sub);
-                            val = true;
                             break;
                         }
                         rtListItem_GetNext(item2, &item2);
                     }
 
-                    /* RDKB-38389 : Removing the instance of the row to be removed from the subscriptions->subList linked list */
-                    if(val)
-                    {
-                        subscription = rbusSubscriptions_getSubscription(subscriptions, sub->listener, sub->eventName,
-                                sub->componentId, sub->filter, sub->interval, sub->duration, sub->rawData);
-                        if(!subscription)
-                        {
-                            RBUSLOG_INFO("unsubscribing from event which isn't currectly subscribed to event=%s listener=%s", sub->eventName, sub->listener);
-                        }
-                        else
-                        {
-                            rbusSubscriptions_removeSubscription(subscriptions, subscription);
-                        }
-                    }
                     item = tempitem;
                 }
             }
@@ -387,8 +370,25 @@ void rbusSubscriptions_onTableRowAdded(rbusSubscriptions_t subscriptions, elemen
 
 void rbusSubscriptions_onTableRowRemoved(rbusSubscriptions_t subscriptions, elementNode* node)
 {
+    rtListItem item, next;
+    rbusSubscription_t* sub;
+    elementNode* parent;
+
     VERIFY_NULL(subscriptions);
     rbusSubscriptions_onElementDeleted(subscriptions, node);
+
+    /* RDKB-38389 : a subscription to an element of the row ends with the row; a wildcard subscription
+       which covers the row among others stays in force for the other rows and for later ones*/
+    rtList_GetFront(subscriptions->subList, &item);
+    while(item)
+    {
+        rtListItem_GetNext(item, &next);
+        rtListItem_GetData(item, (void**)&sub);
+        for(parent = sub->element; parent && parent != node; parent = parent->parent);
+        if(parent)
+            rbusSubscriptions_removeSubscription(subscriptions, sub);
+        item = next;
+    }
 }
 
 static pid_t rbusSubscriptions_getListenerPid(char const* listener)
-- 
2.43.0


From 4d6d345802322d5d9cc779f9a9f227e3ca1a9cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:55 +0000
Subject: [PATCH 34/60] fix: rollback skips a parameter whose handler supplied
 no value [P06]

---
 src/rbus/rbus.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 287b4fe..6cb8e7e 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1565,7 +1565,7 @@ static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbu
                                 ELM_PRIVATE_LOCK(el);
                                 rc = el->cbTable.getHandler(handle, currentData, &options);
                                 ELM_PRIVATE_UNLOCK(el);
-                                if(rc != RBUS_ERROR_SUCCESS)
+                                if(rc != RBUS_ERROR_SUCCESS || rbusValue_GetType(rbusProperty_GetValue(currentData)) == RBUS_NONE)
                                 {
                                     rbusProperty_Release(currentData);
                                     currentData = NULL;
-- 
2.43.0


From ea8f70c750605d9a39158a410a673552904ef3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:55 +0000
Subject: [PATCH 35/60] fix: looking up an unknown component id finds no handle
 instead of the last one [P09]

---
 src/rbus/rbus_handle.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rbus/rbus_handle.c b/src/rbus/rbus_handle.c
index 3025718..fc7e467 100644
--- a/src/rbus/rbus_handle.c
+++ b/src/rbus/rbus_handle.c
@@ -138,9 +138,10 @@ struct _rbusHandle* rbusHandleList_GetByComponentID(int32_t componentId)
         len = rtVector_Size(gHandleList);
         for(i = 0; i < len; i++)
         {
-            handle = (struct _rbusHandle*)rtVector_At(gHandleList, i);
-            if(handle->componentId == componentId)
+            struct _rbusHandle* tmp = (struct _rbusHandle*)rtVector_At(gHandleList, i);
+            if(tmp->componentId == componentId)
             {
+                handle = tmp;
                 break;
             }
         }
-- 
2.43.0


From 4d48753b1d7233f750875cf4c731c5202f4afbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:55 +0000
Subject: [PATCH 36/60] fix: closing the broker connection ends its threads
 before destroying what they use [P09]

---
 src/core/rbuscore.c | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 29d87b5..2fd4e44 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -382,25 +382,15 @@ static void perform_init()
     _rbuscore_directconnection_load_from_cache();
 }
 
-static void perform_cleanup()
+/*tells the providers that the remaining subscriptions of this process end; called without the lock while still connected*/
+static void cancel_active_subscriptions()
 {
     size_t i, sz;
 
-    RBUSCORELOG_DEBUG("Performing cleanup");
-
-    lock();
-
-    rtVector_Destroy(g_server_objects, server_object_destroy);
-
-    rtVector_Destroy(gListOfServerDirectDMLs, _freePrivateServer);
-    _rbuscore_destroy_clientPrivate_connections();
-    rtVector_Destroy(gListOfClientDirectDMLs, rtVector_Cleanup_Free);
-
     sz = rtVector_Size(g_event_subscriptions_for_client);
     if(sz>0)
     {
         RBUSCORELOG_INFO("Cancelling active event subscriptions.");
-        unlock();
         for(i = 0; i < sz; ++i)
         {
             size_t i2, sz2;
@@ -413,11 +403,21 @@ static void perform_cleanup()
                 send_subscription_request(sub->object, event->name, false, NULL, NULL, 0, false, NULL, false);
             }
         }
-        lock();
     }
-    rtVector_Destroy(g_event_subscriptions_for_client, client_subscription_destroy);
+}
 
-    unlock();
+/*called with the lock held, when no thread of the connection is running anymore*/
+static void perform_cleanup()
+{
+    RBUSCORELOG_DEBUG("Performing cleanup");
+
+    rtVector_Destroy(g_server_objects, server_object_destroy);
+
+    rtVector_Destroy(gListOfServerDirectDMLs, _freePrivateServer);
+    _rbuscore_destroy_clientPrivate_connections();
+    rtVector_Destroy(gListOfClientDirectDMLs, rtVector_Cleanup_Free);
+
+    rtVector_Destroy(g_event_subscriptions_for_client, client_subscription_destroy);
 }
 
 
@@ -665,6 +665,7 @@ rbusCoreError_t rbus_closeBrokerConnection()
     if(NULL == g_connection)
     {
         RBUSCORELOG_INFO("No connection exist to close.");
+        unlock();
         return RBUSCORE_ERROR_INVALID_STATE;
     }
     if(1 < rtVector_Size(g_server_objects))
@@ -673,15 +674,19 @@ rbusCoreError_t rbus_closeBrokerConnection()
         unlock();
         return RBUSCORE_SUCCESS;
     }
+    unlock();
     rbus_releaseOpenTelemetryContext();
-    perform_cleanup();
+    cancel_active_subscriptions();
+    /*ends the threads of the connection, which take the lock and use what perform_cleanup destroys*/
     err = rtConnection_Destroy(g_connection);
     if(RT_OK != err)
     {
         RBUSCORELOG_ERROR("Could not destroy connection. Error: 0x%x.", err);
         return RBUSCORE_ERROR_GENERAL;
     }
+    lock();
     g_connection = NULL;
+    perform_cleanup();
     g_run_event_client_dispatch = false;
     unlock();
 
-- 
2.43.0


From 7ae9eb533aa75421935bae2f415983c09907e314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:55 +0000
Subject: [PATCH 37/60] fix: rbus_close does not wait for the callback thread
 while holding the mutex that thread needs [P09]

---
 src/rbus/rbus.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 6cb8e7e..7dc3fcd 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -58,6 +58,8 @@
 
 #define LockMutex() pthread_mutex_lock(&gMutex)
 #define UnlockMutex() pthread_mutex_unlock(&gMutex)
+#define LockOpenClose() pthread_mutex_lock(&gOpenCloseMutex)
+#define UnlockOpenClose() pthread_mutex_unlock(&gOpenCloseMutex)
 
 #define ERROR_CHECK(CMD) \
 { \
@@ -122,6 +124,7 @@ typedef struct _rbusEventSubscriptionInternal
 extern char* __progname;
 //******************************* GLOBALS *****************************************//
 static pthread_mutex_t gMutex = PTHREAD_MUTEX_INITIALIZER;
+static pthread_mutex_t gOpenCloseMutex = PTHREAD_MUTEX_INITIALIZER;/*serializes rbus_open and rbus_close; taken before gMutex*/
 
 //********************************************************************************//
 
@@ -1442,6 +1445,11 @@ static int _master_event_callback_handler(char const* sender, char const* eventN
 
     LockMutex();
     handleInfo = rbusHandleList_GetByComponentID(componentId);
+    if(handleInfo)
+    {
+        /*taken while the handle is known to be open: rbus_close waits for it before it frees the handle*/
+        HANDLE_EVENTSUBS_MUTEX_LOCK(handleInfo);
+    }
     UnlockMutex();
 
     if(!handleInfo)
@@ -1454,7 +1462,6 @@ static int _master_event_callback_handler(char const* sender, char const* eventN
 
     RBUSLOG_DEBUG("Received master event callback: sender=%s eventName=%s componentId=%d", sender, eventName, componentId);
 
-    HANDLE_EVENTSUBS_MUTEX_LOCK(handleInfo);
     subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, false);
 
     if(subInternal)
@@ -2973,6 +2980,7 @@ rbusError_t rbus_open(rbusHandle_t* handle, char const* componentName)
 
     RBUSLOG_INFO("rbus open for component: %s", componentName);
 
+    LockOpenClose();
     LockMutex();
 
     /*
@@ -2984,8 +2992,10 @@ rbusError_t rbus_open(rbusHandle_t* handle, char const* componentName)
     if(tmpHandle)
     {
         UnlockMutex();
+        UnlockOpenClose();
         RBUSLOG_WARN("(%s): closing previously opened component with the same name", componentName);
         rbus_close(tmpHandle);
+        LockOpenClose();
         LockMutex();
     }
 
@@ -3042,6 +3052,7 @@ rbusError_t rbus_open(rbusHandle_t* handle, char const* componentName)
     rbusHandleList_Add(tmpHandle);
 
     UnlockMutex();
+    UnlockOpenClose();
 
     snprintf(filename, RTMSG_HEADER_MAX_TOPIC_LENGTH-1, "%s%d_%d", "/tmp/.rbus/", getpid(), tmpHandle->componentId);
     FILE *fd  =  fopen(filename, "w");
@@ -3064,8 +3075,13 @@ exit_error2:
             RBUSLOG_ERROR("(%s): unregisterClientDisconnectHandler error %d", componentName, err);
 
     if(rbus_getConnection() && rbusHandleList_IsEmpty())
+    {
+        /*closing waits for the callback thread, which may be waiting for the mutex*/
+        UnlockMutex();
         if((err = rbus_closeBrokerConnection()) != RBUSCORE_SUCCESS)
             RBUSLOG_ERROR("(%s): closeBrokerConnection error %d", componentName, err);
+        LockMutex();
+    }
 
 exit_error1:
 
@@ -3075,6 +3091,7 @@ exit_error1:
     }
 
     UnlockMutex();
+    UnlockOpenClose();
 
     if(tmpHandle)
         rt_free(tmpHandle);
@@ -3186,6 +3203,7 @@ rbusError_t rbus_close(rbusHandle_t handle)
 
     RBUSLOG_INFO("rbus close for (%s)", handleInfo->componentName);
 
+    LockOpenClose();
     LockMutex();
     char filename[RTMSG_HEADER_MAX_TOPIC_LENGTH];
     snprintf(filename, RTMSG_HEADER_MAX_TOPIC_LENGTH-1, "%s%d_%d", "/tmp/.rbus/", getpid(), handleInfo->componentId);
@@ -3266,16 +3284,20 @@ rbusError_t rbus_close(rbusHandle_t handle)
             ret = RBUS_ERROR_BUS_ERROR;
         }
 #endif
+        /*closing waits for the callback thread, which may be waiting for the mutex*/
+        UnlockMutex();
         if((err = rbus_closeBrokerConnection()) != RBUSCORE_SUCCESS)
         {
             RBUSLOG_ERROR("(%s): rbus_closeBrokerConnection error %d", componentName, err);
             ret = RBUS_ERROR_BUS_ERROR;
         }
+        LockMutex();
 
         _rbus_open_pre_initialize(false);
     }
 
     UnlockMutex();
+    UnlockOpenClose();
 
     if(ret == RBUS_ERROR_SUCCESS)
         RBUSLOG_INFO("rbus close (%s) success", componentName);
-- 
2.43.0


From 6b1d38738dac4a574810db02c46542acd1812f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:28 +0000
Subject: [PATCH 38/60] fix: the verdict for a filtered subscriber is not
 passed to other subscribers nor left in the publisher's data [P10]

---
 src/rbus/rbus.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 7dc3fcd..9505eb4 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -6074,6 +6074,7 @@ rbusError_t  rbusEvent_Publish(
     while(listItem)
     {
         bool publish = true;
+        rbusProperty_t dataProperties = NULL;
 
         rtListItem_GetData(listItem, (void**)&subscription);
         if(!subscription || !subscription->eventName || !subscription->listener)
@@ -6104,11 +6105,15 @@ rbusError_t  rbusEvent_Publish(
                 if(newResult != oldResult)
                 {
                     /*set 'filter' to true/false implying that either the filter has started or stopped matching*/
-                    rbusValue_t filterResult = NULL;
-                    rbusValue_Init(&filterResult);
-                    rbusValue_SetBoolean(filterResult, newResult != 0);
-                    rbusObject_SetValue(eventData->data, "filter", filterResult);
-                    rbusValue_Release(filterResult);                    
+                    rbusProperty_t filterResult = NULL;
+                    rbusProperty_Init(&filterResult, "filter", NULL);
+                    rbusProperty_SetBoolean(filterResult, newResult != 0);
+                    /*in front of the data for this subscriber only; taken back below*/
+                    dataProperties = rbusObject_GetProperties(eventData->data);
+                    rbusProperty_Retain(dataProperties);
+                    rbusProperty_SetNext(filterResult, dataProperties);
+                    rbusObject_SetProperties(eventData->data, filterResult);
+                    rbusProperty_Release(filterResult);
                 }
                 else
                 {
@@ -6142,6 +6147,11 @@ rbusError_t  rbusEvent_Publish(
                 RBUSLOG_ERROR("rbusEvent_Publish failed: rbus_publishSubscriberEvent return error %d", err);
             }
         }
+        if(dataProperties)
+        {
+            rbusObject_SetProperties(eventData->data, dataProperties);
+            rbusProperty_Release(dataProperties);
+        }
         rtListItem_GetNext(listItem, &listItem);
     }
     HANDLE_SUBS_MUTEX_UNLOCK(handle);
-- 
2.43.0


From ee342939cbdecd57a94fe4733d3a448308967e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:43 +0000
Subject: [PATCH 39/60] fix: a value that cannot be read when it is subscribed
 to is polled all the same [P10]

---
 src/rbus/rbus_valuechange.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/rbus/rbus_valuechange.c b/src/rbus/rbus_valuechange.c
index db975b2..d61d4b8 100644
--- a/src/rbus/rbus_valuechange.c
+++ b/src/rbus/rbus_valuechange.c
@@ -174,6 +174,7 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
             if(result != RBUS_ERROR_SUCCESS)
             {
                 RBUSLOG_WARN("failed to get current value of %s", rbusProperty_GetName(property));
+                rbusProperty_Release(property);
                 continue;
             }
 
@@ -184,7 +185,13 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
             newVal = rbusProperty_GetValue(property);
             oldVal = rbusProperty_GetValue(rec->property);
 
-            if(rbusValue_Compare(newVal, oldVal))
+            if(!oldVal)
+            {
+                /*the value could not be read so far; changes are detected from here on*/
+                rbusProperty_SetValue(rec->property, newVal);
+                rbusProperty_Release(property);
+            }
+            else if(rbusValue_Compare(newVal, oldVal))
             {
                 rbusEvent_t event = {0};
                 rbusObject_t data;
@@ -301,10 +308,9 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
 
         if(result != RBUS_ERROR_SUCCESS)
         {
-            RBUSLOG_WARN("failed to get current value for %s as the node is not found", propNode->fullName);
-            vcParams_Free(rec);
-            rec = NULL;
-            return;
+            /*the polling thread takes the first value it can read*/
+            RBUSLOG_WARN("failed to get current value for %s", propNode->fullName);
+            rbusProperty_SetValue(rec->property, NULL);
         }
 
         char* sValue;
-- 
2.43.0


From 4c41e383f45b9dac5fc34ad91f401db14beda3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:51 +0000
Subject: [PATCH 40/60] fix: subscribing and unsubscribing do not deadlock with
 the value-change thread [P10]

---
 src/rbus/rbus.c             | 32 ++++++++++++++++++++++++--------
 src/rbus/rbus_valuechange.c | 29 +++++++++++++----------------
 2 files changed, 37 insertions(+), 24 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 9505eb4..8fdd026 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1087,6 +1087,7 @@ int subscribeHandlerImpl(
 {
     int error = RBUS_ERROR_SUCCESS;
     rbusSubscription_t* subscription = NULL;
+    rtVector vcNodes = NULL;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
     /*autoPublish is an output parameter used to disable the default behaviour where rbus automatically publishing events for
     provider data elements. When providers set autoPublish to true the value will be checked once per second and the maximum event
@@ -1217,14 +1218,9 @@ int subscribeHandlerImpl(
                     /* Check if the node has other subscribers or not.  If it has other
                        subs then we don't need to either add or remove it from ValueChange */
                     RBUSLOG_INFO("ValueChange %s event=%s prop=%s", added ? "Add" : "Remove", subscription->eventName, node->fullName);
-                    if(added)
-                    {
-                        rbusValueChange_AddPropertyNode(handle, node);
-                    }
-                    else
-                    {
-                        rbusValueChange_RemovePropertyNode(handle, node);
-                    }
+                    if(!vcNodes)
+                        rtVector_Create(&vcNodes);
+                    rtVector_PushBack(vcNodes, node);
                 }
 
                 rtListItem_GetNext(item, &item);
@@ -1238,6 +1234,26 @@ int subscribeHandlerImpl(
         rbusSubscriptions_removeSubscription(handleInfo->subscriptions, subscription);
     }
     HANDLE_SUBS_MUTEX_UNLOCK(handle);
+
+    /*the value-change thread publishes, and so locks the subscriptions, while it holds its own mutex,
+      so rbusValueChange is only called once the subscriptions are unlocked*/
+    if(vcNodes)
+    {
+        size_t i;
+        for(i = 0; i < rtVector_Size(vcNodes); ++i)
+        {
+            elementNode* node = (elementNode*)rtVector_At(vcNodes, i);
+            if(added)
+            {
+                rbusValueChange_AddPropertyNode(handle, node);
+            }
+            else
+            {
+                rbusValueChange_RemovePropertyNode(handle, node);
+            }
+        }
+        rtVector_Destroy(vcNodes, NULL);
+    }
     return RBUS_ERROR_SUCCESS;
 }
 
diff --git a/src/rbus/rbus_valuechange.c b/src/rbus/rbus_valuechange.c
index d61d4b8..9ea4241 100644
--- a/src/rbus/rbus_valuechange.c
+++ b/src/rbus/rbus_valuechange.c
@@ -136,6 +136,13 @@ static void* rbusValueChange_pollingThreadFunc(void *userData)
         rtTime_t timeout;
         rtTimespec_t ts;
 
+        if(rtVector_Size(gVC->params) == 0)
+        {
+            /*nothing to poll until rbusValueChange_AddPropertyNode signals*/
+            ERROR_CHECK(pthread_cond_wait(&gVC->cond, &gVC->mutex));
+            continue;
+        }
+
         rtTime_Later(NULL, RBUS_VALUECHANGE_PERIOD, &timeout);
         
         err = pthread_cond_timedwait(&gVC->cond, 
@@ -328,6 +335,10 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
             gVC->running = 1;
             pthread_create(&gVC->thread, NULL, rbusValueChange_pollingThreadFunc, NULL);
         }
+        else if(rtVector_Size(gVC->params) == 1)
+        {
+            ERROR_CHECK(pthread_cond_signal(&gVC->cond));
+        }
 
         UNLOCK();//############ UNLOCK ############
     }
@@ -336,7 +347,6 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
 void rbusValueChange_RemovePropertyNode(rbusHandle_t handle, elementNode* propNode)
 {
     ValueChangeRecord* rec;
-    bool stopThread = false;
 
     (void)(handle);
     VERIFY_NULL(propNode);
@@ -351,28 +361,15 @@ void rbusValueChange_RemovePropertyNode(rbusHandle_t handle, elementNode* propNo
     rec = vcParams_Find(propNode);
     if(rec)
     {
+        /* the polling thread stays, idle when there's nothing left to poll, until the handle is closed:
+           it may be publishing, and our caller might hold what it needs for that */
         rtVector_RemoveItem(gVC->params, rec, vcParams_Free);
-        /* if there's nothing left to poll then shutdown the polling thread */
-        if(gVC->running && rtVector_Size(gVC->params) == 0)
-        {
-            stopThread = true;
-            gVC->running = 0;
-        }
-        else 
-        {
-            stopThread = false;
-        }
     }
     else
     {
         RBUSLOG_WARN("value change param not found: %s", propNode->fullName);
     }
     UNLOCK();//############ UNLOCK ############
-    if(stopThread)
-    {
-        ERROR_CHECK(pthread_cond_signal(&gVC->cond));
-        ERROR_CHECK(pthread_join(gVC->thread, NULL));
-    }
 }
 
 void rbusValueChange_CloseHandle(rbusHandle_t handle)
-- 
2.43.0


From 19107b4da58088c7a67211fa382aba7c18175593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:38 +0000
Subject: [PATCH 41/60] fix: filtered, interval and raw-data subscriptions of a
 component that is gone are removed too [P17 P11]

---
 src/rbus/rbus_subscriptions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index d31d6d2..f3a4f7b 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -851,7 +851,7 @@ void rbusSubscriptions_handleClientDisconnect(rbusHandle_t handle, rbusSubscript
             el = retrieveInstanceElement(handleInfo->elementRoot, sub->eventName);
             if(el)
             {
-                subscribeHandlerImpl(handle, false, sub->element, sub->eventName, sub->listener, sub->componentId, 0, 0, 0, 0, 0);
+                subscribeHandlerImpl(handle, false, sub->element, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, 0);
             }
             else
             {
-- 
2.43.0


From 89d0453e7f989d3a9fc99bc9d26fc283ee236db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:38 +0000
Subject: [PATCH 42/60] fix: interval subscriptions do not outlive their
 subscription, deadlock with its removal nor miss its end [P11]

---
 src/rbus/rbus.c                      |  40 ++---
 src/rbus/rbus_intervalsubscription.c | 210 +++++++++++++++++----------
 src/rbus/rbus_intervalsubscription.h |   1 +
 src/rbus/rbus_subscriptions.c        |   3 +
 4 files changed, 157 insertions(+), 97 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 8fdd026..973f5da 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1190,30 +1190,32 @@ int subscribeHandlerImpl(
     { 
         if(el->type == RBUS_ELEMENT_TYPE_PROPERTY && subscription->autoPublish)
         {
-            rtListItem item;
-            rtList_GetFront(subscription->instances, &item);
+            rtListItem item = NULL;
+            if (subscription->interval)
+            {
+                /*one record whatever the number of instances, which can also be none yet*/
+                RBUSLOG_INFO("subscription with interval  %s event=%s",
+                        added ? "Add" : "Remove", subscription->eventName);
+                if(added) {
+                    if((error = rbusInterval_AddSubscriptionRecord(handle, el, subscription)) != RBUS_ERROR_SUCCESS)
+                        RBUSLOG_ERROR("rbusInterval_AddSubscriptionRecord failed with error : %d\n", error);
+                }
+                else
+                {
+                    rbusInterval_RemoveSubscriptionRecord(handle, el, subscription);
+                }
+            }
+            else
+            {
+                rtList_GetFront(subscription->instances, &item);
+            }
             while(item)
             {
                 elementNode* node;
 
                 rtListItem_GetData(item, (void**)&node);
 
-                if (subscription->interval)
-                {
-                    RBUSLOG_INFO("subscription with interval  %s event=%s prop=%s",
-                            added ? "Add" : "Remove", subscription->eventName, node->fullName);
-                    if(added) {
-                        if((error = rbusInterval_AddSubscriptionRecord(handle, node, subscription)) != RBUS_ERROR_SUCCESS)
-                            RBUSLOG_ERROR("rbusInterval_AddSubscriptionRecord failed with error : %d\n", error);
-                        break;
-                    }
-                    else
-                    {
-                        rbusInterval_RemoveSubscriptionRecord(handle, node, subscription);
-                        break;
-                    }
-                }
-                else if(!elementHasAutoPubSubscriptions(node, subscription))
+                if(!elementHasAutoPubSubscriptions(node, subscription))
                 {
                     /* Check if the node has other subscribers or not.  If it has other
                        subs then we don't need to either add or remove it from ValueChange */
@@ -3258,6 +3260,8 @@ rbusError_t rbus_close(rbusHandle_t handle)
         handleInfo->messageCallbacks = NULL;
     }
 
+    rbusInterval_CloseHandle(handle);//called before the subscriptions are destroyed below
+
     if(handleInfo->subscriptions != NULL)
     {
         HANDLE_SUBS_MUTEX_LOCK(handle);
diff --git a/src/rbus/rbus_intervalsubscription.c b/src/rbus/rbus_intervalsubscription.c
index aa83fe2..25e82ad 100644
--- a/src/rbus/rbus_intervalsubscription.c
+++ b/src/rbus/rbus_intervalsubscription.c
@@ -44,16 +44,25 @@
 
 rtVector gRecord = NULL;
 static pthread_mutex_t gMutex = PTHREAD_MUTEX_INITIALIZER;
+static pthread_cond_t gCond = PTHREAD_COND_INITIALIZER;
+
+/* A record belongs to its thread, which removes and frees it when it ends.
+   The lock order is handle_subsMutex, gMutex, the record's mutex; handlers are called without any of them. */
 typedef struct sRecord
 {
-    int running;
+    int running;             /* cleared, with sub, when the subscription is removed; protected by mutex */
     pthread_mutex_t  mutex;
-    pthread_t        thread;
     pthread_cond_t   cond;
     rbusHandle_t     handle;
-    elementNode const* node;
-    rbusProperty_t   property;
-    rbusSubscription_t* sub;
+    rbusSubscription_t* sub; /* only to identify the subscription; protected by mutex */
+    char*            eventName;
+    char*            listener;
+    rbusFilter_t     filter;
+    int32_t          interval;
+    int32_t          duration;
+    int32_t          componentId;
+    uint32_t         subscriptionId;
+    bool             rawData;
 } sRecord;
 
 void rbusEventData_appendToMessage(rbusEvent_t* event, rbusFilter_t filter, int32_t interval, int32_t duration, int32_t componentId, rbusMessage msg);
@@ -63,8 +72,6 @@ static void init_thread(sRecord* sub_rec)
     pthread_mutexattr_t attrib;
     pthread_condattr_t cattrib;
 
-    sub_rec->running = 0;
-
     ERROR_CHECK(pthread_mutexattr_init(&attrib));
     ERROR_CHECK(pthread_mutexattr_settype(&attrib, PTHREAD_MUTEX_ERRORCHECK));
     ERROR_CHECK(pthread_mutex_init(&sub_rec->mutex, &attrib));
@@ -82,8 +89,10 @@ static void sub_Free(void* p)
     {
         ERROR_CHECK(pthread_mutex_destroy(&rec->mutex));
         ERROR_CHECK(pthread_cond_destroy(&rec->cond));
-        rbusProperty_Release(rec->property);
-        rec->sub = NULL;
+        free(rec->eventName);
+        free(rec->listener);
+        if(rec->filter)
+            rbusFilter_Release(rec->filter);
         free(rec);
     }
 }
@@ -96,50 +105,63 @@ static sRecord* sub_find(rbusSubscription_t* sub)
         sRecord* rec = (sRecord*)rtVector_At(gRecord, i);
         if(rec && rec->sub == sub) {
             return rec;
-	}
+        }
     }
     return NULL;
 }
 
+static void sub_stop(sRecord* rec)
+{
+    ERROR_CHECK(pthread_mutex_lock(&rec->mutex));
+    rec->running = 0;
+    rec->sub = NULL;
+    ERROR_CHECK(pthread_cond_signal(&rec->cond));
+    ERROR_CHECK(pthread_mutex_unlock(&rec->mutex));
+}
+
 /* Publishing event based on subscriber interval */
 static void* PublishingThreadFunc(void* rec)
 {
     RBUSLOG_DEBUG("\n PublishingThreadFunc: start\n");
     struct sRecord *sub_rec = (struct sRecord*)rec;
     int count = 0;
-    int duration_count = 0;
     bool duration_complete = false;
     rbusCoreError_t error;
-    rbusSubscription_t* sub = sub_rec->sub;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)sub_rec->handle;
     ERROR_CHECK(pthread_mutex_lock(&sub_rec->mutex));
-    while(sub_rec->running)
+    while(sub_rec->running && !duration_complete)
     {
-        int err;
+        int err = 0;
         int actualCount = 0;
         int result = 0;
-        char *tmpptr = NULL;
         rtTime_t timeout;
         rtTimespec_t ts;
-        rtTime_Later(NULL, (sub->interval*1000), &timeout);
-        err = pthread_cond_timedwait(&sub_rec->cond,
-                &sub_rec->mutex,
-                rtTime_ToTimespec(&timeout, &ts));
+        rtTime_Later(NULL, (sub_rec->interval*1000), &timeout);
+        while(sub_rec->running && err == 0)
+        {
+            err = pthread_cond_timedwait(&sub_rec->cond,
+                    &sub_rec->mutex,
+                    rtTime_ToTimespec(&timeout, &ts));
+        }
 
         if(err != 0 && err != ETIMEDOUT)
         {
             RBUSLOG_ERROR("Error %d:%s running command pthread_cond_timedwait", err, strerror(err));
         }
+        if(!sub_rec->running)
+        {
+            break;
+        }
+        ERROR_CHECK(pthread_mutex_unlock(&sub_rec->mutex));
 
         rbusProperty_t properties = NULL;
         rbusObject_t data;
         rbusObject_Init(&data, NULL);
         rbusProperty_Init(&properties, "numberOfEntries", NULL);
-        result = get_recursive_wildcard_handler(handleInfo, sub->eventName,
+        result = get_recursive_wildcard_handler(handleInfo, sub_rec->eventName,
                 "IntervalThread", properties, &actualCount);
         rbusProperty_SetInt32(properties, actualCount);
-        tmpptr = strchr(sub->eventName, '*');
-        if (tmpptr)
+        if (strchr(sub_rec->eventName, '*'))
         {
             rbusObject_SetProperty(data, properties);
         }
@@ -148,68 +170,72 @@ static void* PublishingThreadFunc(void* rec)
             rbusObject_SetProperty(data, rbusProperty_GetNext(properties)); /*"numberOfEntries" property not requried for normal event*/
         }
         rbusProperty_Release(properties);
-        if(result != RBUS_ERROR_SUCCESS)
-        {
-            RBUSLOG_ERROR("failed to get details of %s", sub->eventName);
-            rbusObject_Release(data);
-            continue;
-        }
 
         rbusEvent_t event = {0};
-        event.name = sub->eventName;
+        event.name = sub_rec->eventName;
         event.data = data;
         event.type = RBUS_EVENT_INTERVAL;
         /* Handling subscription with duration */
-        if (sub->duration != 0)
+        if (sub_rec->duration != 0 && count >= sub_rec->duration/sub_rec->interval)
+        {
+            /* Update event type after duration timeout*/
+            event.type = RBUS_EVENT_DURATION_COMPLETE;
+            duration_complete = true;
+        }
+        count++;
+
+        ERROR_CHECK(pthread_mutex_lock(&sub_rec->mutex));
+        if(!sub_rec->running)
         {
-            duration_count = sub->duration/sub->interval;
-            if (count >= duration_count)
+            rbusObject_Release(data);
+            break;
+        }
+        if(result != RBUS_ERROR_SUCCESS)
+        {
+            RBUSLOG_ERROR("failed to get details of %s", sub_rec->eventName);
+            if(!duration_complete)
             {
-                /* Update event type after duration timeout*/
-                event.type = RBUS_EVENT_DURATION_COMPLETE;
-                duration_complete = true;
+                rbusObject_Release(data);
+                continue;
             }
         }
 
         rbusMessage msg;
         rbusMessage_Init(&msg);
-        rbusEventData_appendToMessage(&event, sub->filter, sub->interval, sub->duration, sub->componentId, msg);
+        rbusEventData_appendToMessage(&event, sub_rec->filter, sub_rec->interval, sub_rec->duration, sub_rec->componentId, msg);
 
-        RBUSLOG_DEBUG("rbusEvent_Publish: publishing event %s to listener %s interval %d", sub->eventName, sub->listener, sub->interval);
+        RBUSLOG_DEBUG("rbusEvent_Publish: publishing event %s to listener %s interval %d", sub_rec->eventName, sub_rec->listener, sub_rec->interval);
         error = rbus_publishSubscriberEvent(
                 handleInfo->componentName,
-                sub->eventName/*use the same eventName the consumer subscribed with; not event instance name eventData->name*/,
-                sub->listener,
+                sub_rec->eventName/*use the same eventName the consumer subscribed with; not event instance name eventData->name*/,
+                sub_rec->listener,
                 msg,
-                sub->subscriptionId,
-                sub->rawData);
+                sub_rec->subscriptionId,
+                sub_rec->rawData);
 
         rbusMessage_Release(msg);
         rbusObject_Release(data);
         if(error != RBUSCORE_SUCCESS)
         {
-            RBUSLOG_ERROR("Event_Publish failed with result=%d", result);
-        }
-
-        if (duration_complete)
-        {
-            break;
-        }
-        else
-        {
-            count++;
+            RBUSLOG_ERROR("Event_Publish failed with result=%d", error);
         }
     }
     ERROR_CHECK(pthread_mutex_unlock(&sub_rec->mutex));
     if(duration_complete) {
-        ERROR_CHECK(pthread_mutex_lock(&gMutex));
+        rbusSubscription_t* sub;
         ERROR_CHECK(pthread_mutex_lock(&handleInfo->handle_subsMutex));
-        rbusSubscriptions_removeSubscription(handleInfo->subscriptions, sub);
+        ERROR_CHECK(pthread_mutex_lock(&sub_rec->mutex));
+        sub = sub_rec->sub;
+        ERROR_CHECK(pthread_mutex_unlock(&sub_rec->mutex));
+        if(sub)/*not removed in the meantime*/
+            rbusSubscriptions_removeSubscription(handleInfo->subscriptions, sub);
         ERROR_CHECK(pthread_mutex_unlock(&handleInfo->handle_subsMutex));
-        rtVector_RemoveItem(gRecord, sub_rec, sub_Free);
-        ERROR_CHECK(pthread_mutex_unlock(&gMutex));
     }
     RBUSLOG_DEBUG("%s: stop\n", __FUNCTION__);
+    ERROR_CHECK(pthread_mutex_lock(&gMutex));
+    rtVector_RemoveItem(gRecord, sub_rec, sub_Free);
+    ERROR_CHECK(pthread_cond_broadcast(&gCond));
+    ERROR_CHECK(pthread_mutex_unlock(&gMutex));
     return NULL;
 }
 
@@ -243,26 +269,46 @@ rbusError_t rbusInterval_AddSubscriptionRecord(
         rtVector_Create(&gRecord);
 
     sub_rec = sub_find(sub);
-    ERROR_CHECK(pthread_mutex_unlock(&gMutex));
     if(!sub_rec)
     {
+        pthread_t thread;
+        int err;
+
         sub_rec = (sRecord*)rt_malloc(sizeof(sRecord));
         sub_rec->handle = handle;
-        sub_rec->node = propNode;
         sub_rec->sub = sub;
-        rbusProperty_Init(&sub_rec->property, propNode->fullName, NULL);
+        sub_rec->eventName = strdup(sub->eventName);
+        sub_rec->listener = strdup(sub->listener);
+        sub_rec->filter = sub->filter;
+        if(sub_rec->filter)
+            rbusFilter_Retain(sub_rec->filter);
+        sub_rec->interval = sub->interval;
+        sub_rec->duration = sub->duration;
+        sub_rec->componentId = sub->componentId;
+        sub_rec->subscriptionId = sub->subscriptionId;
+        sub_rec->rawData = sub->rawData;
         init_thread(sub_rec);
 
         /* Thread create */
         sub_rec->running = 1;
-        pthread_create(&sub_rec->thread, NULL, PublishingThreadFunc, (void *)sub_rec);
-
         rtVector_PushBack(gRecord, sub_rec);
+        err = pthread_create(&thread, NULL, PublishingThreadFunc, (void *)sub_rec);
+        if(err == 0)
+        {
+            ERROR_CHECK(pthread_detach(thread));
+        }
+        else
+        {
+            RBUSLOG_ERROR("Error %d:%s creating the interval thread", err, strerror(err));
+            rtVector_RemoveItem(gRecord, sub_rec, sub_Free);
+        }
     }
+    ERROR_CHECK(pthread_mutex_unlock(&gMutex));
     return RBUS_ERROR_SUCCESS; 
 }
 
-/* Delete Subscription Record from global record and stop it's running thread */
+/* Stop the running thread of a subscription, which must not be used by it any more after this.
+   Called with the handle's subscriptions locked, so this doesn't wait for the thread */
 void rbusInterval_RemoveSubscriptionRecord(
         rbusHandle_t handle,
         elementNode* propNode,
@@ -272,30 +318,36 @@ void rbusInterval_RemoveSubscriptionRecord(
     (void)(propNode);
     VERIFY_NULL(sub);
 
-    if (!gRecord)
+    ERROR_CHECK(pthread_mutex_lock(&gMutex));
+    if(gRecord)
     {
-        return;
+        sRecord* rec = sub_find(sub);
+        if(rec)
+            sub_stop(rec);
     }
-
-    sRecord* rec;
-    ERROR_CHECK(pthread_mutex_lock(&gMutex));
-    rec = sub_find(sub);
     ERROR_CHECK(pthread_mutex_unlock(&gMutex));
+}
 
-    if(rec)
+/* Stop all threads of a handle and wait until they are gone.
+   Called without the handle's subscriptions locked */
+void rbusInterval_CloseHandle(rbusHandle_t handle)
+{
+    size_t i;
+
+    ERROR_CHECK(pthread_mutex_lock(&gMutex));
+    for(i = 0; gRecord && i < rtVector_Size(gRecord);)
     {
-        if(rec->running)
+        sRecord* rec = (sRecord*)rtVector_At(gRecord, i);
+        if(rec->handle == handle)
         {
-            rec->running = 0;
-            ERROR_CHECK(pthread_cond_signal(&rec->cond));
-            ERROR_CHECK(pthread_join(rec->thread, NULL));
+            sub_stop(rec);
+            ERROR_CHECK(pthread_cond_wait(&gCond, &gMutex));
+            i = 0;
+        }
+        else
+        {
+            i++;
         }
-        ERROR_CHECK(pthread_mutex_lock(&gMutex));
-        rtVector_RemoveItem(gRecord, rec, sub_Free);
-        ERROR_CHECK(pthread_mutex_unlock(&gMutex));
-    }
-    else
-    {
-        RBUSLOG_ERROR("value not found\n");
     }
+    ERROR_CHECK(pthread_mutex_unlock(&gMutex));
 }
diff --git a/src/rbus/rbus_intervalsubscription.h b/src/rbus/rbus_intervalsubscription.h
index 26bd0b5..9d7a501 100644
--- a/src/rbus/rbus_intervalsubscription.h
+++ b/src/rbus/rbus_intervalsubscription.h
@@ -28,6 +28,7 @@ extern "C" {
 
 rbusError_t rbusInterval_AddSubscriptionRecord(rbusHandle_t handle, elementNode* propNode, rbusSubscription_t* sub);
 void rbusInterval_RemoveSubscriptionRecord(rbusHandle_t handle, elementNode* propNode, rbusSubscription_t* sub);
+void rbusInterval_CloseHandle(rbusHandle_t handle);
 
 #ifdef __cplusplus
 }
diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index f3a4f7b..c62181c 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -20,6 +20,7 @@
 #include "rbus_subscriptions.h"
 #include "rbus_buffer.h"
 #include "rbus_handle.h"
+#include "rbus_intervalsubscription.h"
 #include <rtMemory.h>
 #include <string.h>
 #include <assert.h>
@@ -83,6 +84,8 @@ static void subscriptionFree(void* p)
         removeElementSubscription(node, sub);
         rtListItem_GetNext(item, &item);
     }
+    if(sub->interval)
+        rbusInterval_RemoveSubscriptionRecord(NULL, NULL, sub);
     if(sub->tokens)
         TokenChain_destroy(sub->tokens);
     if(sub->instances)
-- 
2.43.0


From 7e7fd998835ad54a1450bb7dac8f946ed067ede6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:58 +0000
Subject: [PATCH 43/60] fix: a saved subscription with a NOT filter, or a
 damaged filter, is read back safely [P12]

---
 src/rbus/rbus_buffer.c |  2 +-
 src/rbus/rbus_filter.c | 16 +++++++++++++---
 src/rbus/rbus_value.c  |  8 ++++----
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/rbus/rbus_buffer.c b/src/rbus/rbus_buffer.c
index 5241cd8..5454a4e 100644
--- a/src/rbus/rbus_buffer.c
+++ b/src/rbus/rbus_buffer.c
@@ -257,7 +257,7 @@ int rbusBuffer_Read(rbusBuffer_t const buff, void* data, int len)
 {
     if((!buff) || (!data))
         return -1;
-    if(!(buff->posRead + len < buff->lenAlloc))
+    if(len < 0 || len > buff->posWrite - buff->posRead)/*only what was written can be read*/
     {
         RBUSLOG_WARN("rbusBuffer_Read failed");
         return -1;
diff --git a/src/rbus/rbus_filter.c b/src/rbus/rbus_filter.c
index 1edc8bf..583505f 100644
--- a/src/rbus/rbus_filter.c
+++ b/src/rbus/rbus_filter.c
@@ -230,7 +230,8 @@ void rbusFilter_Encode(rbusFilter_t filter, rbusBuffer_t buff)
     {
         rbusBuffer_WriteUInt32TLV(buff, filter->e.logic.op);
         rbusFilter_Encode(filter->e.logic.left, buff);
-        rbusFilter_Encode(filter->e.logic.right, buff);
+        if(filter->e.logic.op != RBUS_FILTER_OPERATOR_NOT)
+            rbusFilter_Encode(filter->e.logic.right, buff);
     }
 }
 
@@ -243,7 +244,7 @@ int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
     rbusFilter_RelationOperator_t relOp;
     rbusFilter_LogicOperator_t logOp;
     rbusValue_t val;
-    rbusFilter_t left, right;
+    rbusFilter_t left = NULL, right = NULL;
 
     if(rbusBuffer_ReadUInt16(buff, &type) < 0)
         return -1;
@@ -291,13 +292,22 @@ int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
             return -1;
         if(rbusFilter_Decode(&left, buff) < 0)
             return -1;
-        if(rbusFilter_Decode(&right, buff) < 0)
+        /*NOT has a left operand only*/
+        if(logOp != RBUS_FILTER_OPERATOR_NOT && rbusFilter_Decode(&right, buff) < 0)
+        {
+            rbusFilter_Release(left);
             return -1;
+        }
 
         rbusFilter_InitLogic(&filter, logOp, left, right);
         rbusFilter_Release(left);
         rbusFilter_Release(right);
     }
+    else
+    {
+        RBUSLOG_WARN("rbusFilter_Decode failed");
+        return -1;
+    }
     *filterOut = filter;
     return 0;
 }
diff --git a/src/rbus/rbus_value.c b/src/rbus/rbus_value.c
index 6f90f0f..7a0677f 100644
--- a/src/rbus/rbus_value.c
+++ b/src/rbus/rbus_value.c
@@ -725,18 +725,19 @@ int rbusValue_Decode(rbusValue_t* value, rbusBuffer_t const buff)
     {
     /*Calling rbusValue_SetString/rbusValue_SetBytes so the value's internal buffer is created.*/
     case RBUS_STRING:
-        if(!(buff->posRead + length <= buff->lenAlloc))
+        /*length should captures null term*/
+        if(length == 0 || length > buff->posWrite - buff->posRead ||
+           strnlen((char const*)buff->data + buff->posRead, length) + 1 != (size_t)length)
         {
             RBUSLOG_WARN("rbusValue_Decode failed");
             rbusValue_Release(*value);
             return -1;
         }
-        assert(strlen((char const*)buff->data + buff->posRead) + 1 == (size_t)length);/*length should captures null term*/
         rbusValue_SetString(current, (char const*)buff->data + buff->posRead);
         buff->posRead += length;
         return length;
     case RBUS_BYTES:
-        if(!(buff->posRead + length <= buff->lenAlloc))
+        if(length > buff->posWrite - buff->posRead)
         {
             RBUSLOG_WARN("rbusValue_Decode failed");
             rbusValue_Release(*value);
@@ -790,7 +791,6 @@ int rbusValue_Decode(rbusValue_t* value, rbusBuffer_t const buff)
         break;
     default:
         rbusValue_Release(*value);
-        assert(false);
         return -1;
     }
     if (rc != 0)
-- 
2.43.0


From 2466c5b0cbca5fd43d9452a75a5dd0b6647b5c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:10 +0000
Subject: [PATCH 44/60] fix: raw-data events of several providers reach the
 handlers subscribed to them [P09]

---
 src/rbus/rbus.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 973f5da..7097450 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -117,8 +117,16 @@ typedef struct _rbusEventSubscriptionInternal
     bool                        rawData;
     rbusEventSubscription_t*    sub;
     uint32_t                    subscriptionId;
+    uint32_t                    rawListenerId;  /* of the listener for raw data at the broker: unlike subscriptionId, which
+                                                   each provider numbers for itself, it is unique within this process */
  } rbusEventSubscriptionInternal_t;
 
+static uint32_t rbusRawListener_NextId(void)
+{
+    static uint32_t next_id = 0x10000000; /* Beyond the ids of rtConnection_GetNextSubscriptionId() */
+    return __sync_fetch_and_add(&next_id, 1);
+}
+
 //********************************************************************************//
 
 extern char* __progname;
@@ -356,7 +364,7 @@ rbusError_t rbusOpenDirect_SubAdd(rbusHandle_t handle, rtVector eventSubs, char
 
             if(rbusMessage_HasListener(handle, rawDataTopic))
             {
-                errorcode = rbusMessage_RemoveListener(handle, rawDataTopic, subInternal->subscriptionId);
+                errorcode = rbusMessage_RemoveListener(handle, rawDataTopic, subInternal->rawData ? subInternal->rawListenerId : subInternal->subscriptionId);
                 if (errorcode != RBUS_ERROR_SUCCESS)
                 {
                     RBUSLOG_WARN("rbusMessage_RemoveListener failed err:%d", errorcode);
@@ -398,7 +406,7 @@ rbusError_t rbusCloseDirect_SubRemove(rbusHandle_t handle, rtVector eventSubs, c
             handle->m_connection = handle->m_connectionParent; /* changed the handle m_connection of direct connection to use normal m_connection and used the same to add the rawdatatopic for normal connection*/
             memset(rawDataTopic, '\0', strlen(rawDataTopic));
             snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", subInternal->sub->eventName);
-            errorcode = rbusMessage_AddListener(handle, rawDataTopic, _subscribe_rawdata_handler, (void *)(subInternal->sub), subInternal->subscriptionId);
+            errorcode = rbusMessage_AddListener(handle, rawDataTopic, _subscribe_rawdata_handler, (void *)(subInternal->sub), subInternal->rawListenerId);
             if(errorcode != RBUS_ERROR_SUCCESS)
             {
                 RBUSLOG_ERROR("rbusMessage_AddListener failed err: %d", errorcode);
@@ -1402,6 +1410,7 @@ void _subscribe_async_callback_handler(rbusHandle_t handle, rbusEventSubscriptio
             subInternal->sub = subscription;
             subInternal->dirty = false;
             subInternal->subscriptionId = subscriptionId;
+            subInternal->rawListenerId = 0;
             subInternal->rawData = false;
             rtVector_PushBack(handleInfo->eventSubs, subInternal);
             HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
@@ -5115,7 +5124,7 @@ static rbusError_t _rbus_event_unsubscribe(
             snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", subInternal->sub->eventName);
             if(rbusMessage_HasListener(handle, rawDataTopic))
             {
-                if(RBUS_ERROR_SUCCESS != rbusMessage_RemoveListener(handle, rawDataTopic, subInternal->subscriptionId))
+                if(RBUS_ERROR_SUCCESS != rbusMessage_RemoveListener(handle, rawDataTopic, subInternal->rawListenerId))
                 {
                     RBUSLOG_WARN("%s: Remove listener failed err: %d", __FUNCTION__, errorcode);
                 }
@@ -5283,6 +5292,7 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
         subInternal->sub = sub;
         subInternal->dirty = false;
         subInternal->rawData = rawData;
+        subInternal->rawListenerId = rbusRawListener_NextId();
         rtVector_PushBack(handleInfo->eventSubs, subInternal);
         HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
         if(publishOnSubscribe)
@@ -5331,6 +5341,9 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
                 subInternal = rt_malloc(sizeof(rbusEventSubscriptionInternal_t));
                 subInternal->sub = sub;
                 subInternal->dirty = false;
+                subInternal->rawData = rawData;
+                subInternal->subscriptionId = 0; /* the provider does not tell the id of an existing subscription */
+                subInternal->rawListenerId = rbusRawListener_NextId();
                 rtVector_PushBack(handleInfo->eventSubs, subInternal);
                 RBUSLOG_INFO("EVENT_SUBSCRIPTION_ALREADY_EXIST  %s", subInternal->sub->eventName);
                 HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
@@ -5384,7 +5397,7 @@ static void _subscribe_rawdata_handler(rbusHandle_t handle, rbusMessage_t* msg,
                     snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", subInternal->sub->eventName);
                     if(rbusMessage_HasListener(handle, rawDataTopic))
                     {
-                        if(RBUS_ERROR_SUCCESS != rbusMessage_RemoveListener(handle, rawDataTopic, subInternal->subscriptionId))
+                        if(RBUS_ERROR_SUCCESS != rbusMessage_RemoveListener(handle, rawDataTopic, subInternal->rawListenerId))
                         {
                             RBUSLOG_WARN("Remove listener failed err: %d", errorcode);
                         }
@@ -5439,7 +5452,7 @@ rbusError_t  rbusEvent_SubscribeRawData(
         subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, NULL, 0, 0, true);
         if(subInternal && rbusMessage_HasListener(handle,rawDataTopic))
         {
-            errorcode = rbusMessage_RemoveListener(handle, rawDataTopic, subInternal->subscriptionId);
+            errorcode = rbusMessage_RemoveListener(handle, rawDataTopic, subInternal->rawListenerId);
             if (errorcode != RT_OK)
             {
                 RBUSLOG_WARN("rbusMessage_RemoveListener:%d", errorcode);
@@ -5458,7 +5471,7 @@ rbusError_t  rbusEvent_SubscribeRawData(
         subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, NULL, 0, 0, true);
         snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", eventName);
         errorcode = rbusMessage_AddListener(handle, rawDataTopic,
-                _subscribe_rawdata_handler, (void *)(subInternal->sub), subInternal->subscriptionId);
+                _subscribe_rawdata_handler, (void *)(subInternal->sub), subInternal->rawListenerId);
         if(errorcode != RBUS_ERROR_SUCCESS)
         {
             RBUSLOG_ERROR("%s: Listener failed err: %d", __FUNCTION__, errorcode);
@@ -5727,7 +5740,7 @@ rbusError_t rbusEvent_SubscribeExRawData(
                 subInternal = rbusEventSubscription_find(handleInfo->eventSubs, subscription[i].eventName, subscription[i].filter, subscription[i].interval, subscription[i].duration, true);
                 if(subInternal && rbusMessage_HasListener(handle,rawDataTopic))
                 {
-                    errorcode = rbusMessage_RemoveListener(handle, rawDataTopic, subInternal->subscriptionId);
+                    errorcode = rbusMessage_RemoveListener(handle, rawDataTopic, subInternal->rawListenerId);
                     if (errorcode != RT_OK)
                     {
                         RBUSLOG_WARN("rbusMessage_RemoveListener:%d", errorcode);
@@ -5746,7 +5759,7 @@ rbusError_t rbusEvent_SubscribeExRawData(
                 subInternal = rbusEventSubscription_find(handleInfo->eventSubs, subscription[i].eventName, subscription[i].filter, subscription[i].interval, subscription[i].duration, true);
                 snprintf(rawDataTopic, RBUS_MAX_NAME_LENGTH, "rawdata.%s", subscription[i].eventName);
                 errorcode = rbusMessage_AddListener(handle, rawDataTopic,
-                        _subscribe_rawdata_handler, (void *)(subInternal->sub), subInternal->subscriptionId);
+                        _subscribe_rawdata_handler, (void *)(subInternal->sub), subInternal->rawListenerId);
                 if(errorcode != RBUS_ERROR_SUCCESS)
                 {
                     RBUSLOG_ERROR("%s: Listener failed err: %d", __FUNCTION__, errorcode);
-- 
2.43.0


From 79ffb1039907167736599c36132152436e7a06a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:10 +0000
Subject: [PATCH 45/60] fix: a damaged subscription cache is rejected without
 reading beyond it [P12]

---
 src/rbus/rbus_subscriptions.c | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index c62181c..8cb80e3 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -435,12 +435,20 @@ static bool rbusSubscriptions_isListenerRunning(char const* listener)
     return true;
 }
 
+/*a string in the cache is not empty, lies within the file and ends with its only null*/
+static bool rbusSubscriptions_isCachedString(rbusBuffer_t buff, uint16_t length)
+{
+    return length > 1 && length <= buff->posWrite - buff->posRead &&
+           strnlen((char const*)buff->data + buff->posRead, length) == (size_t)length - 1;
+}
+
 static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
 {
     struct stat st;
     long size;
     uint16_t type, length;
     int32_t hasFilter;
+    int32_t flag;
     FILE* file = NULL;
     rbusBuffer_t buff = NULL;
     rbusSubscription_t* sub = NULL;
@@ -501,6 +509,7 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
         if(type != RBUS_STRING || length >= RBUS_MAX_NAME_LENGTH) goto remove_bad_file;
+        if(!rbusSubscriptions_isCachedString(buff, length)) goto remove_bad_file;
 
         sub->listener = rt_calloc(1, length);
         if(!sub->listener)
@@ -515,6 +524,7 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
         if(type != RBUS_STRING || length >= RBUS_MAX_NAME_LENGTH) goto remove_bad_file;
+        if(!rbusSubscriptions_isCachedString(buff, length)) goto remove_bad_file;
 
         sub->eventName = rt_try_calloc(1, length);
         if(!sub->eventName)
@@ -528,43 +538,45 @@ static void rbusSubscriptions_loadCache(rbusSubscriptions_t subscriptions)
         //read componentId
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
+        if(type != RBUS_INT32 || length != sizeof(int32_t)) goto remove_bad_file;
         if(rbusBuffer_ReadInt32(buff, &sub->componentId) < 0) goto remove_bad_file;
 
         //read interval
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
+        if(type != RBUS_INT32 || length != sizeof(int32_t)) goto remove_bad_file;
         if(rbusBuffer_ReadInt32(buff, &sub->interval) < 0) goto remove_bad_file;
 
         //read duration        
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
+        if(type != RBUS_INT32 || length != sizeof(int32_t)) goto remove_bad_file;
         if(rbusBuffer_ReadInt32(buff, &sub->duration) < 0) goto remove_bad_file;
 
         //read autoPublish
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, (int*)&sub->autoPublish) < 0) goto remove_bad_file;
+        if(type != RBUS_INT32 || length != sizeof(int32_t)) goto remove_bad_file;
+        if(rbusBuffer_ReadInt32(buff, &flag) < 0) goto remove_bad_file;
+        sub->autoPublish = flag != 0;
 
         //read subscriptionId
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
+        if(type != RBUS_INT32 || length != sizeof(int32_t)) goto remove_bad_file;
         if(rbusBuffer_ReadInt32(buff, (int*)&sub->subscriptionId) < 0) goto remove_bad_file;
 
         //read rawData
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
-        if(rbusBuffer_ReadInt32(buff, (int*)&sub->rawData) < 0) goto remove_bad_file;
+        if(type != RBUS_INT32 || length != sizeof(int32_t)) goto remove_bad_file;
+        if(rbusBuffer_ReadInt32(buff, &flag) < 0) goto remove_bad_file;
+        sub->rawData = flag != 0;
 
         //read hasFilter
         if(rbusBuffer_ReadUInt16(buff, &type) < 0) goto remove_bad_file;
         if(rbusBuffer_ReadUInt16(buff, &length) < 0) goto remove_bad_file;
-        if(type != RBUS_INT32 && length != sizeof(int32_t)) goto remove_bad_file;
+        if(type != RBUS_INT32 || length != sizeof(int32_t)) goto remove_bad_file;
         if(rbusBuffer_ReadInt32(buff, &hasFilter) < 0) goto remove_bad_file;
 
         //read filter
-- 
2.43.0


From e6c87d8af16158b0cf97b442589710ef55d7e8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:56 +0000
Subject: [PATCH 46/60] fix: removing one of several listeners a component has
 for an expression leaves the others [P09 P01]

---
 src/rtmessage/rtrouted.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rtmessage/rtrouted.c b/src/rtmessage/rtrouted.c
index c48cee9..75e6122 100644
--- a/src/rtmessage/rtrouted.c
+++ b/src/rtmessage/rtrouted.c
@@ -794,7 +794,8 @@ rtRouted_OnMessageSubscribe(rtConnectedClient* sender, rtMessageHeader* hdr, uin
         {
           rtRouteEntry* route = (rtRouteEntry *) rtVector_At(gRoutes, i);
 
-          if((route->subscription) && (0 == strncmp(route->expression, expression, RTMSG_MAX_EXPRESSION_LEN)) && (route->subscription->client == sender))
+          if((route->subscription) && (0 == strncmp(route->expression, expression, RTMSG_MAX_EXPRESSION_LEN)) && (route->subscription->client == sender) &&
+             (route->subscription->id == route_id)) /* a client can have several listeners for one expression */
           {
             rtRouted_ClearRoute(route);
             route_removed = 1;
-- 
2.43.0


From 967a0af02aa474d2d52acc722822b2d3b16206e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:55 +0000
Subject: [PATCH 47/60] fix: a crash while the subscription cache is written
 does not lose the subscriptions saved before [P12]

---
 src/rbus/rbus_subscriptions.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 8cb80e3..9695cba 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -652,6 +652,8 @@ static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
     rtListItem item;
     rbusSubscription_t* sub;
     char filePath[256];
+    char tempPath[sizeof(filePath) + 4];
+    bool written;
 
     snprintf(filePath, 256, CACHE_FILE_PATH_FORMAT, subscriptions->tmpDir, subscriptions->componentName);
 
@@ -669,11 +671,14 @@ static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
         return;
     }
 
-    file = fopen(filePath, "wb");
+    /*the cache is replaced at once: a crash while it is written must not lose the subscriptions saved before*/
+    snprintf(tempPath, sizeof(tempPath), "%s.new", filePath);
+
+    file = fopen(tempPath, "wb");
 
     if(!file)
     {
-        RBUSLOG_ERROR("failed to open %s", filePath);
+        RBUSLOG_ERROR("failed to open %s", tempPath);
         return;
     }
 
@@ -705,11 +710,18 @@ static void rbusSubscriptions_saveCache(rbusSubscriptions_t subscriptions)
         rtListItem_GetNext(item, &item);
     }
 
-    fwrite(buff->data, 1, buff->posWrite, file);
+    written = fwrite(buff->data, 1, buff->posWrite, file) == (size_t)buff->posWrite;
 
     rbusBuffer_Destroy(buff);
 
-    fclose(file);
+    if(fclose(file) != 0)
+        written = false;
+
+    if(!written || rename(tempPath, filePath) != 0)
+    {
+        RBUSLOG_ERROR("failed to write %s", filePath);
+        remove(tempPath);
+    }
 }
 
 /*this is basicially a strcmp with the addition that it will ignore any wildcard (e.g. "*") in the event name
-- 
2.43.0


From 8122aa117fb1a4af79c5c31db0d70dc8f3543621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:28 +0000
Subject: [PATCH 48/60] fix: very long intervals do not become short ones or a
 flood of events [P11 P12]

---
 src/rbus/rbus_intervalsubscription.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rbus/rbus_intervalsubscription.c b/src/rbus/rbus_intervalsubscription.c
index 25e82ad..198e173 100644
--- a/src/rbus/rbus_intervalsubscription.c
+++ b/src/rbus/rbus_intervalsubscription.c
@@ -23,6 +23,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
+#include <limits.h>
 #include <pthread.h>
 #include <unistd.h>
 //#include <assert.h>
@@ -136,7 +137,8 @@ static void* PublishingThreadFunc(void* rec)
         int result = 0;
         rtTime_t timeout;
         rtTimespec_t ts;
-        rtTime_Later(NULL, (sub_rec->interval*1000), &timeout);
+        /*an interval beyond what fits in milliseconds must not become a time in the past*/
+        rtTime_Later(NULL, sub_rec->interval < 0 || sub_rec->interval > INT_MAX/1000 ? INT_MAX : sub_rec->interval*1000, &timeout);
         while(sub_rec->running && err == 0)
         {
             err = pthread_cond_timedwait(&sub_rec->cond,
-- 
2.43.0


From 9c921b02ed333ed9fe2b06c398c474fd6498b7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:14 +0000
Subject: [PATCH 49/60] fix: a NOT filter keeps an unused right operand when it
 is saved [P12]

---
 src/rbus/rbus_filter.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/rbus/rbus_filter.c b/src/rbus/rbus_filter.c
index 583505f..eba49e9 100644
--- a/src/rbus/rbus_filter.c
+++ b/src/rbus/rbus_filter.c
@@ -230,8 +230,15 @@ void rbusFilter_Encode(rbusFilter_t filter, rbusBuffer_t buff)
     {
         rbusBuffer_WriteUInt32TLV(buff, filter->e.logic.op);
         rbusFilter_Encode(filter->e.logic.left, buff);
-        if(filter->e.logic.op != RBUS_FILTER_OPERATOR_NOT)
+        if(filter->e.logic.right)
+        {
             rbusFilter_Encode(filter->e.logic.right, buff);
+        }
+        else
+        {
+            /*NOT needs no right operand*/
+            rbusBuffer_WriteTypeLengthValue(buff, RBUS_NONE, 0, "");
+        }
     }
 }
 
@@ -250,6 +257,11 @@ int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
         return -1;
     if(rbusBuffer_ReadUInt16(buff, &length) < 0)
         return -1;
+    if(type == RBUS_NONE && length == 0)/*an operand which is not there*/
+    {
+        *filterOut = NULL;
+        return 0;
+    }
     if(!(type == RBUS_UINT32 && length == 4))
     {
         RBUSLOG_WARN("rbusFilter_Decode failed");
@@ -292,10 +304,10 @@ int rbusFilter_Decode(rbusFilter_t* filterOut, rbusBuffer_t const buff)
             return -1;
         if(rbusFilter_Decode(&left, buff) < 0)
             return -1;
-        /*NOT has a left operand only*/
-        if(logOp != RBUS_FILTER_OPERATOR_NOT && rbusFilter_Decode(&right, buff) < 0)
+        if(rbusFilter_Decode(&right, buff) < 0 || !left || (!right && logOp != RBUS_FILTER_OPERATOR_NOT))
         {
             rbusFilter_Release(left);
+            rbusFilter_Release(right);
             return -1;
         }
 
-- 
2.43.0


From 1469121d174c08ac6ad5ba913f83716a844bb195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:51 +0000
Subject: [PATCH 50/60] fix: cancelling, closing or repeating a pending
 asynchronous subscription is safe, its timeout counts and events flow once
 success is reported [P13]

---
 src/rbus/rbus.c                |  81 ++++---
 src/rbus/rbus_asyncsubscribe.c | 427 ++++++++++++++++++++-------------
 src/rbus/rbus_asyncsubscribe.h |   8 +-
 3 files changed, 321 insertions(+), 195 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 7097450..5493a82 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1390,36 +1390,49 @@ static void _client_disconnect_callback_handler(const char * listener)
     UnlockMutex();
 }
 
-void _subscribe_async_callback_handler(rbusHandle_t handle, rbusEventSubscription_t* subscription, rbusError_t error, uint32_t subscriptionId)
+/*returns false if the subscription was cancelled, in which case the caller still owns it*/
+bool _subscribe_async_callback_handler(rbusHandle_t handle, rbusEventSubscription_t* subscription, rbusError_t error, uint32_t subscriptionId)
 {
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
+    rbusEventSubscription_t answer;
 
-    subscription->asyncHandler(subscription->handle, subscription, error);
-    if(subscription)
+    HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+    if(!rbusAsyncSubscribe_BeginAnswer(subscription))
     {
-        if(error == RBUS_ERROR_SUCCESS)
-        {
-            HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
-            rbusEventSubscriptionInternal_t* subInternal = NULL;
-            if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, subscription->eventName,
-                            subscription->filter, subscription->interval, subscription->duration, false)) != NULL)
-            {
-                rtVector_RemoveItem(handleInfo->eventSubs, subInternal, rbusEventSubscriptionInternal_free);
-            }
-            subInternal = rt_malloc(sizeof(rbusEventSubscriptionInternal_t));
-            subInternal->sub = subscription;
-            subInternal->dirty = false;
-            subInternal->subscriptionId = subscriptionId;
-            subInternal->rawListenerId = 0;
-            subInternal->rawData = false;
-            rtVector_PushBack(handleInfo->eventSubs, subInternal);
-            HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
-        }
-        else
+        HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+        return false;
+    }
+    /*the handler gets a copy because once it is stored the subscription can be removed at any time*/
+    answer = *subscription;
+    answer.eventName = strdup(subscription->eventName);
+    if(answer.filter)
+        rbusFilter_Retain(answer.filter);
+    if(error == RBUS_ERROR_SUCCESS)
+    {
+        rbusEventSubscriptionInternal_t* subInternal = NULL;
+        if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, subscription->eventName,
+                        subscription->filter, subscription->interval, subscription->duration, false)) != NULL)
         {
-            rbusEventSubscription_free(subscription);
+            rtVector_RemoveItem(handleInfo->eventSubs, subInternal, rbusEventSubscriptionInternal_free);
         }
+        subInternal = rt_malloc(sizeof(rbusEventSubscriptionInternal_t));
+        subInternal->sub = subscription;
+        subInternal->dirty = false;
+        subInternal->subscriptionId = subscriptionId;
+        subInternal->rawListenerId = 0;
+        subInternal->rawData = false;
+        rtVector_PushBack(handleInfo->eventSubs, subInternal);
     }
+    HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+
+    answer.asyncHandler(answer.handle, &answer, error);
+
+    if(error != RBUS_ERROR_SUCCESS)
+        rbusEventSubscription_free(subscription);
+    if(answer.filter)
+        rbusFilter_Release(answer.filter);
+    free((void*)answer.eventName);
+    return true;
 }
 
 int _event_callback_handler (char const* objectName, char const* eventName, rbusMessage message, void* userData)
@@ -3231,6 +3244,7 @@ rbusError_t rbus_close(rbusHandle_t handle)
     RBUSLOG_INFO("rbus close for (%s)", handleInfo->componentName);
 
     LockOpenClose();
+    rbusAsyncSubscribe_CloseHandle(handle);//called before the subscriptions are destroyed below
     LockMutex();
     char filename[RTMSG_HEADER_MAX_TOPIC_LENGTH];
     snprintf(filename, RTMSG_HEADER_MAX_TOPIC_LENGTH-1, "%s%d_%d", "/tmp/.rbus/", getpid(), handleInfo->componentId);
@@ -3281,8 +3295,6 @@ rbusError_t rbus_close(rbusHandle_t handle)
 
     rbusValueChange_CloseHandle(handle);//called before freeElementNode below
 
-    rbusAsyncSubscribe_CloseHandle(handle);
-
     if(handleInfo->elementRoot)
     {
         freeElementNode(handleInfo->elementRoot);
@@ -5185,6 +5197,13 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
     int destNotFoundSleep = 1000; /*miliseconds*/
     int destNotFoundTimeout;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
+    rbusEventSubscription_t pending = {0};
+    pending.handle = handle;
+    pending.eventName = eventName;
+    pending.filter = filter;
+    pending.interval = interval;
+    pending.duration = duration;
+    rbusAsyncSubscribe_WaitCancelled(handle);
     HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
     if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData)) != NULL)
     {
@@ -5199,7 +5218,7 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
             return RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST;
         }
     }
-    else if (rbusAsyncSubscribe_GetSubscription(handle, eventName, filter))
+    else if (rbusAsyncSubscribe_GetSubscription(&pending))
     {
         HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
         return RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST;
@@ -5235,7 +5254,7 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
     if (sub->asyncHandler)
     {
         //FIXME: this should take the payload too (mrollins) because rbus_asynsubscribe is passing NULL for filter to rbus_subscribeToEvent
-        rbusAsyncSubscribe_AddSubscription(sub, payload);
+        rbusAsyncSubscribe_AddSubscription(sub, payload, destNotFoundTimeout > 0 ? destNotFoundTimeout : 0);
 
         rbusMessage_Release(payload);
         return RBUS_ERROR_SUCCESS;
@@ -5591,9 +5610,11 @@ rbusError_t rbusEvent_Unsubscribe(
     }
     else
     {
-        RBUSLOG_INFO("%s no existing subscription found", eventName);
+        rbusEventSubscription_t pending = {0};
+        pending.eventName = eventName;
+        rbusError_t errorcode = _rbus_AsyncSubscribe_remove_subscription(handle, &pending);
         HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
-        return RBUS_ERROR_INVALID_OPERATION; //TODO - is the the right error to return
+        return errorcode;
     }
     HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
     return RBUS_ERROR_SUCCESS;
@@ -5882,6 +5903,8 @@ rbusError_t _rbus_AsyncSubscribe_remove_subscription(
     sub.handle = handle;
     sub.eventName = subscription->eventName;
     sub.filter = subscription->filter;
+    sub.interval = subscription->interval;
+    sub.duration = subscription->duration;
 
     sub_removed = rbusAsyncSubscribe_RemoveSubscription(&sub);
     if(sub_removed)
diff --git a/src/rbus/rbus_asyncsubscribe.c b/src/rbus/rbus_asyncsubscribe.c
index 48d0b75..2e06725 100644
--- a/src/rbus/rbus_asyncsubscribe.c
+++ b/src/rbus/rbus_asyncsubscribe.c
@@ -37,12 +37,12 @@
   } \
 }
 #define VERIFY_NULL(T) if(NULL == T){ return; }
-#define LOCK() ERROR_CHECK(pthread_mutex_lock(&gRetrier->mutexQueue))
-#define UNLOCK() ERROR_CHECK(pthread_mutex_unlock(&gRetrier->mutexQueue))
+#define LOCK() ERROR_CHECK(pthread_mutex_lock(&gMutexQueue))
+#define UNLOCK() ERROR_CHECK(pthread_mutex_unlock(&gMutexQueue))
 
 
 /*defined in rbus.c*/
-void _subscribe_async_callback_handler(rbusHandle_t handle, rbusEventSubscription_t* subscription, rbusError_t error, uint32_t subscriptionId);
+bool _subscribe_async_callback_handler(rbusHandle_t handle, rbusEventSubscription_t* subscription, rbusError_t error, uint32_t subscriptionId);
 int _event_callback_handler(char const* objectName, char const* eventName, rbusMessage message, void* userData);
 void rbusEventSubscription_free(void* p);
 
@@ -50,21 +50,28 @@ typedef struct AsyncSubscribeRetrier_t
 {
     rtList items;
     pthread_cond_t condItemAdded;
-    pthread_mutex_t mutexQueue;
     int isRunning;
     pthread_t threadId;
 } AsyncSubscribeRetrier_t;
 
 typedef struct AsyncSubscription_t
 {
+    AsyncSubscribeRetrier_t* retrier;
+    rbusHandle_t handle;
     rbusEventSubscription_t* subscription;
     rbusMessage payload;
     int nextWaitTime;
+    uint32_t timeout;   /*how long to keep retrying, in miliseconds*/
+    bool busy;          /*the retry thread is working on this item, so it must not be freed*/
+    bool cancelled;     /*cancelled while busy*/
+    bool answered;      /*the answer is being given while busy*/
     rtTime_t startTime;
     rtTime_t nextRetryTime;
 } AsyncSubscription_t;
 
 static AsyncSubscribeRetrier_t* gRetrier = NULL;
+static pthread_mutex_t gMutexQueue = PTHREAD_MUTEX_INITIALIZER; /*protects gRetrier and all items*/
+static pthread_cond_t gCondIdle = PTHREAD_COND_INITIALIZER; /*the retry thread finished an item*/
 
 static void rbusAsyncSubscribeRetrier_FreeSubscription(void *pitem)
 {
@@ -82,7 +89,7 @@ static int rbusAsyncSubscribeRetrier_CompareHandle(const void *pitem, const void
     AsyncSubscription_t* item = (AsyncSubscription_t*)pitem;
     if((!item)||(!phandle))
         return 1;
-    if(item->subscription->handle == phandle)
+    if(item->handle == phandle && !item->busy)
         return 0;
     else
         return 1;
@@ -95,15 +102,17 @@ static int rbusAsyncSubscribeRetrier_CompareSubscription(const void *pitem, cons
     if((!item)||(!sub))
         return 1;
 
-    if (item->subscription && (item->subscription->handle == sub->handle) &&
+    if (!item->cancelled && !item->answered && (item->handle == sub->handle) &&
         strcmp(item->subscription->eventName, sub->eventName) == 0 && 
+        item->subscription->interval == sub->interval &&
+        item->subscription->duration == sub->duration &&
         rbusFilter_Compare(item->subscription->filter, sub->filter) == 0)
         return 0;
     else
         return 1;
 }
 
-static int rbusAsyncSubscribeRetrier_DetermineNextSendTime(rtTime_t* nextSendTime)
+static int rbusAsyncSubscribeRetrier_DetermineNextSendTime(AsyncSubscribeRetrier_t* retrier, rtTime_t* nextSendTime)
 {
     rtTime_t now;
     rtListItem li;
@@ -115,7 +124,7 @@ static int rbusAsyncSubscribeRetrier_DetermineNextSendTime(rtTime_t* nextSendTim
 
     RBUSLOG_DEBUG("now=%s", rtTime_ToString(&now, tbuff));
 
-    rtList_GetFront(gRetrier->items, &li);
+    rtList_GetFront(retrier->items, &li);
 
     if(!li)
     {
@@ -155,139 +164,159 @@ static int rbusAsyncSubscribeRetrier_DetermineNextSendTime(rtTime_t* nextSendTim
     return 0;//meaning there's nothing past due currently
 }
 
-static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests()
+/*send the request of one item; called with the queue locked, which is unlocked meanwhile*/
+static void rbusAsyncSubscribeRetrier_SendSubscriptionRequest(AsyncSubscription_t* item)
 {
-    rtListItem li;
     rtTime_t now;
+    rbusCoreError_t coreerr;
+    uint32_t elapsed;
+    int providerError = RBUS_ERROR_SUCCESS;
+    rbusMessage response = NULL;
+    uint32_t subscriptionId = 0;
+    rbusError_t responseErr;
 
-    RBUSLOG_DEBUG("%s enter", __FUNCTION__);
+    RBUSLOG_INFO("%s subscribing", item->subscription->eventName);
+
+    item->busy = true;
+    UNLOCK();
+
+    coreerr = rbus_subscribeToEventTimeout(NULL, item->subscription->eventName,
+                _event_callback_handler, item->payload, item->subscription, &providerError, 0, false, &response, false);
 
     rtTime_Now(&now);
 
-    rtList_GetFront(gRetrier->items, &li);
+    elapsed = rtTime_Elapsed(&item->startTime, &now);
 
-    while(li)
+    LOCK();
+    if(coreerr == RBUSCORE_ERROR_ENTRY_NOT_FOUND &&  /*the only error that means provider not found yet*/
+     elapsed < item->timeout &&    /*if we haven't timeout out yet*/
+     !item->cancelled)
     {
-        AsyncSubscription_t* item = NULL;
+        if(item->nextWaitTime == 0)
+            item->nextWaitTime = 1000; //miliseconds
+        else
+            item->nextWaitTime *= 2;//just double the time
 
-        rtListItem_GetData(li, (void**)&item);
+        //apply a limit to our doubling
+        if(item->nextWaitTime > RBUS_SUBSCRIBE_MAXWAIT)
+          item->nextWaitTime = RBUS_SUBSCRIBE_MAXWAIT;
 
-        if(rtTime_Compare(&item->nextRetryTime, &now) <= 0)
+        //update nextRetryTime to nextWaitTime miliseconds from now, without exceeding the timeout
+        if(elapsed + item->nextWaitTime < item->timeout)
+        {
+            rtTime_Later(&now, item->nextWaitTime, &item->nextRetryTime);
+        }
+        else
         {
-            rbusCoreError_t coreerr;
-            uint32_t elapsed;
-            int providerError;
-            rbusMessage response = NULL;
-            uint32_t subscriptionId = 0;
+            //its possible to have the odd situation, based on how subscribeTimeout/subscribeMaxWait are configured, 
+            //where this final retry happens very close to the previous retry (e.g. ... wait 60, sub, wait 60, sub, wait 1, sub)
+            rtTime_Later(&item->startTime, item->timeout, &item->nextRetryTime);
+        }
 
+        RBUSLOG_INFO("%s no provider. retry in %d ms with %d left",
+            item->subscription->eventName, 
+            rtTime_Elapsed(&now, &item->nextRetryTime), 
+            item->timeout - elapsed );
 
-            RBUSLOG_INFO("%s subscribing", item->subscription->eventName);
+        item->busy = false;
+        ERROR_CHECK(pthread_cond_broadcast(&gCondIdle));
+        return;
+    }
+    UNLOCK();
 
-            coreerr = rbus_subscribeToEventTimeout(NULL, item->subscription->eventName,
-                        _event_callback_handler, item->payload, item->subscription, &providerError, 0, false, &response, false);
+    if(coreerr == RBUSCORE_SUCCESS)
+    {
+        if(response)
+            rbusMessage_GetUInt32(response, &subscriptionId);
+        RBUSLOG_INFO("%s subscribe retries succeeded", item->subscription->eventName);
+        responseErr = RBUS_ERROR_SUCCESS;
+    }
+    else if(coreerr == RBUSCORE_ERROR_ENTRY_NOT_FOUND)
+    {
+        RBUSLOG_INFO("%s all subscribe retries failed and no provider found", item->subscription->eventName);
+        RBUSLOG_WARN("EVENT_SUBSCRIPTION_FAIL_NO_PROVIDER_COMPONENT  %s", item->subscription->eventName);/*RDKB-33658-AC7*/
+        responseErr = RBUS_ERROR_TIMEOUT;
+    }
+    else if(providerError == RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST)
+    {
+        /*the provider knows this subscription from before, as for the synchronous subscribe*/
+        RBUSLOG_INFO("EVENT_SUBSCRIPTION_ALREADY_EXIST  %s", item->subscription->eventName);
+        responseErr = RBUS_ERROR_SUCCESS;
+    }
+    else if(providerError != RBUS_ERROR_SUCCESS)
+    {
+        RBUSLOG_INFO("%s subscribe retries failed due provider error %d", item->subscription->eventName, providerError);
+        RBUSLOG_WARN("EVENT_SUBSCRIPTION_FAIL_INVALID_INPUT  %s", item->subscription->eventName);/*RDKB-33658-AC9*/
+        responseErr = providerError;
+    }
+    else
+    {
+        RBUSLOG_INFO("%s subscribe retries failed due to core error %d", item->subscription->eventName, coreerr);
+        responseErr = RBUS_ERROR_BUS_ERROR;
+    }
+    if(response)
+        rbusMessage_Release(response);
 
-            rtTime_Now(&now);
+    if(!_subscribe_async_callback_handler(item->subscription->handle, item->subscription, responseErr, subscriptionId))
+    {
+        /*cancelled in the meantime so the provider should forget it*/
+        if(responseErr == RBUS_ERROR_SUCCESS)
+            rbus_unsubscribeFromEvent(NULL, item->subscription->eventName, item->payload, false);
+        rbusEventSubscription_free(item->subscription);
+    }
+    item->subscription = NULL; /*now owned by the handle or freed*/
 
-            elapsed = rtTime_Elapsed(&item->startTime, &now);
+    LOCK();
+    rtList_RemoveItemWithData(item->retrier->items, item, rbusAsyncSubscribeRetrier_FreeSubscription);
+    ERROR_CHECK(pthread_cond_broadcast(&gCondIdle));
+}
 
-            if(coreerr == RBUSCORE_ERROR_ENTRY_NOT_FOUND &&  /*the only error that means provider not found yet*/
-             elapsed < rbusHandle_FetchSubscribeTimeout(item->subscription->handle))    /*if we haven't timeout out yet*/
-            {
-                if(item->nextWaitTime == 0)
-                    item->nextWaitTime = 1000; //miliseconds
-                else
-                    item->nextWaitTime *= 2;//just double the time
-
-                //apply a limit to our doubling
-                if(item->nextWaitTime > RBUS_SUBSCRIBE_MAXWAIT)
-                  item->nextWaitTime = RBUS_SUBSCRIBE_MAXWAIT;
-
-                //update nextRetryTime to nextWaitTime miliseconds from now, without exceeding subscribeTimeout
-                if(elapsed + item->nextWaitTime < rbusHandle_FetchSubscribeTimeout(item->subscription->handle))
-                {
-                    rtTime_Later(&now, item->nextWaitTime, &item->nextRetryTime);
-                }
-                else
-                {
-                    //its possible to have the odd situation, based on how subscribeTimeout/subscribeMaxWait are configured, 
-                    //where this final retry happens very close to the previous retry (e.g. ... wait 60, sub, wait 60, sub, wait 1, sub)
-                    rtTime_Later(&item->startTime, rbusHandle_FetchSubscribeTimeout(item->subscription->handle), &item->nextRetryTime);
-                }
-
-                RBUSLOG_INFO("%s no provider. retry in %d ms with %d left",
-                    item->subscription->eventName, 
-                    rtTime_Elapsed(&now, &item->nextRetryTime), 
-                    rbusHandle_FetchSubscribeTimeout(item->subscription->handle)- elapsed );
-            }
-            else
-            {
-                rbusError_t responseErr;
-                rtListItem tmp;
-
-                if(coreerr == RBUSCORE_SUCCESS)
-                {
-                    if(response)
-                        rbusMessage_GetUInt32(response, &subscriptionId);
-                    RBUSLOG_INFO("%s subscribe retries succeeded", item->subscription->eventName);
-                    responseErr = RBUS_ERROR_SUCCESS;
-                    if(response)
-                        rbusMessage_Release(response);
-                }
-                else
-                {
-                    if(coreerr == RBUSCORE_ERROR_ENTRY_NOT_FOUND)
-                    {
-                        RBUSLOG_INFO("%s all subscribe retries failed and no provider found", item->subscription->eventName);
-                        RBUSLOG_WARN("EVENT_SUBSCRIPTION_FAIL_NO_PROVIDER_COMPONENT  %s", item->subscription->eventName);/*RDKB-33658-AC7*/
-                        responseErr = RBUS_ERROR_TIMEOUT;
-                    }
-                    else if(providerError != RBUS_ERROR_SUCCESS)
-                    {
-                        RBUSLOG_INFO("%s subscribe retries failed due provider error %d", item->subscription->eventName, providerError);
-                        RBUSLOG_WARN("EVENT_SUBSCRIPTION_FAIL_INVALID_INPUT  %s", item->subscription->eventName);/*RDKB-33658-AC9*/
-                        responseErr = providerError;
-                    }
-                    else
-                    {  
-                        RBUSLOG_INFO("%s subscribe retries failed due to core error %d", item->subscription->eventName, coreerr);
-                        responseErr = RBUS_ERROR_BUS_ERROR;
-                    }
-                    if(response)
-                        rbusMessage_Release(response);
-                }
-
-                _subscribe_async_callback_handler(item->subscription->handle, item->subscription, responseErr, subscriptionId);
-                //store the next item, because we are removing this li item from list
-                LOCK();
-                item->subscription = NULL;
-                rtListItem_GetNext(li, &tmp); 
-                rtList_RemoveItem(gRetrier->items, li, rbusAsyncSubscribeRetrier_FreeSubscription);
-                UNLOCK();
-                li = tmp;
-                continue;//li is already the next item so avoid GetNext below
-            }
+/*called with the queue locked*/
+static void rbusAsyncSubscribeRetrier_SendSubscriptionRequests(AsyncSubscribeRetrier_t* retrier)
+{
+    rtListItem li;
+    rtTime_t now;
+
+    RBUSLOG_DEBUG("%s enter", __FUNCTION__);
+
+    rtTime_Now(&now);
+
+    rtList_GetFront(retrier->items, &li);
+
+    while(li)
+    {
+        AsyncSubscription_t* item = NULL;
+
+        rtListItem_GetData(li, (void**)&item);
+
+        if(rtTime_Compare(&item->nextRetryTime, &now) <= 0)
+        {
+            rbusAsyncSubscribeRetrier_SendSubscriptionRequest(item);
+            /*the list may have changed meanwhile*/
+            rtList_GetFront(retrier->items, &li);
+        }
+        else
+        {
+            rtListItem_GetNext(li, &li);
         }
-        rtListItem_GetNext(li, &li);    
     }
     RBUSLOG_DEBUG("%s exit", __FUNCTION__);
 }
 
 static void* AsyncSubscribeRetrier_threadFunc(void* data)
 {
-    (void)data;
+    AsyncSubscribeRetrier_t* retrier = data;
     LOCK();
-    while(gRetrier->isRunning)
+    while(retrier->isRunning)
     {
         rtTime_t nextSendTime;
 
-        while(rbusAsyncSubscribeRetrier_DetermineNextSendTime(&nextSendTime))
+        while(rbusAsyncSubscribeRetrier_DetermineNextSendTime(retrier, &nextSendTime))
         {
-            UNLOCK();
-            rbusAsyncSubscribeRetrier_SendSubscriptionRequests();
-            LOCK();
+            rbusAsyncSubscribeRetrier_SendSubscriptionRequests(retrier);
         }
 
-        if(gRetrier->isRunning)
+        if(retrier->isRunning)
         {
             char tbuff[200];
             rtTimespec_t ts;
@@ -295,8 +324,8 @@ static void* AsyncSubscribeRetrier_threadFunc(void* data)
 
             RBUSLOG_DEBUG("timedwait until %s", rtTime_ToString(&nextSendTime, tbuff));
  
-            err = pthread_cond_timedwait(&gRetrier->condItemAdded,
-                                         &gRetrier->mutexQueue,
+            err = pthread_cond_timedwait(&retrier->condItemAdded,
+                                         &gMutexQueue,
                                          rtTime_ToTimespec(&nextSendTime, &ts));
             if(err != 0 && err != ETIMEDOUT)
             {
@@ -312,9 +341,9 @@ static void* AsyncSubscribeRetrier_threadFunc(void* data)
     return NULL;
 }
 
+/*called with the queue locked*/
 static void rbusAsyncSubscribeRetrier_Create()
 {
-    pthread_mutexattr_t mattrib;
     pthread_condattr_t cattrib;
 
     RBUSLOG_DEBUG("%s enter", __FUNCTION__);
@@ -324,49 +353,47 @@ static void rbusAsyncSubscribeRetrier_Create()
     gRetrier->isRunning = true;
     rtList_Create(&gRetrier->items);
 
-    ERROR_CHECK(pthread_mutexattr_init(&mattrib));
-    ERROR_CHECK(pthread_mutexattr_settype(&mattrib, PTHREAD_MUTEX_ERRORCHECK));
-    ERROR_CHECK(pthread_mutex_init(&gRetrier->mutexQueue, &mattrib));  
-    ERROR_CHECK(pthread_mutexattr_destroy(&mattrib));
-
     ERROR_CHECK(pthread_condattr_init(&cattrib));
     ERROR_CHECK(pthread_condattr_setclock(&cattrib, CLOCK_MONOTONIC));
     ERROR_CHECK(pthread_cond_init(&gRetrier->condItemAdded, &cattrib));
     ERROR_CHECK(pthread_condattr_destroy(&cattrib));
 
-    ERROR_CHECK(pthread_create(&gRetrier->threadId, NULL, AsyncSubscribeRetrier_threadFunc, NULL));
+    ERROR_CHECK(pthread_create(&gRetrier->threadId, NULL, AsyncSubscribeRetrier_threadFunc, gRetrier));
 
     RBUSLOG_DEBUG("%s exit", __FUNCTION__);
 }
 
+/*called with the queue locked, which is unlocked meanwhile*/
 static void rbusAsyncSubscribeRetrier_Destroy()
 {
+    AsyncSubscribeRetrier_t* retrier = gRetrier;
+
     RBUSLOG_DEBUG("%s enter", __FUNCTION__);
 
-    LOCK();
-    gRetrier->isRunning = false;
+    gRetrier = NULL;
+    retrier->isRunning = false;
+    //wake up worker thread so it can exit and join
+    ERROR_CHECK(pthread_cond_signal(&retrier->condItemAdded));
     UNLOCK();
 
-    //wake up worker thread so it can exit and join
-    ERROR_CHECK(pthread_cond_signal(&gRetrier->condItemAdded));
-    ERROR_CHECK(pthread_join(gRetrier->threadId, NULL));
+    ERROR_CHECK(pthread_join(retrier->threadId, NULL));
 
-    ERROR_CHECK(pthread_mutex_destroy(&gRetrier->mutexQueue));
-    ERROR_CHECK(pthread_cond_destroy(&gRetrier->condItemAdded));
-    rtList_Destroy(gRetrier->items, rbusAsyncSubscribeRetrier_FreeSubscription);
+    ERROR_CHECK(pthread_cond_destroy(&retrier->condItemAdded));
+    rtList_Destroy(retrier->items, rbusAsyncSubscribeRetrier_FreeSubscription);
 
-    free(gRetrier);
-    gRetrier = NULL;
+    free(retrier);
 
+    LOCK();
     RBUSLOG_DEBUG("%s exit", __FUNCTION__);
 }
 
-void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, rbusMessage payload)
+void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, rbusMessage payload, uint32_t timeout)
 {
     int rc;
     char tbuff[50];
     VERIFY_NULL(subscription);
 
+    LOCK();
     if(!gRetrier)
     {
         rbusAsyncSubscribeRetrier_Create();
@@ -376,89 +403,161 @@ void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, r
 
     rbusMessage_Retain(payload);
 
+    item->retrier = gRetrier;
+    item->handle = subscription->handle;
     item->subscription = subscription;
     item->payload = payload;
     item->nextWaitTime = 0;
+    item->timeout = timeout;
+    item->busy = item->cancelled = item->answered = false;
 
     rtTime_Now(&item->startTime);
     item->nextRetryTime = item->startTime; /*set to now also so we do our first sub immediately*/
 
     RBUSLOG_INFO("%s %s", subscription->eventName, rtTime_ToString(&item->startTime, tbuff));
 
-    LOCK();
     rtList_PushBack(gRetrier->items, item, NULL);
-    UNLOCK();
 
     //wake up worker thread so it can process new item
     rc = pthread_cond_signal(&gRetrier->condItemAdded);
     (void)rc;
+    UNLOCK();
 }
 
 bool rbusAsyncSubscribe_RemoveSubscription(rbusEventSubscription_t* subscription)
 {
-    rtError err = RT_OK;
-    bool sub_removed = false;
-    if(!gRetrier || subscription == NULL)
+    AsyncSubscription_t* item = NULL;
+    if(subscription == NULL)
         return false;
     LOCK();
-    err = rtList_RemoveItemByCompare(gRetrier->items, subscription,
-        rbusAsyncSubscribeRetrier_CompareSubscription, rbusAsyncSubscribeRetrier_FreeSubscription);
-    if(err == RT_OK)
-        sub_removed = true;
+    if(gRetrier)
+        item = rtList_Find(gRetrier->items, subscription, rbusAsyncSubscribeRetrier_CompareSubscription);
+    if(item)
+    {
+        if(item->busy)
+            item->cancelled = true; /*the retry thread will free it*/
+        else
+            rtList_RemoveItemWithData(gRetrier->items, item, rbusAsyncSubscribeRetrier_FreeSubscription);
+    }
     UNLOCK();
-    return sub_removed;
+    return item != NULL;
 }
 
-bool rbusAsyncSubscribe_GetSubscription(rbusHandle_t handle, char const* eventName, rbusFilter_t filter)
+bool rbusAsyncSubscribe_GetSubscription(rbusEventSubscription_t* subscription)
 {
-    rbusEventSubscription_t sub = {0};
     bool sub_exist = false;
 
-    if(!gRetrier)
-        return sub_exist;
-    sub.handle = handle;
-    sub.eventName = eventName;
-    sub.filter = filter;
     LOCK();
-    if(rtList_Find(gRetrier->items, &sub, rbusAsyncSubscribeRetrier_CompareSubscription) != NULL)
+    if(gRetrier && rtList_Find(gRetrier->items, subscription, rbusAsyncSubscribeRetrier_CompareSubscription) != NULL)
     {
         sub_exist = true;
     }
-    else
+    UNLOCK();
+    return sub_exist;
+}
+
+bool rbusAsyncSubscribe_BeginAnswer(rbusEventSubscription_t* subscription)
+{
+    rtListItem li = NULL;
+    bool begun = false;
+
+    LOCK();
+    if(gRetrier)
+        rtList_GetFront(gRetrier->items, &li);
+    while(li)
     {
-        sub_exist = false;
+        AsyncSubscription_t* item = NULL;
+        rtListItem_GetData(li, (void**)&item);
+        if(item->busy && item->subscription == subscription)
+        {
+            begun = item->answered = !item->cancelled;
+            break;
+        }
+        rtListItem_GetNext(li, &li);
     }
     UNLOCK();
-    return sub_exist;
+    return begun;
+}
+
+/*wait until the retry thread has finished with the cancelled items or, if all is set, with all items of a handle*/
+static void rbusAsyncSubscribe_WaitBusy(rbusHandle_t handle, bool all)
+{
+    rtListItem li = NULL;
+
+    if(gRetrier && !pthread_equal(gRetrier->threadId, pthread_self()))
+        rtList_GetFront(gRetrier->items, &li);
+    while(li)
+    {
+        AsyncSubscription_t* item = NULL;
+        rtListItem_GetData(li, (void**)&item);
+        if(item->handle == handle && item->busy && (all || item->cancelled))
+        {
+            ERROR_CHECK(pthread_cond_wait(&gCondIdle, &gMutexQueue));
+            li = NULL;
+            if(gRetrier)
+                rtList_GetFront(gRetrier->items, &li);
+        }
+        else
+        {
+            rtListItem_GetNext(li, &li);
+        }
+    }
+}
+
+void rbusAsyncSubscribe_WaitCancelled(rbusHandle_t handle)
+{
+    LOCK();
+    rbusAsyncSubscribe_WaitBusy(handle, false);
+    UNLOCK();
 }
 
 void rbusAsyncSubscribe_CloseHandle(rbusHandle_t handle)
 {
     size_t size1, size;
-
-    if(!gRetrier)
-        return;
+    rtListItem li;
 
     RBUSLOG_DEBUG("%s", __FUNCTION__);
 
     LOCK();
 
+    if(!gRetrier)
+    {
+        UNLOCK();
+        return;
+    }
+
     rtList_GetSize(gRetrier->items, &size1);
 
     //remove all items with this handle
-    rtList_RemoveItemByCompare(gRetrier->items, handle, 
-                             rbusAsyncSubscribeRetrier_CompareHandle, rbusAsyncSubscribeRetrier_FreeSubscription);
+    while(rtList_RemoveItemByCompare(gRetrier->items, handle, 
+                             rbusAsyncSubscribeRetrier_CompareHandle, rbusAsyncSubscribeRetrier_FreeSubscription) == RT_OK);
 
-    //if list is empty, we can destruct
-    rtList_GetSize(gRetrier->items, &size);
+    //except the one being worked on
+    rtList_GetFront(gRetrier->items, &li);
+    while(li)
+    {
+        AsyncSubscription_t* item = NULL;
+        rtListItem_GetData(li, (void**)&item);
+        if(item->handle == handle)
+            item->cancelled = true;
+        rtListItem_GetNext(li, &li);
+    }
+    rbusAsyncSubscribe_WaitBusy(handle, true);
 
-    UNLOCK();
+    //if list is empty, we can destruct
+    size = 0;
+    if(gRetrier)
+    {
+        rtList_GetSize(gRetrier->items, &size);
 
-    RBUSLOG_INFO("removed %d pending async subscriptions.  %d subs left in list.", (int)(size1-size), (int)size);
+        RBUSLOG_INFO("removed %d pending async subscriptions.  %d subs left in list.", (int)(size1-size), (int)size);
 
-    if(size == 0)
-    {
-        RBUSLOG_INFO("all handles removed");
-        rbusAsyncSubscribeRetrier_Destroy();
+        if(size == 0)
+        {
+            RBUSLOG_INFO("all handles removed");
+            rbusAsyncSubscribeRetrier_Destroy();
+        }
     }
+
+    UNLOCK();
 }
diff --git a/src/rbus/rbus_asyncsubscribe.h b/src/rbus/rbus_asyncsubscribe.h
index 4df56a2..e120d09 100644
--- a/src/rbus/rbus_asyncsubscribe.h
+++ b/src/rbus/rbus_asyncsubscribe.h
@@ -25,9 +25,13 @@
 #ifdef __cplusplus
 extern "C" {
 #endif
-void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, rbusMessage payload);
+void rbusAsyncSubscribe_AddSubscription(rbusEventSubscription_t* subscription, rbusMessage payload, uint32_t timeout);
 bool rbusAsyncSubscribe_RemoveSubscription(rbusEventSubscription_t* subscription);
-bool rbusAsyncSubscribe_GetSubscription(rbusHandle_t handle, char const* eventName, rbusFilter_t filter);
+bool rbusAsyncSubscribe_GetSubscription(rbusEventSubscription_t* subscription);
+/*false if the subscription was cancelled: otherwise it no longer can be*/
+bool rbusAsyncSubscribe_BeginAnswer(rbusEventSubscription_t* subscription);
+/*wait until the requests of cancelled subscriptions are over*/
+void rbusAsyncSubscribe_WaitCancelled(rbusHandle_t handle);
 void rbusAsyncSubscribe_CloseHandle(rbusHandle_t handle);
 
 #ifdef __cplusplus
-- 
2.43.0


From c30655d2990df95140c15d42293cd48273682525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:51 +0000
Subject: [PATCH 51/60] fix: closing a component waits for the request it is
 handling before freeing what that uses [P15 P13]

---
 src/core/rbuscore.c | 60 +++++++++++++++++++++++++++++++++++++++++++--
 src/rbus/rbus.c     |  9 ++++---
 2 files changed, 64 insertions(+), 5 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 2fd4e44..75b9808 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -93,6 +93,9 @@ typedef struct _server_object
     rtVector subscriptions; /*list of server_event_t*/
     rbus_event_subscribe_callback_t subscribe_handler_override;
     void* subscribe_handler_data;
+    int in_use; /*requests being handled*/
+    bool unregistered; /*to be destroyed when no longer in use*/
+    pthread_t handler_thread; /*the thread handling them*/
 } *server_object_t;
 
 /////////////
@@ -198,6 +201,8 @@ void server_object_create(server_object_t* obj, char const* name, rbus_callback_
     (*obj)->process_event_subscriptions = false;
     (*obj)->subscribe_handler_override = NULL;
     (*obj)->subscribe_handler_data = NULL;
+    (*obj)->in_use = 0;
+    (*obj)->unregistered = false;
     rtVector_Create(&(*obj)->methods);
     rtVector_Create(&(*obj)->subscriptions);
 }
@@ -323,6 +328,7 @@ static char g_daemon_address[MAX_DAEMON_ADDRESS_LEN] = "unix:///tmp/rtrouted";
 static rtConnection g_connection = NULL;
 static rtVector g_server_objects; /*server_object_t list*/
 static pthread_mutex_t g_mutex;
+static pthread_cond_t g_object_idle_cond = PTHREAD_COND_INITIALIZER;
 static pthread_mutex_t g_directCliMutex;
 static pthread_mutex_t g_directServMutex;
 static int g_mutex_init = 0;
@@ -509,15 +515,53 @@ static void dispatch_method_call(rbusMessage msg, const rtMessageHeader *hdr, se
     rbus_sendResponse(hdr, response);
 }
 
+/*an object stays valid from begin_use to end_use even if it is unregistered meanwhile*/
+static bool server_object_begin_use(server_object_t obj)
+{
+    bool found = false;
+    size_t i, n;
+
+    lock();
+    n = rtVector_Size(g_server_objects);
+    for(i = 0; i < n && !found; ++i)
+        found = rtVector_At(g_server_objects, i) == obj;
+    if(found)
+    {
+        obj->in_use++;
+        obj->handler_thread = pthread_self();
+    }
+    unlock();
+    return found;
+}
+
+static void server_object_end_use(server_object_t obj)
+{
+    lock();
+    if(--obj->in_use == 0)
+    {
+        if(obj->unregistered)
+            server_object_destroy(obj);
+        pthread_cond_broadcast(&g_object_idle_cond);
+    }
+    unlock();
+}
+
 static void onMessage(rtMessageHeader const* hdr, uint8_t const* data, uint32_t dataLen, void* closure)
 {
     rbusMessage msg;
+    server_object_t obj = (server_object_t)closure;
+
+    if(!server_object_begin_use(obj))
+    {
+        RBUSCORELOG_INFO("Request for an object which is no longer registered.");
+        return;
+    }
+
     rbusMessage_FromBytes(&msg, data, dataLen);
 
     /*using namespace rbus_server;*/
     static int stack_counter = 0;
     stack_counter++;
-    server_object_t obj = (server_object_t)closure;
 
     if(1 != stack_counter)
     {
@@ -542,6 +586,7 @@ static void onMessage(rtMessageHeader const* hdr, uint8_t const* data, uint32_t
     stack_counter--;
 
     rbusMessage_Release(msg);
+    server_object_end_use(obj);
     return;
 }
 
@@ -977,7 +1022,18 @@ rbusCoreError_t rbus_unregisterObj(const char * object_name)
     server_object_t obj = get_object(object_name);
     if(NULL != obj)
     {
-        rtVector_RemoveItem(g_server_objects, obj, server_object_destroy);
+        rtVector_RemoveItem(g_server_objects, obj, NULL);
+        /*wait for the request being handled, unless this is called by its handler*/
+        if(obj->in_use && pthread_equal(obj->handler_thread, pthread_self()))
+        {
+            obj->unregistered = true;
+        }
+        else
+        {
+            while(obj->in_use)
+                pthread_cond_wait(&g_object_idle_cond, &g_mutex);
+            server_object_destroy(obj);
+        }
         RBUSCORELOG_INFO("Unregistered object %s.", object_name);
     }
     else
diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 5493a82..e4e7ebd 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3243,8 +3243,11 @@ rbusError_t rbus_close(rbusHandle_t handle)
 
     RBUSLOG_INFO("rbus close for (%s)", handleInfo->componentName);
 
+    /*first stop the requests of others, and wait for the one being handled, because it uses what is freed below;
+      no lock is held meanwhile because a handler may need it*/
+    rbusCoreError_t errUnregister = rbus_unregisterObj(handleInfo->componentName);
+    rbusAsyncSubscribe_CloseHandle(handle);
     LockOpenClose();
-    rbusAsyncSubscribe_CloseHandle(handle);//called before the subscriptions are destroyed below
     LockMutex();
     char filename[RTMSG_HEADER_MAX_TOPIC_LENGTH];
     snprintf(filename, RTMSG_HEADER_MAX_TOPIC_LENGTH-1, "%s%d_%d", "/tmp/.rbus/", getpid(), handleInfo->componentId);
@@ -3301,9 +3304,9 @@ rbusError_t rbus_close(rbusHandle_t handle)
         handleInfo->elementRoot = NULL;
     }
 
-    if((err = rbus_unregisterObj(handleInfo->componentName)) != RBUSCORE_SUCCESS)
+    if(errUnregister != RBUSCORE_SUCCESS)
     {
-        RBUSLOG_ERROR("(%s): unregisterObj error %d", handleInfo->componentName, err);
+        RBUSLOG_ERROR("(%s): unregisterObj error %d", handleInfo->componentName, errUnregister);
         ret = RBUS_ERROR_INVALID_HANDLE;
     }
 
-- 
2.43.0


From f63f6cff32f97d606d3a60f21eef4c043214885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:27 +0000
Subject: [PATCH 52/60] fix: a deferred method answer without outputs is not
 taken for garbage, and its own outputs are released [P14]

---
 src/rbus/rbus.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index e4e7ebd..b2442c5 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -6406,15 +6406,23 @@ rbusError_t rbusMethod_SendAsyncResponse(
 
     rbusMessage_Init(&response);
     rbusMessage_SetInt32(response, error);
-    if ((error != RBUS_ERROR_SUCCESS) && (outParams == NULL))
+    if (outParams == NULL)
     {
         rbusObject_Init(&outParams, NULL);
-        rbusValue_SetInt32(value1, error);
-        rbusValue_SetString(value2, rbusError_ToString(error));
-        rbusObject_SetValue(outParams, "error_code", value1);
-        rbusObject_SetValue(outParams, "error_string", value2);
+        if (error != RBUS_ERROR_SUCCESS)
+        {
+            rbusValue_SetInt32(value1, error);
+            rbusValue_SetString(value2, rbusError_ToString(error));
+            rbusObject_SetValue(outParams, "error_code", value1);
+            rbusObject_SetValue(outParams, "error_string", value2);
+        }
+    }
+    else
+    {
+        rbusObject_Retain(outParams);
     }
     rbusObject_appendToMessage(outParams, response);
+    rbusObject_Release(outParams);
     rbus_sendResponse(&asyncHandle->hdr, response);
     rbusValue_Release(value1);
     rbusValue_Release(value2);
-- 
2.43.0


From a5463dab8770d5f060414f2043ce41bb5124fc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:17 +0000
Subject: [PATCH 53/60] fix: closing a component waits for its asynchronous
 method calls, which use it [P14]

---
 src/rbus/rbus.c | 62 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index b2442c5..773a8c8 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3231,6 +3231,8 @@ rbusError_t rbus_closeDirect(rbusHandle_t handle)
     return ret;
 }
 
+static void rbusMethod_InvokeAsyncCloseHandle(rbusHandle_t handle);
+
 rbusError_t rbus_close(rbusHandle_t handle)
 {
     VERIFY_HANDLE(handle);
@@ -3247,6 +3249,7 @@ rbusError_t rbus_close(rbusHandle_t handle)
       no lock is held meanwhile because a handler may need it*/
     rbusCoreError_t errUnregister = rbus_unregisterObj(handleInfo->componentName);
     rbusAsyncSubscribe_CloseHandle(handle);
+    rbusMethod_InvokeAsyncCloseHandle(handle);
     LockOpenClose();
     LockMutex();
     char filename[RTMSG_HEADER_MAX_TOPIC_LENGTH];
@@ -6322,8 +6325,52 @@ typedef struct _rbusMethodInvokeAsyncData_t
     rbusObject_t inParams; 
     rbusMethodAsyncRespHandler_t callback;
     int timeout;
+    bool started;   /*thread is known*/
+    pthread_t thread;
+    struct _rbusMethodInvokeAsyncData_t* next;
 } rbusMethodInvokeAsyncData_t;
 
+/*the asynchronous invocations which are not complete; they use their handle*/
+static rbusMethodInvokeAsyncData_t* gInvokeAsyncList = NULL;
+static pthread_mutex_t gInvokeAsyncMutex = PTHREAD_MUTEX_INITIALIZER;
+static pthread_cond_t gInvokeAsyncCond = PTHREAD_COND_INITIALIZER;
+
+static void rbusMethod_InvokeAsyncRemove(rbusMethodInvokeAsyncData_t* data)
+{
+    rbusMethodInvokeAsyncData_t** p;
+    ERROR_CHECK(pthread_mutex_lock(&gInvokeAsyncMutex));
+    for(p = &gInvokeAsyncList; *p; p = &(*p)->next)
+    {
+        if(*p == data)
+        {
+            *p = data->next;
+            break;
+        }
+    }
+    ERROR_CHECK(pthread_cond_broadcast(&gInvokeAsyncCond));
+    ERROR_CHECK(pthread_mutex_unlock(&gInvokeAsyncMutex));
+}
+
+/*waits until no asynchronous invocation uses the handle, except one whose callback is closing it*/
+static void rbusMethod_InvokeAsyncCloseHandle(rbusHandle_t handle)
+{
+    rbusMethodInvokeAsyncData_t* data;
+    ERROR_CHECK(pthread_mutex_lock(&gInvokeAsyncMutex));
+    for(data = gInvokeAsyncList; data; )
+    {
+        if(data->handle == handle && !(data->started && pthread_equal(data->thread, pthread_self())))
+        {
+            ERROR_CHECK(pthread_cond_wait(&gInvokeAsyncCond, &gInvokeAsyncMutex));
+            data = gInvokeAsyncList;
+        }
+        else
+        {
+            data = data->next;
+        }
+    }
+    ERROR_CHECK(pthread_mutex_unlock(&gInvokeAsyncMutex));
+}
+
 static void* rbusMethod_InvokeAsyncThreadFunc(void *p)
 {
     rbusError_t err;
@@ -6331,6 +6378,10 @@ static void* rbusMethod_InvokeAsyncThreadFunc(void *p)
     rbusObject_t outParams = NULL;
     if(!data)
         return NULL;
+    ERROR_CHECK(pthread_mutex_lock(&gInvokeAsyncMutex));
+    data->thread = pthread_self();
+    data->started = true;
+    ERROR_CHECK(pthread_mutex_unlock(&gInvokeAsyncMutex));
     err = rbusMethod_InvokeInternal(
         data->handle,
         data->methodName, 
@@ -6340,6 +6391,7 @@ static void* rbusMethod_InvokeAsyncThreadFunc(void *p)
 
     data->callback(data->handle, data->methodName, err, outParams);
 
+    rbusMethod_InvokeAsyncRemove(data);
     rbusObject_Release(data->inParams);
     if(outParams)
         rbusObject_Release(outParams);
@@ -6377,9 +6429,19 @@ rbusError_t rbusMethod_InvokeAsync(
     data->callback = callback;
     data->timeout = timeout > 0 ? (timeout * 1000) : (int)rbusHandle_FetchSetTimeout(handle); /* convert seconds to milliseconds */
 
+    data->started = false;
+    ERROR_CHECK(pthread_mutex_lock(&gInvokeAsyncMutex));
+    data->next = gInvokeAsyncList;
+    gInvokeAsyncList = data;
+    ERROR_CHECK(pthread_mutex_unlock(&gInvokeAsyncMutex));
+
     if((err = pthread_create(&pid, NULL, rbusMethod_InvokeAsyncThreadFunc, data)) != 0)
     {
         RBUSLOG_ERROR("pthread_create failed: err=%d", err);
+        rbusMethod_InvokeAsyncRemove(data);
+        rbusObject_Release(inParams);
+        free(data->methodName);
+        free(data);
         return RBUS_ERROR_BUS_ERROR;
     }
 
-- 
2.43.0


From 5ebe0f6f89141ec6461a94156773e06636c62999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:56 +0000
Subject: [PATCH 54/60] fix: of two equal subscriptions made at the same time
 one is refused instead of replacing the other, and its record is only written
 while it exists [P15]

---
 src/rbus/rbus.c | 91 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 64 insertions(+), 27 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 773a8c8..5f11896 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1413,8 +1413,15 @@ bool _subscribe_async_callback_handler(rbusHandle_t handle, rbusEventSubscriptio
         if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, subscription->eventName,
                         subscription->filter, subscription->interval, subscription->duration, false)) != NULL)
         {
-            rtVector_RemoveItem(handleInfo->eventSubs, subInternal, rbusEventSubscriptionInternal_free);
+            if(!subInternal->dirty)
+                error = RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST; /*another thread has made the same subscription meanwhile*/
+            else
+                rtVector_RemoveItem(handleInfo->eventSubs, subInternal, rbusEventSubscriptionInternal_free);
         }
+    }
+    if(error == RBUS_ERROR_SUCCESS)
+    {
+        rbusEventSubscriptionInternal_t* subInternal = NULL;
         subInternal = rt_malloc(sizeof(rbusEventSubscriptionInternal_t));
         subInternal->sub = subscription;
         subInternal->dirty = false;
@@ -3090,11 +3097,11 @@ rbusError_t rbus_open(rbusHandle_t* handle, char const* componentName)
     *handle = tmpHandle;
 
     rbusHandleList_Add(tmpHandle);
+    snprintf(filename, RTMSG_HEADER_MAX_TOPIC_LENGTH-1, "%s%d_%d", "/tmp/.rbus/", getpid(), tmpHandle->componentId);
 
     UnlockMutex();
     UnlockOpenClose();
 
-    snprintf(filename, RTMSG_HEADER_MAX_TOPIC_LENGTH-1, "%s%d_%d", "/tmp/.rbus/", getpid(), tmpHandle->componentId);
     FILE *fd  =  fopen(filename, "w");
     if (fd)
     {
@@ -5181,6 +5188,25 @@ static rbusError_t _rbus_event_unsubscribe(
     return errorcode;
 }
 
+/*a dirty subscription could not be made anew and is dirty again*/
+static void rbusEventSubscription_resubscribeFailed(
+    rbusHandle_t    handle,
+    char const*     eventName,
+    rbusFilter_t    filter,
+    uint32_t        interval,
+    uint32_t        duration,
+    bool            rawData,
+    bool            resubscribing)
+{
+    rbusEventSubscriptionInternal_t* subInternal;
+    if(!resubscribing)
+        return;
+    HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+    if((subInternal = rbusEventSubscription_find(handle->eventSubs, eventName, filter, interval, duration, rawData)) != NULL)
+        subInternal->dirty = true;
+    HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+}
+
 static rbusError_t rbusEvent_SubscribeWithRetries(
     rbusHandle_t                    handle,
     char const*                     eventName,
@@ -5202,6 +5228,7 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
     rbusMessage response = NULL;
     int destNotFoundSleep = 1000; /*miliseconds*/
     int destNotFoundTimeout;
+    bool resubscribing = false; /*replaces a dirty subscription*/
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
     rbusEventSubscription_t pending = {0};
     pending.handle = handle;
@@ -5211,24 +5238,18 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
     pending.duration = duration;
     rbusAsyncSubscribe_WaitCancelled(handle);
     HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
-    if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData)) != NULL)
-    {
-        /*Allow only for dirty subscription*/
-        if (subInternal->dirty)
-        {
-            subInternal->dirty = false;
-        }
-        else
-        {
-            HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
-            return RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST;
-        }
-    }
-    else if (rbusAsyncSubscribe_GetSubscription(&pending))
+    subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData);
+    /*Allow only for dirty subscription*/
+    if ((subInternal && !subInternal->dirty) || rbusAsyncSubscribe_GetSubscription(&pending))
     {
         HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
         return RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST;
     }
+    if (subInternal && !async)
+    {
+        subInternal->dirty = false;
+        resubscribing = true;
+    }
 
     HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
 
@@ -5311,6 +5332,15 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
         HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
         if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData)) != NULL)
         {
+            if(!resubscribing && !subInternal->dirty)
+            {
+                /*another thread has made the same subscription meanwhile*/
+                HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+                rbusEventSubscription_free(sub);
+                if(response)
+                    rbusMessage_Release(response);
+                return RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST;
+            }
             rtVector_RemoveItem(handleInfo->eventSubs, subInternal, rbusEventSubscriptionInternal_free);
         }
         subInternal = rt_malloc(sizeof(rbusEventSubscriptionInternal_t));
@@ -5329,7 +5359,12 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
             }
         }
         rbusMessage_GetInt32(response, &subscriptionId);
-        subInternal->subscriptionId = subscriptionId;
+        HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+        /*it can have been removed by another thread or by the event handler*/
+        subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData);
+        if(subInternal && subInternal->sub == sub)
+            subInternal->subscriptionId = subscriptionId;
+        HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
         if(response)
             rbusMessage_Release(response);
         RBUSLOG_INFO("%s subscribe retries succeeded", eventName);
@@ -5341,16 +5376,8 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
         {
             RBUSLOG_DEBUG("%s all subscribe retries failed because no provider could be found", eventName);
             RBUSLOG_WARN("EVENT_SUBSCRIPTION_FAIL_NO_PROVIDER_COMPONENT  %s", eventName);/*RDKB-33658-AC7*/
-            HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
-            if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData)) != NULL)
-            {
-                subInternal->dirty = true;
-            }
-            else
-            {
-                rbusEventSubscription_free(sub);
-            }
-            HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+            rbusEventSubscription_resubscribeFailed(handle, eventName, filter, interval, duration, rawData, resubscribing);
+            rbusEventSubscription_free(sub);
             return RBUS_ERROR_TIMEOUT;
         }
         else if(providerError != RBUS_ERROR_SUCCESS)
@@ -5361,6 +5388,14 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
                 HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
                 if ((subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData)) != NULL)
                 {
+                    if(!resubscribing && !subInternal->dirty)
+                    {
+                        HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+                        rbusEventSubscription_free(sub);
+                        if(response)
+                            rbusMessage_Release(response);
+                        return RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST;
+                    }
                     rtVector_RemoveItem(handleInfo->eventSubs, subInternal, rbusEventSubscriptionInternal_free);
                 }
                 subInternal = rt_malloc(sizeof(rbusEventSubscriptionInternal_t));
@@ -5377,6 +5412,7 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
             else
             {
                 RBUSLOG_WARN("EVENT_SUBSCRIPTION_FAIL_INVALID_INPUT  %s", eventName);/*RDKB-33658-AC9*/
+                rbusEventSubscription_resubscribeFailed(handle, eventName, filter, interval, duration, rawData, resubscribing);
                 rbusEventSubscription_free(sub);
                 if(response)
                     rbusMessage_Release(response);
@@ -5386,6 +5422,7 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
         else
         {
             RBUSLOG_WARN("%s subscribe retries failed due to core error %d", eventName, coreerr);
+            rbusEventSubscription_resubscribeFailed(handle, eventName, filter, interval, duration, rawData, resubscribing);
             rbusEventSubscription_free(sub);
             return RBUS_ERROR_BUS_ERROR;
         }
-- 
2.43.0


From dacf03534b4dbd185ba8a899f21f2ca0d6399995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:56 +0000
Subject: [PATCH 55/60] fix: table rows added, removed and used by several
 threads of their owner: none is freed while in use, made twice or removed
 twice [P15]

---
 src/rbus/rbus.c             | 134 +++++++++++++++++++++++-------------
 src/rbus/rbus_element.c     | 119 ++++++++++++++++++++++++--------
 src/rbus/rbus_element.h     |   8 +++
 src/rbus/rbus_valuechange.c |   7 ++
 4 files changed, 193 insertions(+), 75 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 5f11896..74d85bb 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -1041,11 +1041,12 @@ char const* getLastTokenInName(char const* name)
 }
 #endif
 
-/*  Recurse row elements Adding or Removing value change properties
+/*  Recurse row elements collecting the properties whose value changes are, or were, to be polled
  *  when adding a row, call this after subscriptions are added to the row element
  *  when removing a row, call this before subscriptions are removed from the row element
+ *  the subscriptions must be locked
  */
-void valueChangeTableRowUpdate(rbusHandle_t handle, elementNode* rowNode, bool added)
+static void valueChangeTableRowCollect(elementNode* rowNode, rtVector nodes)
 {
     if(rowNode)
     {
@@ -1058,21 +1059,14 @@ void valueChangeTableRowUpdate(rbusHandle_t handle, elementNode* rowNode, bool a
                 /*avoid calling ValueChange if there's no subs on it*/
                 if(elementHasAutoPubSubscriptions(child, NULL))
                 {
-                    if(added)
-                    {
-                        rbusValueChange_AddPropertyNode(handle, child);
-                    }
-                    else
-                    {
-                        rbusValueChange_RemovePropertyNode(handle, child);
-                    }
+                    rtVector_PushBack(nodes, child);
                 }
             }
 
             /*recurse into children that are not row templates*/
             if( child->child && !(child->parent->type == RBUS_ELEMENT_TYPE_TABLE && strcmp(child->name, "{i}") == 0) )
             {
-                valueChangeTableRowUpdate(handle, child, added);
+                valueChangeTableRowCollect(child, nodes);
             }
 
             child = child->nextSibling;
@@ -1080,6 +1074,28 @@ void valueChangeTableRowUpdate(rbusHandle_t handle, elementNode* rowNode, bool a
     }
 }
 
+/*  Add or remove the value change properties collected
+ *  the value-change thread publishes, and so locks the subscriptions, while it holds its own mutex,
+ *  so rbusValueChange is only called once the subscriptions are unlocked
+ */
+static void valueChangeUpdate(rbusHandle_t handle, rtVector nodes, bool added)
+{
+    size_t i;
+    for(i = 0; i < rtVector_Size(nodes); ++i)
+    {
+        elementNode* node = (elementNode*)rtVector_At(nodes, i);
+        if(added)
+        {
+            rbusValueChange_AddPropertyNode(handle, node);
+        }
+        else
+        {
+            rbusValueChange_RemovePropertyNode(handle, node);
+        }
+    }
+    rtVector_Destroy(nodes, NULL);
+}
+
 int subscribeHandlerImpl(
     rbusHandle_t handle,
     bool added,
@@ -1156,6 +1172,11 @@ int subscribeHandlerImpl(
     }
 
     HANDLE_SUBS_MUTEX_LOCK(handle);
+    if (added && isElementRemoved(el))
+    {
+        HANDLE_SUBS_MUTEX_UNLOCK(handle);
+        return RBUS_ERROR_ELEMENT_DOES_NOT_EXIST;
+    }
     subscription = rbusSubscriptions_getSubscription(handleInfo->subscriptions, listener, eventName, componentId, filter, interval, duration, rawData);
     if (added)
     {
@@ -1245,43 +1266,33 @@ int subscribeHandlerImpl(
     }
     HANDLE_SUBS_MUTEX_UNLOCK(handle);
 
-    /*the value-change thread publishes, and so locks the subscriptions, while it holds its own mutex,
-      so rbusValueChange is only called once the subscriptions are unlocked*/
     if(vcNodes)
-    {
-        size_t i;
-        for(i = 0; i < rtVector_Size(vcNodes); ++i)
-        {
-            elementNode* node = (elementNode*)rtVector_At(vcNodes, i);
-            if(added)
-            {
-                rbusValueChange_AddPropertyNode(handle, node);
-            }
-            else
-            {
-                rbusValueChange_RemovePropertyNode(handle, node);
-            }
-        }
-        rtVector_Destroy(vcNodes, NULL);
-    }
+        valueChangeUpdate(handle, vcNodes, added);
     return RBUS_ERROR_SUCCESS;
 }
 
-static void registerTableRow (rbusHandle_t handle, elementNode* tableInstElem, char const* tableName, char const* aliasName, uint32_t instNum)
+static bool registerTableRow (rbusHandle_t handle, elementNode* tableInstElem, char const* tableName, char const* aliasName, uint32_t instNum)
 {
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
     elementNode* rowElem;
+    rtVector vcNodes;
 
     RBUSLOG_DEBUG("table [%s] alias [%s] instNum [%u]", tableName, aliasName, instNum);
 
-    rowElem = instantiateTableRow(tableInstElem, instNum, aliasName);
-
     HANDLE_SUBS_MUTEX_LOCK(handle);
+    rowElem = instantiateTableRow(tableInstElem, instNum, aliasName);
+    if(!rowElem)
+    {
+        HANDLE_SUBS_MUTEX_UNLOCK(handle);
+        return false;
+    }
     rbusSubscriptions_onTableRowAdded(handleInfo->subscriptions, rowElem);
+    rtVector_Create(&vcNodes);
+    valueChangeTableRowCollect(rowElem, vcNodes);
     HANDLE_SUBS_MUTEX_UNLOCK(handle);
 
     /*update ValueChange after rbusSubscriptions_onTableRowAdded */
-    valueChangeTableRowUpdate(handle, rowElem, true);
+    valueChangeUpdate(handle, vcNodes, true);
 
     /*send OBJECT_CREATED event after we create the row*/
     {
@@ -1329,24 +1340,31 @@ static void registerTableRow (rbusHandle_t handle, elementNode* tableInstElem, c
         rbusValue_Release(aliasVal);
         rbusObject_Release(data);
     }
+    return true;
 }
 
-static void unregisterTableRow (rbusHandle_t handle, elementNode* rowInstElem)
+static bool unregisterTableRow (rbusHandle_t handle, elementNode* rowInstElem)
 {
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
-    char* rowInstName = strdup(rowInstElem->fullName); /*must dup because we are deleting the instance*/
+    char const* rowInstName = rowInstElem->fullName;
     elementNode* tableInstElem = rowInstElem->parent;
+    rtVector vcNodes;
 
     RBUSLOG_DEBUG("[%s]", rowInstElem->fullName);
 
-    /*update ValueChange before rbusSubscriptions_onTableRowRemoved */
-    valueChangeTableRowUpdate(handle, rowInstElem, false);
-
     HANDLE_SUBS_MUTEX_LOCK(handle);
+    if(!detachTableRow(rowInstElem))
+    {
+        HANDLE_SUBS_MUTEX_UNLOCK(handle);
+        return false;
+    }
+    /*collect before rbusSubscriptions_onTableRowRemoved */
+    rtVector_Create(&vcNodes);
+    valueChangeTableRowCollect(rowInstElem, vcNodes);
     rbusSubscriptions_onTableRowRemoved(handleInfo->subscriptions, rowInstElem);
     HANDLE_SUBS_MUTEX_UNLOCK(handle);
 
-    deleteTableRow(rowInstElem);
+    valueChangeUpdate(handle, vcNodes, false);
 
     /*send OBJECT_DELETED event after we delete the row*/
     {
@@ -1373,13 +1391,14 @@ static void unregisterTableRow (rbusHandle_t handle, elementNode* rowInstElem)
 
         rbusValue_Release(rowNameVal);
         rbusObject_Release(data);
-        free(rowInstName);
+        deleteTableRow(rowInstElem);
 
         if(respub != RBUS_ERROR_SUCCESS && respub != RBUS_ERROR_NOSUBSCRIBERS)
         {
             RBUSLOG_WARN("failed to publish ObjectDeleted event err:%d", respub);
         }
     }
+    return true;
 }
 //******************************* CALLBACKS *************************************//
 
@@ -2909,7 +2928,7 @@ static void _close_direct_connection_callback_handler (rbusHandle_t handle, rbus
     RBUSLOG_DEBUG("Handled the disconnect request from %s for DML(%s)", consumerName, paramName);
 }
 
-static int _callback_handler(char const* destination, char const* method, rbusMessage request, void* userData, rbusMessage* response, const rtMessageHeader* hdr)
+static int _dispatch_callback(char const* destination, char const* method, rbusMessage request, void* userData, rbusMessage* response, const rtMessageHeader* hdr)
 {
     rbusHandle_t handle = (rbusHandle_t)userData;
 
@@ -2978,6 +2997,15 @@ static int _callback_handler(char const* destination, char const* method, rbusMe
     return 0;
 }
 
+static int _callback_handler(char const* destination, char const* method, rbusMessage request, void* userData, rbusMessage* response, const rtMessageHeader* hdr)
+{
+    int rc;
+    beginElementUse();
+    rc = _dispatch_callback(destination, method, request, userData, response, hdr);
+    endElementUse();
+    return rc;
+}
+
 /*
     Handle once per process initialization or deinitialization needed by rbus_open
  */
@@ -4789,24 +4817,29 @@ rbusError_t rbusTable_registerRow(
         return RBUS_ERROR_INVALID_INPUT;
     }
 
+    beginElementUse();
     elementNode* rowInstElem = retrieveInstanceElement(handleInfo->elementRoot, rowName);
     elementNode* tableInstElem = retrieveInstanceElement(handleInfo->elementRoot, tableName);
+    bool done;
 
     if(rowInstElem)
     {
         RBUSLOG_WARN("row already exists %s", rowName);
+        endElementUse();
         return RBUS_ERROR_INVALID_INPUT;
     }
 
     if(!tableInstElem)
     {
         RBUSLOG_WARN("table does not exist %s", tableName);
+        endElementUse();
         return RBUS_ERROR_INVALID_INPUT;
     }
 
     RBUSLOG_DEBUG("register table row %s", rowName);
-    registerTableRow(handle, tableInstElem, tableName, aliasName, instNum);
-    return RBUS_ERROR_SUCCESS;
+    done = registerTableRow(handle, tableInstElem, tableName, aliasName, instNum);
+    endElementUse();
+    return done ? RBUS_ERROR_SUCCESS : RBUS_ERROR_INVALID_INPUT;
 }
 
 rbusError_t rbusTable_unregisterRow(
@@ -4821,15 +4854,17 @@ rbusError_t rbusTable_unregisterRow(
     if (handleInfo->m_handleType != RBUS_HWDL_TYPE_REGULAR)
         return RBUS_ERROR_INVALID_HANDLE;
 
+    beginElementUse();
     elementNode* rowInstElem = retrieveInstanceElement(handleInfo->elementRoot, rowName);
+    bool done = rowInstElem && unregisterTableRow(handle, rowInstElem);
+    endElementUse();
 
-    if(!rowInstElem)
+    if(!done)
     {
         RBUSLOG_DEBUG("row does not exists %s", rowName);
         return RBUS_ERROR_INVALID_INPUT;
     }
 
-    unregisterTableRow(handle, rowInstElem);
     return RBUS_ERROR_SUCCESS;
 }
 
@@ -6082,20 +6117,22 @@ rbusError_t  rbusEvent_PublishRawData(
 
     /*get the node and walk its subscriber list,
       publishing event to each subscriber*/
+    HANDLE_SUBS_MUTEX_LOCK(handle);
     elementNode* el = retrieveInstanceElement(handleInfo->elementRoot, eventData->name);
 
     if(!el)
     {
         RBUSLOG_WARN("Publish failed! retrieveElement return NULL for %s", eventData->name);
+        HANDLE_SUBS_MUTEX_UNLOCK(handle);
         return RBUS_ERROR_ELEMENT_DOES_NOT_EXIST;
     }
 
     if(!el->subscriptions)/*nobody subscribed yet*/
     {
+        HANDLE_SUBS_MUTEX_UNLOCK(handle);
         return RBUS_ERROR_NOSUBSCRIBERS;
     }
 
-    HANDLE_SUBS_MUTEX_LOCK(handle);
     rtList_GetFront(el->subscriptions, &listItem);
     while(listItem)
     {
@@ -6140,16 +6177,19 @@ rbusError_t  rbusEvent_Publish(
 
     /*get the node and walk its subscriber list, 
       publishing event to each subscriber*/
+    HANDLE_SUBS_MUTEX_LOCK(handle);
     elementNode* el = retrieveInstanceElement(handleInfo->elementRoot, eventData->name);
 
     if(!el)
     {
         RBUSLOG_WARN("Publish failed! retrieveElement return NULL for %s", eventData->name);
+        HANDLE_SUBS_MUTEX_UNLOCK(handle);
         return RBUS_ERROR_ELEMENT_DOES_NOT_EXIST;
     }
 
     if(!el->subscriptions)/*nobody subscribed yet*/
     {
+        HANDLE_SUBS_MUTEX_UNLOCK(handle);
         return RBUS_ERROR_NOSUBSCRIBERS;
     }
 
@@ -6163,12 +6203,12 @@ rbusError_t  rbusEvent_Publish(
         if(!eventData->data || !newVal || !oldVal)
         {
             RBUSLOG_ERROR("missing value data for value change event %s", eventData->name);
+            HANDLE_SUBS_MUTEX_UNLOCK(handle);
             return RBUS_ERROR_INVALID_INPUT;
         }
     }
 
     /*Loop through element's subscriptions*/
-    HANDLE_SUBS_MUTEX_LOCK(handle);
     rtList_GetFront(el->subscriptions, &listItem);
     while(listItem)
     {
diff --git a/src/rbus/rbus_element.c b/src/rbus/rbus_element.c
index 18b9b1c..8dac4b3 100644
--- a/src/rbus/rbus_element.c
+++ b/src/rbus/rbus_element.c
@@ -43,6 +43,9 @@
 elementNode* pruneNode = NULL;
 pthread_mutex_t element_mutex;
 static int mutex_init = 0;
+static pthread_mutex_t use_mutex = PTHREAD_MUTEX_INITIALIZER; /*protects the next two*/
+static int elementUsers = 0;
+static elementNode* deletedRows = NULL; /*linked by nextPrune*/
 
 //****************************** UTILITY FUNCTIONS ***************************//
 char const* getTypeString(rbusElementType_t type)
@@ -1006,6 +1009,11 @@ elementNode* instantiateTableRow(elementNode* tableNode, uint32_t instNum, char
         return NULL;
 
     LOCK();
+    if(tableNode->removed)
+    {
+        UNLOCK();
+        return NULL;
+    }
 #if DEBUG_ELEMENTS
     RBUSLOG_INFO("table=%s instNum=%u alias=%s", tableNode->fullName, instNum, alias);
     printElement(tableNode, 0);
@@ -1042,7 +1050,18 @@ elementNode* instantiateTableRow(elementNode* tableNode, uint32_t instNum, char
 
     snprintf(name, 32, "%u", instNum);
 
-    elementNode* row = duplicateNode(rowTemplate, tableNode, name);
+    elementNode* row;
+    for(row = tableNode->child; row; row = row->nextSibling)
+    {
+        if(strcmp(row->name, name) == 0)
+        {
+            UNLOCK();
+            RBUSLOG_WARN("row %s of table %s already exists", name, tableNode->fullName);
+            return NULL;
+        }
+    }
+
+    row = duplicateNode(rowTemplate, tableNode, name);
 
     if(alias)
     {
@@ -1064,42 +1083,86 @@ elementNode* instantiateTableRow(elementNode* tableNode, uint32_t instNum, char
     return row;
 }
 
-void deleteTableRow(elementNode* rowNode)
+static void markElementRemoved(elementNode* node)
 {
-    VERIFY_NULL(rowNode);
+    elementNode* child;
+    node->removed = true;
+    for(child = node->child; child; child = child->nextSibling)
+        markElementRemoved(child);
+}
+
+bool isElementRemoved(elementNode* node)
+{
+    bool removed;
+    LOCK();
+    removed = node->removed;
+    UNLOCK();
+    return removed;
+}
+
+bool detachTableRow(elementNode* rowNode)
+{
+    elementNode** link;
+
     LOCK();
-    elementNode* parent = rowNode->parent;
-    
-    if(!parent)
+    if(rowNode->removed)
     {
-        RBUSLOG_INFO("row doesn't have a parent");
+        UNLOCK();
+        return false;
     }
-#if DEBUG_ELEMENTS
-    RBUSLOG_INFO("%s: row=%s", __FUNCTION__, rowNode->fullName);
-    printElement(rowNode, 0);
-    printElement(rowNode->parent, 0);
+    markElementRemoved(rowNode);
+    if(rowNode->parent)
     {
-        elementNode* root = rowNode;
-        while(root->parent)
-            root = root->parent;
-        RBUSLOG_INFO("################### BEFORE DELETE ###################");
-        printRegisteredElements(root, 0);
-        RBUSLOG_INFO("#####################################################");
+        /*its own links stay because another thread might be walking the rows*/
+        for(link = &rowNode->parent->child; *link && *link != rowNode; link = &(*link)->nextSibling);
+        if(*link)
+            *link = rowNode->nextSibling;
     }
-#endif
-    freeElementNode(rowNode);
-#if DEBUG_ELEMENTS
-    if(parent)
+    else
     {
-        elementNode* root = parent;
-        while(root->parent)
-            root = root->parent;
-        RBUSLOG_INFO("################### AFTER DELETE ####################");
-        printRegisteredElements(root, 0);
-        RBUSLOG_INFO("#####################################################");
+        RBUSLOG_INFO("row doesn't have a parent");
     }
-#endif
     UNLOCK();
+    return true;
+}
+
+void beginElementUse(void)
+{
+    ERROR_CHECK(pthread_mutex_lock(&use_mutex));
+    elementUsers++;
+    ERROR_CHECK(pthread_mutex_unlock(&use_mutex));
+}
+
+void endElementUse(void)
+{
+    elementNode* row = NULL;
+
+    ERROR_CHECK(pthread_mutex_lock(&use_mutex));
+    if(--elementUsers == 0)
+    {
+        row = deletedRows;
+        deletedRows = NULL;
+    }
+    ERROR_CHECK(pthread_mutex_unlock(&use_mutex));
+
+    while(row)
+    {
+        elementNode* next = row->nextPrune;
+        freeElementRecurse(row);
+        row = next;
+    }
+}
+
+void deleteTableRow(elementNode* rowNode)
+{
+    VERIFY_NULL(rowNode);
+    beginElementUse();
+    detachTableRow(rowNode); /*does nothing if the caller has already*/
+    ERROR_CHECK(pthread_mutex_lock(&use_mutex));
+    rowNode->nextPrune = deletedRows;
+    deletedRows = rowNode;
+    ERROR_CHECK(pthread_mutex_unlock(&use_mutex));
+    endElementUse();
 }
 
 void replicateAcrossTableRowInstancesInternal(elementNode* rowNode, elementNode* chain[], int numChain)
diff --git a/src/rbus/rbus_element.h b/src/rbus/rbus_element.h
index dfef11b..1d26eb9 100644
--- a/src/rbus/rbus_element.h
+++ b/src/rbus/rbus_element.h
@@ -72,6 +72,7 @@ typedef struct elementNode
     char*                   changeComp;     /* For properties, the last component to set the value */
     rtTime_t                changeTime;     /* For properties, the time the value was last set*/
     pthread_mutex_t         elmMutex;       /* To protect if there is a direct/private connection */
+    bool                    removed;        /* The row it belongs to has been removed */
 } elementNode;
 
 
@@ -91,7 +92,14 @@ bool elementHasAutoPubSubscriptions(elementNode* node, rbusSubscription_t* exclu
 //bool elementHasIntervalSubscriptions(elementNode* node, rbusSubscription_t* including);
 void addInstanceToElement(elementNode* node, uint32_t instNum, char const* alias);
 elementNode* instantiateTableRow(elementNode* tableNode, uint32_t instNum, char const* alias);
+/*takes the row out of the tree; false if another thread has done so already*/
+bool detachTableRow(elementNode* rowNode);
+/*frees a detached row once no thread is using the elements*/
 void deleteTableRow(elementNode* rowNode);
+bool isElementRemoved(elementNode* node);
+/*what is found in the tree between these two isn't freed before the last of them*/
+void beginElementUse(void);
+void endElementUse(void);
 void getPropertyInstanceNames(elementNode* root, char const* query, rtVector propNameList);
 void setPropertyChangeComponent(elementNode* node, char const* componentName);
 void rbusElement_mutex_destroy(void);
diff --git a/src/rbus/rbus_valuechange.c b/src/rbus/rbus_valuechange.c
index 9ea4241..fd0d660 100644
--- a/src/rbus/rbus_valuechange.c
+++ b/src/rbus/rbus_valuechange.c
@@ -326,6 +326,13 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
 
         LOCK();//############ LOCK ############
 
+        if(isElementRemoved(propNode) || vcParams_Find(propNode))
+        {
+            /*its row has been removed, or it has been added, meanwhile*/
+            vcParams_Free(rec);
+            UNLOCK();//############ UNLOCK ############
+            return;
+        }
         rtVector_PushBack(gVC->params, rec);
 
         /* start polling thread if needed */
-- 
2.43.0


From 30b1a42c5671ed6230cc84db78435628bb50d6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:42 +0000
Subject: [PATCH 56/60] fix: event handlers may subscribe and unsubscribe, and
 polled get handlers open and close components, without breaking the locks
 held around them [P15]

---
 src/rbus/rbus.c             | 49 +++++++++++++++++++---------
 src/rbus/rbus_handle.h      |  6 +++-
 src/rbus/rbus_valuechange.c | 65 +++++++++++++------------------------
 3 files changed, 61 insertions(+), 59 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 74d85bb..f808667 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -132,6 +132,7 @@ static uint32_t rbusRawListener_NextId(void)
 extern char* __progname;
 //******************************* GLOBALS *****************************************//
 static pthread_mutex_t gMutex = PTHREAD_MUTEX_INITIALIZER;
+static pthread_cond_t gEventUsersCond = PTHREAD_COND_INITIALIZER;/*a handle's eventUsers became 0; used with gMutex*/
 static pthread_mutex_t gOpenCloseMutex = PTHREAD_MUTEX_INITIALIZER;/*serializes rbus_open and rbus_close; taken before gMutex*/
 
 //********************************************************************************//
@@ -1511,11 +1512,10 @@ static int _master_event_callback_handler(char const* sender, char const* eventN
 
     LockMutex();
     handleInfo = rbusHandleList_GetByComponentID(componentId);
+    if(handleInfo && handleInfo->closing)
+        handleInfo = NULL;
     if(handleInfo)
-    {
-        /*taken while the handle is known to be open: rbus_close waits for it before it frees the handle*/
-        HANDLE_EVENTSUBS_MUTEX_LOCK(handleInfo);
-    }
+        handleInfo->eventUsers++;/*rbus_close waits for it before it frees the handle*/
     UnlockMutex();
 
     if(!handleInfo)
@@ -1528,6 +1528,7 @@ static int _master_event_callback_handler(char const* sender, char const* eventN
 
     RBUSLOG_DEBUG("Received master event callback: sender=%s eventName=%s componentId=%d", sender, eventName, componentId);
 
+    HANDLE_EVENTSUBS_MUTEX_LOCK(handleInfo);
     subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, false);
 
     if(subInternal)
@@ -1546,7 +1547,10 @@ static int _master_event_callback_handler(char const* sender, char const* eventN
             rtVector_RemoveItem(handleInfo->eventSubs, subInternal, NULL);
             duration_complete = true;
         }
+        handleInfo->eventThread = pthread_self();
+        handleInfo->eventHandlers++;
         ((rbusEventHandler_t)subInternal->sub->handler)(subInternal->sub->handle, &event, subInternal->sub);
+        handleInfo->eventHandlers--;
         if(duration_complete)
         {
             rbusEventSubscriptionInternal_free(subInternal);
@@ -1555,17 +1559,18 @@ static int _master_event_callback_handler(char const* sender, char const* eventN
     else
     {
         RBUSLOG_DEBUG("Received master event callback: sender=%s eventName=%s, but no subscription found", sender, event.name);
-        HANDLE_EVENTSUBS_MUTEX_UNLOCK(handleInfo);
-        rbusObject_Release(event.data);
-        rbusFilter_Release(filter);
-        return RBUSCORE_ERROR_EVENT_NOT_HANDLED;
+        errorcode = RBUS_ERROR_INVALID_EVENT;
     }
 exit_1:
     rbusObject_Release(event.data);
     rbusFilter_Release(filter);
 
     HANDLE_EVENTSUBS_MUTEX_UNLOCK(handleInfo);
-    return RBUSCORE_SUCCESS;
+    LockMutex();
+    if(--handleInfo->eventUsers == 0)
+        pthread_cond_broadcast(&gEventUsersCond);
+    UnlockMutex();
+    return errorcode == RBUS_ERROR_INVALID_EVENT ? RBUSCORE_ERROR_EVENT_NOT_HANDLED : RBUSCORE_SUCCESS;
 }
 
 static void _set_callback_handler (rbusHandle_t handle, rbusMessage request, rbusMessage *response)
@@ -3118,8 +3123,9 @@ rbusError_t rbus_open(rbusHandle_t* handle, char const* componentName)
     rtVector_Create(&tmpHandle->eventSubs);
     rtVector_Create(&tmpHandle->messageCallbacks);
     ERROR_CHECK(pthread_mutexattr_init(&attrib));
-    ERROR_CHECK(pthread_mutexattr_settype(&attrib, PTHREAD_MUTEX_ERRORCHECK));
+    ERROR_CHECK(pthread_mutexattr_settype(&attrib, PTHREAD_MUTEX_RECURSIVE));/*event handlers subscribe and unsubscribe*/
     ERROR_CHECK(pthread_mutex_init(&tmpHandle->handle_eventSubsMutex, &attrib));
+    ERROR_CHECK(pthread_mutexattr_settype(&attrib, PTHREAD_MUTEX_ERRORCHECK));
     ERROR_CHECK(pthread_mutex_init(&tmpHandle->handle_subsMutex, &attrib));
 
     *handle = tmpHandle;
@@ -3285,12 +3291,11 @@ rbusError_t rbus_close(rbusHandle_t handle)
     rbusCoreError_t errUnregister = rbus_unregisterObj(handleInfo->componentName);
     rbusAsyncSubscribe_CloseHandle(handle);
     rbusMethod_InvokeAsyncCloseHandle(handle);
-    LockOpenClose();
     LockMutex();
-    char filename[RTMSG_HEADER_MAX_TOPIC_LENGTH];
-    snprintf(filename, RTMSG_HEADER_MAX_TOPIC_LENGTH-1, "%s%d_%d", "/tmp/.rbus/", getpid(), handleInfo->componentId);
-    remove(filename);
-
+    handleInfo->closing = true;
+    while(handleInfo->eventUsers && !(handleInfo->eventHandlers && pthread_equal(handleInfo->eventThread, pthread_self())))
+        pthread_cond_wait(&gEventUsersCond, &gMutex);
+    UnlockMutex();
     HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
     if(handleInfo->eventSubs)
     {
@@ -3317,6 +3322,12 @@ rbusError_t rbus_close(rbusHandle_t handle)
     }
     HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
 
+    LockOpenClose();
+    LockMutex();
+    char filename[RTMSG_HEADER_MAX_TOPIC_LENGTH];
+    snprintf(filename, RTMSG_HEADER_MAX_TOPIC_LENGTH-1, "%s%d_%d", "/tmp/.rbus/", getpid(), handleInfo->componentId);
+    remove(filename);
+
     if (handleInfo->messageCallbacks)
     {
         rbusMessage_RemoveAllListeners(handle);
@@ -5271,8 +5282,14 @@ static rbusError_t rbusEvent_SubscribeWithRetries(
     pending.filter = filter;
     pending.interval = interval;
     pending.duration = duration;
-    rbusAsyncSubscribe_WaitCancelled(handle);
     HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+    if(!handleInfo->eventHandlers)
+    {
+        /*an event handler has the mutex, which the answer to a cancelled request might wait for*/
+        HANDLE_EVENTSUBS_MUTEX_UNLOCK(handle);
+        rbusAsyncSubscribe_WaitCancelled(handle);
+        HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
+    }
     subInternal = rbusEventSubscription_find(handleInfo->eventSubs, eventName, filter, interval, duration, rawData);
     /*Allow only for dirty subscription*/
     if ((subInternal && !subInternal->dirty) || rbusAsyncSubscribe_GetSubscription(&pending))
diff --git a/src/rbus/rbus_handle.h b/src/rbus/rbus_handle.h
index db8c0c5..dbc57c7 100644
--- a/src/rbus/rbus_handle.h
+++ b/src/rbus/rbus_handle.h
@@ -119,7 +119,11 @@ struct _rbusHandle
   rtVector              messageCallbacks;
   rtConnection          m_connection;
   rbusHandleType_t      m_handleType;
-  pthread_mutex_t       handle_eventSubsMutex;
+  pthread_mutex_t       handle_eventSubsMutex; /*recursive: held while an event handler runs*/
+  int                   eventUsers;            /*threads handling an event, guarded by the global mutex*/
+  int                   eventHandlers;         /*handlers running, guarded by handle_eventSubsMutex*/
+  pthread_t             eventThread;           /*the thread they run on*/
+  bool                  closing;
   pthread_mutex_t       handle_subsMutex;
   rtConnection          m_connectionParent;
   rbusTimeoutValues_t   timeoutValues;
diff --git a/src/rbus/rbus_valuechange.c b/src/rbus/rbus_valuechange.c
index fd0d660..2e82a2d 100644
--- a/src/rbus/rbus_valuechange.c
+++ b/src/rbus/rbus_valuechange.c
@@ -76,26 +76,24 @@ typedef struct ValueChangeRecord
 
 ValueChangeDetector_t* gVC = NULL;
 
-static void rbusValueChange_Init()
+static pthread_once_t gVCOnce = PTHREAD_ONCE_INIT;
+
+/*it stays allocated because threads which handle requests may use it while the last handle using it is closed*/
+static void rbusValueChange_InitOnce()
 {
     pthread_mutexattr_t attrib;
     pthread_condattr_t cattrib;
 
     RBUSLOG_DEBUG("%s", __FUNCTION__);
 
-    if(gVC)
-        return;
-
-    gVC = rt_malloc(sizeof(struct ValueChangeDetector_t));
-
-    gVC->running = 0;
-    gVC->params = NULL;
+    gVC = rt_calloc(1, sizeof(struct ValueChangeDetector_t));
 
     rtVector_Create(&gVC->params);
 
     ERROR_CHECK(pthread_mutexattr_init(&attrib));
-    ERROR_CHECK(pthread_mutexattr_settype(&attrib, PTHREAD_MUTEX_ERRORCHECK));
+    ERROR_CHECK(pthread_mutexattr_settype(&attrib, PTHREAD_MUTEX_RECURSIVE));/*get handlers polled may use rbus*/
     ERROR_CHECK(pthread_mutex_init(&gVC->mutex, &attrib));
+    ERROR_CHECK(pthread_mutexattr_destroy(&attrib));
 
     ERROR_CHECK(pthread_condattr_init(&cattrib));
     ERROR_CHECK(pthread_condattr_setclock(&cattrib, CLOCK_MONOTONIC));
@@ -103,6 +101,11 @@ static void rbusValueChange_Init()
     ERROR_CHECK(pthread_condattr_destroy(&cattrib));
 }
 
+static void rbusValueChange_Init()
+{
+    ERROR_CHECK(pthread_once(&gVCOnce, rbusValueChange_InitOnce));
+}
+
 static void vcParams_Free(void* p)
 {
     ValueChangeRecord* rec = (ValueChangeRecord*)p;
@@ -262,10 +265,7 @@ void rbusValueChange_AddPropertyNode(rbusHandle_t handle, elementNode* propNode)
 {
     ValueChangeRecord* rec;
 
-    if(!gVC)
-    {
-        rbusValueChange_Init();
-    }
+    rbusValueChange_Init();
 
     /* basic sanity tests */    
     assert(propNode);
@@ -359,10 +359,7 @@ void rbusValueChange_RemovePropertyNode(rbusHandle_t handle, elementNode* propNo
     VERIFY_NULL(propNode);
     RBUSLOG_DEBUG("RemovePropertyNode %s", propNode->fullName);
 
-    if(!gVC)
-    {
-        return;
-    }
+    rbusValueChange_Init();
 
     LOCK();//############ LOCK ############
     rec = vcParams_Find(propNode);
@@ -383,10 +380,7 @@ void rbusValueChange_CloseHandle(rbusHandle_t handle)
 {
     RBUSLOG_DEBUG("%s", __FUNCTION__);
 
-    if(!gVC)
-    {
-        return;
-    }
+    rbusValueChange_Init();
 
     //remove all params for this bus handle
     LOCK();//############ LOCK ############
@@ -405,31 +399,18 @@ void rbusValueChange_CloseHandle(rbusHandle_t handle)
         }
     }
 
-    //clean up everything once all params are removed
-    //but check the size to ensure we do not clean up if params for other rbus handles exist
-    if(rtVector_Size(gVC->params) == 0)
+    //stop the thread once all params are removed
+    //but check the size to ensure we do not stop it if params for other rbus handles exist
+    //or if it's the thread which runs us: a handler it polls has closed the handle
+    if(rtVector_Size(gVC->params) == 0 && gVC->running && !pthread_equal(gVC->thread, pthread_self()))
     {
-        if(gVC->running)
-        {
-            gVC->running = 0;
-            UNLOCK();//############ UNLOCK ############
-            ERROR_CHECK(pthread_cond_signal(&gVC->cond));
-            ERROR_CHECK(pthread_join(gVC->thread, NULL));
-        }
-        else
-        {
-            UNLOCK();//############ UNLOCK ############
-        }
-        ERROR_CHECK(pthread_mutex_destroy(&gVC->mutex));
-        ERROR_CHECK(pthread_cond_destroy(&gVC->cond));
-        rtVector_Destroy(gVC->params, NULL);
-        gVC->params = NULL;
-        free(gVC);
-        gVC = NULL;
+        gVC->running = 0;
+        UNLOCK();//############ UNLOCK ############
+        ERROR_CHECK(pthread_cond_signal(&gVC->cond));
+        ERROR_CHECK(pthread_join(gVC->thread, NULL));
     }
     else
     {
         UNLOCK();//############ UNLOCK ############
     }
 }
-
-- 
2.43.0


From 34b1fd6ab4f896ab8a40a139efe0e58117f70773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:10 +0000
Subject: [PATCH 57/60] fix: restoring cached subscriptions and dropping those
 of a dead consumer don't break the lock of the subscription list [P16] [P17]

---
 src/rbus/rbus.c               |  50 +++++++--
 src/rbus/rbus_handle.c        |  22 +---
 src/rbus/rbus_handle.h        |   4 +-
 src/rbus/rbus_subscriptions.c | 203 +++++++++++++++++++++-------------
 src/rbus/rbus_subscriptions.h |   3 +
 5 files changed, 174 insertions(+), 108 deletions(-)

diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index f808667..390db23 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -132,7 +132,7 @@ static uint32_t rbusRawListener_NextId(void)
 extern char* __progname;
 //******************************* GLOBALS *****************************************//
 static pthread_mutex_t gMutex = PTHREAD_MUTEX_INITIALIZER;
-static pthread_cond_t gEventUsersCond = PTHREAD_COND_INITIALIZER;/*a handle's eventUsers became 0; used with gMutex*/
+static pthread_cond_t gHandleUsersCond = PTHREAD_COND_INITIALIZER;/*a handle's users became 0; used with gMutex*/
 static pthread_mutex_t gOpenCloseMutex = PTHREAD_MUTEX_INITIALIZER;/*serializes rbus_open and rbus_close; taken before gMutex*/
 
 //********************************************************************************//
@@ -1178,6 +1178,8 @@ int subscribeHandlerImpl(
         HANDLE_SUBS_MUTEX_UNLOCK(handle);
         return RBUS_ERROR_ELEMENT_DOES_NOT_EXIST;
     }
+    if (added)
+        rbusSubscriptions_removeUnresolved(handleInfo->subscriptions, listener, eventName, componentId, filter, interval, duration, rawData);
     subscription = rbusSubscriptions_getSubscription(handleInfo->subscriptions, listener, eventName, componentId, filter, interval, duration, rawData);
     if (added)
     {
@@ -1332,9 +1334,7 @@ static bool registerTableRow (rbusHandle_t handle, elementNode* tableInstElem, c
         /* Re-subscribe all the child elements of this row */
         if(handleInfo->subscriptions)
         {
-            HANDLE_SUBS_MUTEX_LOCK(handle);
             rbusSubscriptions_resubscribeRowElementCache(handle, handleInfo->subscriptions, rowElem);
-            HANDLE_SUBS_MUTEX_UNLOCK(handle);
         }
         rbusValue_Release(rowNameVal);
         rbusValue_Release(instNumVal);
@@ -1403,11 +1403,42 @@ static bool unregisterTableRow (rbusHandle_t handle, elementNode* rowInstElem)
 }
 //******************************* CALLBACKS *************************************//
 
+/*called with the mutex*/
+static void endHandleUse(struct _rbusHandle* handleInfo)
+{
+    if(--handleInfo->users == 0)
+        pthread_cond_broadcast(&gHandleUsersCond);
+}
+
 static void _client_disconnect_callback_handler(const char * listener)
 {
+    struct _rbusHandle* handles[RBUS_MAX_HANDLES];
+    size_t i, count;
+
     LockMutex();
-    rbusHandleList_ClientDisconnect(listener);
+    count = rbusHandleList_GetOpen(handles, RBUS_MAX_HANDLES);
     UnlockMutex();
+
+    for(i = 0; i < count; i++)
+    {
+        bool open;
+        LockMutex();
+        open = rbusHandleList_IsValidHandle(handles[i]) && !handles[i]->closing;
+        if(open)
+            handles[i]->users++;/*rbus_close waits for it; the mutex isn't held while handlers run*/
+        UnlockMutex();
+        if(!open)
+            continue;
+        if(handles[i]->subscriptions)
+            rbusSubscriptions_handleClientDisconnect(handles[i], handles[i]->subscriptions, listener);
+        LockMutex();
+        endHandleUse(handles[i]);
+        UnlockMutex();
+    }
+
+    /* Update the Direct Connection */
+    if(count)
+        rbuscore_terminatePrivateConnection(listener);
 }
 
 /*returns false if the subscription was cancelled, in which case the caller still owns it*/
@@ -1515,7 +1546,7 @@ static int _master_event_callback_handler(char const* sender, char const* eventN
     if(handleInfo && handleInfo->closing)
         handleInfo = NULL;
     if(handleInfo)
-        handleInfo->eventUsers++;/*rbus_close waits for it before it frees the handle*/
+        handleInfo->users++;/*rbus_close waits for it before it frees the handle*/
     UnlockMutex();
 
     if(!handleInfo)
@@ -1567,8 +1598,7 @@ exit_1:
 
     HANDLE_EVENTSUBS_MUTEX_UNLOCK(handleInfo);
     LockMutex();
-    if(--handleInfo->eventUsers == 0)
-        pthread_cond_broadcast(&gEventUsersCond);
+    endHandleUse(handleInfo);
     UnlockMutex();
     return errorcode == RBUS_ERROR_INVALID_EVENT ? RBUSCORE_ERROR_EVENT_NOT_HANDLED : RBUSCORE_SUCCESS;
 }
@@ -3293,8 +3323,8 @@ rbusError_t rbus_close(rbusHandle_t handle)
     rbusMethod_InvokeAsyncCloseHandle(handle);
     LockMutex();
     handleInfo->closing = true;
-    while(handleInfo->eventUsers && !(handleInfo->eventHandlers && pthread_equal(handleInfo->eventThread, pthread_self())))
-        pthread_cond_wait(&gEventUsersCond, &gMutex);
+    while(handleInfo->users && !(handleInfo->eventHandlers && pthread_equal(handleInfo->eventThread, pthread_self())))
+        pthread_cond_wait(&gHandleUsersCond, &gMutex);
     UnlockMutex();
     HANDLE_EVENTSUBS_MUTEX_LOCK(handle);
     if(handleInfo->eventSubs)
@@ -3467,9 +3497,7 @@ rbusError_t rbus_regDataElements(
             }
             else
             {
-                HANDLE_SUBS_MUTEX_LOCK(handle);
                 rbusSubscriptions_resubscribeElementCache(handle, handleInfo->subscriptions, name, node);
-                HANDLE_SUBS_MUTEX_UNLOCK(handle);
                 RBUSLOG_DEBUG("%s inserted successfully!", name);
             }
         }
diff --git a/src/rbus/rbus_handle.c b/src/rbus/rbus_handle.c
index fc7e467..7f37526 100644
--- a/src/rbus/rbus_handle.c
+++ b/src/rbus/rbus_handle.c
@@ -102,30 +102,20 @@ bool rbusHandleList_IsFull()
     return (gHandleList && rtVector_Size(gHandleList) >= RBUS_MAX_HANDLES);
 }
 
-void rbusHandleList_ClientDisconnect(char const* clientListener)
+size_t rbusHandleList_GetOpen(struct _rbusHandle** handles, size_t max)
 {
-    size_t i;
-    size_t len;
-    VERIFY_NULL(clientListener,return);
+    size_t i, count = 0;
     if(gHandleList)/*this could theoretically be null if advisory event comes in between the time rbus_close calls 
                   rbusHandleList_Remove and rbus_unregisterClientDisconnectHandler*/
     {
-        len = rtVector_Size(gHandleList);
-        for(i = 0; i < len; i++)
+        for(i = 0; i < rtVector_Size(gHandleList) && count < max; i++)
         {
             struct _rbusHandle* handle = (struct _rbusHandle*)rtVector_At(gHandleList, i);
-            HANDLE_SUBS_MUTEX_LOCK(handle);
-            if(handle->subscriptions)
-            {
-                /*assuming this doesn't reenter this api which could possibly deadlock*/
-                rbusSubscriptions_handleClientDisconnect(handle, handle->subscriptions, clientListener);
-            }
-            HANDLE_SUBS_MUTEX_UNLOCK(handle);
+            if(!handle->closing)
+                handles[count++] = handle;
         }
-
-        /* Update the Direct Connection */
-        rbuscore_terminatePrivateConnection(clientListener);
     }
+    return count;
 }
 
 struct _rbusHandle* rbusHandleList_GetByComponentID(int32_t componentId)
diff --git a/src/rbus/rbus_handle.h b/src/rbus/rbus_handle.h
index dbc57c7..536c7d4 100644
--- a/src/rbus/rbus_handle.h
+++ b/src/rbus/rbus_handle.h
@@ -120,7 +120,7 @@ struct _rbusHandle
   rtConnection          m_connection;
   rbusHandleType_t      m_handleType;
   pthread_mutex_t       handle_eventSubsMutex; /*recursive: held while an event handler runs*/
-  int                   eventUsers;            /*threads handling an event, guarded by the global mutex*/
+  int                   users;                 /*callbacks using the handle, guarded by the global mutex*/
   int                   eventHandlers;         /*handlers running, guarded by handle_eventSubsMutex*/
   pthread_t             eventThread;           /*the thread they run on*/
   bool                  closing;
@@ -134,7 +134,7 @@ void rbusHandleList_Add(struct _rbusHandle* handle);
 void rbusHandleList_Remove(struct _rbusHandle* handle);
 bool rbusHandleList_IsEmpty();
 bool rbusHandleList_IsFull();
-void rbusHandleList_ClientDisconnect(char const* clientListener);
+size_t rbusHandleList_GetOpen(struct _rbusHandle** handles, size_t max);
 struct _rbusHandle* rbusHandleList_GetByComponentID(int32_t componentId);
 struct _rbusHandle* rbusHandleList_GetByName(char const* componentName);
 
diff --git a/src/rbus/rbus_subscriptions.c b/src/rbus/rbus_subscriptions.c
index 9695cba..a58f16e 100644
--- a/src/rbus/rbus_subscriptions.c
+++ b/src/rbus/rbus_subscriptions.c
@@ -203,6 +203,12 @@ rbusSubscription_t* rbusSubscriptions_getSubscription(rbusSubscriptions_t subscr
     return NULL;
 }
 
+/*a subscription loaded from the cache has no element until that is registered*/
+static bool isSubscriptionResolved(rbusSubscription_t* sub)
+{
+    return sub->element || sub->tokens;
+}
+
 /*remove an existing subscription*/
 void rbusSubscriptions_removeSubscription(rbusSubscriptions_t subscriptions, rbusSubscription_t* sub)
 {
@@ -770,121 +776,160 @@ static int _compareEventNameToElemName(char const* event, char const* elem)
     }
 }
 
-void rbusSubscriptions_resubscribeElementCache(rbusHandle_t handle, rbusSubscriptions_t subscriptions, char const* elementName, elementNode* el)
+/*a copy of the key of a subscription, which stays valid without the lock*/
+static rbusSubscription_t* subscriptionCopyKey(rbusSubscription_t* sub)
+{
+    rbusSubscription_t* copy = rt_calloc(1, sizeof(rbusSubscription_t));
+    copy->listener = strdup(sub->listener);
+    copy->eventName = strdup(sub->eventName);
+    copy->componentId = sub->componentId;
+    copy->filter = sub->filter;
+    if(copy->filter)
+        rbusFilter_Retain(copy->filter);
+    copy->interval = sub->interval;
+    copy->duration = sub->duration;
+    copy->element = sub->element;
+    copy->rawData = sub->rawData;
+    copy->subscriptionId = sub->subscriptionId;
+    return copy;
+}
+
+static void subscriptionFreeKey(rbusSubscription_t* copy)
+{
+    copy->interval = 0;/*it has no record of its own*/
+    subscriptionFree(copy);
+}
+
+void rbusSubscriptions_removeUnresolved(rbusSubscriptions_t subscriptions, char const* listener, char const* eventName, int32_t componentId, rbusFilter_t filter, int32_t interval, int32_t duration, bool rawData)
 {
     rtListItem item;
     rbusSubscription_t* sub;
 
     VERIFY_NULL(subscriptions);
-    VERIFY_NULL(el);
-    RBUSLOG_DEBUG("event %s", elementName);
 
     rtList_GetFront(subscriptions->subList, &item);
-
     while(item)
     {
         rtListItem_GetData(item, (void**)&sub);
-
-        VERIFY_NULL(sub);
-
-        if(sub->element == NULL && sub->tokens == NULL &&/*not already subscribed*/
-           _compareEventNameToElemName(sub->eventName, elementName) == 0)
+        if(!isSubscriptionResolved(sub) &&
+           subscriptionKeyCompare(sub, listener, componentId, eventName, filter, interval, duration, rawData) == 0)
         {
-            rtListItem next;
-            rbusError_t err;
-            RBUSLOG_INFO("resubscribing %s for %s", sub->eventName, sub->listener);
-            rtListItem_GetNext(item, &next);
-            rtList_RemoveItem(subscriptions->subList, item, NULL);/*remove before calling subscribeHandlerImpl to avoid dupes in cache file*/
-            err = subscribeHandlerImpl(handle, true, el, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, &sub->subscriptionId);
-            /*TODO figure out what to do if we get an error resubscribing
-            It's conceivable that a provider might not like the sub due to some state change between this and the previous process run
-            */
-            (void)err;
-            subscriptionFree(sub);
-            item = next;
-        }
-        else
-        {
-            rtListItem_GetNext(item, &item);
+            rtList_RemoveItem(subscriptions->subList, item, subscriptionFree);
+            break;
         }
+        rtListItem_GetNext(item, &item);
     }
 }
 
-void rbusSubscriptions_resubscribeRowElementCache(rbusHandle_t handle, rbusSubscriptions_t subscriptions, elementNode* rowNode)
+/*resubscribes listeners loaded from the cache to the element registered, or to those of the row added.
+  They stay in the list, and so in the cache file, until subscribeHandlerImpl replaces them.*/
+static void resubscribeCache(rbusHandle_t handle, rbusSubscriptions_t subscriptions, char const* elementName, elementNode* el, elementNode* rowNode)
 {
-    rtListItem item = NULL;
-    rbusSubscription_t* sub = NULL;
-    elementNode* el = NULL;
-    rbusError_t err = RBUS_ERROR_SUCCESS;
-    size_t size = 0;
-    unsigned int count = 0;
     struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
 
-    if(subscriptions)
-    {
-        rtList_GetFront(subscriptions->subList, &item);
-        rtList_GetSize(subscriptions->subList, &size);
-    }
+    VERIFY_NULL(subscriptions);
 
-    while(item && (count < size))
+    while(true)
     {
-        /* This count matters otherwise, the sublist will go on forever as we push the new subscription at the end of the list */
-        count++;
-        rtListItem_GetData(item, (void**)&sub);
-        if(sub)
+        rtListItem item;
+        rbusSubscription_t* sub = NULL;
+        elementNode* node = NULL;
+
+        HANDLE_SUBS_MUTEX_LOCK(handle);
+        rtList_GetFront(subscriptions->subList, &item);
+        while(item)
         {
-            rtListItem next = NULL;
-            rtListItem_GetNext(item, &next);
-            if(strncmp(sub->eventName, rowNode->fullName, strlen(rowNode->fullName)) == 0)
+            rtListItem_GetData(item, (void**)&sub);
+            if(!isSubscriptionResolved(sub))
             {
-                el = retrieveInstanceElement(handleInfo->elementRoot, sub->eventName);
-                if(el)
-                {
-                    RBUSLOG_INFO("resubscribing %s for %s", sub->eventName, sub->listener);
-                    rtList_RemoveItem(subscriptions->subList, item, NULL);
-                    err = subscribeHandlerImpl(handle, true, el, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, &sub->subscriptionId);
-                    (void)err;
-                    subscriptionFree(sub);
-                }
+                if(el && _compareEventNameToElemName(sub->eventName, elementName) == 0)
+                    node = el;
+                else if(rowNode && strncmp(sub->eventName, rowNode->fullName, strlen(rowNode->fullName)) == 0)
+                    node = retrieveInstanceElement(handleInfo->elementRoot, sub->eventName);
+                if(node)
+                    break;
             }
-
-            /* Move to Next */
-            item = next;
+            rtListItem_GetNext(item, &item);
         }
-        else
+        if(node)
+            sub = subscriptionCopyKey(sub);
+        HANDLE_SUBS_MUTEX_UNLOCK(handle);
+
+        if(!node)
             break;
+
+        RBUSLOG_INFO("resubscribing %s for %s", sub->eventName, sub->listener);
+        /*TODO figure out what to do if we get an error resubscribing
+        It's conceivable that a provider might not like the sub due to some state change between this and the previous process run
+        */
+        (void)subscribeHandlerImpl(handle, true, node, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, &sub->subscriptionId);
+        HANDLE_SUBS_MUTEX_LOCK(handle);
+        rbusSubscriptions_removeUnresolved(subscriptions, sub->listener, sub->eventName, sub->componentId, sub->filter, sub->interval, sub->duration, sub->rawData);
+        HANDLE_SUBS_MUTEX_UNLOCK(handle);
+        subscriptionFreeKey(sub);
     }
 }
 
-void rbusSubscriptions_handleClientDisconnect(rbusHandle_t handle, rbusSubscriptions_t subscriptions, char const* listener)
+void rbusSubscriptions_resubscribeElementCache(rbusHandle_t handle, rbusSubscriptions_t subscriptions, char const* elementName, elementNode* el)
 {
-    rtListItem item;
-    rbusSubscription_t* sub;
-    elementNode* el = NULL;
-    struct _rbusHandle* handleInfo = (struct _rbusHandle*)handle;
+    VERIFY_NULL(el);
+    RBUSLOG_DEBUG("event %s", elementName);
+    resubscribeCache(handle, subscriptions, elementName, el, NULL);
+}
+
+void rbusSubscriptions_resubscribeRowElementCache(rbusHandle_t handle, rbusSubscriptions_t subscriptions, elementNode* rowNode)
+{
+    resubscribeCache(handle, subscriptions, NULL, NULL, rowNode);
+}
 
+void rbusSubscriptions_handleClientDisconnect(rbusHandle_t handle, rbusSubscriptions_t subscriptions, char const* listener)
+{
     VERIFY_NULL(subscriptions);
     RBUSLOG_DEBUG("%s: %s", __FUNCTION__, listener);
 
-    rtList_GetFront(subscriptions->subList, &item);
-
-    while(item)
+    while(true)
     {
-        rtListItem_GetData(item, (void**)&sub);
-        rtListItem_GetNext(item, &item);
-        if(strcmp(sub->listener, listener) == 0)
+        rtListItem item;
+        rbusSubscription_t* sub = NULL;
+
+        beginElementUse();
+        HANDLE_SUBS_MUTEX_LOCK(handle);
+        rtList_GetFront(subscriptions->subList, &item);
+        while(item)
         {
-            /* RDKB-38389 : Checking for elementnode existence for which the eventname is subscribed */
-            el = retrieveInstanceElement(handleInfo->elementRoot, sub->eventName);
-            if(el)
-            {
-                subscribeHandlerImpl(handle, false, sub->element, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, 0);
-            }
-            else
-            {
-                RBUSLOG_WARN("rbusSubscriptions_handleClientDisconnect: unexpected! element not found");
-            }
+            rtListItem_GetData(item, (void**)&sub);
+            if(strcmp(sub->listener, listener) == 0)
+                break;
+            rtListItem_GetNext(item, &item);
+        }
+        if(!item)
+        {
+            HANDLE_SUBS_MUTEX_UNLOCK(handle);
+            endElementUse();
+            break;
+        }
+        if(!isSubscriptionResolved(sub))
+        {
+            rbusSubscriptions_removeSubscription(subscriptions, sub);
+            sub = NULL;
+        }
+        else
+            sub = subscriptionCopyKey(sub);
+        HANDLE_SUBS_MUTEX_UNLOCK(handle);
+
+        if(sub)
+        {
+            rbusSubscription_t* left;
+            subscribeHandlerImpl(handle, false, sub->element, sub->eventName, sub->listener, sub->componentId, sub->interval, sub->duration, sub->filter, sub->rawData, 0);
+            /*it goes even if the provider's handler refuses*/
+            HANDLE_SUBS_MUTEX_LOCK(handle);
+            left = rbusSubscriptions_getSubscription(subscriptions, sub->listener, sub->eventName, sub->componentId, sub->filter, sub->interval, sub->duration, sub->rawData);
+            if(left)
+                rbusSubscriptions_removeSubscription(subscriptions, left);
+            HANDLE_SUBS_MUTEX_UNLOCK(handle);
+            subscriptionFreeKey(sub);
         }
+        endElementUse();
     }
 }
 
diff --git a/src/rbus/rbus_subscriptions.h b/src/rbus/rbus_subscriptions.h
index 55b0bca..f93a6eb 100644
--- a/src/rbus/rbus_subscriptions.h
+++ b/src/rbus/rbus_subscriptions.h
@@ -65,6 +65,9 @@ rbusSubscription_t* rbusSubscriptions_getSubscription(rbusSubscriptions_t subscr
 /*remove an existing subscription*/
 void rbusSubscriptions_removeSubscription(rbusSubscriptions_t subscriptions, rbusSubscription_t* sub);
 
+/*remove a subscription which was loaded from cache and has no element yet*/
+void rbusSubscriptions_removeUnresolved(rbusSubscriptions_t subscriptions, char const* listener, char const* eventName, int32_t componentId, rbusFilter_t filter, int32_t interval, int32_t duration, bool rawData);
+
 /*call right after a new row is added*/
 void rbusSubscriptions_onTableRowAdded(rbusSubscriptions_t subscriptions, elementNode* node);
 
-- 
2.43.0


From 93b1697cdbfb0b988c20d680e60754bc51d94fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:22 +0000
Subject: [PATCH 58/60] fix: asking for the owners of several elements works
 when some have none or several [P19]

---
 src/core/rbuscore.c | 61 ++++++++++++++++-----------------------------
 src/rbus/rbus.c     |  6 +++--
 2 files changed, 26 insertions(+), 41 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index 75b9808..c738c62 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -2219,55 +2219,38 @@ rbusCoreError_t rbus_discoverElementsObjects(int numElements, const char** eleme
 
         if((RT_OK == rtMessage_GetInt32(msg, RTM_DISCOVERY_RESULT, &result)) && (RT_OK == result))
         {
-            int i;
+            int32_t numComponents = 0;
 
-            for(i = 0; i < numElements && ret == RBUSCORE_SUCCESS; ++i)
+            /*The items are the components of all the elements, in the order of the elements. The number of items is the only
+              reliable count: RTM_DISCOVERY_COUNT is repeated for each element and just the first of them can be read.*/
+            if(rtMessage_GetArrayLength(msg, RTM_DISCOVERY_ITEMS, &numComponents) == RT_OK && numComponents > 0)
             {
-                int numComponents = 0;
-                const char* component = NULL;
-
-                if(rtMessage_GetInt32(msg, RTM_DISCOVERY_COUNT, &numComponents) == RT_OK)
+                array_ptr = (char **)rt_try_malloc(numComponents * sizeof(char *));
+                if (!array_ptr)
+                {
+                    RBUSCORELOG_ERROR("Memory allocation failure");
+                    ret = RBUSCORE_ERROR_GENERAL;
+                }
+                for (int j = 0; j < numComponents && ret == RBUSCORE_SUCCESS; j++)
                 {
-                    char **next = NULL;
-                    if(numComponents)
+                    const char* component = NULL;
+
+                    if (RT_OK != rtMessage_GetStringItem(msg, RTM_DISCOVERY_ITEMS, j, &component))
                     {
-                        if(!array_ptr)
-                            next = (char **)rt_try_malloc(numComponents * sizeof(char *));
-                        else
-                            next = (char **)rt_try_realloc(array_ptr, (array_count + numComponents) * sizeof(char *));
-                        if (!next)
+                        RBUSCORELOG_ERROR("Read item failure");
+                        ret = RBUSCORE_ERROR_GENERAL;
+                    }
+                    else if(component[0]) /*rtrouted will put a 0 len string if no route found*/
+                    {
+                        if (NULL == (array_ptr[array_count] = strndup(component, MAX_OBJECT_NAME_LENGTH)))
                         {
                             RBUSCORELOG_ERROR("Memory allocation failure");
                             ret = RBUSCORE_ERROR_GENERAL;
-                            break;
-                        }
-                        array_ptr = next;
-                        for (int j = 0; j < numComponents; j++)
-                        {
-                            if (RT_OK != rtMessage_GetStringItem(msg, RTM_DISCOVERY_ITEMS, array_count, &component))
-                            {
-                                RBUSCORELOG_ERROR("Read item failure");
-                                ret = RBUSCORE_ERROR_GENERAL;
-                                break;
-                            }
-                            if(component[0]) /*rtrouted will put a 0 len string if no route found*/
-                            {
-                                if (NULL == (array_ptr[array_count++] = strndup(component, MAX_OBJECT_NAME_LENGTH)))
-                                {
-                                    RBUSCORELOG_ERROR("Memory allocation failure");
-                                    ret = RBUSCORE_ERROR_GENERAL;
-                                    break;
-                                }
-                            }
                         }
+                        else
+                            array_count++;
                     }
                 }
-                else
-                {
-                    RBUSCORELOG_ERROR("rbus_discoverElementsObjects: failed at %s", elements[i]);
-                    ret = RBUSCORE_ERROR_GENERAL;
-                    break;
-                }
             }
         }
         else
diff --git a/src/rbus/rbus.c b/src/rbus/rbus.c
index 390db23..ea77ca5 100644
--- a/src/rbus/rbus.c
+++ b/src/rbus/rbus.c
@@ -3965,7 +3965,7 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
 
     {
         rbusMessage request, response;
-        int numComponents;
+        int numComponents = 0;
         char** componentNames = NULL;
 
         /*discover which components have some ownership of the params in the list*/
@@ -4098,6 +4098,8 @@ rbusError_t rbus_getExt(rbusHandle_t handle, int paramCount, char const** pParam
         {
             errorcode = RBUS_ERROR_DESTINATION_NOT_FOUND;
             RBUSLOG_ERROR("Discover component names failed with error %d and counts %d/%d", errorcode, paramCount, numComponents);
+            for(i = 0; i < numComponents; ++i)
+                free(componentNames[i]);
         }
         if(componentNames)
             free(componentNames);
@@ -4359,7 +4361,7 @@ rbusError_t _setMultiInternal(rbusHandle_t handle, uint32_t numProps, rbusProper
         }
 
         char const** pParamNames;
-        int numComponents;
+        int numComponents = 0;
         char** componentNames = NULL;
         uint32_t i;
 
-- 
2.43.0


From dc59f9c43541e289daf57d6b5f3cdb15d45be17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:55 +0000
Subject: [PATCH 59/60] fix: looking up a direct connection's client neither
 unlocks its caller's lock nor runs without one [P17]

---
 src/core/rbuscore.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/rbuscore.c b/src/core/rbuscore.c
index c738c62..75c9553 100644
--- a/src/core/rbuscore.c
+++ b/src/core/rbuscore.c
@@ -2678,6 +2678,7 @@ invalidFile:
     }
 }
 
+/*call with directServerLock held; the result is valid until it is released*/
 rbusServerDMLList_t* rbuscore_FindServerPrivateClient (const char *pParameterName, const char *pConsumerName)
 {
     rbusServerDMLList_t* pDmlObj = NULL;
@@ -2696,7 +2697,6 @@ rbusServerDMLList_t* rbuscore_FindServerPrivateClient (const char *pParameterNam
                 if ((0 == strncmp(pDmlObj->m_privateDML, pParameterName, MAX_OBJECT_NAME_LENGTH)) &&
                     (0 == strncmp(pDmlObj->m_consumerName, pConsumerName, MAX_OBJECT_NAME_LENGTH)))
                 {
-                    directServerUnlock();
                     return pDmlObj;
                 }
             }
@@ -2725,19 +2725,19 @@ rbusCoreError_t rbuscore_updatePrivateListener(const char* pConsumerName, const
     rbusServerDMLList_t *pObj = NULL;
     if (pConsumerName && pDMLName)
     {
+        directServerLock();
         pObj = rbuscore_FindServerPrivateClient (pDMLName, pConsumerName);
         if (pObj)
         {
-            directServerLock();
             rtVector_RemoveItem(gListOfServerDirectDMLs, pObj, rtVector_Cleanup_Free);
             _rbuscore_directconnection_save_to_cache();
-            directServerUnlock();
         }
         else
         {
             RBUSCORELOG_WARN("No Direct Connection for this DML(%s) exist for this consumer(%s)", pDMLName, pConsumerName);
             ret = RBUSCORE_ERROR_INVALID_PARAM;
         }
+        directServerUnlock();
     }
     else
         ret = RBUSCORE_ERROR_INVALID_PARAM;
-- 
2.43.0


From 373d8a3796fe36d7663f7927cf07152ad8864917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:44 +0000
Subject: [PATCH 60/60] fix: a connection lost again while reconnecting doesn't
 block the reconnecting thread forever [P17]

---
 src/rtmessage/rtConnection.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/rtmessage/rtConnection.c b/src/rtmessage/rtConnection.c
index 62a414d..4f62915 100644
--- a/src/rtmessage/rtConnection.c
+++ b/src/rtmessage/rtConnection.c
@@ -436,18 +436,34 @@ rtConnection_ConnectAndRegister(rtConnection con, rtTime_t* reconnect_time)
   /*on reconnect, add back all listeners */
   for (i = 0; i < RTMSG_LISTENERS_MAX; ++i)
   {
+    rtError err = RT_OK;
+
+    pthread_mutex_lock(&con->mutex);
     if (con->listeners[i].in_use)
     {
+      uint8_t* p;
+      uint32_t n;
       rtMessage m;
       rtMessage_Create(&m);
       rtMessage_SetInt32(m, "add", 1);
       rtMessage_SetString(m, "topic", con->listeners[i].expression);
       rtMessage_SetInt32(m, "route_id", con->listeners[i].subscription_id);
-      rtConnection_SendMessage(con, m, "_RTROUTED.INBOX.SUBSCRIBE");
+      rtMessage_ToByteArrayWithSize(m, &p, DEFAULT_SEND_BUFFER_SIZE, &n);
+      /*not rtConnection_SendMessage, which would wait for this reconnect if the connection is lost again*/
+      err = rtConnection_SendInternal(con, p, n, "_RTROUTED.INBOX.SUBSCRIBE", NULL, 0, 0, 0, 0, 0);
+      rtMessage_FreeByteArray(p);
       rtMessage_Release(m);
 
       /*TODO: we need to readd all the aliases too -- would this allow rbus to recover from broker crash ?*/
     }
+    pthread_mutex_unlock(&con->mutex);
+
+    if (err == RT_NO_CONNECTION)
+    {
+      rtLog_Warn("connection lost again while reconnecting");
+      con->reconnect_in_progress = 0;
+      return RT_NO_CONNECTION;
+    }
   }
 
 #ifdef WITH_SPAKE2
-- 
2.43.0

