From 7d75e7cf0f878e019b83bd1d119b5271722c5550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:32 +0000
Subject: [PATCH 01/63] fix: take the cache lock in MSET, MSETNX, MGET, EXISTS
 and TYPE

---
 cache/cachedb.go     |  6 ++++++
 cache/cachestring.go | 12 ++++++------
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/cache/cachedb.go b/cache/cachedb.go
index b675204..824bdeb 100644
--- a/cache/cachedb.go
+++ b/cache/cachedb.go
@@ -22,6 +22,9 @@ func (c *Cache) Flush() {
 }
 
 func (c *Cache) Exists(keys ...string) (n int){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	for _, key := range keys{
 		if _, ok := c.dataDict.Load(key); ok{
 			n++
@@ -32,6 +35,9 @@ func (c *Cache) Exists(keys ...string) (n int){
 }
 
 func (c *Cache)Type(key string) string {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	v, ok := c.get(key)
 	if !ok{
 		return "none"
diff --git a/cache/cachestring.go b/cache/cachestring.go
index ce49c68..c9ef186 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -310,8 +310,8 @@ func (c *Cache) DecrBy(key string, decrement int64) (int, error) {
 }
 
 func (c *Cache) MSet(kv map[string]string) (ok string) {
-	//c.lock.Lock()
-	//defer c.lock.Unlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
 	for k, v := range kv {
 		c.dataDict.Store(k, tryInt64(v))
@@ -321,8 +321,8 @@ func (c *Cache) MSet(kv map[string]string) (ok string) {
 }
 
 func (c *Cache) MSetNX(kv map[string]string) int {
-	//c.lock.Lock()
-	//defer c.lock.Unlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
 	n := 0
 
@@ -336,8 +336,8 @@ func (c *Cache) MSetNX(kv map[string]string) int {
 }
 
 func (c *Cache) MGet(keys ...string) []interface{} {
-	//c.lock.RLock()
-	//defer c.lock.RUnlock()
+	c.lock.RLock()
+	defer c.lock.RUnlock()
 
 	var values = make([]interface{}, len(keys))
 	for id, k := range keys {
-- 
2.43.0


From eb3aad2fc2ab03214d966deef41fc80bade06ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:32 +0000
Subject: [PATCH 02/63] fix: take the cache lock in the hash commands

---
 cache/cachehash.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index b79a1ea..8f64ba2 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -51,6 +51,9 @@ func (c *Cache) getHashEntry(key string) (*hashEntry, error) {
 }
 
 func (c *Cache) HSet(key string, field string, value string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -66,6 +69,9 @@ func (c *Cache) HSet(key string, field string, value string) (n int, err error)
 
 //HGET
 func (c *Cache) HSetNX(key string, field string, value string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -86,6 +92,9 @@ func (c *Cache) HSetNX(key string, field string, value string) (n int, err error
 
 //HEXISTS
 func (c *Cache) HExists(key string, field string) (n int, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -106,6 +115,9 @@ func (c *Cache) HExists(key string, field string) (n int, err error) {
 
 //HDEL
 func (c *Cache) HDel(key string, fields ...string) (n int, err error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -131,6 +143,9 @@ func (c *Cache) HDel(key string, fields ...string) (n int, err error) {
 
 //HLEN
 func (c *Cache) HLen(key string) (n int, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return 0, err
@@ -145,6 +160,9 @@ func (c *Cache) HLen(key string) (n int, err error) {
 
 //HSTRLEN
 func (c *Cache) HStrLen(key, field string) (n int, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil || he == nil {
 		return n, err
@@ -158,6 +176,9 @@ func (c *Cache) HStrLen(key, field string) (n int, err error) {
 }
 
 func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return n, err
@@ -205,6 +226,9 @@ func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
 var ErrHashValueIsNotFloat = errors.New("hash value is not a float")
 //HINCRBY
 func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return f, err
@@ -250,6 +274,9 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 }
 //HMSET
 func (c *Cache) HMSet(key string, fv map[string]string) (n int, err error){
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return n, err
@@ -269,6 +296,9 @@ func (c *Cache) HMSet(key string, fv map[string]string) (n int, err error){
 
 //HMGET
 func (c *Cache)HMGet(key string, fields ...string) ([]interface{}, error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -293,6 +323,9 @@ func (c *Cache)HMGet(key string, fields ...string) ([]interface{}, error) {
 
 //HKEYS
 func(c *Cache) HKeys(key string)(fields []string,err error){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -310,6 +343,9 @@ func(c *Cache) HKeys(key string)(fields []string,err error){
 
 //HVALS
 func(c *Cache) HVals(key string)(values []string,err error){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -327,6 +363,9 @@ func(c *Cache) HVals(key string)(values []string,err error){
 
 //HGETALL
 func(c *Cache) HGetAll(key string)(kv map[string]string,err error){
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil{
 		return nil, err
@@ -346,6 +385,9 @@ func(c *Cache) HGetAll(key string)(kv map[string]string,err error){
 }
 //HSCAN
 func (c *Cache) HGet(key string, field string) (value string, err error) {
+	c.lock.RLock()
+	defer c.lock.RUnlock()
+
 	he, err := c.getHashEntry(key)
 	if err != nil {
 		return value, err
-- 
2.43.0


From 240f642fdab38f537be8e346a13491a78dec1e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:32 +0000
Subject: [PATCH 03/63] fix: treat expired keys as absent in SETNX, MSETNX,
 EXISTS and the increments

---
 cache/cachedb.go     | 2 +-
 cache/cachestring.go | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/cache/cachedb.go b/cache/cachedb.go
index 824bdeb..6a303a7 100644
--- a/cache/cachedb.go
+++ b/cache/cachedb.go
@@ -26,7 +26,7 @@ func (c *Cache) Exists(keys ...string) (n int){
 	defer c.lock.RUnlock()
 
 	for _, key := range keys{
-		if _, ok := c.dataDict.Load(key); ok{
+		if _, ok := c.get(key); ok{
 			n++
 		}
 	}
diff --git a/cache/cachestring.go b/cache/cachestring.go
index c9ef186..78ca425 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -30,6 +30,7 @@ func (c *Cache) SetNX(key, value string) (int, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	c.expired(key)
 	if _, loaded := c.dataDict.LoadOrStore(key, tryInt64(value)); loaded {
 		return 0, nil
 	} else {
@@ -239,6 +240,7 @@ func (c *Cache) IncrBy(key string, increment int64) (int, error) {
 }
 
 func (c *Cache) incrBy(key string, increment int64) (int, error) {
+	c.expired(key)
 	actual, ok := c.dataDict.LoadOrStore(key, increment)
 	if !ok {
 		return int(increment), nil
@@ -275,6 +277,7 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	c.expired(key)
 	actual, ok := c.dataDict.LoadOrStore(key, increment)
 	if !ok {
 		return increment, nil
@@ -327,6 +330,7 @@ func (c *Cache) MSetNX(kv map[string]string) int {
 	n := 0
 
 	for k, v := range kv {
+		c.expired(k)
 		if _, loaded := c.dataDict.LoadOrStore(k, tryInt64(v)); !loaded {
 			n++
 		}
-- 
2.43.0


From 53ad8376761d76cde32d8f46fbdaa1afeb3de10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:32 +0000
Subject: [PATCH 04/63] fix: SET, GETSET and MSET discard the previous deadline

---
 cache/cachestring.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 78ca425..1e6db33 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -10,6 +10,7 @@ func (c *Cache) Set(key, value string) (string, error) {
 	defer c.lock.Unlock()
 
 	c.dataDict.Store(key, tryInt64(value))
+	c.expires(key, 0)
 	return OK, nil
 }
 
@@ -105,6 +106,7 @@ func (c *Cache) GetSet(key, value string) (string, error) {
 	old, ok := c.get(key)
 
 	c.dataDict.Store(key, tryInt64(value))
+	c.expires(key, 0)
 
 	if !ok{
 		return "", ErrKeyNil
@@ -318,6 +320,7 @@ func (c *Cache) MSet(kv map[string]string) (ok string) {
 
 	for k, v := range kv {
 		c.dataDict.Store(k, tryInt64(v))
+		c.expires(k, 0)
 	}
 
 	return OK
-- 
2.43.0


From 9c67e55116d479158016039f685c206746be46d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:32 +0000
Subject: [PATCH 05/63] fix: the sweep walks deadlines and removes only expired
 keys

---
 cache/cachecron.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cache/cachecron.go b/cache/cachecron.go
index e9aaa43..131eed1 100644
--- a/cache/cachecron.go
+++ b/cache/cachecron.go
@@ -6,13 +6,9 @@ import "time"
 func (c *Cache) cronExpire(duration time.Duration) {
 	for range time.NewTicker(duration).C{
 		c.lock.Lock()
-		c.dataDict.Range(func(key interface{}, value interface{}) bool {
+		c.expiresDict.Range(func(key interface{}, value interface{}) bool {
 			expire, ok := value.(time.Time)
-			if !ok{
-				c.expiresDict.Delete(key)
-			}
-
-			if expire.Before(time.Now()){
+			if ok && expire.Before(time.Now()){
 				c.expiresDict.Delete(key)
 				c.dataDict.Delete(key)
 			}
-- 
2.43.0


From fad6448be49a5fb2c0c7736d46ff6450fea4a1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:32 +0000
Subject: [PATCH 06/63] fix: store a string as a number only if it formats back
 to the same text

---
 cache/cachestring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 1e6db33..2e4bdc2 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -15,10 +15,10 @@ func (c *Cache) Set(key, value string) (string, error) {
 }
 
 func tryInt64(value string) interface{} {
-	if n, err := strconv.Atoi(value); err == nil {
+	if n, err := strconv.Atoi(value); err == nil && strconv.Itoa(n) == value {
 		// try convert string value to int
 		return n
-	} else if f, err := strconv.ParseFloat(value, 64); err == nil {
+	} else if f, err := strconv.ParseFloat(value, 64); err == nil && strconv.FormatFloat(f, 'f', -1, 64) == value {
 		// try float
 		return f
 	}
-- 
2.43.0


From 3c17dd6406cf335cb481c0030368023d3799e61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:32 +0000
Subject: [PATCH 07/63] fix: GETSET on a key of another kind leaves it
 unchanged

---
 cache/cachestring.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 2e4bdc2..2c239d8 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -105,6 +105,14 @@ func (c *Cache) GetSet(key, value string) (string, error) {
 
 	old, ok := c.get(key)
 
+	var str string
+	if ok {
+		var err error
+		if str, err = fmtString(old); err != nil {
+			return "", err
+		}
+	}
+
 	c.dataDict.Store(key, tryInt64(value))
 	c.expires(key, 0)
 
@@ -112,7 +120,7 @@ func (c *Cache) GetSet(key, value string) (string, error) {
 		return "", ErrKeyNil
 	}
 
-	return fmtString(old)
+	return str, nil
 }
 
 func (c *Cache) StrLen(key string) (int, error) {
-- 
2.43.0


From 58eaf3485c99252a6ef3edcd1fe147fef09056b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:32 +0000
Subject: [PATCH 08/63] fix: TYPE recognises hashes

---
 cache/cachedb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cache/cachedb.go b/cache/cachedb.go
index 6a303a7..26b8550 100644
--- a/cache/cachedb.go
+++ b/cache/cachedb.go
@@ -44,7 +44,7 @@ func (c *Cache)Type(key string) string {
 	}
 
 	switch v.(type) {
-	case hashEntry:
+	case *hashEntry:
 		return "hash"
 	default:
 		return "string"
-- 
2.43.0


From 664d014b606420ed87d81e2e84b3392dcaa01e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:33 +0000
Subject: [PATCH 09/63] fix: HEXISTS does not change the hash length

---
 cache/cachehash.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index 8f64ba2..380860c 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -108,8 +108,6 @@ func (c *Cache) HExists(key string, field string) (n int, err error) {
 		n = 1
 	}
 
-	he.length -= n
-
 	return n, err
 }
 
-- 
2.43.0


From 1342d1205f7e19d84979d51d9ef06ab7da4502ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:33 +0000
Subject: [PATCH 10/63] fix: HINCRBY and HINCRBYFLOAT store the sum, not the
 increment

---
 cache/cachehash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index 380860c..59ad2e9 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -215,7 +215,7 @@ func (c *Cache) HIncrBy(key, field string, increment int) (n int, err error){
 	}
 
 	if err == nil{
-		he.set(field, strconv.Itoa(increment))
+		he.set(field, strconv.Itoa(n))
 	}
 
 	return n, err
@@ -265,7 +265,7 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 	}
 
 	if err == nil{
-		he.set(field, strconv.FormatFloat(increment, 'f', -1, 64))
+		he.set(field, strconv.FormatFloat(f, 'f', -1, 64))
 	}
 
 	return f, err
-- 
2.43.0


From 8c3f46f31a47f103db3649fb8aabbbd4883bb411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:33 +0000
Subject: [PATCH 11/63] fix: float increments accept every numeric
 representation the cache stores

---
 cache/cachehash.go   | 4 +++-
 cache/cachestring.go | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index 59ad2e9..d3e33a0 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -82,7 +82,7 @@ func (c *Cache) HSetNX(key string, field string, value string) (n int, err error
 		c.dataDict.Store(key, he)
 	}
 
-	if _, ok := he.LoadOrStore(field, value); !ok {
+	if _, ok := he.LoadOrStore(field, tryInt64(value)); !ok {
 		he.length++
 		n = 1
 	}
@@ -260,6 +260,8 @@ func (c *Cache) HIncrByFloat(key, field string, increment float64) (f float64, e
 		f = float64(val) + increment
 	case uint64:
 		f = float64(val) + increment
+	case float64:
+		f = val + increment
 	default:
 		err = ErrHashValueIsNotFloat
 	}
diff --git a/cache/cachestring.go b/cache/cachestring.go
index 2c239d8..4d0c96a 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -302,6 +302,10 @@ func (c *Cache) IncrByFloat(key string, increment float64) (float64, error) {
 		f := float64(val) + increment
 		c.dataDict.Store(key, f)
 		return f, nil
+	case int64:
+		f := float64(val) + increment
+		c.dataDict.Store(key, f)
+		return f, nil
 	default:
 		return 0, ErrWrongType
 	}
-- 
2.43.0


From e0e179254380065728c244900a954074a5996216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:33 +0000
Subject: [PATCH 12/63] fix: HKEYS, HVALS and HGETALL return every field and
 survive an absent key

---
 cache/cachehash.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/cache/cachehash.go b/cache/cachehash.go
index d3e33a0..0f67743 100644
--- a/cache/cachehash.go
+++ b/cache/cachehash.go
@@ -331,6 +331,10 @@ func(c *Cache) HKeys(key string)(fields []string,err error){
 		return nil, err
 	}
 
+	if he == nil {
+		return nil, nil
+	}
+
 	 he.Range(func(key, value interface{}) bool {
 		if field, ok := key.(string); ok{
 			fields = append(fields, field)
@@ -351,8 +355,12 @@ func(c *Cache) HVals(key string)(values []string,err error){
 		return nil, err
 	}
 
+	if he == nil {
+		return nil, nil
+	}
+
 	he.Range(func(key, value interface{}) bool {
-		if field, ok := value.(string); ok{
+		if field, err := fmtString(value); err == nil{
 			values = append(values, field)
 		}
 		return true
@@ -371,9 +379,14 @@ func(c *Cache) HGetAll(key string)(kv map[string]string,err error){
 		return nil, err
 	}
 
+	kv = make(map[string]string)
+	if he == nil {
+		return kv, nil
+	}
+
 	he.Range(func(key, value interface{}) bool {
 		if field, ok := key.(string); ok{
-			if v, err := fmtString(value); err != nil{
+			if v, err := fmtString(value); err == nil{
 				kv[field] = v
 			}
 		}
-- 
2.43.0


From 6439f8e5a09ff2a38f8d959063856ce9287934c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:33 +0000
Subject: [PATCH 13/63] fix: SETRANGE refuses offsets no string can have

---
 cache/cachestring.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 4d0c96a..6c84e6a 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -159,11 +159,14 @@ func (c *Cache) Append(key string, value string) (int, error) {
 	return len(value), nil
 }
 
+// largest string a value may grow to, as in redis
+const maxStringLen = 512 * 1024 * 1024
+
 func (c *Cache) SetRange(key string, pos int, replace string) (int, error) {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
-	if pos < 0 {
+	if pos < 0 || pos > maxStringLen-len(replace) {
 		return 0, ErrOffsetOutOfRange
 	}
 
-- 
2.43.0


From 9c550d40051c3afd4983dcc804dc39c96b48bbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:05 +0000
Subject: [PATCH 14/63] fix: apply replicated HMSET and check the argument
 count of SET

---
 cache/message.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cache/message.go b/cache/message.go
index d915d1f..4e5dd9a 100644
--- a/cache/message.go
+++ b/cache/message.go
@@ -18,6 +18,10 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 
 	switch strings.ToLower(messages[0].String()) {
 	case "set":
+		if len(messages) < 3 {
+			return errors.New("set command args error")
+		}
+
 		_, err = cache.Set(messages[1].String(), messages[2].String())
 	case "rpush":
 		if len(messages) < 2 {
@@ -30,10 +34,15 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 		}
 		_, err = cache.RPush(messages[1].String(), values...)
 	case "hmset":
-		if len(messages) < 2 {
+		if len(messages) < 4 || len(messages)%2 != 0 {
 			return errors.New("hmset command args error")
 		}
 
+		fv := make(map[string]string)
+		for i := 2; i < len(messages); i += 2 {
+			fv[messages[i].String()] = messages[i+1].String()
+		}
+		_, err = cache.HMSet(messages[1].String(), fv)
 	default:
 		return errors.New("unknown handled command," + message.Serialize())
 	}
-- 
2.43.0


From 7b779294335c762015ecade43e9b1497902cf659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:05 +0000
Subject: [PATCH 15/63] fix: a replicated RPUSH no longer panics

---
 cache/cachedb.go   |  2 ++
 cache/cachelist.go | 19 ++++++++++++++++++-
 cache/message.go   |  2 +-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/cache/cachedb.go b/cache/cachedb.go
index 26b8550..4b6b155 100644
--- a/cache/cachedb.go
+++ b/cache/cachedb.go
@@ -46,6 +46,8 @@ func (c *Cache)Type(key string) string {
 	switch v.(type) {
 	case *hashEntry:
 		return "hash"
+	case *ListEntry:
+		return "list"
 	default:
 		return "string"
 	}
diff --git a/cache/cachelist.go b/cache/cachelist.go
index f1277e6..e7e949f 100644
--- a/cache/cachelist.go
+++ b/cache/cachelist.go
@@ -23,7 +23,24 @@ func (c *Cache) LPushX(key string, values ...string) (int, error) {
 }
 
 func (c *Cache) RPush(key string, values ...string) (int, error) {
-	panic("implement me")
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
+	var entry *ListEntry
+	if val, ok := c.get(key); ok {
+		if entry, ok = val.(*ListEntry); !ok {
+			return 0, ErrWrongType
+		}
+	} else {
+		entry = &ListEntry{}
+		c.dataDict.Store(key, entry)
+	}
+
+	for _, value := range values {
+		entry.AppendTail(value)
+	}
+
+	return len(entry.val), nil
 }
 
 func (c *Cache) RPushX(key string, values ...string) (int, error) {
diff --git a/cache/message.go b/cache/message.go
index 4e5dd9a..0ff031a 100644
--- a/cache/message.go
+++ b/cache/message.go
@@ -24,7 +24,7 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 
 		_, err = cache.Set(messages[1].String(), messages[2].String())
 	case "rpush":
-		if len(messages) < 2 {
+		if len(messages) < 3 {
 			return errors.New("rpush command args error")
 		}
 
-- 
2.43.0


From 11ee3b48b52ddda1f0411d453454289aa60668b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:05 +0000
Subject: [PATCH 16/63] fix: snapshot deadlines are absolute and reach the
 cache

---
 cache/cacheutil.go   | 13 +++++++++++++
 cache/message.go     | 12 ++++++++++++
 redis/replication.go |  2 +-
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/cache/cacheutil.go b/cache/cacheutil.go
index 78285c0..b2bab24 100644
--- a/cache/cacheutil.go
+++ b/cache/cacheutil.go
@@ -33,6 +33,19 @@ func (c *Cache) expires(key string, duration time.Duration) {
 	}
 }
 
+// PEXPIREAT key, the key is gone after timestamp
+func (c *Cache) PExpireAt(key string, timestamp time.Time) (int, error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
+	if _, ok := c.get(key); !ok {
+		return 0, nil
+	}
+
+	c.expiresDict.Store(key, timestamp)
+	return 1, nil
+}
+
 func (c *Cache) get(key string) (value interface{},ok bool){
 	val, ok := c.dataDict.Load(key)
 	if !ok{
diff --git a/cache/message.go b/cache/message.go
index 0ff031a..12c21f3 100644
--- a/cache/message.go
+++ b/cache/message.go
@@ -3,7 +3,9 @@ package cache
 import (
 	"errors"
 	"github.com/liujiangwei/xxcache/redis"
+	"strconv"
 	"strings"
+	"time"
 )
 
 func HandleMessage(cache *Cache, message redis.Message) (err error) {
@@ -43,6 +45,16 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 			fv[messages[i].String()] = messages[i+1].String()
 		}
 		_, err = cache.HMSet(messages[1].String(), fv)
+	case "pexpireat":
+		if len(messages) != 3 {
+			return errors.New("pexpireat command args error")
+		}
+
+		ms, e := strconv.ParseInt(messages[2].String(), 10, 64)
+		if e != nil {
+			return e
+		}
+		_, err = cache.PExpireAt(messages[1].String(), time.Unix(ms/1000, ms%1000*int64(time.Millisecond)))
 	default:
 		return errors.New("unknown handled command," + message.Serialize())
 	}
diff --git a/redis/replication.go b/redis/replication.go
index 57142f0..026f361 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -527,7 +527,7 @@ func (repl *Replication) Load() (err error) {
 			}
 
 			if expiresTime > 0 {
-				args := []string{"pExpire", key, strconv.Itoa(int(expiresTime))}
+				args := []string{"pExpireAt", key, strconv.Itoa(int(expiresTime))}
 				cmd := NewBaseCommand(args...)
 				repl.Messages <- ReplicationMessage{
 					Database: repl.database,
-- 
2.43.0


From cc94302e03507285df7679ffb641e6cfae93e69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:05 +0000
Subject: [PATCH 17/63] fix: a snapshot list keeps its order

---
 redis/replication.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index 026f361..c05f73a 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -315,7 +315,7 @@ func (repl *Replication) Load() (err error) {
 				}
 
 				var value string
-				var args = []string{"lPush", key}
+				var args = []string{"rPush", key}
 				for ; length > 0; length-- {
 					if value, err = rdb.LoadString(buf); err != nil {
 						logrus.Warnln("failed to load TypeList value", err)
-- 
2.43.0


From 20d014adb068136b6054743b612b3e4fe680809f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:05 +0000
Subject: [PATCH 18/63] fix: a snapshot hash is loaded as a hash

---
 redis/replication.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index c05f73a..62ea2ad 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -398,7 +398,7 @@ func (repl *Replication) Load() (err error) {
 					return err
 				}
 
-				var args = []string{"zAdd", key}
+				var args = []string{"hmSet", key}
 				var field, value string
 				for ; length > 0; length-- {
 					if field, err = rdb.LoadString(buf); err != nil {
-- 
2.43.0


From 22a344510b2e2b41da870408913e63f2d945736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:05 +0000
Subject: [PATCH 19/63] fix: snapshot sorted sets put the score before the
 member

---
 redis/replication.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index 62ea2ad..75f8516 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -369,7 +369,6 @@ func (repl *Replication) Load() (err error) {
 						logrus.Warnln("failed to load TypeZSet, TypeZSet2 value", err)
 						return err
 					}
-					args = append(args, value)
 					if opCode == rdb.TypeZSet2 {
 						if score, err = rdb.LoadBinaryDouble(buf); err != nil {
 							logrus.Warnln("failed to load TypeZSet, TypeZSet2 value TypeZSet2", err)
@@ -382,7 +381,7 @@ func (repl *Replication) Load() (err error) {
 						}
 					}
 
-					args = append(args, strconv.FormatFloat(score, 'f', -1, 64))
+					args = append(args, strconv.FormatFloat(score, 'f', -1, 64), value)
 				}
 
 				cmd := NewBaseCommand(args...)
@@ -480,7 +479,7 @@ func (repl *Replication) Load() (err error) {
 					var args = []string{"zAdd", key}
 					list := ziplist.Load(str)
 					for i := 0; i < len(list)/2; i++ {
-						args = append(args, list[2*i], list[2*i+1])
+						args = append(args, list[2*i+1], list[2*i])
 					}
 					cmd := NewBaseCommand(args...)
 					repl.Messages <- ReplicationMessage{
-- 
2.43.0


From 08faa3c6507154528d7aa9a8466914dd5dee72d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:42 +0000
Subject: [PATCH 20/63] fix: a snapshot deadline in seconds does not overflow
 32 bits

---
 redis/replication.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index 75f8516..b267fce 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -199,7 +199,7 @@ func (repl *Replication) Load() (err error) {
 			if _, err = io.ReadFull(buf, expireS); err != nil {
 				return err
 			}
-			expiresTime = uint64(binary.LittleEndian.Uint32(expireS) * 1000)
+			expiresTime = uint64(binary.LittleEndian.Uint32(expireS)) * 1000
 		case rdb.OpCodeExpireTimeMs:
 			var milliTime = make([]byte, 8)
 			if _, err = io.ReadFull(buf, milliTime); err != nil {
-- 
2.43.0


From 0b2ea7272b7d699abc0b10c85f710ce776b24007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:42 +0000
Subject: [PATCH 21/63] fix: a snapshot with unsupported entries is an error,
 not a partial success

---
 redis/replication.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index b267fce..a32da61 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -523,6 +523,11 @@ func (repl *Replication) Load() (err error) {
 				err = errors.New("TypeStreamListPacks unsupported now")
 			case rdb.TypeModule, rdb.TypeModule2:
 				err = errors.New("TypeModule TypeModule2 unsupported now")
+			default:
+				err = errors.New("unknown object type " + strconv.Itoa(int(opCode)))
+			}
+			if err != nil {
+				return err
 			}
 
 			if expiresTime > 0 {
@@ -538,7 +543,7 @@ func (repl *Replication) Load() (err error) {
 		}
 	}
 
-	return nil
+	return err
 }
 
 type ReplicationMessage struct {
-- 
2.43.0


From e2425fc3d3b193d6b5496f8de4a536c865688d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:42 +0000
Subject: [PATCH 22/63] fix: check the snapshot header

---
 redis/replication.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index a32da61..61a3b91 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -180,9 +180,12 @@ func (repl *Replication) Load() (err error) {
 
 	buf := bufio.NewReader(file)
 	var version = make([]byte, 9)
-	if _, err = buf.Read(version); err != nil {
+	if _, err = io.ReadFull(buf, version); err != nil {
 		return err
 	}
+	if string(version[:5]) != "REDIS" {
+		return errors.New("not a rdb file")
+	}
 	// start to load rdb file
 	var opCode uint
 	var expiresTime uint64
-- 
2.43.0


From ac73e1c3e7fd9bb5ff207780d99c772e76359712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:42 +0000
Subject: [PATCH 23/63] fix: the empty string is a valid key in a snapshot

---
 redis/replication.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index 61a3b91..d704fc9 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -290,9 +290,6 @@ func (repl *Replication) Load() (err error) {
 			if key, err = rdb.LoadString(buf); err != nil {
 				logrus.Warnln("failed to load key", err)
 				return err
-			} else if key == "" {
-				logrus.Warnln("failed to load key, key is empty", err)
-				return errors.New("empty key")
 			}
 
 			// opCode is object type
-- 
2.43.0


From 879a2351d7c8fd519f4ed62f99fd6f2571c2c0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:42 +0000
Subject: [PATCH 24/63] fix: a sync reply other than a snapshot is an error;
 close the snapshot file

---
 redis/replication.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/redis/replication.go b/redis/replication.go
index d704fc9..49bfde9 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -144,9 +144,12 @@ func (repl *Replication) sync() (err error) {
 	if fp, err = os.OpenFile(repl.RdbFile, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, os.ModePerm); err != nil {
 		return errors.New("failed to open rdb file," + err.Error())
 	}
+	defer fp.Close()
 
 	if protocol, length, err := repl.conn.ReadWithWriter(fp); err != nil {
 		return errors.New("failed to save rdb file," + err.Error())
+	} else if protocol != ProtocolBulkString || length < 0 {
+		return errors.New("failed to save rdb file, unexpected reply to sync")
 	} else {
 		logrus.Infoln("redis rdb file", protocol, length, repl.RdbFile)
 	}
@@ -177,6 +180,7 @@ func (repl *Replication) Load() (err error) {
 	if file, err = os.OpenFile(repl.RdbFile, os.O_RDONLY, os.ModePerm); err != nil {
 		return errors.New("failed to open rdb file," + err.Error())
 	}
+	defer file.Close()
 
 	buf := bufio.NewReader(file)
 	var version = make([]byte, 9)
-- 
2.43.0


From 43e0caee61b442548928a3106cdc60250380576d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:43 +0000
Subject: [PATCH 25/63] fix: report a failed flush of the snapshot file

---
 redis/conn.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index f74639b..be97d30 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -102,8 +102,8 @@ func (c Conn) discardEof() error {
 }
 
 // save message content to io reader
-func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
-	protocol, err := c.readProtocol()
+func (c Conn) ReadWithWriter(writer io.Writer) (protocol Protocol, n int, err error) {
+	protocol, err = c.readProtocol()
 	if err != nil {
 		return protocol, 0, err
 	}
@@ -111,7 +111,9 @@ func (c Conn) ReadWithWriter(writer io.Writer) (Protocol, int, error) {
 	buf := bufio.NewWriter(writer)
 
 	defer func() {
-		_ = buf.Flush()
+		if e := buf.Flush(); e != nil && err == nil {
+			err = e
+		}
 	}()
 
 	switch protocol {
-- 
2.43.0


From ccf0301aa3e84ceeb343292e8faf8c36810af2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:43 +0000
Subject: [PATCH 26/63] fix: a malformed snapshot is an error, not a crash

---
 redis/replication.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/redis/replication.go b/redis/replication.go
index 49bfde9..950cdbe 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -172,6 +172,12 @@ func (repl *Replication) SetReplicationOffset(offset int) {
 }
 
 func (repl *Replication) Load() (err error) {
+	// malformed input must not take the process down
+	defer func() {
+		if r := recover(); r != nil {
+			err = errors.New("malformed rdb file," + fmt.Sprint(r))
+		}
+	}()
 	if repl.RdbFile == "" {
 		return errors.New("rdb file is empty")
 	}
-- 
2.43.0


From 328ffe12413f3fd8eeecc2dfcc3566fb2623a650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:43 +0000
Subject: [PATCH 27/63] fix: a truncated snapshot number neither exits nor
 panics

---
 redis/rdb/rdb.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index 8ef7a55..898e924 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -9,7 +9,7 @@ import (
 	"github.com/liujiangwei/xxcache/redis/lzf"
 	"github.com/sirupsen/logrus"
 	"io"
-	"log"
+
 	"strconv"
 	"unsafe"
 )
@@ -57,8 +57,6 @@ func LoadLen(reader *bufio.Reader) (length uint64, encoded bool, err error) {
 			//l := (buf[0] & 0x3F << 8) | buf[1]
 			num := binary.BigEndian.Uint16([]byte{buf[0] & 0x3F, buf[1]})
 			length = uint64(num)
-		} else {
-			panic("failed to load BitLen14")
 		}
 	default:
 		// compare first byte
@@ -125,7 +123,7 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 			// 4 byte
 			var buf = make([]byte, 4)
 			if n, err := io.ReadFull(reader, buf); err != nil {
-				log.Fatal(err)
+				return str, err
 			} else if n != 4 {
 				return str, errors.New("failed to read 4 bytes for EncInt32")
 			}
-- 
2.43.0


From 51241ba253c4afd696fca4773b78c14bfb8cc067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:44 +0000
Subject: [PATCH 28/63] fix: decode 32/64-bit lengths and binary doubles
 instead of discarding them

---
 redis/rdb/rdb.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index 898e924..5ac6319 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -2,13 +2,14 @@ package rdb
 
 import (
 	"bufio"
-	"bytes"
+
 	"encoding/binary"
 	"errors"
 	"fmt"
 	"github.com/liujiangwei/xxcache/redis/lzf"
 	"github.com/sirupsen/logrus"
 	"io"
+	"math"
 
 	"strconv"
 	"unsafe"
@@ -64,21 +65,15 @@ func LoadLen(reader *bufio.Reader) (length uint64, encoded bool, err error) {
 		case BitLen32:
 			logrus.Infoln("BitLen32")
 			buf = make([]byte, 4)
-			if n, err := io.ReadFull(reader, buf); err == nil && n == 4 {
-				var lengthUint32 uint32
-				err = binary.Write(bytes.NewBuffer(buf), binary.LittleEndian, lengthUint32)
-				length = uint64(lengthUint32)
-			} else if n != 4 {
-				err = errors.New("failed to read 4 byte for BitLen32")
+			if _, err = io.ReadFull(reader, buf); err == nil {
+				length = uint64(binary.BigEndian.Uint32(buf))
 			}
 		case BitLen64:
 			logrus.Infoln("BitLen64")
 
 			buf = make([]byte, 8)
-			if n, err := io.ReadFull(reader, buf); err == nil && n == 8 {
-				err = binary.Write(bytes.NewBuffer(buf), binary.LittleEndian, length)
-			} else if n != 8 {
-				err = errors.New("failed to read 8 byte for BitLen64")
+			if _, err = io.ReadFull(reader, buf); err == nil {
+				length = binary.BigEndian.Uint64(buf)
 			}
 		default:
 			err = errors.New(fmt.Sprintf("Unknown length encoding %d in rdbLoadLen(), %d, %d", buf[0], BitLen32, BitLen64))
@@ -213,8 +208,7 @@ func LoadBinaryDouble(reader *bufio.Reader) (f float64, err error) {
 		return f, errors.New(fmt.Sprintf("failed to load [%d] bytes for LoadBinaryDouble", int(length)))
 	}
 
-	err = binary.Write(bytes.NewBuffer(buf), binary.LittleEndian, f)
-	return f, err
+	return math.Float64frombits(binary.LittleEndian.Uint64(buf)), nil
 }
 
 const (
-- 
2.43.0


From 04e898f57bec8c3096aff8037c23006673042333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:44 +0000
Subject: [PATCH 29/63] fix: integer-encoded snapshot strings are signed

---
 redis/rdb/rdb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index 5ac6319..4e747e2 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -113,7 +113,7 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 			}
 
 			num := binary.LittleEndian.Uint16(buf)
-			str = fmt.Sprintf("%d", num)
+			str = fmt.Sprintf("%d", int16(num))
 		case EncInt32:
 			// 4 byte
 			var buf = make([]byte, 4)
@@ -124,7 +124,7 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 			}
 			num := binary.LittleEndian.Uint32(buf)
 			//buf[0] | (buf[1] << 8) | (buf[2] << 16 | buf[3] << 24)
-			str = fmt.Sprintf("%d", num)
+			str = fmt.Sprintf("%d", int32(num))
 		case EncLzf:
 			var n uint64
 			// 解压前长度
-- 
2.43.0


From 9ea9dd5afe500dd7d688d727c792783b0611d15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:45 +0000
Subject: [PATCH 30/63] fix: infinite and NaN scores in a snapshot

---
 redis/rdb/rdb.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index 4e747e2..5d8c823 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -168,11 +168,9 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 //R_PosInf = 1.0/R_Zero;
 //RNegInf = -1.0/R_Zero;
 //RNan = R_Zero/R_Zero;
-// todo
-const RZero = float64(1.0)
-const RPosInf = 1.0 / RZero
-const RNegInf = -1.0 / RZero
-const RNan = RZero / RZero
+var RPosInf = math.Inf(1)
+var RNegInf = math.Inf(-1)
+var RNan = math.NaN()
 
 func LoadDouble(reader *bufio.Reader) (f float64, err error) {
 	var length byte
-- 
2.43.0


From 82cc1902891265446b205202c6f0f139d8ca7618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:46 +0000
Subject: [PATCH 31/63] fix: read length-delimited payloads in full

---
 redis/conn.go    | 4 ++--
 redis/rdb/rdb.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index be97d30..379d32a 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -83,7 +83,7 @@ func (c Conn) readProtocol() (Protocol, error) {
 func (c Conn) readBulkString(length int) string {
 	if length > 0 {
 		var data = make([]byte, length)
-		_, err := c.Reader.Read(data)
+		_, err := io.ReadFull(c.Reader, data)
 		if err != nil {
 
 		}
@@ -200,7 +200,7 @@ func (c Conn) readMessage() (Message, error) {
 
 		// read data
 		var data = make([]byte, length)
-		if _, err := c.Reader.Read(data); err != nil {
+		if _, err := io.ReadFull(c.Reader, data); err != nil {
 			return nil, err
 		}
 
diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index 5d8c823..b24a307 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -156,7 +156,7 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 	}
 
 	buf := make([]byte, length)
-	if _, err := reader.Read(buf); err != nil {
+	if _, err := io.ReadFull(reader, buf); err != nil {
 		return str, err
 	}
 	str = string(buf)
-- 
2.43.0


From dfa899212d76166d14b998d3e6f0f2ac9b2cb09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:47 +0000
Subject: [PATCH 32/63] fix: an invalid length in a reply is an error, not a
 panic

---
 redis/conn.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/redis/conn.go b/redis/conn.go
index 379d32a..3745915 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -175,6 +175,9 @@ func (c Conn) ReadWithWriter(writer io.Writer) (protocol Protocol, n int, err er
 	}
 }
 
+// largest bulk string redis allows
+const maxBulkLength = 512 * 1024 * 1024
+
 func (c Conn) readMessage() (Message, error) {
 	protocol, err := c.readProtocol()
 	if err != nil {
@@ -196,6 +199,8 @@ func (c Conn) readMessage() (Message, error) {
 
 		if length == -1 {
 			return NilMessage{}, nil
+		} else if length < 0 || length > maxBulkLength {
+			return nil, errors.New("invalid bulk length " + string(bs))
 		}
 
 		// read data
@@ -244,6 +249,11 @@ func (c Conn) readMessage() (Message, error) {
 		if err != nil {
 			return nil, err
 		}
+		if number == -1 {
+			return NilMessage{}, nil
+		} else if number < 0 {
+			return nil, errors.New("invalid array length " + string(line))
+		}
 
 		var messages ArrayMessage
 		for i := 0; i < number; i++ {
-- 
2.43.0


From 2dc135b0d3809b6c705eeab0d89a1a87c75113c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:48 +0000
Subject: [PATCH 33/63] fix: read long status and error replies in full

---
 redis/conn.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index 3745915..0bd09dd 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"net"
 	"strconv"
+	"strings"
 	"time"
 )
 
@@ -95,6 +96,16 @@ func (c Conn) readBulkString(length int) string {
 	return ""
 }
 
+// one line without its terminator, even if it is longer than the read buffer
+func (c Conn) readLine() (string, error) {
+	line, err := c.Reader.ReadString('\n')
+	if err != nil {
+		return "", err
+	}
+
+	return strings.TrimRight(line, "\r\n"), nil
+}
+
 func (c Conn) discardEof() error {
 	_, _, err := c.Reader.ReadLine()
 
@@ -217,14 +228,14 @@ func (c Conn) readMessage() (Message, error) {
 
 		return msg, nil
 	case ProtocolSimpleString:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
 
 		return SimpleStringMessage(string(line)), nil
 	case ProtocolError:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From bb4689c1ee966e4569d20dbb277918820c50f84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:48 +0000
Subject: [PATCH 34/63] fix: a failed dial does not leave the pool locked

---
 redis/pool.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/redis/pool.go b/redis/pool.go
index 13943ca..274ee53 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -43,6 +43,7 @@ func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 		if pool.size < pool.capacity {
 			conn, err := pool.create()
 			if err != nil {
+				pool.l.Unlock()
 				return nil, err
 			}
 			pool.size++
-- 
2.43.0


From ce9cb555d7edb138b73c328c99a8c1e80d039649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:48 +0000
Subject: [PATCH 35/63] fix: close a connection whose handshake failed

---
 redis/pool.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redis/pool.go b/redis/pool.go
index 274ee53..1658f7a 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -67,7 +67,8 @@ func (pool Pool) create() (conn *Conn, err error) {
 
 	for _, handler := range pool.connOpenHandler {
 		if err := handler(conn); err != nil {
-			return conn, err
+			_ = conn.Close()
+			return nil, err
 		}
 	}
 
-- 
2.43.0


From 86f8d547c4c9892f75fe954c75d204e8e3256f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:49 +0000
Subject: [PATCH 36/63] fix: do not copy the pool and its lock

---
 redis/pool.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redis/pool.go b/redis/pool.go
index 1658f7a..a4437fd 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -60,7 +60,7 @@ func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 	}
 }
 
-func (pool Pool) create() (conn *Conn, err error) {
+func (pool *Pool) create() (conn *Conn, err error) {
 	if conn, err = Connect(pool.addr); err != nil {
 		return conn, err
 	}
@@ -75,14 +75,14 @@ func (pool Pool) create() (conn *Conn, err error) {
 	return conn, err
 }
 
-func (pool Pool) Put(conn *Conn) {
+func (pool *Pool) Put(conn *Conn) {
 	if conn != nil {
 		pool.connC <- conn
 	}
 }
 
 //Close close all conn opened in the pool
-func (pool Pool) Close() error {
+func (pool *Pool) Close() error {
 	for conn := range pool.connC {
 		for _, handler := range pool.connCloseHandler {
 			if err := handler(conn); err != nil {
-- 
2.43.0


From 42f2f29c80d9db7c279e88bc3a745361c6c6b959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:50 +0000
Subject: [PATCH 37/63] fix: never reuse a connection after a failed exchange

---
 redis/conn.go | 15 +++++++++++++--
 redis/pool.go | 21 +++++++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index 0bd09dd..85b90c0 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -19,6 +19,7 @@ type Conn struct {
 	Timeout      time.Duration
 	ReadTimeout  time.Duration
 	WriteTimeout time.Duration
+	broken       bool // an exchange failed, the stream may be out of step
 }
 
 func (c *Conn) WithTimeout(duration time.Duration) {
@@ -34,17 +35,27 @@ func (c *Conn) WithWriteTimeout(duration time.Duration) {
 }
 
 func (c *Conn) Recv() (Message, error) {
-	return c.readMessage()
+	message, err := c.readMessage()
+	if err != nil {
+		c.broken = true
+	}
+
+	return message, err
 }
 
 func (c *Conn) Send(message Message) error {
 	_, err := c.Writer.Write([]byte(message.Serialize()))
 
 	if err != nil {
+		c.broken = true
 		return err
 	}
 
-	return c.Writer.Flush()
+	if err = c.Writer.Flush(); err != nil {
+		c.broken = true
+	}
+
+	return err
 }
 
 func (c *Conn) SendAndWaitReply(message Message) (Message, error) {
diff --git a/redis/pool.go b/redis/pool.go
index a4437fd..8a28a2e 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -36,7 +36,7 @@ func (pool *Pool) Init(capacity int, addr string) {
 func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 	select {
 	case c := <-pool.connC:
-		return c, nil
+		return pool.renew(c)
 	default:
 		// no conn available, try create new conn
 		pool.l.Lock()
@@ -56,10 +56,27 @@ func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 	case <-ctx.Done():
 		return nil, errors.New("no connection available")
 	case c := <-pool.connC:
-		return c, nil
+		return pool.renew(c)
 	}
 }
 
+// replace a connection whose last exchange failed
+func (pool *Pool) renew(conn *Conn) (*Conn, error) {
+	if !conn.broken {
+		return conn, nil
+	}
+
+	_ = conn.Close()
+	fresh, err := pool.create()
+	if err != nil {
+		// keep the slot, a later call tries again
+		pool.connC <- conn
+		return nil, err
+	}
+
+	return fresh, nil
+}
+
 func (pool *Pool) create() (conn *Conn, err error) {
 	if conn, err = Connect(pool.addr); err != nil {
 		return conn, err
-- 
2.43.0


From 9cd1248f3ee955ed5ec6e96946b0bcd960ca00a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:51 +0000
Subject: [PATCH 38/63] fix: a reply of the wrong kind is an error, a right one
 sets the result

---
 redis/command.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/redis/command.go b/redis/command.go
index 7346c68..6af262b 100644
--- a/redis/command.go
+++ b/redis/command.go
@@ -54,8 +54,10 @@ type FloatCommand struct {
 }
 
 func (cmd *FloatCommand) Parse(message Message) {
-	if val, err := strconv.ParseFloat(message.String(), 64); err != nil {
+	if val, err := strconv.ParseFloat(message.String(), 64); err == nil {
 		cmd.Val = val
+	} else {
+		cmd.Err = err
 	}
 }
 
@@ -71,6 +73,8 @@ type IntCommand struct {
 func (i *IntCommand) Parse(message Message) {
 	if message, ok := message.(IntMessage); ok {
 		i.Val = int(message)
+	} else {
+		i.Err = errors.New("failed to parse response")
 	}
 }
 
@@ -108,11 +112,15 @@ func (cmd *OKCommand) Parse(message Message) {
 	m, ok := message.(SimpleStringMessage)
 	if !ok {
 		cmd.Err = errors.New("failed parse redis data")
+		return
 	}
 
 	if m.String() != "OK" {
 		cmd.Err = errors.New(m.String())
+		return
 	}
+
+	cmd.Val = m.String()
 }
 
 func (cmd *OKCommand) Result() (string, error) {
@@ -135,5 +143,7 @@ func (i *InterfaceArrayCommand) Parse(message Message) {
 				i.Val = append(i.Val, m.String())
 			}
 		}
+	} else {
+		i.Err = errors.New("failed to parse response")
 	}
 }
-- 
2.43.0


From b73e6a2f940f5dcf8307dbabc4a4de62328273f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:51 +0000
Subject: [PATCH 39/63] fix: SETEX, PSETEX and INCRBY send their own commands

---
 redis/redis.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redis/redis.go b/redis/redis.go
index 4d99e21..a2f7069 100644
--- a/redis/redis.go
+++ b/redis/redis.go
@@ -100,7 +100,7 @@ func (redis *Redis) SetNX(key, value string) (string, error) {
 
 func (redis *Redis) SetEX(key, value string, expires uint64) (string, error) {
 	rc := OKCommand{
-		BaseCommand: NewBaseCommand("SetNX", key, value, strconv.FormatUint(expires, 10)),
+		BaseCommand: NewBaseCommand("SetEX", key, strconv.FormatUint(expires, 10), value),
 	}
 	redis.process(&rc)
 	return rc.Result()
@@ -108,7 +108,7 @@ func (redis *Redis) SetEX(key, value string, expires uint64) (string, error) {
 
 func (redis *Redis) PSetEX(key, value string, expiresMs uint64) (string, error) {
 	rc := OKCommand{
-		BaseCommand: NewBaseCommand("SetNX", key, value, strconv.FormatUint(expiresMs, 10)),
+		BaseCommand: NewBaseCommand("PSetEX", key, strconv.FormatUint(expiresMs, 10), value),
 	}
 	redis.process(&rc)
 	return rc.Result()
@@ -175,7 +175,7 @@ func (redis *Redis) Incr(key string) (int, error) {
 
 func (redis *Redis) IncrBy(key string, increment int) (int, error) {
 	rc := IntCommand{
-		BaseCommand: NewBaseCommand("Incr", key, strconv.Itoa(increment)),
+		BaseCommand: NewBaseCommand("IncrBy", key, strconv.Itoa(increment)),
 	}
 	redis.process(&rc)
 
-- 
2.43.0


From bcf180f4ff39b231d7e92a90a0ba5db678d3c5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:52 +0000
Subject: [PATCH 40/63] fix: SETNX takes the integer reply the server sends

---
 redis/redis.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/redis/redis.go b/redis/redis.go
index a2f7069..9f3f5d5 100644
--- a/redis/redis.go
+++ b/redis/redis.go
@@ -90,12 +90,12 @@ func (redis *Redis) Select(index int) (string, error) {
 	return rc.Result()
 }
 
-func (redis *Redis) SetNX(key, value string) (string, error) {
-	rc := OKCommand{
+func (redis *Redis) SetNX(key, value string) (int, error) {
+	rc := IntCommand{
 		BaseCommand: NewBaseCommand("SetNX", key, value),
 	}
 	redis.process(&rc)
-	return rc.Result()
+	return rc.Val, rc.Err
 }
 
 func (redis *Redis) SetEX(key, value string, expires uint64) (string, error) {
-- 
2.43.0


From d86bc3c13473de9402ff35b44ea709588aee161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:27 +0000
Subject: [PATCH 41/63] fix: integer set members are signed

---
 redis/intset/intset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/redis/intset/intset.go b/redis/intset/intset.go
index cbcbc88..84ca7c1 100644
--- a/redis/intset/intset.go
+++ b/redis/intset/intset.go
@@ -25,7 +25,7 @@ func Load(encoded string) (set []int64) {
 			end := 8 + 2*(i+1)
 
 			num := binary.LittleEndian.Uint16([]byte(encoded[start:end]))
-			set = append(set, int64(num))
+			set = append(set, int64(int16(num)))
 		}
 	case EncInt32:
 		for i := 0; i < int(length); i++ {
@@ -33,7 +33,7 @@ func Load(encoded string) (set []int64) {
 			end := 8 + 4*(i+1)
 
 			num := binary.LittleEndian.Uint32([]byte(encoded[start:end]))
-			set = append(set, int64(num))
+			set = append(set, int64(int32(num)))
 		}
 	case EncInt64:
 		for i := 0; i < int(length); i++ {
-- 
2.43.0


From 8d041fa6bf18cea1ddbcbda479bc97a6e651a195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:28 +0000
Subject: [PATCH 42/63] fix: ziplist strings longer than 63 bytes

---
 redis/ziplist/ziplist.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/redis/ziplist/ziplist.go b/redis/ziplist/ziplist.go
index efe70e9..7f29725 100644
--- a/redis/ziplist/ziplist.go
+++ b/redis/ziplist/ziplist.go
@@ -93,11 +93,11 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 		case ZipStr14b:
 			size = 2
 			//(len) = (((ptr)[0] & 0x3f) << 8) | (ptr)[1];
-			length = uint32((iterator.val[iterator.pos]&0x3f)<<8 | iterator.val[iterator.pos+1])
+			length = uint32(iterator.val[iterator.pos]&0x3f)<<8 | uint32(iterator.val[iterator.pos+1])
 		case ZipStr32b:
 			size = 5
 			pos := iterator.pos
-			length = uint32(iterator.val[pos+1]<<24 | iterator.val[pos+2]<<16 | iterator.val[pos+3]<<8 | iterator.val[pos+4])
+			length = uint32(iterator.val[pos+1])<<24 | uint32(iterator.val[pos+2])<<16 | uint32(iterator.val[pos+3])<<8 | uint32(iterator.val[pos+4])
 		default:
 			panic("failed to decode zip list item")
 		}
@@ -125,7 +125,8 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 	}
 
 	if length > 0 {
-		str = iterator.val[iterator.pos+1 : iterator.pos+int(length)+1]
+		start := iterator.pos + int(size)
+		str = iterator.val[start : start+int(length)]
 	}
 
 	return length, size, str
-- 
2.43.0


From 05a44c2d6c79e3c2ba9aac1f56a8caec2eabb057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:29 +0000
Subject: [PATCH 43/63] fix: ziplist integers are decoded

---
 redis/ziplist/ziplist.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/redis/ziplist/ziplist.go b/redis/ziplist/ziplist.go
index 7f29725..1dbb081 100644
--- a/redis/ziplist/ziplist.go
+++ b/redis/ziplist/ziplist.go
@@ -113,7 +113,7 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 		case ZipInt32b:
 			length = 4
 		case ZipInt64b:
-			length = 5
+			length = 8
 		default:
 			if encoding >= ZipIntImmMin && encoding <= ZipIntImmMax {
 				val := (encoding & ZipIntImmMask) - 1
@@ -127,11 +127,25 @@ func (iterator *Iterator) entry() (size, length uint32, str string) {
 	if length > 0 {
 		start := iterator.pos + int(size)
 		str = iterator.val[start : start+int(length)]
+		if encoding >= ZipStrMask {
+			str = decodeInt(str)
+		}
 	}
 
 	return length, size, str
 }
 
+// little endian signed integer of 1 to 8 bytes
+func decodeInt(raw string) string {
+	var num int64
+	for i := len(raw) - 1; i >= 0; i-- {
+		num = num<<8 | int64(raw[i])
+	}
+	shift := uint(64 - 8*len(raw))
+
+	return strconv.FormatInt(num<<shift>>shift, 10)
+}
+
 const ZipIntImmMin = 0xf1
 const ZipIntImmMax = 0xfd
 const ZipIntImmMask = 0x0f
-- 
2.43.0


From e828a93c918daa27fe627290d6bddcb72f27c990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:30 +0000
Subject: [PATCH 44/63] fix: zipmap entries follow each other without a gap,
 with a free byte

---
 redis/zipmap/zipmap.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/redis/zipmap/zipmap.go b/redis/zipmap/zipmap.go
index fcee6f9..0d9b67d 100644
--- a/redis/zipmap/zipmap.go
+++ b/redis/zipmap/zipmap.go
@@ -66,6 +66,8 @@ func (zm *zipMap) Set(key string, value string) error {
 		} else {
 			buf.WriteByte(uint8(len(value)))
 		}
+		//free
+		buf.WriteByte(0)
 		//value
 		if n, err := buf.WriteString(value); err != nil {
 			return err
@@ -103,7 +105,7 @@ func (zm *zipMap) BlobLen() int {
 }
 
 func (zm *zipMap) Lookup(key string) (n int, ok bool) {
-	for i := 1; i < len(zm.value) && zm.value[i] != End; i++ {
+	for i := 1; i < len(zm.value) && zm.value[i] != End; {
 		// key length
 		kl := int(zm.value[i])
 		i++
@@ -159,7 +161,7 @@ func Len(key string, value string) int {
 
 func Load(encoded string) (hash map[string]string) {
 	hash = make(map[string]string, encoded[0])
-	for i := 1; i < len(encoded)-1; i++ {
+	for i := 1; i < len(encoded)-1; {
 		kl := uint32(encoded[i])
 		i++
 		if kl >= BigLen {
-- 
2.43.0


From f757370cded047a80182b6f71219bc43983c61cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:31 +0000
Subject: [PATCH 45/63] fix: a failed decompression is an error

---
 redis/lzf/lzf.go | 15 +++++++++++----
 redis/rdb/rdb.go |  4 +++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/redis/lzf/lzf.go b/redis/lzf/lzf.go
index 731b30d..ff1402c 100644
--- a/redis/lzf/lzf.go
+++ b/redis/lzf/lzf.go
@@ -5,10 +5,14 @@ package lzf
 */
 import "C"
 import (
+	"errors"
 	"unsafe"
 )
 
 func Compress(str string) string {
+	if len(str) == 0 {
+		return str
+	}
 	encoded := make([]byte, len(str))
 	input := []byte(str)
 	length := C.lzf_compress(unsafe.Pointer(&input[0]), C.uint(len(str)), unsafe.Pointer(&encoded[0]), C.uint(len(str)))
@@ -19,12 +23,15 @@ func Compress(str string) string {
 	return string(encoded[0:length])
 }
 
-func DeCompress(str string, length int) string {
+func DeCompress(str string, length int) (string, error) {
+	if len(str) == 0 || length <= 0 {
+		return "", errors.New("lzf: empty input or output")
+	}
 	input := []byte(str)
 	var decoded = make([]byte, length)
 	dl := C.lzf_decompress(unsafe.Pointer(&input[0]), C.uint(len(input)), unsafe.Pointer(&decoded[0]), C.uint(length))
-	if dl == 0 {
-		return str
+	if int(dl) != length {
+		return "", errors.New("lzf: corrupted input")
 	}
-	return string(decoded)
+	return string(decoded), nil
 }
diff --git a/redis/rdb/rdb.go b/redis/rdb/rdb.go
index b24a307..094497a 100644
--- a/redis/rdb/rdb.go
+++ b/redis/rdb/rdb.go
@@ -146,7 +146,9 @@ func LoadString(reader *bufio.Reader) (str string, err error) {
 				return str, errors.New(fmt.Sprintf("failed to read [%d] bytes for LoadString EncLzf", len(c)))
 			}
 
-			str = lzf.DeCompress(string(c), int(length))
+			if str, err = lzf.DeCompress(string(c), int(length)); err != nil {
+				return str, err
+			}
 		default:
 			err = errors.New("failed decode string")
 		}
-- 
2.43.0


From 64a18b2e8bd929a0a129d5343de2d35312d1ed08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:32 +0000
Subject: [PATCH 46/63] fix: follow SELECT in the replication stream

---
 redis/replication.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/redis/replication.go b/redis/replication.go
index 950cdbe..bd932b1 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -87,8 +87,19 @@ func (repl *Replication) WaitForMessage() {
 			continue
 		}
 
+		if cmd, ok := message.(ArrayMessage); ok && len(cmd) == 2 && strings.ToLower(cmd[0].String()) == "select" {
+			index, err := strconv.Atoi(cmd[1].String())
+			if err != nil {
+				repl.Err <- err
+				close(repl.Messages)
+				return
+			}
+			repl.database = index
+			continue
+		}
+
 		repl.Messages <- ReplicationMessage{
-			Database: 0,
+			Database: repl.database,
 			Message:  message,
 			Offset:   0,
 		}
-- 
2.43.0


From bf01af75742a73619bd60d47bb023da057f31d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:33 +0000
Subject: [PATCH 47/63] fix: the replication consumer neither waits for itself
 nor spins on a closed channel

---
 xxcache.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xxcache.go b/xxcache.go
index cd29f87..4b6beaa 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -63,13 +63,19 @@ func New(option Option) (client Client, err error) {
 func (client *Client) handleReplication(repl redis.Replication) {
 	for {
 		select {
-		case message := <-repl.Messages:
+		case message, ok := <-repl.Messages:
+			if !ok {
+				// the stream has ended
+				repl.Messages = nil
+				continue
+			}
+
 			if message.Database != client.option.database {
 				continue
 			}
 
 			if err := cache.HandleMessage(client.cache, message.Message); err != nil {
-				repl.Err <- err
+				logrus.Warnln("repl error", err)
 			}
 		case err := <-repl.Err:
 			if err != nil {
-- 
2.43.0


From cc9a1c9f7c098d3ab158e919e25b76bcf637a2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:33 +0000
Subject: [PATCH 48/63] fix: initialise the local cache

---
 xxcache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xxcache.go b/xxcache.go
index 4b6beaa..f798bb7 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -31,7 +31,7 @@ const redisRdbFile = "temp.rdb"
 func New(option Option) (client Client, err error) {
 	client.option = option
 
-	client.cache = new(cache.Cache)
+	client.cache = cache.New()
 	prepareOption(&option)
 
 	repl := redis.Replication{
-- 
2.43.0


From f65c9b1500462b222623babe4e8c9d89fdff681c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:33 +0000
Subject: [PATCH 49/63] fix: the server connection uses the configured database

---
 xxcache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xxcache.go b/xxcache.go
index f798bb7..bb9efe8 100644
--- a/xxcache.go
+++ b/xxcache.go
@@ -55,7 +55,7 @@ func New(option Option) (client Client, err error) {
 
 	go repl.WaitForMessage()
 
-	client.redis = redis.NewClient(redis.Option{Addr: option.RedisMasterAddr})
+	client.redis = redis.NewClient(redis.Option{Addr: option.RedisMasterAddr, Database: option.database})
 
 	return client, err
 }
-- 
2.43.0


From 47299070be838f82dded290d4ffaff069636f1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:34 +0000
Subject: [PATCH 50/63] fix: a local miss is answered by the server

---
 command.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/command.go b/command.go
index b33bdcd..6202982 100644
--- a/command.go
+++ b/command.go
@@ -1,6 +1,7 @@
 package xxcache
 
 import (
+	"github.com/liujiangwei/xxcache/cache"
 	"time"
 )
 
@@ -75,7 +76,12 @@ type HashCommand interface {
 }
 
 func (client Client) Get(key string) (string, error) {
-	return client.cache.Get(key)
+	val, err := client.cache.Get(key)
+	if err == cache.ErrKeyNil {
+		return client.redis.Get(key)
+	}
+
+	return val, err
 }
 
 func (client Client) Set(key string, value string) (string, error) {
-- 
2.43.0


From e52da5fa02c81574738c8e4e52ee47753a15fb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:40 +0000
Subject: [PATCH 51/63] fix: a number cut short by the end of the stream is an
 error

---
 redis/conn.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index 85b90c0..1fbaaa3 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -140,13 +140,13 @@ func (c Conn) ReadWithWriter(writer io.Writer) (protocol Protocol, n int, err er
 
 	switch protocol {
 	case ProtocolBulkString:
-		bs, _, err := c.Reader.ReadLine()
+		bs, err := c.readLine()
 		if err != nil {
 			return ProtocolBulkString, 0, err
 		}
 
 		// get length
-		length, err := strconv.Atoi(string(bs))
+		length, err := strconv.Atoi(bs)
 		if err != nil {
 			return ProtocolBulkString, 0, err
 		}
@@ -209,12 +209,12 @@ func (c Conn) readMessage() (Message, error) {
 	switch protocol {
 	case ProtocolBulkString:
 		// $1
-		bs, _, err := c.Reader.ReadLine()
+		bs, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
 		// get length
-		length, err := strconv.Atoi(string(bs))
+		length, err := strconv.Atoi(bs)
 		if err != nil {
 			return nil, err
 		}
@@ -222,7 +222,7 @@ func (c Conn) readMessage() (Message, error) {
 		if length == -1 {
 			return NilMessage{}, nil
 		} else if length < 0 || length > maxBulkLength {
-			return nil, errors.New("invalid bulk length " + string(bs))
+			return nil, errors.New("invalid bulk length " + bs)
 		}
 
 		// read data
@@ -253,28 +253,28 @@ func (c Conn) readMessage() (Message, error) {
 		return ErrorMessage(string(line)), nil
 
 	case ProtocolInt:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
-		if number, err := strconv.Atoi(string(line)); err != nil {
+		if number, err := strconv.Atoi(line); err != nil {
 			return nil, err
 		} else {
 			return IntMessage(number), nil
 		}
 	case ProtocolArray:
-		line, _, err := c.Reader.ReadLine()
+		line, err := c.readLine()
 		if err != nil {
 			return nil, err
 		}
-		number, err := strconv.Atoi(string(line))
+		number, err := strconv.Atoi(line)
 		if err != nil {
 			return nil, err
 		}
 		if number == -1 {
 			return NilMessage{}, nil
 		} else if number < 0 {
-			return nil, errors.New("invalid array length " + string(line))
+			return nil, errors.New("invalid array length " + line)
 		}
 
 		var messages ArrayMessage
-- 
2.43.0


From bd2e1ac2395c5562091d6f35c7dbe0f2b495f420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:41 +0000
Subject: [PATCH 52/63] fix: the free length of a zipmap value is one byte

---
 redis/zipmap/zipmap.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/redis/zipmap/zipmap.go b/redis/zipmap/zipmap.go
index 0d9b67d..1f1490a 100644
--- a/redis/zipmap/zipmap.go
+++ b/redis/zipmap/zipmap.go
@@ -129,13 +129,9 @@ func (zm *zipMap) Lookup(key string) (n int, ok bool) {
 			i += 4
 		}
 
-		// value free length
+		// value free length, always one byte
 		vfl := int(zm.value[i])
 		i++
-		if vfl >= BigLen {
-			vfl = int(binary.LittleEndian.Uint32(zm.value[i : i+4]))
-			i += 4
-		}
 
 		// value
 		i += vl
@@ -180,13 +176,9 @@ func Load(encoded string) (hash map[string]string) {
 			i += 4
 		}
 
-		// value free length
+		// value free length, always one byte
 		vfl := uint32(encoded[i])
 		i++
-		if vfl >= BigLen {
-			vfl = binary.LittleEndian.Uint32([]byte(encoded[i : i+4]))
-			i += 4
-		}
 
 		// value
 		value := encoded[i : i+int(vl)]
-- 
2.43.0


From 6573258200646171cbd52d2249d06c0bef31c010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:41 +0000
Subject: [PATCH 53/63] fix: an unsupported stream does not spin on its
 announced length

---
 redis/replication.go | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/redis/replication.go b/redis/replication.go
index bd932b1..06f3c38 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -530,17 +530,6 @@ func (repl *Replication) Load() (err error) {
 					}
 				}
 			case rdb.TypeStreamListPacks:
-				var length uint64
-				if length, _, err = rdb.LoadLen(buf); err != nil {
-					return err
-				}
-
-				for ; length > 0; length-- {
-					//if value, Err = rdb.LoadString(buf); Err != nil {
-					//	return Err
-					//}
-					//logrus.Infoln("TypeListQuickList", key, value)
-				}
 				err = errors.New("TypeStreamListPacks unsupported now")
 			case rdb.TypeModule, rdb.TypeModule2:
 				err = errors.New("TypeModule TypeModule2 unsupported now")
-- 
2.43.0


From 3112509861ed0c49caa6fd877c2f322c31a7db82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:05 +0000
Subject: [PATCH 54/63] fix: a connection is broken after a reply could not be
 streamed

---
 redis/conn.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/redis/conn.go b/redis/conn.go
index 1fbaaa3..874d74c 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -124,7 +124,13 @@ func (c Conn) discardEof() error {
 }
 
 // save message content to io reader
-func (c Conn) ReadWithWriter(writer io.Writer) (protocol Protocol, n int, err error) {
+func (c *Conn) ReadWithWriter(writer io.Writer) (protocol Protocol, n int, err error) {
+	defer func() {
+		if err != nil {
+			c.broken = true
+		}
+	}()
+
 	protocol, err = c.readProtocol()
 	if err != nil {
 		return protocol, 0, err
-- 
2.43.0


From 989636cf43645522d7329757b2358aa4caa860cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:26 +0000
Subject: [PATCH 55/63] fix: the options of a replicated set are applied or
 reported

---
 cache/message.go | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/cache/message.go b/cache/message.go
index 12c21f3..db9651c 100644
--- a/cache/message.go
+++ b/cache/message.go
@@ -3,6 +3,7 @@ package cache
 import (
 	"errors"
 	"github.com/liujiangwei/xxcache/redis"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -24,7 +25,15 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 			return errors.New("set command args error")
 		}
 
+		at, e := setDeadline(messages[3:])
+		if e != nil {
+			return e
+		}
+
 		_, err = cache.Set(messages[1].String(), messages[2].String())
+		if err == nil && at > 0 {
+			_, err = cache.PExpireAt(messages[1].String(), time.Unix(at/1000, at%1000*int64(time.Millisecond)))
+		}
 	case "rpush":
 		if len(messages) < 3 {
 			return errors.New("rpush command args error")
@@ -61,3 +70,41 @@ func HandleMessage(cache *Cache, message redis.Message) (err error) {
 
 	return err
 }
+
+// deadline in milliseconds among the options of a set command, 0 for none
+func setDeadline(options redis.ArrayMessage) (at int64, err error) {
+	for i := 0; i < len(options); i++ {
+		var from, unit int64 = 0, 1
+		switch strings.ToLower(options[i].String()) {
+		case "nx", "xx", "get":
+			// the master has done its part
+			continue
+		case "ex":
+			from, unit = time.Now().UnixNano()/int64(time.Millisecond), 1000
+		case "px":
+			from = time.Now().UnixNano() / int64(time.Millisecond)
+		case "exat":
+			unit = 1000
+		case "pxat":
+		default:
+			return 0, errors.New("set command args error")
+		}
+
+		if i++; i == len(options) {
+			return 0, errors.New("set command args error")
+		}
+
+		n, err := strconv.ParseInt(options[i].String(), 10, 64)
+		if err != nil {
+			return 0, err
+		}
+
+		if n <= 0 || n > (math.MaxInt64-from)/unit {
+			return 0, errors.New("set command args error")
+		}
+
+		at = from + n*unit
+	}
+
+	return at, nil
+}
-- 
2.43.0


From d5ec770924aa37a9f64c7841c3519460d02caf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:58 +0000
Subject: [PATCH 56/63] fix: an integer set of unknown width is not taken for
 an empty one

---
 redis/intset/intset.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/redis/intset/intset.go b/redis/intset/intset.go
index 84ca7c1..51189ca 100644
--- a/redis/intset/intset.go
+++ b/redis/intset/intset.go
@@ -43,6 +43,8 @@ func Load(encoded string) (set []int64) {
 			num := binary.LittleEndian.Uint64([]byte(encoded[start:end]))
 			set = append(set, int64(num))
 		}
+	default:
+		panic("failed to decode int set")
 	}
 
 	return set
-- 
2.43.0


From 781b5cbaf769884ef342b4a9f835ed3abb5a3c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:59 +0000
Subject: [PATCH 57/63] fix: a ziplist of pairs with an odd number of entries
 is malformed

---
 redis/replication.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/redis/replication.go b/redis/replication.go
index 06f3c38..b43a3af 100644
--- a/redis/replication.go
+++ b/redis/replication.go
@@ -499,6 +499,9 @@ func (repl *Replication) Load() (err error) {
 				case rdb.TypeZSetZipList:
 					var args = []string{"zAdd", key}
 					list := ziplist.Load(str)
+					if len(list)%2 != 0 {
+						return errors.New("malformed TypeZSetZipList")
+					}
 					for i := 0; i < len(list)/2; i++ {
 						args = append(args, list[2*i+1], list[2*i])
 					}
@@ -511,6 +514,9 @@ func (repl *Replication) Load() (err error) {
 				case rdb.TypeHashZipList:
 					var args = []string{"hmSet", key}
 					list := ziplist.Load(str)
+					if len(list)%2 != 0 {
+						return errors.New("malformed TypeHashZipList")
+					}
 					args = append(args, list...)
 					cmd := NewBaseCommand(args...)
 					repl.Messages <- ReplicationMessage{
-- 
2.43.0


From 6ad67c7c5ca5a100db78105681b5a69478230d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:42 +0000
Subject: [PATCH 58/63] fix: GETRANGE with a start far before the string does
 not walk to it one by one

---
 cache/cachestring.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 6c84e6a..631502b 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -222,6 +222,10 @@ func (c *Cache) GetRange(key string, start, end int) (string, error) {
 	if start < 0 {
 		start = len(oldStr) + start
 	}
+	// far before the first character
+	if start < 0 {
+		start = 0
+	}
 	if end < 0 {
 		end = len(oldStr) + end
 	}
-- 
2.43.0


From be7986ae065eed7450917eba8ffb64553c4c405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:54 +0000
Subject: [PATCH 59/63] fix: SETRANGE with an empty replacement neither creates
 nor pads the value

---
 cache/cachestring.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cache/cachestring.go b/cache/cachestring.go
index 631502b..74e28c6 100644
--- a/cache/cachestring.go
+++ b/cache/cachestring.go
@@ -173,6 +173,10 @@ func (c *Cache) SetRange(key string, pos int, replace string) (int, error) {
 	// key is not exist or expired
 	old, ok := c.dataDict.Load(key)
 	if !ok || c.expired(key) {
+		// nothing to write, so nothing is created
+		if replace == "" {
+			return 0, nil
+		}
 		str := make([]byte, pos)
 		for i := 0; i < pos; i++ {
 			str[i] = '\x00'
@@ -188,6 +192,9 @@ func (c *Cache) SetRange(key string, pos int, replace string) (int, error) {
 	if err != nil {
 		return 0, err
 	}
+	if replace == "" {
+		return len(oldStr), nil
+	}
 	str := []byte(oldStr)
 	for i := len(str); i < pos; i++{
 		str = append(str, '\x00')
-- 
2.43.0


From 6b927fc316d6624a51e46bf3503393b331de35f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:01 +0000
Subject: [PATCH 60/63] fix: compressing a single byte does not read behind it

---
 redis/lzf/lzf.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/redis/lzf/lzf.go b/redis/lzf/lzf.go
index ff1402c..a4b823c 100644
--- a/redis/lzf/lzf.go
+++ b/redis/lzf/lzf.go
@@ -10,7 +10,8 @@ import (
 )
 
 func Compress(str string) string {
-	if len(str) == 0 {
+	// one byte cannot get shorter, and the library reads two ahead
+	if len(str) < 2 {
 		return str
 	}
 	encoded := make([]byte, len(str))
-- 
2.43.0


From e8e90d5f4d2cf92c1795f575d5d0f3392f62363a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:02 +0000
Subject: [PATCH 61/63] fix: strings of 4 GB and more are not cut by the
 compression

---
 redis/lzf/lzf.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/redis/lzf/lzf.go b/redis/lzf/lzf.go
index a4b823c..8f2eb92 100644
--- a/redis/lzf/lzf.go
+++ b/redis/lzf/lzf.go
@@ -6,6 +6,7 @@ package lzf
 import "C"
 import (
 	"errors"
+	"math"
 	"unsafe"
 )
 
@@ -14,6 +15,10 @@ func Compress(str string) string {
 	if len(str) < 2 {
 		return str
 	}
+	// the library counts in 32 bits
+	if uint64(len(str)) > math.MaxUint32 {
+		return str
+	}
 	encoded := make([]byte, len(str))
 	input := []byte(str)
 	length := C.lzf_compress(unsafe.Pointer(&input[0]), C.uint(len(str)), unsafe.Pointer(&encoded[0]), C.uint(len(str)))
@@ -28,6 +33,9 @@ func DeCompress(str string, length int) (string, error) {
 	if len(str) == 0 || length <= 0 {
 		return "", errors.New("lzf: empty input or output")
 	}
+	if uint64(len(str)) > math.MaxUint32 || uint64(length) > math.MaxUint32 {
+		return "", errors.New("lzf: input or output too long")
+	}
 	input := []byte(str)
 	var decoded = make([]byte, length)
 	dl := C.lzf_decompress(unsafe.Pointer(&input[0]), C.uint(len(input)), unsafe.Pointer(&decoded[0]), C.uint(length))
-- 
2.43.0


From 71422676a073d48c4bd4259ea3692c2f5f337903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:48 +0000
Subject: [PATCH 62/63] fix: closing the pool closes the idle connections
 instead of waiting for ever

---
 redis/pool.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/redis/pool.go b/redis/pool.go
index 8a28a2e..d15d737 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -98,21 +98,28 @@ func (pool *Pool) Put(conn *Conn) {
 	}
 }
 
-//Close close all conn opened in the pool
-func (pool *Pool) Close() error {
-	for conn := range pool.connC {
-		for _, handler := range pool.connCloseHandler {
-			if err := handler(conn); err != nil {
-				return err
+//Close close all idle conn of the pool
+func (pool *Pool) Close() (err error) {
+	for {
+		select {
+		case conn := <-pool.connC:
+			for _, handler := range pool.connCloseHandler {
+				if e := handler(conn); e != nil && err == nil {
+					err = e
+				}
+			}
+
+			if e := conn.Close(); e != nil && err == nil {
+				err = e
 			}
-		}
 
-		if err := conn.Close(); err != nil {
+			pool.l.Lock()
+			pool.size--
+			pool.l.Unlock()
+		default:
 			return err
 		}
 	}
-
-	return nil
 }
 
 func (pool *Pool) ExecCommand(ctx context.Context, command Command) {
-- 
2.43.0


From e7fa849f4de8cb00d78f8ab9c20b9d1509b6db09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:12 +0000
Subject: [PATCH 63/63] fix: sending and receiving on one connection do not
 race for the mark of a broken connection

---
 redis/conn.go | 22 ++++++++++++----------
 redis/pool.go |  2 +-
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/redis/conn.go b/redis/conn.go
index 874d74c..f60d6e6 100644
--- a/redis/conn.go
+++ b/redis/conn.go
@@ -19,7 +19,9 @@ type Conn struct {
 	Timeout      time.Duration
 	ReadTimeout  time.Duration
 	WriteTimeout time.Duration
-	broken       bool // an exchange failed, the stream may be out of step
+	// an exchange failed, the stream may be out of step; apart, since one
+	// goroutine may send while another receives
+	sendBroken, recvBroken bool
 }
 
 func (c *Conn) WithTimeout(duration time.Duration) {
@@ -37,7 +39,7 @@ func (c *Conn) WithWriteTimeout(duration time.Duration) {
 func (c *Conn) Recv() (Message, error) {
 	message, err := c.readMessage()
 	if err != nil {
-		c.broken = true
+		c.recvBroken = true
 	}
 
 	return message, err
@@ -47,12 +49,12 @@ func (c *Conn) Send(message Message) error {
 	_, err := c.Writer.Write([]byte(message.Serialize()))
 
 	if err != nil {
-		c.broken = true
+		c.sendBroken = true
 		return err
 	}
 
 	if err = c.Writer.Flush(); err != nil {
-		c.broken = true
+		c.sendBroken = true
 	}
 
 	return err
@@ -86,13 +88,13 @@ func (c *Conn) Close() error {
 }
 
 // Protocol length
-func (c Conn) readProtocol() (Protocol, error) {
+func (c *Conn) readProtocol() (Protocol, error) {
 	var p byte
 	p, err := c.Reader.ReadByte()
 	return Protocol(p), err
 }
 
-func (c Conn) readBulkString(length int) string {
+func (c *Conn) readBulkString(length int) string {
 	if length > 0 {
 		var data = make([]byte, length)
 		_, err := io.ReadFull(c.Reader, data)
@@ -108,7 +110,7 @@ func (c Conn) readBulkString(length int) string {
 }
 
 // one line without its terminator, even if it is longer than the read buffer
-func (c Conn) readLine() (string, error) {
+func (c *Conn) readLine() (string, error) {
 	line, err := c.Reader.ReadString('\n')
 	if err != nil {
 		return "", err
@@ -117,7 +119,7 @@ func (c Conn) readLine() (string, error) {
 	return strings.TrimRight(line, "\r\n"), nil
 }
 
-func (c Conn) discardEof() error {
+func (c *Conn) discardEof() error {
 	_, _, err := c.Reader.ReadLine()
 
 	return err
@@ -127,7 +129,7 @@ func (c Conn) discardEof() error {
 func (c *Conn) ReadWithWriter(writer io.Writer) (protocol Protocol, n int, err error) {
 	defer func() {
 		if err != nil {
-			c.broken = true
+			c.recvBroken = true
 		}
 	}()
 
@@ -206,7 +208,7 @@ func (c *Conn) ReadWithWriter(writer io.Writer) (protocol Protocol, n int, err e
 // largest bulk string redis allows
 const maxBulkLength = 512 * 1024 * 1024
 
-func (c Conn) readMessage() (Message, error) {
+func (c *Conn) readMessage() (Message, error) {
 	protocol, err := c.readProtocol()
 	if err != nil {
 		return nil, err
diff --git a/redis/pool.go b/redis/pool.go
index d15d737..c14299a 100644
--- a/redis/pool.go
+++ b/redis/pool.go
@@ -62,7 +62,7 @@ func (pool *Pool) Get(ctx context.Context) (*Conn, error) {
 
 // replace a connection whose last exchange failed
 func (pool *Pool) renew(conn *Conn) (*Conn, error) {
-	if !conn.broken {
+	if !conn.sendBroken && !conn.recvBroken {
 		return conn, nil
 	}
 
-- 
2.43.0

