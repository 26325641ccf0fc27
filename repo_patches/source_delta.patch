From 9c778fccd815e89cbae9877e11c07af66bff47c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:46 +0000
Subject: [PATCH 01/87] fix: select a valid cache shard for keys whose absolute
 value overflows

abs() of the most negative integer is negative, so such a key indexed the
shards array out of bounds whenever the number of shards was not a power of
two.
---
 cache.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cache.c b/cache.c
index 279e989..924c10f 100644
--- a/cache.c
+++ b/cache.c
@@ -385,7 +385,8 @@ fiftyoneDegreesCacheNode* fiftyoneDegreesCacheGet(
 	fiftyoneDegreesException *exception) {
 	CacheNode *node;
 	int64_t keyHash = cache->hash(key);
-	CacheShard *shard = &cache->shards[abs((int)keyHash) % cache->concurrency];
+	CacheShard *shard = &cache->shards[
+		abs((int)keyHash % cache->concurrency)];
 
 #ifndef FIFTYONE_DEGREES_NO_THREADING
 	FIFTYONE_DEGREES_MUTEX_LOCK(&shard->lock);
-- 
2.43.0


From b2e8f6795b4582b013a6a526ec9c8401c4a26072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:16 +0000
Subject: [PATCH 02/87] fix: keep a cache slot usable when loading its data
 fails

A node whose load raised an exception stayed marked as in use but was not
returned to anyone who could release it, so every failed load removed one slot
from the cache until no item could be fetched at all.
---
 cache.c | 51 +++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 10 deletions(-)

diff --git a/cache.c b/cache.c
index 924c10f..9250361 100644
--- a/cache.c
+++ b/cache.c
@@ -206,6 +206,27 @@ static void cacheAddToHead(CacheNode *node) {
 	assert(node->shard->last->listNext == NULL);
 }
 
+/**
+ * Adds the node to the tail of the linked list. This is used for nodes which
+ * do not contain valid data so that they are the next ones to be used.
+ * @param node to add
+ */
+static void cacheAddToTail(CacheNode *node) {
+	CacheShard *shard = node->shard;
+	assert(node->listNext == NULL);
+	assert(node->listPrevious == NULL);
+	node->listPrevious = shard->last;
+	if (shard->last != NULL) {
+		shard->last->listNext = node;
+	}
+
+	shard->last = node;
+
+	if (shard->first == NULL) {
+		shard->first = shard->last;
+	}
+}
+
 /**
  * Returns the next free node from the cache which can be used to add a
  * new entry to. Once the cache is full then the node returned is the one
@@ -239,15 +260,18 @@ static CacheNode *cacheGetNextFree(CacheShard *shard) {
 		assert(node->activeCount == 0);
 		cacheRemoveFromList(node);
 
-		// Remove the last result from the binary tree.
-		#ifdef FIFTYONE_DEGREES_CACHE_VALIDATE
-		countBefore = TreeCount(&shard->root);
-		#endif
-		TreeDelete(&node->tree);
-		#ifdef FIFTYONE_DEGREES_CACHE_VALIDATE
-		countAfter = TreeCount(&shard->root);
-		assert(countBefore - 1 == countAfter);
-		#endif
+		// Remove the last result from the binary tree if it is in the tree. A
+		// node whose data could not be loaded was never added to it.
+		if (node->tree.parent != &shard->root.empty) {
+			#ifdef FIFTYONE_DEGREES_CACHE_VALIDATE
+			countBefore = TreeCount(&shard->root);
+			#endif
+			TreeDelete(&node->tree);
+			#ifdef FIFTYONE_DEGREES_CACHE_VALIDATE
+			countAfter = TreeCount(&shard->root);
+			assert(countBefore - 1 == countAfter);
+			#endif
+		}
 	}
 
 	// Set the pointers of the node to null indicating that the
@@ -263,7 +287,7 @@ static CacheNode *cacheGetNextFree(CacheShard *shard) {
  * @param shard dictated by the key
  * @param key to get or load
  * @return pointer to the node with data for the key, or NULL if there are no 
- * free nodes
+ * free nodes or the data could not be loaded
  */
 static CacheNode* cacheLoad(
 	CacheShard *shard, 
@@ -286,6 +310,13 @@ static CacheNode* cacheLoad(
 			node->tree.key = shard->cache->hash(key);
 			TreeInsert(&node->tree);
 		}
+		else {
+			// The data could not be loaded so there is nothing to return. Make
+			// the node available for the next load.
+			node->activeCount = 0;
+			cacheAddToTail(node);
+			node = NULL;
+		}
 	}
 	return node;
 }
-- 
2.43.0


From 7c4b0b6204bfa5ea968c12f8a7c1d7762466444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:28 +0000
Subject: [PATCH 03/87] fix: keep the value of subnormal numbers when storing a
 float

---
 float.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/float.c b/float.c
index 56dc875..5f9c390 100644
--- a/float.c
+++ b/float.c
@@ -96,13 +96,14 @@ fiftyoneDegreesFloatInternal fiftyoneDegreesNativeToFloat(float f) {
 		break;
 	case FP_SUBNORMAL:
 		// If subnormal, leave exponent to 0
-		significand = (float)frexp(f, &exponent);
 		floatU.parts.sign = (f >= 0) ? 0 : -1;
 		/*
-		 * Significand is fractional so time with 2 to power of number of mantissa bits
-		 * to get its integer
+		 * There is no hidden bit and the exponent is fixed at (1 - bias), so
+		 * the mantissa is the number of units of 2^(1 - bias - mantissa bits).
 		 */
-		floatU.parts.mantissa = (int)(fabsf(significand) * powf(FIFTYONE_DEGREES_FLOAT_RADIX, FIFTYONE_DEGREES_FLOAT_MANT_SIZE));
+		floatU.parts.mantissa = (uint32_t)ldexp(
+			fabs((double)f),
+			FIFTYONE_DEGREES_FLOAT_BIAS - 1 + FIFTYONE_DEGREES_FLOAT_MANT_SIZE);
 		break;
 	case FP_NORMAL:
 		significand = (float)frexp(f, &exponent);
-- 
2.43.0


From 49947013bdf1461d3e35227221c4e67a453da96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:28 +0000
Subject: [PATCH 04/87] fix: only report a substring when all of it is present

---
 string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.c b/string.c
index 180eb69..d0a6b23 100644
--- a/string.c
+++ b/string.c
@@ -101,7 +101,7 @@ char *fiftyoneDegreesStringSubString(const char *a, const char *b) {
 					break;
 				}
 			}
-			if (d == 0) {
+			if (*b1 == '\0') {
 				return (char *)a;
 			}
 		}
-- 
2.43.0


From d117d7e26510f6d64077e73666049011e037d04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:45 +0000
Subject: [PATCH 05/87] fix: deliver each line of a text file once wherever
 buffers end

---
 textfile.c | 66 +++++++++++++++++++++++++++++++++---------------------
 1 file changed, 40 insertions(+), 26 deletions(-)

diff --git a/textfile.c b/textfile.c
index 60fc7fe..6ce73e0 100644
--- a/textfile.c
+++ b/textfile.c
@@ -27,10 +27,19 @@
 static char* returnNextLine(
 	char* buffer, 
 	char* end, 
-	char* current, 
+	int* counter,
 	void* state, 
 	void(*callback)(const char*, void*)) {
+	char* start = buffer;
+	char* current;
 
+	// Move to the next printable character. The rest of the line ending
+	// before this line might not have been in the buffer until now.
+	while (start < end && (*start == '\r' || *start == '\n')) {
+		start++;
+	}
+
+	current = start;
 	while (current < end && *current != '\r' && *current != '\n') {
 		current++;
 	}
@@ -39,14 +48,14 @@ static char* returnNextLine(
 	// call the callback.
 	if (current < end) {
 		*current = '\0';
-		callback(buffer, state);
+		callback(start, state);
+		(*counter)++;
 		// Move to the next character
 		current++;
 	}
-
-	// Move to the next printable character.
-	while (current < end && (*current == '\r' || *current == '\n')) {
-		current++;
+	else if (start > buffer) {
+		// The line could fit without the line ending before it.
+		current = start;
 	}
 	return current;
 }
@@ -69,34 +78,39 @@ void fiftyoneDegreesTextFileIterateWithLimit(
 			== (size_t)(end - current)) {
 
 			// Return the next line.
-			current = returnNextLine(buffer, end, buffer, state, callback);
-			counter++;
+			current = returnNextLine(buffer, end, &counter, state, callback);
 
 			// Shift the buffer to the left and load the next characters.
 			size_t shift = end - current;
 			memmove(buffer, current, shift);
 			current = buffer + shift;
 		}
-		// Update end to the last line read
-		end = current + bufferRead;
-		if ((limit < 0 || counter < limit) && 
-			(*(end - 1) != '\r' && *(end - 1) != '\n')) {
-			// If there isn't a new line or carriage return at the end
-			// we won't be able to determine the end of last line, so
-			// set the end byte to '\n' and increase the end by 1.
-			// This is safe as the buffer read at this point is always
-			// smaller than the allocated size.
-			*end = '\n';
-			end++;
-		}
 		fclose(handle);
 
-		// Return any final lines held in the buffer.
-		while (current < end && 
-			(limit < 0 || counter < limit)) {
-			current = returnNextLine(buffer, end, buffer, state, callback);
-			buffer = current;
-			counter++;
+		if (limit < 0 || counter < limit) {
+			// Update end to the last line read
+			end = current + bufferRead;
+			if (end > buffer && *(end - 1) != '\r' && *(end - 1) != '\n') {
+				// If there isn't a new line or carriage return at the end
+				// we won't be able to determine the end of last line, so
+				// set the end byte to '\n' and increase the end by 1.
+				// This is safe as the buffer read at this point is always
+				// smaller than the allocated size.
+				*end = '\n';
+				end++;
+			}
+
+			// Return any final lines held in the buffer.
+			current = buffer;
+			while (current < end &&
+				(limit < 0 || counter < limit)) {
+				current = returnNextLine(
+					current, 
+					end, 
+					&counter, 
+					state, 
+					callback);
+			}
 		}
 	}
 }
-- 
2.43.0


From 2e3e2e2c465377b55b04530ee053b6fdc0de7179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 06/87] fix: keep IP address parsing inside the address and the
 given text

---
 ip.c | 58 +++++++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/ip.c b/ip.c
index aebc4ab..f2a6508 100644
--- a/ip.c
+++ b/ip.c
@@ -66,6 +66,36 @@ static byte getIpByte(int parsedValue) {
 	return (byte)parsedValue;
 }
 
+/*
+ * Adds a byte to the address unless it is already complete.
+ * @address the address being built
+ * @value the next byte
+ */
+static void addIpByte(EvidenceIpAddress *address, byte value) {
+	const int length = address->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 ?
+		FIFTYONE_DEGREES_IPV4_LENGTH : FIFTYONE_DEGREES_IPV6_LENGTH;
+	if (address->current - address->address < length) {
+		*address->current = value;
+		address->current++;
+	}
+}
+
+/*
+ * Gets the value of the decimal digits at the start of the segment.
+ * @start first character of the segment
+ * @end last character of the segment
+ * @return the value, or any value above 255 if it does not fit in a byte
+ */
+static int parseIpV4Segment(const char *start, const char *end) {
+	int value = 0;
+	while (start <= end && *start >= '0' && *start <= '9' &&
+		value <= UINT8_MAX) {
+		value = value * 10 + (*start - '0');
+		start++;
+	}
+	return value;
+}
+
 static void parseIpV6Segment(
 	EvidenceIpAddress *address,
 	const char *start,
@@ -75,8 +105,7 @@ static void parseIpV6Segment(
 	if (start > end) {
 		// This is an abbreviation, so fill it in.
 		for (i = 0; i < 16 - address->bytesPresent; i++) {
-			*address->current = (byte)0;
-			address->current++;
+			addIpByte(address, (byte)0);
 		}
 	}
 	else {
@@ -90,10 +119,8 @@ static void parseIpV6Segment(
 			if (i < 2) second[1 - i] = val;
 			else first[3 - i] = val;
 		}
-		*address->current = getIpByte((int)strtol(first, NULL, 16));
-		address->current++;
-		*address->current = getIpByte((int)strtol(second, NULL, 16));
-		address->current++;
+		addIpByte(address, getIpByte((int)strtol(first, NULL, 16)));
+		addIpByte(address, getIpByte((int)strtol(second, NULL, 16)));
 	}
 }
 
@@ -104,8 +131,7 @@ static void callbackIpAddressBuild(
 	const char *end) {
 	EvidenceIpAddress *address = (EvidenceIpAddress*)state;
 	if (segmentType == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4) {
-		*address->current = getIpByte(atoi(start));
-		address->current++;
+		addIpByte(address, getIpByte(parseIpV4Segment(start, end)));
 	}
 	else if (segmentType == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6) {
 		parseIpV6Segment(address, start, end);
@@ -158,12 +184,14 @@ static EvidenceIpType iterateIpAddress(
 	const char *nextSegment = current;
 	EvidenceIpType currentSegmentType = FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID;
 	while (current <= end && nextSegment < end) {
-		if (*current == ',' ||
-			*current == ':' ||
-			*current == '.' ||
-			*current == ' ' ||
-			*current == '\0') {
-			currentSegmentType = getSegmentTypeWithSeparator(*current, type, currentSegmentType);
+		// The end of the range always ends the last segment.
+		const char separator = current < end ? *current : '\0';
+		if (separator == ',' ||
+			separator == ':' ||
+			separator == '.' ||
+			separator == ' ' ||
+			separator == '\0') {
+			currentSegmentType = getSegmentTypeWithSeparator(separator, type, currentSegmentType);
 			if (type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID) {
 				type = currentSegmentType;
 			}
@@ -202,7 +230,7 @@ void fiftyoneDegreesIpFreeAddresses(
 	while (current != NULL) {
 		prev = current;
 		current = current->next;
-		free(prev->address);
+		free(prev);
 	}
 }
 
-- 
2.43.0


From d2eadf6645e83c104d0e4050b1c7be04c0d033d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:13 +0000
Subject: [PATCH 07/87] fix: copy every byte of an IP address

---
 IpAddress.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IpAddress.cpp b/IpAddress.cpp
index a3933d0..36d3368 100644
--- a/IpAddress.cpp
+++ b/IpAddress.cpp
@@ -74,8 +74,8 @@ void IpAddress::init(const unsigned char * const ipAddressData,
 
 void IpAddress::getCopyOfIpAddress(unsigned char copy[], const uint32_t size) const {
     const uint32_t dataSize = ((type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4)
-        ? FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4
-        : FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6);
+        ? FIFTYONE_DEGREES_IPV4_LENGTH
+        : FIFTYONE_DEGREES_IPV6_LENGTH);
 	const uint32_t copySize = (size < dataSize) ? size : dataSize;
 	memcpy(copy, ipAddress, copySize);
 }
-- 
2.43.0


From f5bac3a4d448a4e746e1a44cb65264752a8c1dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:47 +0000
Subject: [PATCH 08/87] fix: skip separators before the first IP address of a
 list

---
 ip.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ip.c b/ip.c
index f2a6508..0e27f7a 100644
--- a/ip.c
+++ b/ip.c
@@ -272,10 +272,15 @@ fiftyoneDegreesEvidenceIpAddress* fiftyoneDegreesIpParseAddress(
 fiftyoneDegreesEvidenceIpAddress* fiftyoneDegreesIpParseAddresses(
 	void*(*malloc)(size_t),
 	const char *start) {
-	const char *current = start;
+	const char *current;
 	EvidenceIpAddress *head = NULL;
 	EvidenceIpAddress *last = NULL;
 	EvidenceIpAddress *item = NULL;
+	// A separator before the first address is not part of it.
+	while (*start == ' ' || *start == ',') {
+		start++;
+	}
+	current = start;
 	while (*current != '\0') {
 		current++;
 		if (*current == ' ' ||
-- 
2.43.0


From 050fad4c2d905a5969f41df64a2c0f73bfc33dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:13 +0000
Subject: [PATCH 09/87] fix: leave room for every header name and match
 prefixed one letter names

---
 headers.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/headers.c b/headers.c
index 4b50964..6b7f12b 100644
--- a/headers.c
+++ b/headers.c
@@ -70,9 +70,9 @@ static int countAllSegments(void* state, HeadersGetMethod get) {
 		segments = countHeaderSegments(STRING(name.data.ptr));
 		count += segments;
 
-		// If there are more than one segment then this is a pseudo header and 
-		// the count should also include the full header.
-		if (segments > 1) {
+		// If there is a separator then the full header is not one of the 
+		// segments, so the count should also include the full header.
+		if (HeadersIsPseudo(STRING(name.data.ptr))) {
 			count++;
 		}
 		COLLECTION_RELEASE(name.collection, &name);
@@ -377,7 +377,7 @@ int fiftyoneDegreesHeaderGetIndex(
 	// Check if header is from a Perl or PHP wrapper in the form of HTTP_*
 	// and if present skip these characters.
 	if (headers->expectUpperPrefixedHeaders == true &&
-		length > sizeof(HTTP_PREFIX_UPPER) &&
+		length >= sizeof(HTTP_PREFIX_UPPER) &&
 		StringCompareLength(
 			httpHeaderName,
 			HTTP_PREFIX_UPPER,
-- 
2.43.0


From 8ec95c724b50878f2ab82b80029144c13ccb49aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:13 +0000
Subject: [PATCH 10/87] fix: release the name and item when a header can not be
 created

---
 headers.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/headers.c b/headers.c
index 6b7f12b..50fd29f 100644
--- a/headers.c
+++ b/headers.c
@@ -199,7 +199,11 @@ static bool setHeaderFromDataSet(
 	header->isDataSet = true;
 	header->uniqueId = uniqueId;
 	header->segments = createSegmentArray(header->name);
-	return header->segments != NULL;
+	if (header->segments == NULL) {
+		Free((void*)header->name);
+		return false;
+	}
+	return true;
 }
 
 /**
@@ -280,6 +284,7 @@ static bool addHeadersFromDataSet(
 				name,
 				nameLength,
 				(HeaderID)uniqueId) == false) {
+				COLLECTION_RELEASE(item.collection, &item);
 				return false;
 			}
 
-- 
2.43.0


From 5ebc9af8d4f3daf3d46304c1781bb666bbddbd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:05 +0000
Subject: [PATCH 11/87] fix: do not reuse or overrun the buffer of an item that
 fails to read

---
 collection.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/collection.c b/collection.c
index 5014005..930f522 100644
--- a/collection.c
+++ b/collection.c
@@ -1014,6 +1014,7 @@ void* fiftyoneDegreesCollectionReadFileFixed(
 					// The read failed so free the memory allocated and set the
 					// status code.
 					Free(data->ptr);
+					DataReset(data);
 					EXCEPTION_SET(COLLECTION_FILE_READ_FAIL);
 				}
 			}
@@ -1056,6 +1057,13 @@ static void* readFileVariable(
 			// Calculate the number of bytes needed to store the item.
 			bytesNeeded = getFinalSize(initial);
 
+			// The item can't be smaller than its header. If it is then the 
+			// data read is not an item.
+			if (bytesNeeded < initialSize) {
+				EXCEPTION_SET(CORRUPT_DATA);
+				return NULL;
+			}
+
 			// Ensure sufficient memory is allocated for the item being
 			// read and that the header is copied to the data buffer
 			// provided by the caller.
@@ -1078,6 +1086,7 @@ static void* readFileVariable(
 					}
 					else {
 						Free(data->ptr);
+						DataReset(data);
 						EXCEPTION_SET(COLLECTION_FILE_READ_FAIL);
 					}
 				}
-- 
2.43.0


From eac4fe5a114414e15ddf1ac9cd64e93df26b61d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:45 +0000
Subject: [PATCH 12/87] fix: do not return or keep hold of anything when a
 cached item is not available

---
 collection.c | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/collection.c b/collection.c
index 930f522..58f9a2e 100644
--- a/collection.c
+++ b/collection.c
@@ -106,6 +106,7 @@ static void releaseNothing(Item *item) {
 static void releaseCache(Item *item) {
 	if (item->handle != NULL) {
 		CacheRelease((CacheNode*)item->handle);
+		DataReset(&item->data);
 		item->handle = NULL;
 	}
 }
@@ -238,7 +239,11 @@ static void* getPartialVariable(
 		item->collection = collection;
 	}
 	else if (collection->next != NULL) {
-		collection->next->get(collection->next, offset, item, exception);
+		return collection->next->get(
+			collection->next,
+			offset,
+			item,
+			exception);
 	}
 	else {
 		GET_EXCEPTION_SET(COLLECTION_OFFSET_OUT_OF_RANGE);
@@ -261,7 +266,11 @@ static void* getPartialFixed(
 		item->collection = collection;
 	}
 	else if (collection->next != NULL) {
-		collection->next->get(collection->next, index, item, exception);
+		return collection->next->get(
+			collection->next,
+			index,
+			item,
+			exception);
 	}
 	else {
 		GET_EXCEPTION_SET(COLLECTION_INDEX_OUT_OF_RANGE);
@@ -320,22 +329,26 @@ static void* getFromCache(
 	CollectionCache *cache = (CollectionCache*)collection->state;
 	CacheNode *node = CacheGet(cache->cache, &key, exception);
 	
-	if (EXCEPTION_OKAY && node != NULL) {
+	// If the node was loaded correctly then set the item data to the
+	// pointer in the node's data structure.
+	if (EXCEPTION_OKAY && node != NULL &&
+		node->data.ptr != NULL &&
+		node->data.used > 0) {
 
 		// Set the handle in the item passed to ensure  it can be released when
 		// the caller finishes with it.
 		item->handle = node;
-
-		// If the node was loaded correctly then set the item data to the
-		// pointer in the node's data structure.
-		if (node->data.ptr != NULL &&
-			node->data.used > 0) {
-			item->data = node->data;
-			ptr = item->data.ptr;
-		}
+		item->data = node->data;
+		ptr = item->data.ptr;
 	}
 	else {
-		item->data.used = 0;
+
+		// There is no item for the caller to release so the node must not 
+		// stay in use.
+		if (node != NULL) {
+			CacheRelease(node);
+		}
+		DataReset(&item->data);
 		item->handle = NULL;
 	}
 
-- 
2.43.0


From e44acf9f16d80d999803630670ce1f2b3492cca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:45 +0000
Subject: [PATCH 13/87] fix: reset the item for an unavailable entry when
 exceptions are disabled

---
 collection.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/collection.c b/collection.c
index 58f9a2e..1d2c889 100644
--- a/collection.c
+++ b/collection.c
@@ -31,8 +31,7 @@ MAP_TYPE(CollectionConfig)
 /**
  * Used by methods which retrieve values from a collection to set an exception.
  */
-#ifndef FIFTYONE_DEGREES_EXCEPTIONS_DISABLED
-#define GET_EXCEPTION_SET(s) \
+#define GET_ITEM_RESET \
 if (item->data.allocated > 0) { \
 	Free(item->data.ptr); \
 } \
@@ -40,12 +39,16 @@ item->data.ptr = NULL; \
 item->data.used = 0; \
 item->data.allocated = 0; \
 item->handle = NULL; \
-item->collection = NULL; \
+item->collection = NULL;
+#ifndef FIFTYONE_DEGREES_EXCEPTIONS_DISABLED
+#define GET_EXCEPTION_SET(s) \
+GET_ITEM_RESET \
 if (exception->status == NOT_SET) { \
 	EXCEPTION_SET(s); \
 }
 #else
-#define GET_EXCEPTION_SET(s)
+#define GET_EXCEPTION_SET(s) \
+GET_ITEM_RESET
 #endif
 
  /**
-- 
2.43.0


From e8693c799093a23a0ab72b07977097a3d26193f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:22 +0000
Subject: [PATCH 14/87] fix: release everything when a collection can not be
 created

---
 collection.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/collection.c b/collection.c
index 1d2c889..060a02c 100644
--- a/collection.c
+++ b/collection.c
@@ -167,13 +167,13 @@ static void freeFileCollection(Collection *collection) {
 }
 
 static void freeCacheCollection(Collection *collection) {
-	Collection *loader;
 	CollectionCache *cache = (CollectionCache*)collection->state;
-	if (cache->cache != NULL) {
+	if (cache->source != NULL) {
 
 		// Free the loader collection used by the cache.
-		loader = (Collection*)cache->cache->loaderState;
-		loader->freeCollection(loader);
+		cache->source->freeCollection(cache->source);
+	}
+	if (cache->cache != NULL) {
 
 		// Free the cache itself.
 		CacheFree(cache->cache);
@@ -552,6 +552,9 @@ static Collection* createFromFile(
 	Collection *collection = createCollection(
 		sizeof(CollectionFile),
 		header);
+	if (collection == NULL) {
+		return NULL;
+	}
 	CollectionFile *fileCollection = (CollectionFile*)collection->state;
 	fileCollection->collection = collection;
 	fileCollection->reader = reader;
@@ -584,9 +587,16 @@ static Collection* createFromFilePartial(
 
 	// Create a file collection to populate the memory collection.
 	Collection *source = createFromFile(file, reader, header, read);
+	if (source == NULL) {
+		return NULL;
+	}
 
 	// Allocate the memory for the collection and implementation.
 	Collection *collection = createCollection(sizeof(CollectionFile), header);
+	if (collection == NULL) {
+		source->freeCollection(source);
+		return NULL;
+	}
 	CollectionMemory *memory = (CollectionMemory*)collection->state;
 	memory->memoryToFree = NULL;
 	memory->collection = collection;
@@ -667,6 +677,9 @@ static Collection* createFromFileCached(
 
 	// Allocate the memory for the collection and implementation.
 	Collection *collection = createCollection(sizeof(CollectionFile), header);
+	if (collection == NULL) {
+		return NULL;
+	}
 	CollectionCache *cache = (CollectionCache*)collection->state;
 	cache->cache = NULL;
 
@@ -786,6 +799,9 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromMemory(
 	Collection *collection = createCollection(
 		sizeof(CollectionMemory),
 		&header);
+	if (collection == NULL) {
+		return NULL;
+	}
 	CollectionMemory *memory = (CollectionMemory*)collection->state;
 
 	// Configure the fields for the collection.
-- 
2.43.0


From 3a434c6fc24f053b86a356f463e4003741620fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:22 +0000
Subject: [PATCH 15/87] fix: do not cache an item that there was no memory for

---
 collection.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collection.c b/collection.c
index 060a02c..983bdce 100644
--- a/collection.c
+++ b/collection.c
@@ -401,6 +401,9 @@ static void loaderCache(
 				data->used = item.data.used;
 			}
 		}
+		else if (item.data.used > 0) {
+			EXCEPTION_SET(INSUFFICIENT_MEMORY);
+		}
 
 		// Release the item from the source collection.
 		COLLECTION_RELEASE(collection, &item);
-- 
2.43.0


From 88efa9b868a5b8159d74ba5c64c275f67d427e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:05 +0000
Subject: [PATCH 16/87] fix: make the header of a collection that is not there
 an empty one

---
 collection.c | 63 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 23 deletions(-)

diff --git a/collection.c b/collection.c
index 983bdce..864634b 100644
--- a/collection.c
+++ b/collection.c
@@ -761,24 +761,50 @@ static Collection* createFromFileSecond(
 
 #endif
 
-fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromMemory(
-	fiftyoneDegreesMemoryReader *reader,
+/**
+ * Sets the length and the count of the header from the integer found at the 
+ * start of the data structure. If the length can not be represented then the
+ * header is set to an empty collection.
+ * @return true if the header was set, otherwise false
+ */
+static bool setHeader(
+	CollectionHeader *header,
+	uint32_t sizeOrCount,
 	uint32_t elementSize,
 	bool isCount) {
-	CollectionHeader header;
 	if (isCount) {
-		// The next integer is the count of items in the data structure.
-		header.count = *(uint32_t*)reader->current;
-		header.length = header.count * elementSize;
+		// The integer is the count of items in the data structure.
+		uint64_t length = (uint64_t)sizeOrCount * elementSize;
+		if (length > UINT32_MAX) {
+			header->count = 0;
+			header->length = 0;
+			return false;
+		}
+		header->count = sizeOrCount;
+		header->length = (uint32_t)length;
 	}
 	else {
-		// The next integer is the size of the data structure.
-		header.length = *(const uint32_t*)reader->current;
-		header.count = elementSize > 0 ? header.length / elementSize : 0;
+		// The integer is the size of the data structure.
+		header->length = sizeOrCount;
+		header->count = elementSize > 0 ? header->length / elementSize : 0;
 	}
+	return true;
+}
+
+fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromMemory(
+	fiftyoneDegreesMemoryReader *reader,
+	uint32_t elementSize,
+	bool isCount) {
+	CollectionHeader header = { 0, 0, 0 };
 
-	// Advance the memory reader and record the start of the collection.
-	if (MemoryAdvance(reader, sizeof(uint32_t))) {
+	// Advance the memory reader past the size or count of the data structure
+	// in bytes and record the start of the collection.
+	if (MemoryAdvance(reader, sizeof(uint32_t)) &&
+		setHeader(
+			&header,
+			*(uint32_t*)(reader->current - sizeof(uint32_t)),
+			elementSize,
+			isCount)) {
 		header.startPosition = (uint32_t)(reader->current - reader->startByte);
 	}
 	else {
@@ -848,21 +874,12 @@ fiftyoneDegreesCollectionHeader fiftyoneDegreesCollectionHeaderFromFile(
 	FILE *file,
 	uint32_t elementSize,
 	bool isCount) {
-	fiftyoneDegreesCollectionHeader header;
+	fiftyoneDegreesCollectionHeader header = { 0, 0, 0 };
 	uint32_t sizeOrCount;
 
 	// Get the size or count of the data structure in bytes.
-	if (fread((void*)&sizeOrCount, sizeof(uint32_t), 1, file) == 1) {
-		if (isCount) {
-			// The integer is the count of items in the data structure.
-			header.count = sizeOrCount;
-			header.length = header.count * elementSize;
-		}
-		else {
-			// The integer is the size of the data structure.
-			header.length = sizeOrCount;
-			header.count = elementSize > 0 ? header.length / elementSize : 0;
-		}
+	if (fread((void*)&sizeOrCount, sizeof(uint32_t), 1, file) == 1 &&
+		setHeader(&header, sizeOrCount, elementSize, isCount)) {
 		header.startPosition = (uint32_t)ftell(file);
 	}
 	else {
-- 
2.43.0


From 6cc4bcf55c5dcc7d5b959e3b29505bccde2dd1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:05 +0000
Subject: [PATCH 17/87] fix: do not report or keep hold of an item when a
 search fails

---
 collection.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/collection.c b/collection.c
index 864634b..533686d 100644
--- a/collection.c
+++ b/collection.c
@@ -1256,14 +1256,15 @@ long fiftyoneDegreesCollectionBinarySearch(
 		// Get the item from the collection checking for NULL or an error.
 		if (collection->get(collection, middle, item, exception) == NULL ||
 			EXCEPTION_OKAY == false) {
-			return 0;
+			return -1;
 		}
 		
 		// Perform the binary search using the comparer provided with the item
 		// just returned.
 		comparisonResult = comparer(state, item, middle, exception);
 		if (EXCEPTION_OKAY == false) {
-			return 0;
+			COLLECTION_RELEASE(collection, item);
+			return -1;
 		}
 
 		if (comparisonResult == 0) {
-- 
2.43.0


From fa06da8d7b177e1622c2013a7e6fcfeb9ad39340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:17 +0000
Subject: [PATCH 18/87] fix: do not match an IP address value with text that is
 not an address

---
 value.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/value.c b/value.c
index 16bdbbc..32a0f12 100644
--- a/value.c
+++ b/value.c
@@ -82,7 +82,8 @@ static int compareCoordinate(String *value, const char *target) {
  * for smaller and positive for bigger
  */
 static int compareIpAddress(String *value, const char *target) {
-	int result = 0;
+	// If the target is not an IP address then no value will be found.
+	int result = -1;
 	fiftyoneDegreesEvidenceIpAddress *ipAddress
 		= fiftyoneDegreesIpParseAddress(
 			Malloc, 
-- 
2.43.0


From d54bada660a7e47ea424150b31309da9e3ade64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:17 +0000
Subject: [PATCH 19/87] fix: find no value index for a property without values
 and release only what was found

---
 value.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/value.c b/value.c
index 32a0f12..f680694 100644
--- a/value.c
+++ b/value.c
@@ -204,20 +204,22 @@ long fiftyoneDegreesValueGetIndexByName(
 	fiftyoneDegreesException *exception) {
 	Item item;
 	valueSearch search;
-	long index;
+	long index = -1;
 	DataReset(&item.data);
 	search.valueName = valueName;
 	search.strings = strings;
-	index = CollectionBinarySearch(
-		values,
-		&item,
-		property->firstValueIndex,
-		property->lastValueIndex,
-		(void*)&search,
-		compareValueByName,
-		exception);
-	if (EXCEPTION_OKAY) {
-		COLLECTION_RELEASE(values, &item);
+	if ((int)property->firstValueIndex != -1) {
+		index = CollectionBinarySearch(
+			values,
+			&item,
+			property->firstValueIndex,
+			property->lastValueIndex,
+			(void*)&search,
+			compareValueByName,
+			exception);
+		if (index >= 0) {
+			COLLECTION_RELEASE(values, &item);
+		}
 	}
 	return index;
 }
-- 
2.43.0


From a0a46bc7e3ced64b525e60f84f5733efb083c0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:17 +0000
Subject: [PATCH 20/87] fix: find no profile when there are none

---
 profile.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/profile.c b/profile.c
index 8a1a2c0..51de322 100644
--- a/profile.c
+++ b/profile.c
@@ -154,16 +154,17 @@ uint32_t* fiftyoneDegreesProfileGetOffsetForProfileId(
 	uint32_t *profileOffset,
 	fiftyoneDegreesException *exception) {
 	Item profileOffsetItem;
+	uint32_t count = CollectionGetCount(profileOffsets);
 	DataReset(&profileOffsetItem.data);
 
 	if (profileId == 0) {
 		EXCEPTION_SET(PROFILE_EMPTY);
 	}
-	else if (CollectionBinarySearch(
+	else if (count > 0 && CollectionBinarySearch(
 		profileOffsets,
 		&profileOffsetItem,
 		0,
-		CollectionGetCount(profileOffsets) - 1,
+		count - 1,
 		(void*)&profileId,
 		compareProfileId,
 		exception) >= 0) {
-- 
2.43.0


From db3e07c6be94d81e2728a986ed1dfd16d9a72339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:17 +0000
Subject: [PATCH 21/87] fix: do not read past the last value of a profile

---
 profile.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/profile.c b/profile.c
index 51de322..21c9fe6 100644
--- a/profile.c
+++ b/profile.c
@@ -128,8 +128,8 @@ static uint32_t iterateValues(
 	// Loop through until the last value for the property has been returned
 	// or the callback doesn't need to continue.
 	while (cont == true &&
-		*valueIndex <= property->lastValueIndex &&
 		valueIndex < maxValueIndex &&
+		*valueIndex <= property->lastValueIndex &&
 		EXCEPTION_OKAY) {
 
 		// Reset the items as they should never share the same memory.
@@ -324,9 +324,9 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 						if (profileValueIndex != NULL) {
 							maxProfileValueIndex = ((uint32_t*)(profile + 1)) +
 								profile->valueCount;
-							while (*profileValueIndex <=
-								property->lastValueIndex &&
-								profileValueIndex < maxProfileValueIndex) {
+							while (profileValueIndex < maxProfileValueIndex &&
+								*profileValueIndex <=
+								property->lastValueIndex) {
 								if ((uint32_t)valueIndex ==
 									*profileValueIndex) {
 									callback(state, &profileItem);
-- 
2.43.0


From 502e7081c9f99882860eaffa70a91bd78ccdc701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:17 +0000
Subject: [PATCH 22/87] fix: release profile and property name items to the
 collection they came from

---
 profile.c  | 4 ++--
 property.c | 8 +++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/profile.c b/profile.c
index 21c9fe6..c101128 100644
--- a/profile.c
+++ b/profile.c
@@ -305,7 +305,7 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 			DataReset(&offsetItem.data);
 			DataReset(&profileItem.data);
 			uint32_t profileOffsetsCount = CollectionGetCount(profileOffsets);
-			for (i = 0; i < profileOffsetsCount; i++) {
+			for (i = 0; i < profileOffsetsCount && EXCEPTION_OKAY; i++) {
 				profileOffset = (ProfileOffset*)profileOffsets->get(
 					profileOffsets,
 					i,
@@ -336,7 +336,7 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 								profileValueIndex++;
 							}
 						}
-						COLLECTION_RELEASE(profileOffsets, &profileItem);
+						COLLECTION_RELEASE(profiles, &profileItem);
 					}
 					COLLECTION_RELEASE(profileOffsets, &offsetItem);
 				}
diff --git a/property.c b/property.c
index 9ee0eb6..4867e6a 100644
--- a/property.c
+++ b/property.c
@@ -137,7 +137,13 @@ fiftyoneDegreesProperty* fiftyoneDegreesPropertyGetByName(
 				}
 
 				// Release the property name as this is not needed again.
-				COLLECTION_RELEASE(properties, &propertyNameItem);
+				COLLECTION_RELEASE(strings, &propertyNameItem);
+			}
+			else {
+
+				// The name is not available so this property can't be matched.
+				property = NULL;
+				COLLECTION_RELEASE(properties, item);
 			}
 		}
 	}
-- 
2.43.0


From 34b3897f8f865e25adb19a484f4bdba37b4861bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:17 +0000
Subject: [PATCH 23/87] fix: refuse the key value pair after the last one of a
 component

---
 component.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/component.c b/component.c
index 34de863..922eb0e 100644
--- a/component.c
+++ b/component.c
@@ -67,7 +67,7 @@ const fiftyoneDegreesComponentKeyValuePair* fiftyoneDegreesComponentGetKeyValueP
 	uint16_t index,
 	fiftyoneDegreesException *exception) {
 #ifndef FIFTYONE_DEGREES_EXCEPTIONS_DISABLED
-	if (index > component->keyValuesCount) {
+	if (index >= component->keyValuesCount) {
 		EXCEPTION_SET(COLLECTION_INDEX_OUT_OF_RANGE);
 		return NULL;
 	}
-- 
2.43.0


From aff0c327f5a50b9cae9e2a135e1cdb6eb0886246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:17 +0000
Subject: [PATCH 24/87] fix: report that there was no memory for the list of
 components

---
 component.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/component.c b/component.c
index 922eb0e..725d3eb 100644
--- a/component.c
+++ b/component.c
@@ -121,4 +121,7 @@ void fiftyoneDegreesComponentInitList(
 			}
 		}
 	}
+	else {
+		EXCEPTION_SET(INSUFFICIENT_MEMORY);
+	}
 }
-- 
2.43.0


From 5ddd7ee30de0e9ed8090392682114ad825088184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:31 +0000
Subject: [PATCH 25/87] fix: stop iterating profiles when the callback asks for
 it

---
 profile.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/profile.c b/profile.c
index c101128..21635bd 100644
--- a/profile.c
+++ b/profile.c
@@ -282,6 +282,7 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 	fiftyoneDegreesProfileIterateMethod callback,
 	fiftyoneDegreesException *exception) {
 	uint32_t i, count = 0;
+	bool cont = true;
 	Item propertyItem, offsetItem, profileItem;
 	uint32_t *profileValueIndex, *maxProfileValueIndex;
 	Property *property;
@@ -305,7 +306,8 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 			DataReset(&offsetItem.data);
 			DataReset(&profileItem.data);
 			uint32_t profileOffsetsCount = CollectionGetCount(profileOffsets);
-			for (i = 0; i < profileOffsetsCount && EXCEPTION_OKAY; i++) {
+			for (i = 0; i < profileOffsetsCount && cont == true &&
+				EXCEPTION_OKAY; i++) {
 				profileOffset = (ProfileOffset*)profileOffsets->get(
 					profileOffsets,
 					i,
@@ -329,7 +331,7 @@ uint32_t fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(
 								property->lastValueIndex) {
 								if ((uint32_t)valueIndex ==
 									*profileValueIndex) {
-									callback(state, &profileItem);
+									cont = callback(state, &profileItem);
 									count++;
 									break;
 								}
-- 
2.43.0


From 6b5a99f2d35ca3f26b434bf9ddf262233201b865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 26/87] fix: size a pool for the largest concurrency

---
 pool.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pool.c b/pool.c
index d23cd84..94d3f54 100644
--- a/pool.c
+++ b/pool.c
@@ -31,13 +31,13 @@ fiftyoneDegreesPool* fiftyoneDegreesPoolInit(
 	fiftyoneDegreesPoolResourceCreate resourceCreate,
 	fiftyoneDegreesPoolResourceFree resourceFree,
 	fiftyoneDegreesException *exception) {
-	uint16_t i = 1;
+	uint32_t i = 1;
 	PoolItem *item;
 
 	// Add one to the concurrency value so that a NULL marker can be 
 	// written as the last item in the linked list that if returned
 	// indicates that the concurrency has been exceeded.
-	uint16_t listItems = concurrency + 1;
+	uint32_t listItems = (uint32_t)concurrency + 1;
 
 	// Set the stack and head of the linked list.
 	pool->count = 0;
@@ -62,7 +62,7 @@ fiftyoneDegreesPool* fiftyoneDegreesPoolInit(
 			item->resource = resourceCreate(pool, state, exception);
 			pool->count++;
 			item->next = pool->head.values.index;
-			pool->head.values.index = i;
+			pool->head.values.index = (uint16_t)i;
 			i++;
 		}
 	}
@@ -133,7 +133,7 @@ void fiftyoneDegreesPoolReset(fiftyoneDegreesPool *pool) {
 
 void fiftyoneDegreesPoolFree(fiftyoneDegreesPool *pool) {
 	void *resource;
-	uint16_t i;
+	uint32_t i;
 	if (pool->stack != NULL) {
 		if (pool->resourceFree != NULL) {
 			for (i = 0; i <= pool->count; i++) {
-- 
2.43.0


From da54ea7ea67bf5f768b6129caa5131341a5ec0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 27/87] fix: compare every byte asked for and no empty or
 missing master file with others

---
 file.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/file.c b/file.c
index b518a4b..e7d5cf4 100644
--- a/file.c
+++ b/file.c
@@ -265,7 +265,7 @@ static bool compareFiles(
 
 	// Compare the sizes.
 	size = FileGetSize(fileName);
-	if (size > 0 && size != FileGetSize(otherFileName)) {
+	if (size < 0 || size != FileGetSize(otherFileName)) {
 		return false;
 	}
 	// Open both files.
@@ -281,7 +281,10 @@ static bool compareFiles(
 
 	while (ftell(file) < size &&
 		(bytesToCompare < 0 || ftell(file) < bytesToCompare)) {
-		read = bytesToCompare > 0 ? bytesToCompare : (long)sizeof(buffer);
+		read = (long)sizeof(buffer);
+		if (bytesToCompare >= 0 && bytesToCompare - ftell(file) < read) {
+			read = bytesToCompare - ftell(file);
+		}
 		if (size - ftell(file) < read) {
 			read = size - ftell(file);
 		}
-- 
2.43.0


From 26532a7beb890fb0c14ac11f2d1700aa8b160e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 28/87] fix: look for temporary files in every directory and
 within the path buffer

---
 file.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/file.c b/file.c
index e7d5cf4..1256784 100644
--- a/file.c
+++ b/file.c
@@ -359,8 +359,11 @@ static bool iterateFiles(
 	char tempPath[FIFTYONE_DEGREES_FILE_MAX_PATH];
 	size_t nameStart;
 	// Append a slash to the path if one is not there already.
-	strcpy(tempPath, path);
 	nameStart = strlen(path);
+	if (nameStart + 1 >= sizeof(tempPath)) {
+		return false;
+	}
+	strcpy(tempPath, path);
 	if (nameStart != 0 &&
 		tempPath[nameStart - 1] != '/' &&
 		tempPath[nameStart - 1] != '\\') {
@@ -418,11 +421,14 @@ static bool iterateFiles(
 #else
 	DIR *dir;
 	struct dirent *ent;
-	dir = opendir(path);
+	dir = opendir(nameStart == 0 ? "." : path);
 	if (dir != NULL) {
 		// Iterate over all files.
 		while ((ent = readdir(dir)) != NULL) {
-			// Append the name to the path.
+			// Append the name to the path if there is room for it.
+			if (strlen(ent->d_name) >= sizeof(tempPath) - nameStart) {
+				continue;
+			}
 			strcpy(tempPath + nameStart, ent->d_name);
 			// Call match and return if the file is a match.
 			if (compare(tempPath, state)) {
@@ -678,7 +684,7 @@ int fiftyoneDegreesFileDeleteUnusedTempFiles(
 		// Look in the directories provided.
 		for (i = 0; i < count; i++) {
 			iterateFiles(
-				paths[0],
+				paths[i],
 				&state,
 				iteratorFileCompare,
 				iteratorFileDelete);
@@ -716,7 +722,7 @@ bool fiftyoneDegreesFileGetExistingTempFile(
 		// Look in the directories provided.
 		for (i = 0; i < count; i++) {
 			if (iterateFiles(
-				paths[0],
+				paths[i],
 				&state,
 				iteratorFileCompare,
 				iteratorFileMatch) == true) {
-- 
2.43.0


From 664db76429c3a1f091a8171d6881d15795b4cc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 29/87] fix: count every temporary file that was deleted

---
 file.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/file.c b/file.c
index 1256784..41f99ac 100644
--- a/file.c
+++ b/file.c
@@ -554,7 +554,7 @@ static bool isFileInUse(const char *pathName) {
 #endif
 
 /**
- * Deletes the file is it is not in use. The first byte of state->destination
+ * Deletes the file is it is not in use. The integer at state->destination
  * is used as a counter to indicate how many files were successfully deleted.
  * @param fileName path to matching file
  * @param state pointer to the file iterator state with the destination pointer
@@ -572,7 +572,7 @@ static bool iteratorFileDelete(const char *fileName, void *state) {
 	if (isFileInUse(fileName) == false) {
 #endif
 		if (fiftyoneDegreesFileDelete(fileName) == SUCCESS) {
-			((byte*)fileState->destination)[0]++;
+			(*(int*)fileState->destination)++;
 		}
 #ifdef __linux__
 	}
@@ -657,10 +657,10 @@ int fiftyoneDegreesFileDeleteUnusedTempFiles(
 	int count,
 	long bytesToCompare) {
 	int i;
-	byte deleted = 0;
+	int deleted = 0;
 	fileIteratorState state;
 	state.masterFileName = masterFileName;
-	// The iteratorFileDelete method will use the first byte of
+	// The iteratorFileDelete method will use the integer at
 	// state.destination to keep track of the number of files deleted. This is
 	// a slight misuse of the structure, but we'll allow it as the structure
 	// is internal only.
@@ -690,7 +690,7 @@ int fiftyoneDegreesFileDeleteUnusedTempFiles(
 				iteratorFileDelete);
 		}
 	}
-	return (int)deleted;
+	return deleted;
 }
 
 bool fiftyoneDegreesFileGetExistingTempFile(
-- 
2.43.0


From 9a4772533a79ead6258e8d2f75bbce7965fe264e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 30/87] fix: only take files named as temporary copies of the
 master for such

---
 file.c | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/file.c b/file.c
index 41f99ac..10ef4d7 100644
--- a/file.c
+++ b/file.c
@@ -444,6 +444,39 @@ static bool iterateFiles(
 	return false;
 }
 
+/**
+ * Checks whether the name is one that FileAddTempFileName gives to a temporary
+ * copy of the master file, i.e. base name, process id and unique string.
+ * @param fileState state with the base name of the master file
+ * @param fileName path to the file to check
+ * @return true if the name is that of a temporary copy of the master file
+ */
+static bool isTempFileName(
+	const fileIteratorState *fileState,
+	const char *fileName) {
+	size_t i;
+	const char *name = getNameFromPath(fileName);
+	if (strncmp(fileState->baseName, name, fileState->baseNameLength) != 0) {
+		return false;
+	}
+	name += fileState->baseNameLength;
+	if (*name++ != '-' || *name < '0' || *name > '9') {
+		return false;
+	}
+	while (*name >= '0' && *name <= '9') {
+		name++;
+	}
+	if (*name++ != '-') {
+		return false;
+	}
+	for (i = 0; i < TEMP_UNIQUE_STRING_LENGTH; i++) {
+		if (name[i] < 'A' || name[i] > 'Z') {
+			return false;
+		}
+	}
+	return name[i] == '\0';
+}
+
 /**
  * Compares the file, and the master file who's name is stored in the state.
  * If the contents of the files are the same (up to the bytesToCompare limit)
@@ -454,7 +487,7 @@ static bool iterateFiles(
  */
 static bool iteratorFileCompare(const char *fileName, void *state) {
 	fileIteratorState *fileState = (fileIteratorState*)state;
-	if (strncmp(fileState->baseName, getNameFromPath(fileName), fileState->baseNameLength) == 0 &&
+	if (isTempFileName(fileState, fileName) &&
 		compareFiles(
 		fileState->masterFileName,
 		fileName,
-- 
2.43.0


From 93306ae6c6d2c569108b6f73d39e2eed87b108a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 31/87] fix: recognise a file that is in use whatever path it
 is named by

---
 file.c | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/file.c b/file.c
index 10ef4d7..d340ee8 100644
--- a/file.c
+++ b/file.c
@@ -530,7 +530,10 @@ static bool isFileInUse(const char *pathName) {
 	struct dirent *ent1, *ent2;
 	char fdPath[FILE_MAX_PATH];
 	char linkFile[FILE_MAX_PATH];
-	char linkPath[FILE_MAX_PATH];
+	struct stat fileStat, linkStat;
+	if (stat(pathName, &fileStat) != 0) {
+		return true;
+	}
 	procDir = opendir("/proc");
 	if (procDir != NULL) {
 		// Iterate over all directories in /proc
@@ -543,33 +546,25 @@ static bool isFileInUse(const char *pathName) {
 					// Check that the file is not '.' or '..'
 					if (strcmp(ent2->d_name, ".") != 0 &&
 						strcmp(ent2->d_name, "..") != 0) {
-						// Get the path which the symlink is pointing to
+						// Check whether the descriptor is for the same file
 						if (Snprintf(
 							linkFile,
 							FILE_MAX_PATH,
 							"%s/%s",
 							fdPath,
 							ent2->d_name) >= 0) {
-							ssize_t written =
-								readlink(linkFile, linkPath, FILE_MAX_PATH);
-							if (written >= 0) {
-								linkPath[written] = '\0';
-								size_t linkPathLen = strlen(linkPath);
-								size_t pathNameLen = strlen(pathName);
-								if (pathNameLen <= linkPathLen &&
-									strncmp(linkPath + linkPathLen - pathNameLen,
-										pathName,
-										pathNameLen) == 0) {
-									closedir(fdDir);
-									closedir(procDir);
-									return true;
-								}
+							if (stat(linkFile, &linkStat) == 0 &&
+								linkStat.st_dev == fileStat.st_dev &&
+								linkStat.st_ino == fileStat.st_ino) {
+								closedir(fdDir);
+								closedir(procDir);
+								return true;
 							}
 						}
 					}
 				}
+				closedir(fdDir);
 			}
-			closedir(fdDir);
 		}
 		closedir(procDir);
 	}
-- 
2.43.0


From 92eebd36cf3a8665d2aad2ca8da19eb7b89ab400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 32/87] fix: take the extension from the file name and not the
 directory

---
 file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file.c b/file.c
index d340ee8..be64a9a 100644
--- a/file.c
+++ b/file.c
@@ -662,9 +662,9 @@ static fiftyoneDegreesStatusCode getBasenameWithoutExtension(
 	size_t length) {
 	StatusCode status = NOT_SET;
 	const char* pos = getNameFromPath(path);
-	char* dot = strrchr(path, '.');
+	const char* dot = strrchr(pos, '.');
 	size_t end = strlen(pos);
-	if (dot != NULL) {
+	if (dot != NULL && dot != pos) {
 		end = dot - pos;
 	}
 
-- 
2.43.0


From cd6fcc5728ba8a38271e4f76d67789381da8209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 33/87] fix: keep temporary file names inside the buffer and
 use all of it

---
 file.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/file.c b/file.c
index be64a9a..c13c20d 100644
--- a/file.c
+++ b/file.c
@@ -792,7 +792,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileAddTempFileName(
 		if (charsAdded < 0) {
 			status = ENCODING_ERROR;
 		}
-		else if ((size_t)charsAdded > length) {
+		else if ((size_t)charsAdded >= length) {
 			status = INSUFFICIENT_MEMORY;
 		}
 		else {
@@ -864,12 +864,12 @@ fiftyoneDegreesStatusCode createTempFileWithPaths(
 		if (charAdded < 0) {
 			status = ENCODING_ERROR;
 		}
-		else if ((size_t)charAdded > length) {
+		else if ((size_t)charAdded >= length) {
 			status = INSUFFICIENT_MEMORY;
 		}
 		else {
 			status = fiftyoneDegreesFileAddTempFileName(
-				masterFileName, destination, nameStart, length - nameStart - 1);
+				masterFileName, destination, nameStart, length - nameStart);
 			if (status == SUCCESS) {
 				// Create the temp file
 				status = FileCopy(masterFile, destination);
-- 
2.43.0


From 17193cb1da4c7e50b03703bfab3778a236b0bd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 34/87] fix: create one temporary file in the first usable
 directory

---
 file.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/file.c b/file.c
index c13c20d..9d8923e 100644
--- a/file.c
+++ b/file.c
@@ -876,8 +876,13 @@ fiftyoneDegreesStatusCode createTempFileWithPaths(
 			}
 		}
 
+		// The first directory that can be written to is the one to use
+		if (status == SUCCESS) {
+			break;
+		}
+
 		// Reset the destination
-		if (status != SUCCESS && length > 0) {
+		if (length > 0) {
 			memset(destination, 0, length);
 		}
 	}
-- 
2.43.0


From 807ec49cc65cffdbf1118dc2850c65443fc6f9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 35/87] fix: do not overrun the path when a temporary directory
 is too long

---
 file.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/file.c b/file.c
index 9d8923e..2750e1a 100644
--- a/file.c
+++ b/file.c
@@ -930,8 +930,12 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileCreateTempFile(
 	}
 	else if (paths != NULL) {
 		for (i = 0; i < count; i++) {
-			strcpy(tempPath, paths[i]);
 			nameStart = strlen(paths[i]);
+			if (nameStart + 1 >= sizeof(tempPath)) {
+				status = FILE_PATH_TOO_LONG;
+				continue;
+			}
+			strcpy(tempPath, paths[i]);
 			if (nameStart != 0 &&
 				tempPath[nameStart - 1] != '/' &&
 				tempPath[nameStart - 1] != '\\') {
-- 
2.43.0


From c728f8fd7d02dd5cb88c270b634e97f4bf9fbd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 36/87] fix: report files that could not be copied or written
 in full

---
 file.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/file.c b/file.c
index 2750e1a..e420fa1 100644
--- a/file.c
+++ b/file.c
@@ -150,7 +150,9 @@ static StatusCode fileCopy(FILE *source, FILE *destination) {
 	unsigned char buffer[8192];
 	size_t lengthRead, lengthWritten = 0;
 	if (fseek(source, 0L, SEEK_END) == 0) {
-		fseek(source, 0L, SEEK_SET);
+		if (fseek(source, 0L, SEEK_SET) != 0) {
+			return FILE_COPY_ERROR;
+		}
 		lengthRead = fread(buffer, 1, sizeof(buffer), source);
 		while (lengthRead > 0) {
 			lengthWritten = fwrite(buffer, 1, lengthRead, destination);
@@ -159,8 +161,9 @@ static StatusCode fileCopy(FILE *source, FILE *destination) {
 			}
 			lengthRead = fread(buffer, 1, sizeof(buffer), source);
 		}
+		return ferror(source) ? FILE_COPY_ERROR : SUCCESS;
 	}
-	return SUCCESS;
+	return FILE_COPY_ERROR;
 }
 
 /**
@@ -621,10 +624,12 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileWrite(
 	FILE *file;
 	StatusCode status = fileOpen(fileName, &file, "wb");
 	if (status == SUCCESS) {
-		if (fwrite(data, length, 1, file) != 1) {
+		if (fwrite(data, 1, length, file) != length) {
+			status = FILE_FAILURE;
+		}
+		if (fclose(file) != 0) {
 			status = FILE_FAILURE;
 		}
-		fclose(file);
 	}
 	return status;
 }
@@ -1077,7 +1082,9 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileCopy(
 			return status;
 		}
 		status = fileCopy(sourceFile, destinationFile);
-		fclose(destinationFile);
+		if (fclose(destinationFile) != 0) {
+			status = FILE_COPY_ERROR;
+		}
 		// Delete the destination file if the status code is not success.
 		if (status != SUCCESS) {
 			FileDelete(destination);
-- 
2.43.0


From 76797cdf276d7627af4e17188d0535b039d6fabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 37/87] fix: leave an empty reader when a file can not be read
 into memory

---
 file.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/file.c b/file.c
index e420fa1..cd01bd9 100644
--- a/file.c
+++ b/file.c
@@ -1111,7 +1111,14 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileReadToByteArray(
 	StatusCode status = FileOpen(source, &sourceFile);
 	if (status == SUCCESS) {
 		// Get the size of the file and allocate sufficient memory.
+		reader->lastByte = NULL;
 		reader->length = fileGetSize(sourceFile);
+		if (reader->length < 0) {
+			reader->current = reader->startByte = NULL;
+			reader->length = 0;
+			fclose(sourceFile);
+			return FILE_FAILURE;
+		}
 		reader->current = reader->startByte = (byte*)Malloc(
 			sizeof(char) * reader->length);
 		if (reader->current != NULL) {
@@ -1120,7 +1127,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileReadToByteArray(
 				// The file could not be loaded into memory. Release the 
 				// memory allocated earlier and set the status to file 
 				// failure.
-				free(reader->current);
+				Free(reader->current);
 				reader->startByte = NULL;
 				reader->current = NULL;
 				reader->length = 0;
-- 
2.43.0


From f2c64066fa73d8f6b6b3cdefd29677308849c19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 38/87] fix: return the whole file name when there is no
 directory

---
 file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file.c b/file.c
index cd01bd9..52a58c9 100644
--- a/file.c
+++ b/file.c
@@ -1157,8 +1157,8 @@ void fiftyoneDegreesFilePoolReset(fiftyoneDegreesFilePool *filePool) {
 
 const char* fiftyoneDegreesFileGetFileName(const char *filePath) {
 	char *c = (char*)filePath + strlen(filePath);
-	while (*c != '\\' && *c != '/' && c != filePath) {
+	while (c != filePath && *(c - 1) != '\\' && *(c - 1) != '/') {
 		c--;
 	}
-	return c + 1;
+	return c;
 }
-- 
2.43.0


From 35a39cfe234fdf19b524589e01fa5c37ba84533a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 39/87] fix: close the handles of a file pool that can not be
 initialised

---
 file.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/file.c b/file.c
index 52a58c9..1faed3a 100644
--- a/file.c
+++ b/file.c
@@ -1026,7 +1026,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFilePoolInit(
 			freeFileHandle,
 			exception) != NULL &&
 		EXCEPTION_OKAY) {
-		if (setLength(filePool, exception) == 0) {
+		if (setLength(filePool, exception) <= 0) {
 			status = FILE_FAILURE;
 		}
 	}
@@ -1036,6 +1036,9 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFilePoolInit(
 	else {
 		status = INSUFFICIENT_MEMORY;
 	}
+	if (status != SUCCESS) {
+		FilePoolRelease(filePool);
+	}
 	return status;
 }
 
-- 
2.43.0


From d667a96a822558441eefc09c5c22dbbf3e8a99ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:37 +0000
Subject: [PATCH 40/87] fix: report a resource handle there was no memory for

---
 resource.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/resource.c b/resource.c
index 833140c..ff18e5c 100644
--- a/resource.c
+++ b/resource.c
@@ -137,6 +137,10 @@ static void setupResource(
 		MallocAligned(
 			sizeof(InterlockDoubleWidth),
 			sizeof(ResourceHandle));
+	if (handle == NULL) {
+		*resourceHandle = NULL;
+		return;
+	}
 
 	// Set the handle and the number of users of the resource to zero.
 	handle->counter = emptyCounter();
@@ -332,6 +336,10 @@ void fiftyoneDegreesResourceReplace(
 		newResource,
 		newResourceHandle,
 		manager->active->freeResource);
+	if (*newResourceHandle == NULL) {
+		// There was no memory for the handle so keep the existing resource.
+		return;
+	}
 	assert(getInUse(&(*newResourceHandle)->counter) == 0);
 	assert(getHandle(&(*newResourceHandle)->counter) == *newResourceHandle);
 #ifndef FIFTYONE_DEGREES_NO_THREADING
-- 
2.43.0


From 696826b152290b38f6c0a9b97c70618105df8dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:37 +0000
Subject: [PATCH 41/87] fix: free a resource manager without needing memory for
 another handle

---
 resource.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/resource.c b/resource.c
index ff18e5c..f78e6dc 100644
--- a/resource.c
+++ b/resource.c
@@ -187,15 +187,14 @@ void fiftyoneDegreesResourceManagerFree(
 	// active handle won't change at this point.
 	// Thus, it is safe to perform assertion directly
 	// to the active handle here. 
-	assert(getInUse(&manager->active->counter) >= 0);
 	if (manager->active != NULL) {
+		assert(getInUse(&manager->active->counter) >= 0);
 
-		ResourceHandle* newHandlePointer;
-		fiftyoneDegreesResourceReplace(
-			manager,
-			NULL,
-			&newHandlePointer);
-		FreeAligned(newHandlePointer);
+		// Remove the active handle so that the resource is freed when its last
+		// user, which could be this method, releases it.
+		ResourceHandle* handle = ResourceHandleIncUse(manager);
+		manager->active = NULL;
+		ResourceHandleDecUse(handle);
 	}
 }
 
-- 
2.43.0


From fbf6c927223b4339e1f984cdf5d53cdbfb761e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:37 +0000
Subject: [PATCH 42/87] fix: try again when another thread replaced the
 resource first

---
 resource.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resource.c b/resource.c
index f78e6dc..62b3e09 100644
--- a/resource.c
+++ b/resource.c
@@ -351,7 +351,7 @@ void fiftyoneDegreesResourceReplace(
 	} while (INTERLOCK_EXCHANGE_PTR(
 		manager->active,
 		*newResourceHandle,
-		oldHandle) == false);
+		oldHandle) != oldHandle);
 #else
 	oldHandle = ResourceHandleIncUse(manager);
 	manager->active = *newResourceHandle;
-- 
2.43.0


From e17f6e540af93523fc286ce3f341730558b1ab95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:02 +0000
Subject: [PATCH 43/87] fix: refuse to advance past the end of memory without
 moving

---
 memory.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/memory.c b/memory.c
index 50ba167..5bb79f4 100644
--- a/memory.c
+++ b/memory.c
@@ -60,10 +60,11 @@ bool fiftyoneDegreesMemoryAdvance(
 	if (reader == NULL || reader->current == NULL) {
 		return false;
 	}
-	reader->current += advanceBy;
-	if (reader->current > reader->lastByte) {
+	if (reader->current > reader->lastByte ||
+		advanceBy > (size_t)(reader->lastByte - reader->current)) {
 		return false;
 	}
+	reader->current += advanceBy;
 	return true;
 }
 
-- 
2.43.0


From d6265414c4ea0de205a994b0e4db5d2a2ebaeb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:02 +0000
Subject: [PATCH 44/87] fix: round aligned allocations up to a multiple of the
 alignment

---
 memory.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/memory.c b/memory.c
index 5bb79f4..5e0c23e 100644
--- a/memory.c
+++ b/memory.c
@@ -72,8 +72,18 @@ void* fiftyoneDegreesMemoryStandardMalloc(size_t size) {
 	return malloc(size);
 }
 
+static size_t getAlignedSize(int alignment, size_t size) {
+	size_t remainder = size % alignment;
+	return remainder == 0 ? size : size + (alignment - remainder);
+}
+
 void* fiftyoneDegreesMemoryStandardMallocAligned(int alignment, size_t size) {
-	size += size % alignment;
+	size_t requested = size;
+	size = getAlignedSize(alignment, size);
+	if (size < requested) {
+		// No memory can be that large.
+		return NULL;
+	}
 #if defined( _MSC_VER) || defined(__MINGW32__) || defined(__MINGW64__)
 	return _aligned_malloc(size, alignment);
 #elif defined (__APPLE__)
@@ -195,7 +205,7 @@ void* fiftyoneDegreesMemoryTrackingMallocAligned(
 		size);
 
 	// Track the allocation.
-	trackAllocation(pointer, size + size % alignment);
+	trackAllocation(pointer, getAlignedSize(alignment, size));
 	return pointer;
 }
 
-- 
2.43.0


From 847251632e2c323d87a4d1df74889f18820898e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:02 +0000
Subject: [PATCH 45/87] fix: do not track memory that could not be allocated

---
 memory.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/memory.c b/memory.c
index 5e0c23e..9f5b6be 100644
--- a/memory.c
+++ b/memory.c
@@ -118,11 +118,13 @@ static void tryInit() {
 	}
 }
 
-static void trackAllocation(void* pointer, size_t size) {
+static bool trackAllocation(void* pointer, size_t size) {
 	// Create a new tree node to record the allocation.
 	allocation* record = (allocation*)malloc(sizeof(allocation));
 	int shard = getShardFromPointer(pointer);
-	assert(record != NULL);
+	if (record == NULL) {
+		return false;
+	}
 	assert(shard < FIFTYONE_DEGREES_MEMORY_TRACKER_SHARDS);
 	fiftyoneDegreesTreeNodeInit(&record->tree, &state.roots[shard]);
 #ifdef __GNUC__
@@ -156,10 +158,14 @@ static void trackAllocation(void* pointer, size_t size) {
 	FIFTYONE_DEGREES_MUTEX_UNLOCK(&state.lock);
 #endif
 
+	return true;
 }
 
 static void untrackAllocation(void *pointer) {
 	uint32_t size;
+	if (pointer == NULL) {
+		return;
+	}
 	int shard = getShardFromPointer(pointer);
 
 	// Get the size of the memory being freed and free the tracking memory.
@@ -205,7 +211,11 @@ void* fiftyoneDegreesMemoryTrackingMallocAligned(
 		size);
 
 	// Track the allocation.
-	trackAllocation(pointer, getAlignedSize(alignment, size));
+	if (pointer != NULL &&
+		trackAllocation(pointer, getAlignedSize(alignment, size)) == false) {
+		MemoryStandardFreeAligned(pointer);
+		pointer = NULL;
+	}
 	return pointer;
 }
 
@@ -218,7 +228,10 @@ void* fiftyoneDegreesMemoryTrackingMalloc(size_t size) {
 	void* pointer = MemoryStandardMalloc(size);
 
 	// Track the allocation.
-	trackAllocation(pointer, size);
+	if (pointer != NULL && trackAllocation(pointer, size) == false) {
+		MemoryStandardFree(pointer);
+		pointer = NULL;
+	}
 	return pointer;
 }
 
-- 
2.43.0


From dca9e6edf2230c34fa5eddc3be1a917807906ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:02 +0000
Subject: [PATCH 46/87] fix: track the whole size of allocations over 4 GB

---
 memory.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/memory.c b/memory.c
index 9f5b6be..49ff77a 100644
--- a/memory.c
+++ b/memory.c
@@ -39,7 +39,7 @@ static bool initialised = false;
 
 typedef struct memory_allocation_t {
 	fiftyoneDegreesTreeNode tree; /* Tree node data structure */
-	uint32_t size; /* The amount of memory allocated at pointer */
+	size_t size; /* The amount of memory allocated at pointer */
 } allocation;
 
 typedef struct memory_allocation_tree_t {
@@ -135,7 +135,7 @@ static bool trackAllocation(void* pointer, size_t size) {
 #ifdef __GNUC__
 #pragma GCC diagnostic pop
 #endif
-	record->size = (uint32_t)size;
+	record->size = size;
 
 	// Update the tracking tree with the new allocation.
 #ifndef FIFTYONE_DEGREES_NO_THREADING
@@ -162,7 +162,7 @@ static bool trackAllocation(void* pointer, size_t size) {
 }
 
 static void untrackAllocation(void *pointer) {
-	uint32_t size;
+	size_t size;
 	if (pointer == NULL) {
 		return;
 	}
-- 
2.43.0


From 174ae2fa3f6e0acd7142347f53368cbfa7432ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:02 +0000
Subject: [PATCH 47/87] fix: forget tracked memory when tracking is reset

---
 memory.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/memory.c b/memory.c
index 49ff77a..df62874 100644
--- a/memory.c
+++ b/memory.c
@@ -182,9 +182,14 @@ static void untrackAllocation(void *pointer) {
 #ifdef __GNUC__
 #pragma GCC diagnostic pop
 #endif
-	assert(record != NULL);
-	size = record->size;
-	fiftyoneDegreesTreeDelete(&record->tree);
+	if (record != NULL) {
+		size = record->size;
+		fiftyoneDegreesTreeDelete(&record->tree);
+	}
+	else {
+		// Allocated before tracking was last reset so is not being counted.
+		size = 0;
+	}
 #ifndef FIFTYONE_DEGREES_NO_THREADING
 	FIFTYONE_DEGREES_MUTEX_UNLOCK(&state.locks[shard]);
 #endif
@@ -280,6 +285,22 @@ void fiftyoneDegreesMemoryTrackingReset() {
 		FIFTYONE_DEGREES_MUTEX_CREATE(state.lock);
 #endif
 	}
+	else {
+		// Stop tracking the memory which was allocated before the reset.
+		for (i = 0; i < FIFTYONE_DEGREES_MEMORY_TRACKER_SHARDS; i++) {
+#ifndef FIFTYONE_DEGREES_NO_THREADING
+			FIFTYONE_DEGREES_MUTEX_LOCK(&state.locks[i]);
+#endif
+			while (state.roots[i].root.left != &state.roots[i].empty) {
+				allocation *record = (allocation*)state.roots[i].root.left;
+				fiftyoneDegreesTreeDelete(&record->tree);
+				free(record);
+			}
+#ifndef FIFTYONE_DEGREES_NO_THREADING
+			FIFTYONE_DEGREES_MUTEX_UNLOCK(&state.locks[i]);
+#endif
+		}
+	}
 	state.allocated = 0;
 	state.max = 0;
 	initialised = true;
-- 
2.43.0


From eccf98868eedd27008d334d79b7f4c2b6d0c0359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:02 +0000
Subject: [PATCH 48/87] fix: define the aligned allocator when tracking is
 enabled

---
 memory.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memory.c b/memory.c
index df62874..d6af95d 100644
--- a/memory.c
+++ b/memory.c
@@ -333,7 +333,7 @@ size_t fiftyoneDegreesUnsetMemoryTracking() {
 void *(FIFTYONE_DEGREES_CALL_CONV *fiftyoneDegreesMalloc)(size_t size) =
 fiftyoneDegreesMemoryTrackingMalloc;
 
-void* (FIFTYONE_DEGREES_CALL_CONV* fiftyoneDegreessMallocAligned)(
+void* (FIFTYONE_DEGREES_CALL_CONV* fiftyoneDegreesMallocAligned)(
 	int alignment,
 	size_t size) = fiftyoneDegreesMemoryTrackingMallocAligned;
 
-- 
2.43.0


From 301ebd3929986fbb64d3532e3f91d47b79da43b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:59 +0000
Subject: [PATCH 49/87] fix: sort and search properties with unavailable names
 safely

---
 properties.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/properties.c b/properties.c
index 4443158..a83763e 100644
--- a/properties.c
+++ b/properties.c
@@ -358,7 +358,10 @@ static int comparePropertyNamesAscending(const void *a, const void *b) {
 	PropertyAvailable *bi = (PropertyAvailable*)b;
 	const char *as = STRING(ai->name.data.ptr);
 	const char *bs = STRING(bi->name.data.ptr);
-	assert(as != NULL && bs != NULL);
+	if (as == NULL || bs == NULL) {
+		// A name could not be retrieved from the data source.
+		return (as != NULL) - (bs != NULL);
+	}
 	return _stricmp(as, bs);
 }
 
@@ -400,8 +403,8 @@ static void initRequiredProperties(
 
 static int comparePropertyNamesAscendingSearch(const void *a, const void *b) {
 	char *as = (char*)a;
-	char *bs = &((String*)((PropertyAvailable*)b)->name.data.ptr)->value;
-	return StringCompare(as, bs);
+	const char *bs = STRING(((PropertyAvailable*)b)->name.data.ptr);
+	return bs == NULL ? 1 : StringCompare(as, bs);
 }
 
 fiftyoneDegreesPropertiesAvailable* fiftyoneDegreesPropertiesCreate(
-- 
2.43.0


From caf92f0795f43fc6c043ebece0264dfc31166b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:36 +0000
Subject: [PATCH 50/87] fix: never add more properties than were counted

---
 properties.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properties.c b/properties.c
index a83763e..a91e8d5 100644
--- a/properties.c
+++ b/properties.c
@@ -109,7 +109,8 @@ static bool resultsContain(
 static void addRequiredProperty(
 	PropertiesAvailable *available,
 	uint32_t propertyIndex) {
-	if (resultsContain(available, propertyIndex) == false) {
+	if (available->count < available->capacity &&
+		resultsContain(available, propertyIndex) == false) {
 		available->items[available->count++].propertyIndex = propertyIndex;
 	}
 }
-- 
2.43.0


From fa5cf7cf305ec645118383042c4442e4388a690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:38 +0000
Subject: [PATCH 51/87] fix: search for property names with the comparison they
 are sorted by

---
 properties.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properties.c b/properties.c
index a91e8d5..75d5b6f 100644
--- a/properties.c
+++ b/properties.c
@@ -405,7 +405,7 @@ static void initRequiredProperties(
 static int comparePropertyNamesAscendingSearch(const void *a, const void *b) {
 	char *as = (char*)a;
 	const char *bs = STRING(((PropertyAvailable*)b)->name.data.ptr);
-	return bs == NULL ? 1 : StringCompare(as, bs);
+	return bs == NULL ? 1 : _stricmp(as, bs);
 }
 
 fiftyoneDegreesPropertiesAvailable* fiftyoneDegreesPropertiesCreate(
-- 
2.43.0


From ab8909c4b258a9cd89f1b34a55d316c3186a6c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:02 +0000
Subject: [PATCH 52/87] fix: only add evidence for headers with several parts,
 all with evidence, and within capacity

---
 pseudoheader.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pseudoheader.c b/pseudoheader.c
index c2f14ec..cff0cbc 100644
--- a/pseudoheader.c
+++ b/pseudoheader.c
@@ -81,21 +81,24 @@ static int constructPseudoEvidence(
     char* current = buffer;
     char* max = buffer + bufferSize;
 
-    // Use the segments from the header to construct the evidence.
+    // If there is no evidence value for one of the segments then the header
+    // can't be constructed so return.
     for (i = 0; i < header->segments->count; i++) {
-        
-        // Get the evidence for the segment.
         segment = &header->segments->items[i];
-        value = getEvidenceValueForHeader(segment, evidence, prefix);
-
-        // If there is no evidence value then the header can't be constructed
-        // so return.
-        if (value == NULL) {
+        if (getEvidenceValueForHeader(segment, evidence, prefix) == NULL) {
             if (bufferSize > 0) {
                 memset(buffer, '\0', 1);
             }
             return 0;
         }
+    }
+
+    // Use the segments from the header to construct the evidence.
+    for (i = 0; i < header->segments->count; i++) {
+        
+        // Get the evidence for the segment.
+        segment = &header->segments->items[i];
+        value = getEvidenceValueForHeader(segment, evidence, prefix);
 
         // If this is a subsequent segment value then add the separator.
         // make sure that we don't cause heap overflow by overwriting the terminating \0 (at position max - 1)
@@ -180,7 +183,9 @@ fiftyoneDegreesPseudoHeadersAddEvidence(
             i++) {
             header = &acceptedHeaders->items[i];
             // Only add evidence for pseudo header
-            if (HeadersIsPseudo(header->name)) {
+            if (header->segments->count > 1 &&
+                evidence->pseudoEvidence->count <
+                evidence->pseudoEvidence->capacity) {
                 // Prioritise the supplied evidence. If an evidence exists
                 // for a pseudo header then don't construct the evidence
                 // for it.
-- 
2.43.0


From 66a0c520bb2f73c1d4bc8366051baff0a1114061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:31 +0000
Subject: [PATCH 53/87] fix: one letter names can have the override prefix

---
 overrides.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/overrides.c b/overrides.c
index 675e84c..d231c6f 100644
--- a/overrides.c
+++ b/overrides.c
@@ -94,7 +94,7 @@ static bool startsWith(String *string, String *prefix) {
  */
 static const char* skipPrefix(bool prefixed, const char *field) {
 	char *result = (char*)field;
-	if (prefixed == true && strlen(result) > sizeof(OVERRIDE_PREFIX) &&
+	if (prefixed == true && strlen(result) >= sizeof(OVERRIDE_PREFIX) &&
 		StringCompareLength(
 			field,
 			OVERRIDE_PREFIX,
-- 
2.43.0


From 3fb6bcc2b45c97b15be5fdc74f92e8472fa0cd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:31 +0000
Subject: [PATCH 54/87] fix: adding an override reports whether it was added

---
 overrides.c | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/overrides.c b/overrides.c
index d231c6f..6715ff3 100644
--- a/overrides.c
+++ b/overrides.c
@@ -36,6 +36,7 @@ typedef struct add_state_t {
 									   overridden */
 	OverrideValueArray *values; /* Values from evidence to use when fetching
 								overridden properties */
+	uint32_t count; /* Number of values added */
 } addState;
 
 #ifdef _MSC_VER
@@ -134,7 +135,7 @@ bool fiftyoneDegreesOverridesAdd(
 	size_t length;
 	String *copy;
 	OverrideValue *override;
-	if (requiredPropertyIndex >= 0 && values->count < values->capacity) {
+	if (requiredPropertyIndex >= 0) {
 
 		// Set the override either as a new item, or override an existing
 		// one if there is already one with the same required property
@@ -144,8 +145,26 @@ bool fiftyoneDegreesOverridesAdd(
 			requiredPropertyIndex) {
 			currentOverrideIndex++;
 		}
+		if (currentOverrideIndex >= values->capacity) {
+			return false;
+		}
 		override = &values->items[currentOverrideIndex];
 
+		// Ensure there is sufficient memory for the string being copied.
+		length = strlen(value);
+		copy = (String*)fiftyoneDegreesDataMalloc(
+			&override->string,
+			sizeof(String) + length);
+		if (copy == NULL) {
+			// Without memory for its value there is no override.
+			if (currentOverrideIndex < values->count) {
+				values->count--;
+				*override = values->items[values->count];
+				DataReset(&values->items[values->count].string);
+			}
+			return false;
+		}
+
 		if (currentOverrideIndex == values->count) {
 			// Increment the override count and set the required property
 			// index.
@@ -153,19 +172,14 @@ bool fiftyoneDegreesOverridesAdd(
 			override->requiredPropertyIndex = requiredPropertyIndex;
 		}
 
-		// Ensure there is sufficient memory for the string being copied.
-		length = strlen(value);
-		copy = (String*)fiftyoneDegreesDataMalloc(
-			&override->string,
-			sizeof(String) + length);
-
 		// Copy the string from the evidence pair to the override data 
 		// item.
 		memcpy(&copy->value, value, length + 1);
 		copy->size = (int16_t)(length + 1);
+		return true;
 	}
 
-	return values->count < values->capacity;
+	return false;
 }
 
 
@@ -177,10 +191,13 @@ static bool addOverrideToResults(void *state, EvidenceKeyValuePair *pair) {
 		add->properties,
 		pair->field);
 
-	return fiftyoneDegreesOverridesAdd(
+	if (fiftyoneDegreesOverridesAdd(
 		add->values,
 		requiredPropertyIndex,
-		(const char*)pair->parsedValue);
+		(const char*)pair->parsedValue)) {
+		add->count++;
+	}
+	return true;
 }
 
 static uint32_t countOverridableProperties(
@@ -256,18 +273,18 @@ uint32_t fiftyoneDegreesOverridesExtractFromEvidence(
 	fiftyoneDegreesOverrideValueArray *values,
 	fiftyoneDegreesEvidenceKeyValuePairArray *evidence) {
 	addState state;
-	uint32_t count = 0;
+	state.count = 0;
 	if (properties != NULL && values != NULL) {
 		state.values = values;
 		state.properties = properties;
-		count = EvidenceIterate(
+		EvidenceIterate(
 			evidence,
 			FIFTYONE_DEGREES_EVIDENCE_COOKIE | 
 			FIFTYONE_DEGREES_EVIDENCE_QUERY,
 			&state,
 			addOverrideToResults);
 	}
-	return count;
+	return state.count;
 }
 
 fiftyoneDegreesString* fiftyoneDegreesOverrideValuesGetFirst(
-- 
2.43.0


From bccc8066fffb1704034f3fb333033b574c00f8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:31 +0000
Subject: [PATCH 55/87] fix: profile ids which are too large are not used

---
 overrides.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/overrides.c b/overrides.c
index 6715ff3..00741b7 100644
--- a/overrides.c
+++ b/overrides.c
@@ -422,9 +422,13 @@ void fiftyoneDegreesOverrideValuesReset(
 
 static void extractProfileId(char *value, overrideProfileIds *state) {
 	if (*value >= 0 && isdigit(*value) != 0) {
-		int profileId = atoi(value);
-		if (profileId >= 0) {
-			state->override(state->state, profileId);
+		uint64_t profileId = 0;
+		while (*value >= 0 && isdigit(*value) != 0 && profileId <= UINT32_MAX) {
+			profileId = profileId * 10 + (uint64_t)(*value - '0');
+			value++;
+		}
+		if (profileId <= UINT32_MAX) {
+			state->override(state->state, (uint32_t)profileId);
 		}
 	}
 }
-- 
2.43.0


From 5d82904f7e4a29bc2efd32ca493cc73bb80821fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:46 +0000
Subject: [PATCH 56/87] fix: keep a shared temporary file while it is used

---
 dataset.c  | 10 ++++++++--
 fiftyone.h |  1 +
 file.c     | 10 ++++++++++
 file.h     | 11 +++++++++++
 4 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/dataset.c b/dataset.c
index c0f0ec9..aca994d 100644
--- a/dataset.c
+++ b/dataset.c
@@ -94,9 +94,15 @@ void fiftyoneDegreesDataSetFree(fiftyoneDegreesDataSetBase *dataSet) {
 		dataSet->memoryToFree = NULL;
 	}
 
-	// Delete the temp file if one was used.
+	// Delete the temp file if one was used. If it can be shared with other
+	// data sets then the last one to use it deletes it.
 	if (CONFIG(dataSet)->useTempFile == true) {
-		FileDelete(dataSet->fileName);
+		if (CONFIG(dataSet)->reuseTempFile == true) {
+			FileDeleteUnused(dataSet->fileName);
+		}
+		else {
+			FileDelete(dataSet->fileName);
+		}
 	}
 }
 
diff --git a/fiftyone.h b/fiftyone.h
index 9c73768..c698ae1 100644
--- a/fiftyone.h
+++ b/fiftyone.h
@@ -242,6 +242,7 @@ MAP_TYPE(KeyValuePair)
 #define PropertiesFree fiftyoneDegreesPropertiesFree /**< Synonym for #fiftyoneDegreesPropertiesFree function. */
 #define FilePoolRelease fiftyoneDegreesFilePoolRelease /**< Synonym for #fiftyoneDegreesFilePoolRelease function. */
 #define FileDelete fiftyoneDegreesFileDelete /**< Synonym for #fiftyoneDegreesFileDelete function. */
+#define FileDeleteUnused fiftyoneDegreesFileDeleteUnused /**< Synonym for #fiftyoneDegreesFileDeleteUnused function. */
 #define FilePoolReset fiftyoneDegreesFilePoolReset /**< Synonym for #fiftyoneDegreesFilePoolReset function. */
 #define PropertiesCreate fiftyoneDegreesPropertiesCreate /**< Synonym for #fiftyoneDegreesPropertiesCreate function. */
 #define HeadersIsPseudo fiftyoneDegreesHeadersIsPseudo /**< Synonym for #fiftyoneDegreesHeadersIsPseudo function. */
diff --git a/file.c b/file.c
index 1faed3a..caac94d 100644
--- a/file.c
+++ b/file.c
@@ -1070,6 +1070,16 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileDelete(const char *fileName) {
 	return SUCCESS;
 }
 
+fiftyoneDegreesStatusCode fiftyoneDegreesFileDeleteUnused(
+	const char *fileName) {
+#ifdef __linux__
+	if (fileExists(fileName) && isFileInUse(fileName)) {
+		return FILE_BUSY;
+	}
+#endif
+	return FileDelete(fileName);
+}
+
 fiftyoneDegreesStatusCode fiftyoneDegreesFileCopy(
 	const char *source,
 	const char *destination) {
diff --git a/file.h b/file.h
index 089be95..882ba2e 100644
--- a/file.h
+++ b/file.h
@@ -281,6 +281,17 @@ EXTERNAL fiftyoneDegreesStatusCode fiftyoneDegreesFileCopy(
 EXTERNAL fiftyoneDegreesStatusCode fiftyoneDegreesFileDelete(
 	const char *fileName);
 
+/**
+ * Delete a file from the file system unless it is in use. Where the platform
+ * itself prevents files which are in use from being deleted this is the same
+ * as #fiftyoneDegreesFileDelete.
+ * @param fileName path to the file to be deleted
+ * @return the result of the delete operation, FIFTYONE_DEGREES_STATUS_FILE_BUSY
+ * if the file is in use
+ */
+EXTERNAL fiftyoneDegreesStatusCode fiftyoneDegreesFileDeleteUnused(
+	const char *fileName);
+
 /**
  * Creates a directory with the specified path, and returns the result of the
  * operation. intermediate directories will not be created.
-- 
2.43.0


From af5cca6e792802f92e1923037123fae11148eb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:46 +0000
Subject: [PATCH 57/87] fix: free all of a data set which can not replace
 another

---
 dataset.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dataset.c b/dataset.c
index aca994d..864cc6e 100644
--- a/dataset.c
+++ b/dataset.c
@@ -40,8 +40,7 @@ static StatusCode replace(
 	// Switch the active data set for the new one.
 	ResourceReplace(manager, replacement, &replacement->handle);
 	if (replacement->handle == NULL) {
-		DataSetFree(replacement);
-		Free(replacement);
+		manager->active->freeResource(replacement);
 		return INSUFFICIENT_MEMORY;
 	}
 
-- 
2.43.0


From d85982d8e2e5b46a229fa751964920e77f6c3966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:40 +0000
Subject: [PATCH 58/87] fix: do not add more headers than were counted

---
 headers.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/headers.c b/headers.c
index 50fd29f..ac303ec 100644
--- a/headers.c
+++ b/headers.c
@@ -278,8 +278,10 @@ static bool addHeadersFromDataSet(
 			countHeaderSegments(name) > 0 &&
 			getHeaderIndex(headers, name, nameLength) < 0) {
 
-			// Set the next header from the data set name item.
-			if (setHeaderFromDataSet(
+			// Set the next header from the data set name item. There might
+			// not be space for it if some could not be read when counting.
+			if (headers->count >= headers->capacity ||
+				setHeaderFromDataSet(
 				&headers->items[headers->count],
 				name,
 				nameLength,
@@ -316,7 +318,8 @@ static bool addHeadersFromSegments(HeaderArray* headers) {
 			segment = &header->segments->items[s];
 			existing = getHeader(headers, segment->segment, segment->length);
 			if (existing == NULL) {
-				if (setHeaderFromSegment(
+				if (headers->count >= headers->capacity ||
+					setHeaderFromSegment(
 					&headers->items[headers->count],
 					segment) == false) {
 					return false;
-- 
2.43.0


From a1c211217c86daa9597440496dbec8b16a95f1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:32 +0000
Subject: [PATCH 59/87] fix: keep yaml pairs within the array provided

---
 yamlfile.c | 55 ++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/yamlfile.c b/yamlfile.c
index 6a5933c..ecc172c 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -29,7 +29,7 @@ const size_t CONTROL_LENGTH = 3;
 typedef struct pair_state_t {
 	KeyValuePair* pairs; // array of key value evidence pairs
 	uint16_t size; // total available keyValuePairs
-	int16_t index; // current index being populated in the keyValuePairs
+	int32_t index; // current index being populated in the keyValuePairs
 	char* current; // current pointer to character in the pair
 	char* end; // last pointer that is valid
 } PairState;
@@ -82,32 +82,66 @@ static char* readNext(FileState* fileState) {
 	return fileState->current;
 }
 
-// Sets the current and end pointers to the current key.
+// True if there is a pair available for the current index.
+static bool hasPair(PairState* state) {
+	return state->index >= 0 && state->index < (int32_t)state->size;
+}
+
+// Ensures that nothing is written until the next pair that is available.
+static void setCurrentNone(PairState* state) {
+	state->current = NULL;
+	state->end = NULL;
+}
+
+// Sets the current and end pointers to the current key. The value is empty
+// until there is one.
 static void setCurrentKey(PairState* state) {
-	KeyValuePair* current = state->pairs + state->index;
+	KeyValuePair* current;
+	if (hasPair(state) == false) {
+		setCurrentNone(state);
+		return;
+	}
+	current = state->pairs + state->index;
+	*current->value = '\0';
 	state->current = current->key;
 	state->end = current->key + current->keyLength - 1;
 }
 
 // Sets the current and end pointers to the current value.
 static void setCurrentValue(PairState* state) {
-	KeyValuePair* current = state->pairs + state->index;
+	KeyValuePair* current;
+	if (hasPair(state) == false) {
+		setCurrentNone(state);
+		return;
+	}
+	current = state->pairs + state->index;
 	state->current = current->value;
 	state->end = current->value + current->valueLength - 1;
 }
 
+// Null terminates the current string being written.
+static void terminate(PairState* state) {
+	if (state->current != NULL) {
+		*state->current = '\0';
+	}
+}
+
 // Switches from writing to the current key to the current value. Ensures that
 // the current string being written is null terminated.
 static void switchKeyValue(PairState* state) {
-	*state->current = '\0';
+	terminate(state);
 	setCurrentValue(state);
 }
 
 // Advances to the next key value pair. Ensures that the current string being 
 // written is null terminated.
 static void nextPair(PairState* state) {
-	*state->current = '\0';
-	state->index++;
+	terminate(state);
+
+	// There can be more pairs in the document than are available.
+	if (state->index < (int32_t)state->size) {
+		state->index++;
+	}
 	setCurrentKey(state);
 }
 
@@ -124,6 +158,7 @@ static void newLine(FileState* state) {
 // Sets the pairs for a new document.
 static void newDocument(PairState* state) {
 	state->index = -1;
+	setCurrentNone(state);
 }
 
 // Move the character position along by one.
@@ -143,7 +178,6 @@ static void addCharacter(
 	FileState* fileState, 
 	char* current) {
 	if (pairState->current < pairState->end &&
-		pairState->index < pairState->size &&
 		isValue(fileState)) {
 		*pairState->current = *current;
 		pairState->current++;
@@ -185,8 +219,9 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 		keyValuePairs,
 		collectionSize,
 		0,
-		keyValuePairs[0].key,
-		keyValuePairs[0].key + keyValuePairs[0].keyLength - 1 };
+		NULL,
+		NULL };
+	setCurrentKey(&pairState);
 
 	// If there is no limit then set the limit to the largest value to 
 	// avoid checking for negative values in the loop.
-- 
2.43.0


From 8c110304057c918fcb5f6345f852cbefdd3674c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:32 +0000
Subject: [PATCH 60/87] fix: a yaml value can be a lone quote

---
 yamlfile.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yamlfile.c b/yamlfile.c
index ecc172c..64c9023 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -239,6 +239,9 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 				// If there was a quote earlier in the string and the last one
 				// is also a quote then remove the last quote.
 				if (fileState.quote > 0 && 
+					hasPair(&pairState) &&
+					pairState.current > 
+						keyValuePairs[pairState.index].value &&
 					*(pairState.current - 1) == '\'') {
 					pairState.current--;
 				}
-- 
2.43.0


From 4c6c3e14b7924ce874f32a0d1e18b921ad3191b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:32 +0000
Subject: [PATCH 61/87] fix: empty lines at the start of a yaml file are not a
 pair

---
 yamlfile.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/yamlfile.c b/yamlfile.c
index 64c9023..eac88b1 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -205,15 +205,17 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 		handle, 
 		buffer, 
 		length,
-		// Set the end and current to 0 to force the next block to be read.
-		0,
-		0,
+		// Set the end and current to the same character to force the next
+		// block to be read.
+		buffer,
+		buffer,
 		0, 
 		0,
+		// The file starts with a new line.
+		1,
 		0,
 		0,
-		0,
-		false };
+		0 };
 
 	PairState pairState = {
 		keyValuePairs,
-- 
2.43.0


From 1f505fdb5d1c9cfbddce89b397b096518ac9576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:32 +0000
Subject: [PATCH 62/87] fix: a limit of no yaml documents is respected

---
 yamlfile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yamlfile.c b/yamlfile.c
index eac88b1..da091e6 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -230,6 +230,10 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 	if (limit < 0) {
 		limit = INT_MAX;
 	}
+	if (limit == 0) {
+		fclose(handle);
+		return status;
+	}
 
 	while (true) {
 		current = readNext(&fileState);
-- 
2.43.0


From f92eb222db5bb96a5c578f308e97825dff2bbbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:32 +0000
Subject: [PATCH 63/87] fix: report yaml read failures

---
 yamlfile.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/yamlfile.c b/yamlfile.c
index da091e6..26d0774 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -55,12 +55,12 @@ static StatusCode readNextBlock(FileState* fileState) {
 		sizeof(char),
 		fileState->bufferLength,
 		fileState->handle);
-	if (bytesRead == 0 && !feof(fileState->handle)) {
-		status = INSUFFICIENT_MEMORY;
-	}
-	else if (ferror(fileState->handle)) {
+	if (ferror(fileState->handle)) {
 		status = FILE_READ_ERROR;
 	}
+	else if (bytesRead == 0 && !feof(fileState->handle)) {
+		status = INSUFFICIENT_MEMORY;
+	}
 	else if (bytesRead == 0) {
 		status = FILE_END_OF_FILE;
 	}
@@ -70,12 +70,16 @@ static StatusCode readNextBlock(FileState* fileState) {
 }
 
 // Read the next character or null if there are no more characters to be read.
-static char* readNext(FileState* fileState) {
-	StatusCode status = SUCCESS;
+// The status is only changed if the characters could not be read.
+static char* readNext(FileState* fileState, StatusCode* status) {
+	StatusCode nextStatus;
 	fileState->current++;
 	if (fileState->current > fileState->end) {
-		status = readNextBlock(fileState);
-		if (status != SUCCESS) {
+		nextStatus = readNextBlock(fileState);
+		if (nextStatus != SUCCESS) {
+			if (nextStatus != FILE_END_OF_FILE) {
+				*status = nextStatus;
+			}
 			return NULL;
 		}
 	}
@@ -236,7 +240,10 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 	}
 
 	while (true) {
-		current = readNext(&fileState);
+		current = readNext(&fileState, &status);
+		if (status != SUCCESS) {
+			break;
+		}
 
 		// If EOF or the first new line then move to the next pair.
 		if (!current || *current == '\n' || *current == '\r') {
-- 
2.43.0


From c63e06542bbaa78ee1058a473666f9a95a321a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:11 +0000
Subject: [PATCH 64/87] fix: yaml keys can start with dots

---
 yamlfile.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/yamlfile.c b/yamlfile.c
index 26d0774..21f3671 100644
--- a/yamlfile.c
+++ b/yamlfile.c
@@ -188,6 +188,18 @@ static void addCharacter(
 	}
 }
 
+// Adds the dots at the start of the line which turned out to be the start of a
+// key and not the end of the documents.
+static void addDots(PairState* pairState, FileState* fileState) {
+	size_t i;
+	char dot = '.';
+	if (fileState->position == fileState->dotCount) {
+		for (i = 0; i < fileState->dotCount; i++) {
+			addCharacter(pairState, fileState, &dot);
+		}
+	}
+}
+
 StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 	const char* fileName,
 	char* buffer,
@@ -307,6 +319,7 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 		// If the first colon then switch adding from the key to the value.
 		// Record the colon having been passed.
 		else if (*current == ':' && fileState.colon == 0) {
+			addDots(&pairState, &fileState);
 			advance(&fileState);
 			switchKeyValue(&pairState);
 			fileState.colon = fileState.position;
@@ -327,6 +340,7 @@ StatusCode fiftyoneDegreesYamlFileIterateWithLimit(
 		// Not a control character just add to the current key or value if
 		// there is space remaining.
 		else {
+			addDots(&pairState, &fileState);
 			advance(&fileState);
 			addCharacter(&pairState, &fileState, current);
 		}
-- 
2.43.0


From f105fbdb35a7d20e043d7b8b16b09ef6690b0bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:19 +0000
Subject: [PATCH 65/87] fix: A status message that cannot be allocated is
 reported as none, and any status code fits in the default text

---
 status.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/status.c b/status.c
index 8ba7735..df810a8 100644
--- a/status.c
+++ b/status.c
@@ -149,13 +149,16 @@ const char* fiftyoneDegreesStatusGetMessage(
 			if (message != NULL) {
 				Snprintf(message, messageSize, current->message, fileName);
 			}
-			break;
+			return message;
 		}
 	}
 	if( message == NULL) {
-		messageSize = sizeof(defaultMessage) + 5;
+		// message + any integer + '\0' - "%i"
+		messageSize = sizeof(defaultMessage) + 9;
 		message = (char*)Malloc(messageSize);
-		Snprintf(message, messageSize, defaultMessage, (int)status);
+		if (message != NULL) {
+			Snprintf(message, messageSize, defaultMessage, (int)status);
+		}
 	}
 	return message;
 }
\ No newline at end of file
-- 
2.43.0


From 9490ed70e749b5d822a62be5bd2d94253b146d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:19 +0000
Subject: [PATCH 66/87] fix: An exception message is complete when the source
 or function is not known, and none when out of memory

---
 exceptionsc.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/exceptionsc.c b/exceptionsc.c
index ad5db21..f05dab2 100644
--- a/exceptionsc.c
+++ b/exceptionsc.c
@@ -34,24 +34,28 @@ const char* fiftyoneDegreesExceptionGetMessage(
 		"Line:     %d\r\n";
 	size_t length;
 	char *exceptionMessage = NULL;
+	const char *file = exception->file != NULL ? exception->file : "";
+	const char *func = exception->func != NULL ? exception->func : "";
 	const char *statusMessage = StatusGetMessage(
 		exception->status,
 		NULL);
 	if (statusMessage != NULL) {
 		length = strlen(format);
 		length += strlen(statusMessage);
-		length += exception->file != NULL ? strlen(exception->file) : 0;
-		length += exception->func != NULL ? strlen(exception->func) : 0;
+		length += strlen(file);
+		length += strlen(func);
 		length += 10; // add 10 for line number
 		exceptionMessage = (char*)Malloc(length);
-		Snprintf(
-			exceptionMessage,
-			length,
-			format,
-			statusMessage,
-			exception->file,
-			exception->func,
-			exception->line);
+		if (exceptionMessage != NULL) {
+			Snprintf(
+				exceptionMessage,
+				length,
+				format,
+				statusMessage,
+				file,
+				func,
+				exception->line);
+		}
 		Free((void*)statusMessage);
 	}
 	return exceptionMessage;
-- 
2.43.0


From d619dec8e357b446edd4504be3ae63f5fbbb47a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:19 +0000
Subject: [PATCH 67/87] fix: The busy file status has a message of its own

---
 status.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/status.c b/status.c
index df810a8..1ba4658 100644
--- a/status.c
+++ b/status.c
@@ -43,6 +43,8 @@ static StatusMessage messages[] = {
 	{ FILE_NOT_FOUND,
 		"The data file '%s' could not be found. Check the file path and that "
 		"the program has sufficient read permissions." },
+	{ FILE_BUSY,
+		"The data file '%s' is in use." },
 	{ FILE_FAILURE,
 		"An unknown error occurred accessing the file '%s'. Check the file "
 		"path and that the program has sufficient read permissions." },
-- 
2.43.0


From c5e9dd4c43a0c11cbaf1a10e85e75b0d16961b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:19 +0000
Subject: [PATCH 68/87] fix: C++ exceptions always carry a status code

---
 Exceptions.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Exceptions.cpp b/Exceptions.cpp
index fd9d9e0..1fa8e9e 100644
--- a/Exceptions.cpp
+++ b/Exceptions.cpp
@@ -25,26 +25,26 @@
 
 using namespace FiftyoneDegrees::Common;
 
-StatusCodeException::StatusCodeException() {}
+StatusCodeException::StatusCodeException()
+	: exception(), statusCode(NOT_SET) {
+}
 
 StatusCodeException::StatusCodeException(
-	fiftyoneDegreesStatusCode code) : exception() {
+	fiftyoneDegreesStatusCode code) : exception(), statusCode(code) {
 	const char *statusMessage = StatusGetMessage(code, nullptr);
 	if (statusMessage != nullptr) {
 		message.append(statusMessage);
 		Free((void*)statusMessage);
-		this->statusCode = code;
 	}
 }
 
 StatusCodeException::StatusCodeException(
 	fiftyoneDegreesStatusCode code,
-	const char *fileName) : exception() {
+	const char *fileName) : exception(), statusCode(code) {
 	const char *statusMessage = StatusGetMessage(code, fileName);
 	if (statusMessage != nullptr) {
 		message.append(statusMessage);
 		Free((void*)statusMessage);
-		this->statusCode = code;
 	}
 }
 StatusCodeException::~StatusCodeException() {}
@@ -59,6 +59,7 @@ fiftyoneDegreesStatusCode StatusCodeException::getCode() const noexcept {
 
 FatalException::FatalException(
 	fiftyoneDegreesException *exception) : StatusCodeException() {
+	statusCode = exception->status;
 	const char *exceptionMessage = ExceptionGetMessage(exception);
 	if (exceptionMessage != nullptr) {
 		message.append(exceptionMessage);
-- 
2.43.0


From a5723353f6ecb137d3f8be4f5b0eb6bda3935b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:51 +0000
Subject: [PATCH 69/87] fix: The message explaining a missing value is kept
 whatever the reason

---
 Value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Value.hpp b/Value.hpp
index d2e5859..7e0bc13 100644
--- a/Value.hpp
+++ b/Value.hpp
@@ -147,7 +147,7 @@ namespace FiftyoneDegrees {
 					case FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_UNKNOWN:
 						throw NoValuesAvailableException(noValueMessage);
 					default:
-						throw NoValuesAvailableException();
+						throw NoValuesAvailableException(noValueMessage);
 					}
 				}
 			}
-- 
2.43.0


From 249beb4925f95489af12f9d31e3d650263ce5d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:51 +0000
Subject: [PATCH 70/87] fix: A value for which a reason is set to have none has
 no value

---
 Value.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Value.hpp b/Value.hpp
index 7e0bc13..7112a39 100644
--- a/Value.hpp
+++ b/Value.hpp
@@ -174,6 +174,7 @@ namespace FiftyoneDegrees {
 				const char *message) {
 				this->noValueReason = reason;
 				this->noValueMessage = message;
+				this->hasValueInternal = false;
 			}
 
 			/**
-- 
2.43.0


From 5fbf8bac62df17619535b5f3b2d85deb543b0631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:22 +0000
Subject: [PATCH 71/87] fix: Asking a required properties configuration about
 its properties does not alter them

---
 RequiredPropertiesConfig.cpp | 42 +++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/RequiredPropertiesConfig.cpp b/RequiredPropertiesConfig.cpp
index 3e7c1c2..4238c23 100644
--- a/RequiredPropertiesConfig.cpp
+++ b/RequiredPropertiesConfig.cpp
@@ -29,11 +29,27 @@ using namespace FiftyoneDegrees::Common;
 #ifdef _MSC_FULL_VER
 #include <string.h>
 #else
+#include <string.h>
 #include <strings.h>
 #define _stricmp strcasecmp
 #define _strnicmp strncasecmp
 #endif
 
+// The separators between property names are those of properties.c.
+static vector<string> splitProperties(const char *properties) {
+	const char separators[] = "|, ";
+	vector<string> result;
+	size_t length;
+	const char *current = properties + strspn(properties, separators);
+	while (*current != '\0') {
+		length = strcspn(current, separators);
+		result.push_back(string(current, length));
+		current += length;
+		current += strspn(current, separators);
+	}
+	return result;
+}
+
 RequiredPropertiesConfig::RequiredPropertiesConfig() {
 	conf.count = 0;
 	conf.array = nullptr;
@@ -90,7 +106,6 @@ RequiredPropertiesConfig::~RequiredPropertiesConfig() {
 
 vector<string> RequiredPropertiesConfig::getProperties() const {
 	int i;
-	char *current;
 	vector<string> result;
 	if (conf.array != nullptr) {
 		for (i = 0; i < conf.count; i++) {
@@ -98,11 +113,7 @@ vector<string> RequiredPropertiesConfig::getProperties() const {
 		}
 	}
 	else if (conf.string != nullptr) {
-		current = strtok((char*)conf.string, ",");
-		while (current != NULL) {
-			result.insert(result.end(), current);
-			current = strtok(NULL, ",");
-		}
+		result = splitProperties(conf.string);
 	}
 	return result;
 }
@@ -110,7 +121,6 @@ vector<string> RequiredPropertiesConfig::getProperties() const {
 bool RequiredPropertiesConfig::containsProperty(
 	const char *property) const {
 	int i;
-	char *current;
 	if (conf.array != nullptr) {
 		for (i = 0; i < conf.count; i++) {
 			if (_stricmp(property, conf.array[i]) == 0) {
@@ -119,12 +129,10 @@ bool RequiredPropertiesConfig::containsProperty(
 		}
 	}
 	else if (conf.string != nullptr) {
-		current = strtok((char*)conf.string, ",");
-		while (current != NULL) {
-			if (_stricmp(property, current) == 0) {
+		for (const string &current : splitProperties(conf.string)) {
+			if (_stricmp(property, current.c_str()) == 0) {
 				return true;
 			}
-			current = strtok(NULL, ",");
 		}
 	}
 	return false;
@@ -136,21 +144,11 @@ bool RequiredPropertiesConfig::containsProperty(
 }
 
 int RequiredPropertiesConfig::getCount() const {
-	int count;
-	char *current;
 	if (conf.array != nullptr) {
 		return conf.count;
 	}
 	else if (conf.string != nullptr) {
-		count = 0;
-		current = (char*)conf.string;
-		while (*current != '\0') {
-			if (*current == ',') {
-				count++;
-			}
-			current++;
-		}
-		return count;
+		return (int)splitProperties(conf.string).size();
 	}
 	return 0;
 }
-- 
2.43.0


From b7215b370ae1dd85fa89c44188da94851582725d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:22 +0000
Subject: [PATCH 72/87] fix: Setting the temporary directories again frees the
 previous list

---
 ConfigBase.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ConfigBase.cpp b/ConfigBase.cpp
index 1b827c0..c0688fa 100644
--- a/ConfigBase.cpp
+++ b/ConfigBase.cpp
@@ -48,6 +48,7 @@ void ConfigBase::setReuseTempFile(bool reuse) {
 
 void ConfigBase::setTempDirectories(
 	vector<string> newTempDirs) {
+	freeTempDirectories();
 	this->tempDirs = newTempDirs;
 	mapTempDirectories();
 }
@@ -81,9 +82,12 @@ void ConfigBase::freeTempDirectories() {
 }
 
 void ConfigBase::mapTempDirectories() {
-	config->tempDirCount = (int)tempDirs.size();
 	config->tempDirs = (const char**)Malloc(
-		config->tempDirCount * sizeof(const char*));
+		tempDirs.size() * sizeof(const char*));
+	if (config->tempDirs == NULL && tempDirs.empty() == false) {
+		throw StatusCodeException(INSUFFICIENT_MEMORY);
+	}
+	config->tempDirCount = (int)tempDirs.size();
 	for (int i = 0; i < config->tempDirCount; i++) {
 		config->tempDirs[i] = tempDirs.at(i).c_str();
 	}
-- 
2.43.0


From 704c4acb5fd37e446a46a1464600a816dab6dd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:22 +0000
Subject: [PATCH 73/87] fix: Copies of required properties and evidence own
 their memory

---
 EvidenceBase.cpp             | 16 ++++++++++++++++
 EvidenceBase.hpp             | 14 ++++++++++++++
 RequiredPropertiesConfig.cpp | 23 +++++++++++++++++++++++
 RequiredPropertiesConfig.hpp | 13 +++++++++++++
 4 files changed, 66 insertions(+)

diff --git a/EvidenceBase.cpp b/EvidenceBase.cpp
index 2d213dd..84a88eb 100644
--- a/EvidenceBase.cpp
+++ b/EvidenceBase.cpp
@@ -30,6 +30,22 @@ EvidenceBase::EvidenceBase() {
 	evidence = NULL;
 }
 
+EvidenceBase::EvidenceBase(const EvidenceBase &other)
+	: map<string, string>(other) {
+	evidence = NULL;
+}
+
+EvidenceBase& EvidenceBase::operator=(const EvidenceBase &other) {
+	if (this != &other) {
+		map<string, string>::operator=(other);
+		if (evidence != NULL) {
+			EvidenceFree(evidence);
+			evidence = NULL;
+		}
+	}
+	return *this;
+}
+
 EvidenceBase::~EvidenceBase() {
 	if (evidence != NULL) {
 		EvidenceFree(evidence);
diff --git a/EvidenceBase.hpp b/EvidenceBase.hpp
index 3dd7c5c..b871441 100644
--- a/EvidenceBase.hpp
+++ b/EvidenceBase.hpp
@@ -76,6 +76,20 @@ namespace FiftyoneDegrees {
 			 */
 			EvidenceBase();
 
+			/**
+			 * Construct a new instance containing the same evidence as
+			 * another.
+			 * @param other instance to copy
+			 */
+			EvidenceBase(const EvidenceBase &other);
+
+			/**
+			 * Replace the evidence with that of another instance.
+			 * @param other instance to copy
+			 * @return this instance
+			 */
+			EvidenceBase& operator=(const EvidenceBase &other);
+
 			/**
 			 * Free all the underlying memory containing the evidence.
 			 */
diff --git a/RequiredPropertiesConfig.cpp b/RequiredPropertiesConfig.cpp
index 4238c23..b4764f3 100644
--- a/RequiredPropertiesConfig.cpp
+++ b/RequiredPropertiesConfig.cpp
@@ -91,6 +91,29 @@ RequiredPropertiesConfig::RequiredPropertiesConfig(
 	const string *properties) : RequiredPropertiesConfig(
 	properties == nullptr ? nullptr : properties->c_str()) {}
 
+RequiredPropertiesConfig::RequiredPropertiesConfig(
+	const RequiredPropertiesConfig &other) : RequiredPropertiesConfig(
+	other.conf.string) {
+	int i;
+	if (other.conf.array != nullptr) {
+		conf.array = (const char**)Malloc(
+			other.conf.count * sizeof(const char*));
+		for (i = 0; i < other.conf.count; i++) {
+			conf.array[i] = (char*)Malloc(strlen(other.conf.array[i]) + 1);
+			strcpy((char*)conf.array[i], other.conf.array[i]);
+		}
+		conf.count = other.conf.count;
+	}
+}
+
+RequiredPropertiesConfig& RequiredPropertiesConfig::operator=(
+	RequiredPropertiesConfig other) {
+	PropertiesRequired previous = conf;
+	conf = other.conf;
+	other.conf = previous;
+	return *this;
+}
+
 RequiredPropertiesConfig::~RequiredPropertiesConfig() {
 	int i;
 	if (conf.array != nullptr) {
diff --git a/RequiredPropertiesConfig.hpp b/RequiredPropertiesConfig.hpp
index dec372c..f55f328 100644
--- a/RequiredPropertiesConfig.hpp
+++ b/RequiredPropertiesConfig.hpp
@@ -109,6 +109,19 @@ namespace FiftyoneDegrees {
 			 */
 			RequiredPropertiesConfig(const string *properties);
 
+			/**
+			 * Construct a copy of another instance.
+			 * @param other instance to copy
+			 */
+			RequiredPropertiesConfig(const RequiredPropertiesConfig &other);
+
+			/**
+			 * Replace the properties with a copy of those in another instance.
+			 * @param other instance to copy
+			 * @return this instance
+			 */
+			RequiredPropertiesConfig& operator=(RequiredPropertiesConfig other);
+
 			/**
 			 * Destroy the configuration, freeing all the memory allocated
 			 * within it.
-- 
2.43.0


From 268178a8d66d3c802c5753dd2656a738d3d8b416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:27 +0000
Subject: [PATCH 74/87] fix: Cache counters are not lost when shards are used
 concurrently

---
 cache.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/cache.c b/cache.c
index 9250361..4f7e474 100644
--- a/cache.c
+++ b/cache.c
@@ -321,6 +321,19 @@ static CacheNode* cacheLoad(
 	return node;
 }
 
+/**
+ * Adds one to a counter of the cache. The counters are common to all the shards
+ * so the lock of the shard being used does not protect them.
+ * @param counter to add one to
+ */
+static void cacheCount(unsigned long *counter) {
+#ifndef FIFTYONE_DEGREES_NO_THREADING
+	FIFTYONE_DEGREES_INTERLOCK_INC((volatile long*)counter);
+#else
+	(*counter)++;
+#endif
+}
+
 /**
  * Free the data containing in the cache shard.
  * @param shard to free
@@ -430,13 +443,13 @@ fiftyoneDegreesCacheNode* fiftyoneDegreesCacheGet(
 		// The node was found in the cache, so increment the active count and
 		// remove from the shard's linked list if required.
 		cacheIncremenetCheckAndRemove(node);
-		cache->hits++;
+		cacheCount(&cache->hits);
 	}
 	else {
 
 		// The key does not exist so load it.
 		node = cacheLoad(shard, key, exception);
-		cache->misses++;
+		cacheCount(&cache->misses);
 	}
 
 #ifndef FIFTYONE_DEGREES_NO_THREADING
-- 
2.43.0


From 41e86ea14b3750a39b41fcb382e16d1d78328f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:27 +0000
Subject: [PATCH 75/87] fix: Closing a signal frees its memory

---
 threading.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/threading.c b/threading.c
index f91e787..3905479 100644
--- a/threading.c
+++ b/threading.c
@@ -98,8 +98,12 @@ fiftyoneDegreesSignal* fiftyoneDegreesSignalCreate() {
 	Signal *signal = (Signal*)Malloc(sizeof(Signal));
 	if (signal != NULL) {
 		signal->wait = false;
-		if (pthread_cond_init(&signal->cond, NULL) != 0 ||
-			pthread_mutex_init(&signal->mutex, NULL) != 0) {
+		if (pthread_cond_init(&signal->cond, NULL) != 0) {
+			Free(signal);
+			signal = NULL;
+		}
+		else if (pthread_mutex_init(&signal->mutex, NULL) != 0) {
+			pthread_cond_destroy(&signal->cond);
 			Free(signal);
 			signal = NULL;
 		}
@@ -111,6 +115,7 @@ void fiftyoneDegreesSignalClose(fiftyoneDegreesSignal *signal) {
 	if (signal != NULL) {
 		pthread_mutex_destroy(&signal->mutex);
 		pthread_cond_destroy(&signal->cond);
+		Free(signal);
 	}
 }
 
-- 
2.43.0


From 310b64585c7c3ddfd061d7f93ab9b4595df64ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:52 +0000
Subject: [PATCH 76/87] fix: Acquiring a resource while it is replaced never
 returns no handle

---
 resource.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resource.h b/resource.h
index 3300772..7740780 100644
--- a/resource.h
+++ b/resource.h
@@ -172,8 +172,8 @@ typedef struct fiftyone_degrees_resource_handle_t {
  */
 typedef struct fiftyone_degrees_resource_manager_t {
 #ifndef FIFTYONE_DEGREES_NO_THREADING
-    volatile fiftyoneDegreesResourceHandle *active; /**< Current handle
-                                                    for resource used 
+    volatile fiftyoneDegreesResourceHandle * volatile active; /**< Current
+                                                    handle for resource used 
                                                     by the manager. */
 #else
 	fiftyoneDegreesResourceHandle *active; /**< Non volatile current handle for
-- 
2.43.0


From f4ea3679e6b94a25bf342ce5caa791bcfa641ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:30 +0000
Subject: [PATCH 77/87] fix: Replacing a resource holds the existing one while
 using it

---
 resource.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/resource.c b/resource.c
index 62b3e09..009629f 100644
--- a/resource.c
+++ b/resource.c
@@ -327,33 +327,33 @@ void fiftyoneDegreesResourceReplace(
 	fiftyoneDegreesResourceManager *manager,
 	void *newResource,
 	fiftyoneDegreesResourceHandle **newResourceHandle) {
-	HANDLE* oldHandle = NULL;
+	// Hold the existing resource so that another thread which is also replacing
+	// it can't free it while it's being used here.
+	HANDLE* oldHandle = ResourceHandleIncUse(manager);
 	
 	// Add the new resource to the manager replacing the existing one.
 	setupResource(
 		manager,
 		newResource,
 		newResourceHandle,
-		manager->active->freeResource);
+		oldHandle->freeResource);
 	if (*newResourceHandle == NULL) {
 		// There was no memory for the handle so keep the existing resource.
+		ResourceHandleDecUse(oldHandle);
 		return;
 	}
 	assert(getInUse(&(*newResourceHandle)->counter) == 0);
 	assert(getHandle(&(*newResourceHandle)->counter) == *newResourceHandle);
 #ifndef FIFTYONE_DEGREES_NO_THREADING
 	// Switch the active handle for the manager to the newly created one.
-	do {
-		if (oldHandle != NULL) {
-			ResourceHandleDecUse(oldHandle);
-		}
-		oldHandle = ResourceHandleIncUse(manager);
-	} while (INTERLOCK_EXCHANGE_PTR(
+	while (INTERLOCK_EXCHANGE_PTR(
 		manager->active,
 		*newResourceHandle,
-		oldHandle) != oldHandle);
+		oldHandle) != oldHandle) {
+		ResourceHandleDecUse(oldHandle);
+		oldHandle = ResourceHandleIncUse(manager);
+	}
 #else
-	oldHandle = ResourceHandleIncUse(manager);
 	manager->active = *newResourceHandle;
 #endif
 	// Release the existing resource can be freed. If nothing else is
-- 
2.43.0


From 669f390fb7f147391abfbfa1d3b1b4e32d155381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:46 +0000
Subject: [PATCH 78/87] fix: Acquiring a resource never takes a handle that was
 released

---
 resource.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/resource.c b/resource.c
index 009629f..faf5498 100644
--- a/resource.c
+++ b/resource.c
@@ -292,7 +292,11 @@ fiftyoneDegreesResourceHandle* fiftyoneDegreesResourceHandleIncUse(
 // of COUNTER and HANDLE macros.
 #pragma warning (disable: 4090)
 #endif
-	} while (FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_DW(
+		// If the counter read is that of a handle which was released, and
+		// replaced, since it was active then try again. It must not be compared
+		// with the counter of another handle which could also be released.
+	} while (getHandle(&compare) == NULL ||
+		FIFTYONE_DEGREES_INTERLOCK_EXCHANGE_DW(
 		manager->active->counter,
 		incremented,
 		compare) == false);
-- 
2.43.0


From cff6ba7713055883e41e18cc5a32c99806ccc2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:57 +0000
Subject: [PATCH 79/87] fix: Required properties report when there is no memory
 for them

---
 RequiredPropertiesConfig.cpp | 48 +++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/RequiredPropertiesConfig.cpp b/RequiredPropertiesConfig.cpp
index b4764f3..acf494d 100644
--- a/RequiredPropertiesConfig.cpp
+++ b/RequiredPropertiesConfig.cpp
@@ -22,6 +22,7 @@
 
 #include "RequiredPropertiesConfig.hpp"
 
+#include "Exceptions.hpp"
 #include "fiftyone.h"
 
 using namespace FiftyoneDegrees::Common;
@@ -35,6 +36,25 @@ using namespace FiftyoneDegrees::Common;
 #define _strnicmp strncasecmp
 #endif
 
+// Copies the text to memory that the caller must free.
+static char* copyText(const char *text) {
+	char *copy = (char*)Malloc(strlen(text) + 1);
+	if (copy == nullptr) {
+		throw StatusCodeException(INSUFFICIENT_MEMORY);
+	}
+	strcpy(copy, text);
+	return copy;
+}
+
+// Creates an array with room for the number of texts provided.
+static const char** createArray(int count) {
+	const char **array = (const char**)Malloc(count * sizeof(const char*));
+	if (array == nullptr && count > 0) {
+		throw StatusCodeException(INSUFFICIENT_MEMORY);
+	}
+	return array;
+}
+
 // The separators between property names are those of properties.c.
 static vector<string> splitProperties(const char *properties) {
 	const char separators[] = "|, ";
@@ -60,12 +80,14 @@ RequiredPropertiesConfig::RequiredPropertiesConfig() {
 RequiredPropertiesConfig::RequiredPropertiesConfig(
 	vector<string> *properties) : RequiredPropertiesConfig() {
 	if (properties != nullptr) {
-		conf.count = (int)properties->size();
-		conf.array = (const char**)Malloc(
-			conf.count * sizeof(const char*));
-		for (int i = 0; i < conf.count; i++) {
-			conf.array[i] = (char*)Malloc((*properties)[i].size() + 1);
-			strcpy((char*)conf.array[i], (*properties)[i].c_str());
+		// The count is that of the texts copied so far, so that those are
+		// freed if there is no memory for a later one.
+		int count = (int)properties->size();
+		conf.array = createArray(count);
+		while (conf.count < count) {
+			conf.array[conf.count] = copyText(
+				(*properties)[conf.count].c_str());
+			conf.count++;
 		}
 	}
 }
@@ -78,8 +100,7 @@ RequiredPropertiesConfig::RequiredPropertiesConfig(
 RequiredPropertiesConfig::RequiredPropertiesConfig(
 	const char *properties) : RequiredPropertiesConfig() {
 	if (properties != nullptr) {
-		conf.string = (const char*)Malloc(strlen(properties) + 1);
-		strcpy((char*)conf.string, properties);
+		conf.string = copyText(properties);
 	}
 }
 
@@ -94,15 +115,12 @@ RequiredPropertiesConfig::RequiredPropertiesConfig(
 RequiredPropertiesConfig::RequiredPropertiesConfig(
 	const RequiredPropertiesConfig &other) : RequiredPropertiesConfig(
 	other.conf.string) {
-	int i;
 	if (other.conf.array != nullptr) {
-		conf.array = (const char**)Malloc(
-			other.conf.count * sizeof(const char*));
-		for (i = 0; i < other.conf.count; i++) {
-			conf.array[i] = (char*)Malloc(strlen(other.conf.array[i]) + 1);
-			strcpy((char*)conf.array[i], other.conf.array[i]);
+		conf.array = createArray(other.conf.count);
+		while (conf.count < other.conf.count) {
+			conf.array[conf.count] = copyText(other.conf.array[conf.count]);
+			conf.count++;
 		}
-		conf.count = other.conf.count;
 	}
 }
 
-- 
2.43.0


From ce9f5aa824ce70f2053d8b61a92cd8c31d26890e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:13 +0000
Subject: [PATCH 80/87] fix: Searching for an IP address value reports when
 there is no memory for it

---
 value.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/value.c b/value.c
index f680694..d342040 100644
--- a/value.c
+++ b/value.c
@@ -78,10 +78,15 @@ static int compareCoordinate(String *value, const char *target) {
  * @param value the current String item
  * @param target the target search value. This should
  * be in string readable format of an IP address.
+ * @param exception set if there is no memory to parse
+ * the target value
  * @return 0 if they are equal, otherwise negative
  * for smaller and positive for bigger
  */
-static int compareIpAddress(String *value, const char *target) {
+static int compareIpAddress(
+	String *value,
+	const char *target,
+	Exception *exception) {
 	// If the target is not an IP address then no value will be found.
 	int result = -1;
 	fiftyoneDegreesEvidenceIpAddress *ipAddress
@@ -117,6 +122,9 @@ static int compareIpAddress(String *value, const char *target) {
 		}
 		Free(ipAddress);
 	}
+	else {
+		EXCEPTION_SET(INSUFFICIENT_MEMORY);
+	}
 	return result;
 }
 
@@ -142,7 +150,10 @@ static int compareValueByName(void *state, Item *item, long curIndex, Exception
 			result = compareCoordinate(value,search->valueName);
 			break;
 		case FIFTYONE_DEGREES_STRING_IP_ADDRESS:
-			result = compareIpAddress(value, search->valueName);
+			result = compareIpAddress(
+				value,
+				search->valueName,
+				exception);
 			break;
 		default:
 			result = strcmp(&value->value, search->valueName);
-- 
2.43.0


From c031c9c6950bc3dad58df8a2a0169d995bfca678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:54 +0000
Subject: [PATCH 81/87] fix: file pools build with exceptions disabled

---
 file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/file.c b/file.c
index caac94d..21e6e47 100644
--- a/file.c
+++ b/file.c
@@ -1030,9 +1030,11 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFilePoolInit(
 			status = FILE_FAILURE;
 		}
 	}
+#ifndef FIFTYONE_DEGREES_EXCEPTIONS_DISABLED
 	else if (EXCEPTION_FAILED) {
 		status = exception->status;
 	}
+#endif
 	else {
 		status = INSUFFICIENT_MEMORY;
 	}
-- 
2.43.0


From a4806ef93a28d3a9420dbc0173710213e5bc1eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:54 +0000
Subject: [PATCH 82/87] fix: C++ exceptions build with exceptions disabled

---
 Exceptions.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Exceptions.cpp b/Exceptions.cpp
index 1fa8e9e..f937a9c 100644
--- a/Exceptions.cpp
+++ b/Exceptions.cpp
@@ -59,7 +59,9 @@ fiftyoneDegreesStatusCode StatusCodeException::getCode() const noexcept {
 
 FatalException::FatalException(
 	fiftyoneDegreesException *exception) : StatusCodeException() {
+#ifndef FIFTYONE_DEGREES_EXCEPTIONS_DISABLED
 	statusCode = exception->status;
+#endif
 	const char *exceptionMessage = ExceptionGetMessage(exception);
 	if (exceptionMessage != nullptr) {
 		message.append(exceptionMessage);
-- 
2.43.0


From f44df25e4266e221d18054ff5d42c32c56a905bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:31 +0000
Subject: [PATCH 83/87] fix: refused collections release their data with the
 library's allocator

---
 collection.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/collection.c b/collection.c
index 533686d..dfc87ff 100644
--- a/collection.c
+++ b/collection.c
@@ -966,13 +966,13 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromFile(
 
 	// Position the file reader at the start of the collection.
 	if (fseek(file, header.startPosition, SEEK_SET) != 0) {
-		free(data);
+		Free(data);
 		return NULL;
 	}
 
 	// Read the portion of the file into memory.
 	if (fread(memory.startByte, 1, header.length, file) != header.length) {
-		free(data);
+		Free(data);
 		return NULL;
 	}
 
@@ -980,7 +980,7 @@ fiftyoneDegreesCollection* fiftyoneDegreesCollectionCreateFromFile(
 	result = CollectionCreateFromMemory(&memory, header);
 
 	if (result == NULL) {
-		free(data);
+		Free(data);
 		return NULL;
 	}
 
-- 
2.43.0


From c2c3c8bf549cfbd199037ef75e4b60d8f607e5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:30 +0000
Subject: [PATCH 84/87] fix: hold the data set a reload takes its properties
 and config from

---
 dataset.c | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/dataset.c b/dataset.c
index 864cc6e..a912668 100644
--- a/dataset.c
+++ b/dataset.c
@@ -35,12 +35,13 @@ static StatusCode allocate(
 
 static StatusCode replace(
 	ResourceManager *manager,
+	DataSetBase *existing,
 	DataSetBase *replacement) {
 
 	// Switch the active data set for the new one.
 	ResourceReplace(manager, replacement, &replacement->handle);
 	if (replacement->handle == NULL) {
-		manager->active->freeResource(replacement);
+		existing->handle->freeResource(replacement);
 		return INSUFFICIENT_MEMORY;
 	}
 
@@ -275,13 +276,16 @@ fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromMemory(
 	PropertiesRequired properties = PropertiesDefault;
 
 	// Reference the properties and config from the existing data set in the
-	// replacement.
-	properties.existing = ((DataSetBase*)manager->active->resource)->available;
-	config = ((DataSetBase*)manager->active->resource)->config;
+	// replacement. Hold the existing data set so that another thread which is
+	// also reloading it can't free it while it's being used here.
+	DataSetBase *existing = DataSetGet(manager);
+	properties.existing = existing->available;
+	config = existing->config;
 
 	// Allocate memory for the replacement dataset.
 	StatusCode status = allocate(&replacement, dataSetSize);
 	if (status != SUCCESS) {
+		DataSetRelease(existing);
 		return status;
 	}
 
@@ -300,10 +304,13 @@ fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromMemory(
 		exception);
 	if (status != SUCCESS) {
 		Free(replacement);
+		DataSetRelease(existing);
 		return status;
 	}
 	
-	return replace(manager, replacement);
+	status = replace(manager, existing, replacement);
+	DataSetRelease(existing);
+	return status;
 }
 
 fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromFile(
@@ -317,13 +324,16 @@ fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromFile(
 	PropertiesRequired properties = PropertiesDefault;
 
 	// Reference the properties and config from the existing data set in the
-	// replacement.
-	properties.existing = ((DataSetBase*)manager->active->resource)->available;
-	config = ((DataSetBase*)manager->active->resource)->config;
+	// replacement. Hold the existing data set so that another thread which is
+	// also reloading it can't free it while it's being used here.
+	DataSetBase *existing = DataSetGet(manager);
+	properties.existing = existing->available;
+	config = existing->config;
 	
 	// Allocate memory for the replacement dataset.
 	StatusCode status = allocate(&replacement, dataSetSize);
 	if (status != SUCCESS) {
+		DataSetRelease(existing);
 		return status; 
 	}
 
@@ -335,8 +345,11 @@ fiftyoneDegreesStatusCode fiftyoneDegreesDataSetReloadManagerFromFile(
 		fileName,
 		exception);
 	if (status != SUCCESS) {
+		DataSetRelease(existing);
 		return status;
 	}
 	
-	return replace(manager, replacement);
+	status = replace(manager, existing, replacement);
+	DataSetRelease(existing);
+	return status;
 }
\ No newline at end of file
-- 
2.43.0


From 235e7e32afb00fe1a3d0d501d22e16da7b500091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:35 +0000
Subject: [PATCH 85/87] fix: tell from the replacement's result whether a data
 set was replaced

---
 dataset.c  | 9 ++++++---
 resource.c | 5 +++--
 resource.h | 5 ++++-
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/dataset.c b/dataset.c
index a912668..59b10d6 100644
--- a/dataset.c
+++ b/dataset.c
@@ -38,9 +38,12 @@ static StatusCode replace(
 	DataSetBase *existing,
 	DataSetBase *replacement) {
 
-	// Switch the active data set for the new one.
-	ResourceReplace(manager, replacement, &replacement->handle);
-	if (replacement->handle == NULL) {
+	// Switch the active data set for the new one. If this succeeds then the
+	// replacement might already have been replaced and freed.
+	if (ResourceReplace(
+		manager,
+		replacement,
+		&replacement->handle) == false) {
 		existing->handle->freeResource(replacement);
 		return INSUFFICIENT_MEMORY;
 	}
diff --git a/resource.c b/resource.c
index faf5498..acdbffb 100644
--- a/resource.c
+++ b/resource.c
@@ -327,7 +327,7 @@ int32_t fiftyoneDegreesResourceHandleGetUse(
 // of COUNTER and HANDLE macros.
 #pragma warning (disable: 4090)
 #endif
-void fiftyoneDegreesResourceReplace(
+bool fiftyoneDegreesResourceReplace(
 	fiftyoneDegreesResourceManager *manager,
 	void *newResource,
 	fiftyoneDegreesResourceHandle **newResourceHandle) {
@@ -344,7 +344,7 @@ void fiftyoneDegreesResourceReplace(
 	if (*newResourceHandle == NULL) {
 		// There was no memory for the handle so keep the existing resource.
 		ResourceHandleDecUse(oldHandle);
-		return;
+		return false;
 	}
 	assert(getInUse(&(*newResourceHandle)->counter) == 0);
 	assert(getHandle(&(*newResourceHandle)->counter) == *newResourceHandle);
@@ -363,6 +363,7 @@ void fiftyoneDegreesResourceReplace(
 	// Release the existing resource can be freed. If nothing else is
 	// holding onto a reference to it then free it will be freed.
 	ResourceHandleDecUse(oldHandle);
+	return true;
 }
 #ifdef _MSC_VER
 #pragma warning (default: 4090)
diff --git a/resource.h b/resource.h
index 7740780..dab26be 100644
--- a/resource.h
+++ b/resource.h
@@ -248,8 +248,11 @@ EXTERNAL int32_t fiftyoneDegreesResourceHandleGetUse(
  * access to
  * @param newResourceHandle points to the location the new handle should be
  * stored
+ * @return true if the resource was replaced, or false if there was no memory
+ * for its handle. Once replaced the new resource can itself be replaced, and
+ * freed, by another thread so it must not be used to find out.
  */
-EXTERNAL void fiftyoneDegreesResourceReplace(
+EXTERNAL bool fiftyoneDegreesResourceReplace(
 	fiftyoneDegreesResourceManager *manager,
 	void *newResource,
 	fiftyoneDegreesResourceHandle **newResourceHandle);
-- 
2.43.0


From 70f6eeab4102eef31ce41b3de9e4a70c28eae7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:24 +0000
Subject: [PATCH 86/87] fix: stop listing components when one could not be read

---
 component.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/component.c b/component.c
index 725d3eb..5d5b789 100644
--- a/component.c
+++ b/component.c
@@ -119,6 +119,11 @@ void fiftyoneDegreesComponentInitList(
 				// Move to the next component in the collection.
 				offset += getFinalComponentSize((void*)component);
 			}
+			else {
+
+				// The component could not be read so nor can those after it.
+				break;
+			}
 		}
 	}
 	else {
-- 
2.43.0


From fec2c9a58053b262503046f85dc13719876eaf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:55 +0000
Subject: [PATCH 87/87] fix: look for a data file in the root directory too

---
 file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.c b/file.c
index 21e6e47..87e1d6f 100644
--- a/file.c
+++ b/file.c
@@ -975,7 +975,7 @@ fiftyoneDegreesStatusCode fiftyoneDegreesFileGetPath(
 	if (GET_CURRENT_DIR(
 		testPath, 
 		FIFTYONE_DEGREES_FILE_MAX_PATH) == testPath) {
-		for (i = strlen(testPath); i > 0; i--) {
+		for (i = strlen(testPath) + 1; i-- > 0;) {
 			if (testPath[i] == '\\' || testPath[i] == '/' ||
 				testPath[i] == '\0') {
 				charsWritten = Snprintf(
-- 
2.43.0

