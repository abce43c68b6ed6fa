From f3fcda4b8abc4f85ab0bbaeea7c494fa4b41dba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:12 +0000
Subject: [PATCH 01/33] fix: do not serve a page from a read buffer that no
 longer matches storage

---
 lib/Distribution/embedDB.c | 30 ++++++++++++++++++++++++++++++
 src/embedDB/embedDB.c      | 30 ++++++++++++++++++++++++++++++
 2 files changed, 60 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index a60e217..daaef69 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -473,6 +473,7 @@ void *splinePointLocation(spline *spl, size_t pointIndex) {
 #endif
 
 /* Helper Functions */
+static void forgetBufferedPage(id_t *bufferedPageId, id_t startPage, id_t endPage);
 int8_t embedDBInitData(embedDBState *state);
 int8_t embedDBInitDataFromFile(embedDBState *state);
 int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state);
@@ -899,6 +900,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     id_t pagesToBlockBoundary = blockSize - (count % blockSize);
     /* if we are on a block-boundary, we erase the next page in case the erase failed and then skip to the start of the next block */
     if (pagesToBlockBoundary == blockSize) {
+        forgetBufferedPage(&state->bufferedPageId, count, count + blockSize);
         int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
@@ -962,6 +964,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
 
     for (uint32_t i = 0; i < numBlocksToErase; i++) {
         eraseEndingPage = eraseStartingPage + blockSize;
+        forgetBufferedPage(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
@@ -1565,6 +1568,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
     /* Erase pages to make space for new data */
     for (size_t i = 0; i < numBlocksToErase; i++) {
         eraseEndingPage = eraseStartingPage + state->eraseSizeInPages;
+        forgetBufferedPage(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
@@ -2429,6 +2433,7 @@ id_t writePage(embedDBState *state, void *buffer) {
 
     if (state->numAvailDataPages <= 0) {
         /* Erase pages to make space for new data */
+        forgetBufferedPage(&state->bufferedPageId, physicalPageNum, physicalPageNum + state->eraseSizeInPages);
         int8_t eraseResult = state->fileInterface->erase(physicalPageNum, physicalPageNum + state->eraseSizeInPages, state->pageSize, state->dataFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2448,6 +2453,7 @@ id_t writePage(embedDBState *state, void *buffer) {
     }
 
     /* Seek to page location in file */
+    forgetBufferedPage(&state->bufferedPageId, physicalPageNum, physicalPageNum + 1);
     int32_t val = state->fileInterface->write(buffer, physicalPageNum, state->pageSize, state->dataFile);
     if (val == 0) {
 #ifdef PRINT_ERRORS
@@ -2494,6 +2500,7 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         }
         uint32_t eraseEndingPage = eraseStartingPage + blockSize;
 
+        forgetBufferedPage(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
@@ -2504,6 +2511,7 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
     }
 
     /* Write temporary page to storage */
+    forgetBufferedPage(&state->bufferedPageId, state->nextRLCPhysicalPageLocation, state->nextRLCPhysicalPageLocation + 1);
     int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation++, state->pageSize, state->dataFile);
     if (!writeSuccess) {
 #ifdef PRINT_ERRORS
@@ -2561,6 +2569,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
 
     if (state->numAvailIndexPages <= 0) {
         // Erase index pages to make room for new page
+        forgetBufferedPage(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + state->eraseSizeInPages);
         int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2573,6 +2582,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
     }
 
     /* Seek to page location in file */
+    forgetBufferedPage(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + 1);
     int32_t val = state->fileInterface->write(buffer, physicalPageNumber, state->pageSize, state->indexFile);
     if (val == 0) {
 #ifdef PRINT_ERRORS
@@ -2603,6 +2613,7 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
 
     // Erase data if needed
     if (state->numAvailVarPages <= 0) {
+        forgetBufferedPage(&state->bufferedVarPage, physicalPageId, physicalPageId + state->eraseSizeInPages);
         int8_t eraseResult = state->fileInterface->erase(physicalPageId, physicalPageId + state->eraseSizeInPages, state->pageSize, state->varFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2628,6 +2639,7 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
     memcpy(buf, &state->nextVarPageId, sizeof(id_t));
 
     // Write to file
+    forgetBufferedPage(&state->bufferedVarPage, physicalPageId, physicalPageId + 1);
     uint32_t val = state->fileInterface->write(buffer, physicalPageId, state->pageSize, state->varFile);
     if (val == 0) {
 #ifndef PRINT
@@ -2643,6 +2655,18 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
     return state->nextVarPageId - 1;
 }
 
+/**
+ * @brief	Marks a read buffer as empty if the page it holds is about to be erased or overwritten in storage.
+ * @param	bufferedPageId	Physical page currently in the read buffer
+ * @param	startPage		First physical page that changes
+ * @param	endPage			Physical page up to which pages change (exclusive)
+ */
+static void forgetBufferedPage(id_t *bufferedPageId, id_t startPage, id_t endPage) {
+    if (*bufferedPageId >= startPage && *bufferedPageId < endPage) {
+        *bufferedPageId = -1;
+    }
+}
+
 /**
  * @brief	Memcopies write buffer to the read buffer.
  * @param	state	embedDB algorithm state structure
@@ -2654,6 +2678,8 @@ void readToWriteBuf(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_WRITE_BUFFER;
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer no longer holds the page that was last read
+    state->bufferedPageId = -1;
 }
 
 /**
@@ -2667,6 +2693,7 @@ void readToWriteBufVar(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_WRITE_BUFFER(state->parameters);
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    state->bufferedVarPage = -1;
 }
 
 /**
@@ -2686,6 +2713,7 @@ int8_t readPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer 1 */
+    state->bufferedPageId = -1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->dataFile))
         return -1;
 
@@ -2711,6 +2739,7 @@ int8_t readIndexPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer */
+    state->bufferedIndexPageId = -1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->indexFile))
         return -1;
 
@@ -2736,6 +2765,7 @@ int8_t readVariablePage(embedDBState *state, id_t pageNum) {
     void *buf = (int8_t *)state->buffer + EMBEDDB_VAR_READ_BUFFER(state->parameters) * state->pageSize;
 
     // Read in one page worth of data
+    state->bufferedVarPage = -1;
     if (state->fileInterface->read(buf, pageNum, state->pageSize, state->varFile) == 0) {
         return -1;
     }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 5e6b43f..c088877 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -49,6 +49,7 @@
 #endif
 
 /* Helper Functions */
+static void forgetBufferedPage(id_t *bufferedPageId, id_t startPage, id_t endPage);
 int8_t embedDBInitData(embedDBState *state);
 int8_t embedDBInitDataFromFile(embedDBState *state);
 int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state);
@@ -475,6 +476,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     id_t pagesToBlockBoundary = blockSize - (count % blockSize);
     /* if we are on a block-boundary, we erase the next page in case the erase failed and then skip to the start of the next block */
     if (pagesToBlockBoundary == blockSize) {
+        forgetBufferedPage(&state->bufferedPageId, count, count + blockSize);
         int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
@@ -538,6 +540,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
 
     for (uint32_t i = 0; i < numBlocksToErase; i++) {
         eraseEndingPage = eraseStartingPage + blockSize;
+        forgetBufferedPage(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
@@ -1141,6 +1144,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
     /* Erase pages to make space for new data */
     for (size_t i = 0; i < numBlocksToErase; i++) {
         eraseEndingPage = eraseStartingPage + state->eraseSizeInPages;
+        forgetBufferedPage(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
@@ -2005,6 +2009,7 @@ id_t writePage(embedDBState *state, void *buffer) {
 
     if (state->numAvailDataPages <= 0) {
         /* Erase pages to make space for new data */
+        forgetBufferedPage(&state->bufferedPageId, physicalPageNum, physicalPageNum + state->eraseSizeInPages);
         int8_t eraseResult = state->fileInterface->erase(physicalPageNum, physicalPageNum + state->eraseSizeInPages, state->pageSize, state->dataFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2024,6 +2029,7 @@ id_t writePage(embedDBState *state, void *buffer) {
     }
 
     /* Seek to page location in file */
+    forgetBufferedPage(&state->bufferedPageId, physicalPageNum, physicalPageNum + 1);
     int32_t val = state->fileInterface->write(buffer, physicalPageNum, state->pageSize, state->dataFile);
     if (val == 0) {
 #ifdef PRINT_ERRORS
@@ -2070,6 +2076,7 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         }
         uint32_t eraseEndingPage = eraseStartingPage + blockSize;
 
+        forgetBufferedPage(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
@@ -2080,6 +2087,7 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
     }
 
     /* Write temporary page to storage */
+    forgetBufferedPage(&state->bufferedPageId, state->nextRLCPhysicalPageLocation, state->nextRLCPhysicalPageLocation + 1);
     int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation++, state->pageSize, state->dataFile);
     if (!writeSuccess) {
 #ifdef PRINT_ERRORS
@@ -2137,6 +2145,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
 
     if (state->numAvailIndexPages <= 0) {
         // Erase index pages to make room for new page
+        forgetBufferedPage(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + state->eraseSizeInPages);
         int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2149,6 +2158,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
     }
 
     /* Seek to page location in file */
+    forgetBufferedPage(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + 1);
     int32_t val = state->fileInterface->write(buffer, physicalPageNumber, state->pageSize, state->indexFile);
     if (val == 0) {
 #ifdef PRINT_ERRORS
@@ -2179,6 +2189,7 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
 
     // Erase data if needed
     if (state->numAvailVarPages <= 0) {
+        forgetBufferedPage(&state->bufferedVarPage, physicalPageId, physicalPageId + state->eraseSizeInPages);
         int8_t eraseResult = state->fileInterface->erase(physicalPageId, physicalPageId + state->eraseSizeInPages, state->pageSize, state->varFile);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
@@ -2204,6 +2215,7 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
     memcpy(buf, &state->nextVarPageId, sizeof(id_t));
 
     // Write to file
+    forgetBufferedPage(&state->bufferedVarPage, physicalPageId, physicalPageId + 1);
     uint32_t val = state->fileInterface->write(buffer, physicalPageId, state->pageSize, state->varFile);
     if (val == 0) {
 #ifndef PRINT
@@ -2219,6 +2231,18 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
     return state->nextVarPageId - 1;
 }
 
+/**
+ * @brief	Marks a read buffer as empty if the page it holds is about to be erased or overwritten in storage.
+ * @param	bufferedPageId	Physical page currently in the read buffer
+ * @param	startPage		First physical page that changes
+ * @param	endPage			Physical page up to which pages change (exclusive)
+ */
+static void forgetBufferedPage(id_t *bufferedPageId, id_t startPage, id_t endPage) {
+    if (*bufferedPageId >= startPage && *bufferedPageId < endPage) {
+        *bufferedPageId = -1;
+    }
+}
+
 /**
  * @brief	Memcopies write buffer to the read buffer.
  * @param	state	embedDB algorithm state structure
@@ -2230,6 +2254,8 @@ void readToWriteBuf(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_WRITE_BUFFER;
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer no longer holds the page that was last read
+    state->bufferedPageId = -1;
 }
 
 /**
@@ -2243,6 +2269,7 @@ void readToWriteBufVar(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_WRITE_BUFFER(state->parameters);
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    state->bufferedVarPage = -1;
 }
 
 /**
@@ -2262,6 +2289,7 @@ int8_t readPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer 1 */
+    state->bufferedPageId = -1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->dataFile))
         return -1;
 
@@ -2287,6 +2315,7 @@ int8_t readIndexPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer */
+    state->bufferedIndexPageId = -1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->indexFile))
         return -1;
 
@@ -2312,6 +2341,7 @@ int8_t readVariablePage(embedDBState *state, id_t pageNum) {
     void *buf = (int8_t *)state->buffer + EMBEDDB_VAR_READ_BUFFER(state->parameters) * state->pageSize;
 
     // Read in one page worth of data
+    state->bufferedVarPage = -1;
     if (state->fileInterface->read(buf, pageNum, state->pageSize, state->varFile) == 0) {
         return -1;
     }
-- 
2.43.0


From 580353fd00547d0e00b69b00ae3b1be11c8eafbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:49 +0000
Subject: [PATCH 02/33] fix: compare with the last key of a partially filled
 page when the write buffer is empty

---
 lib/Distribution/embedDB.c | 11 ++++++++---
 src/embedDB/embedDB.c      | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index daaef69..f63cbaa 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1435,9 +1435,14 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     if (state->nextDataPageId > 0 || count > 0) {
         void *previousKey = NULL;
         if (count == 0) {
-            readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
-            previousKey = ((int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER) +
-                          (state->recordSize * (state->maxRecordsPerPage - 1)) + state->headerSize;
+            if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+                printf("ERROR: Unable to read the last data page to check the order of the keys. Insert Failed.\n");
+#endif
+                return -1;
+            }
+            /* the last page may not be full if it was written by a flush */
+            previousKey = embedDBGetMaxKey(state, (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER);
         } else {
             previousKey = (int8_t *)state->buffer + (state->recordSize * (count - 1)) + state->headerSize;
         }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index c088877..b353766 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1011,9 +1011,14 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     if (state->nextDataPageId > 0 || count > 0) {
         void *previousKey = NULL;
         if (count == 0) {
-            readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
-            previousKey = ((int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER) +
-                          (state->recordSize * (state->maxRecordsPerPage - 1)) + state->headerSize;
+            if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+                printf("ERROR: Unable to read the last data page to check the order of the keys. Insert Failed.\n");
+#endif
+                return -1;
+            }
+            /* the last page may not be full if it was written by a flush */
+            previousKey = embedDBGetMaxKey(state, (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER);
         } else {
             previousKey = (int8_t *)state->buffer + (state->recordSize * (count - 1)) + state->headerSize;
         }
-- 
2.43.0


From 526a256d29d21b345a7ad61c7745019099d82abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 03/33] fix: binary search works without a spline and
 terminates for keys no page covers

---
 lib/Distribution/embedDB.c | 28 ++++++++++++++--------------
 src/embedDB/embedDB.c      | 28 ++++++++++++++--------------
 2 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index f63cbaa..116be06 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1591,7 +1591,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
         state->minDataPageId += state->eraseSizeInPages;
 
         /* remove any spline points related to these pages */
-        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
+        if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && !EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
             cleanSpline(state, state->minDataPageId);
         }
     }
@@ -1811,28 +1811,29 @@ int8_t linearSearch(embedDBState *state, void *buf, void *key, int32_t pageId, i
 
 int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
     uint32_t first = state->minDataPageId, last = state->nextDataPageId - 1;
-    uint32_t pageId = (first + last) / 2;
-    while (1) {
+    while (first <= last) {
+        uint32_t pageId = first + (last - first) / 2;
+
         /* Read page into buffer */
         if (readPage(state, pageId % state->numDataPages) != 0)
             return -1;
 
-        if (first >= last)
-            break;
-
         if (state->compareKey(key, embedDBGetMinKey(state, buffer)) < 0) {
             /* Key is less than smallest record in block. */
+            if (pageId == first)
+                return -1;
             last = pageId - 1;
-            pageId = (first + last) / 2;
         } else if (state->compareKey(key, embedDBGetMaxKey(state, buffer)) > 0) {
             /* Key is larger than largest record in block. */
             first = pageId + 1;
-            pageId = (first + last) / 2;
         } else {
             /* Found correct block */
             return 0;
         }
     }
+
+    /* No page covers the key */
+    return -1;
 }
 
 int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
@@ -2039,7 +2040,7 @@ void embedDBInitIterator(embedDBState *state, embedDBIterator *it) {
 #endif
 
     /* Determine which data page should be the first examined if there is a min key and that we have spline points */
-    if (state->spl->count != 0 && it->minKey != NULL && !(EMBEDDB_USING_BINARY_SEARCH(state->parameters))) {
+    if (!(EMBEDDB_USING_BINARY_SEARCH(state->parameters)) && state->spl->count != 0 && it->minKey != NULL) {
         /* Spline search */
         uint32_t location, lowbound, highbound = 0;
         splineFind(state->spl, it->minKey, state->compareKey, &location, &lowbound, &highbound);
@@ -2452,7 +2453,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         state->minDataPageId += state->eraseSizeInPages;
 
         /* remove any spline points related to these pages */
-        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
+        if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && !EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
             cleanSpline(state, state->minDataPageId);
         }
     }
@@ -2538,7 +2539,8 @@ uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber) {
     uint32_t numPointsErased = 0;
     void *nextPoint;
     uint32_t currentPageNumber = 0;
-    for (size_t i = 0; i < state->spl->count; i++) {
+    /* at least two points have to remain */
+    for (size_t i = 0; i + 2 < state->spl->count; i++) {
         nextPoint = splinePointLocation(state->spl, i + 1);
         memcpy(&currentPageNumber, (int8_t *)nextPoint + state->keySize, sizeof(uint32_t));
         if (currentPageNumber < minPageNumber) {
@@ -2547,9 +2549,7 @@ uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber) {
             break;
         }
     }
-    if (state->spl->count - numPointsErased < 2)
-        numPointsErased -= 2 - (state->spl->count - numPointsErased);
-    if (numPointsErased <= 0)
+    if (numPointsErased == 0)
         return 0;
     splineErase(state->spl, numPointsErased);
     return numPointsErased;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index b353766..bc888b6 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1167,7 +1167,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
         state->minDataPageId += state->eraseSizeInPages;
 
         /* remove any spline points related to these pages */
-        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
+        if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && !EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
             cleanSpline(state, state->minDataPageId);
         }
     }
@@ -1387,28 +1387,29 @@ int8_t linearSearch(embedDBState *state, void *buf, void *key, int32_t pageId, i
 
 int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
     uint32_t first = state->minDataPageId, last = state->nextDataPageId - 1;
-    uint32_t pageId = (first + last) / 2;
-    while (1) {
+    while (first <= last) {
+        uint32_t pageId = first + (last - first) / 2;
+
         /* Read page into buffer */
         if (readPage(state, pageId % state->numDataPages) != 0)
             return -1;
 
-        if (first >= last)
-            break;
-
         if (state->compareKey(key, embedDBGetMinKey(state, buffer)) < 0) {
             /* Key is less than smallest record in block. */
+            if (pageId == first)
+                return -1;
             last = pageId - 1;
-            pageId = (first + last) / 2;
         } else if (state->compareKey(key, embedDBGetMaxKey(state, buffer)) > 0) {
             /* Key is larger than largest record in block. */
             first = pageId + 1;
-            pageId = (first + last) / 2;
         } else {
             /* Found correct block */
             return 0;
         }
     }
+
+    /* No page covers the key */
+    return -1;
 }
 
 int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
@@ -1615,7 +1616,7 @@ void embedDBInitIterator(embedDBState *state, embedDBIterator *it) {
 #endif
 
     /* Determine which data page should be the first examined if there is a min key and that we have spline points */
-    if (state->spl->count != 0 && it->minKey != NULL && !(EMBEDDB_USING_BINARY_SEARCH(state->parameters))) {
+    if (!(EMBEDDB_USING_BINARY_SEARCH(state->parameters)) && state->spl->count != 0 && it->minKey != NULL) {
         /* Spline search */
         uint32_t location, lowbound, highbound = 0;
         splineFind(state->spl, it->minKey, state->compareKey, &location, &lowbound, &highbound);
@@ -2028,7 +2029,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         state->minDataPageId += state->eraseSizeInPages;
 
         /* remove any spline points related to these pages */
-        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
+        if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && !EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
             cleanSpline(state, state->minDataPageId);
         }
     }
@@ -2114,7 +2115,8 @@ uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber) {
     uint32_t numPointsErased = 0;
     void *nextPoint;
     uint32_t currentPageNumber = 0;
-    for (size_t i = 0; i < state->spl->count; i++) {
+    /* at least two points have to remain */
+    for (size_t i = 0; i + 2 < state->spl->count; i++) {
         nextPoint = splinePointLocation(state->spl, i + 1);
         memcpy(&currentPageNumber, (int8_t *)nextPoint + state->keySize, sizeof(uint32_t));
         if (currentPageNumber < minPageNumber) {
@@ -2123,9 +2125,7 @@ uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber) {
             break;
         }
     }
-    if (state->spl->count - numPointsErased < 2)
-        numPointsErased -= 2 - (state->spl->count - numPointsErased);
-    if (numPointsErased <= 0)
+    if (numPointsErased == 0)
         return 0;
     splineErase(state->spl, numPointsErased);
     return numPointsErased;
-- 
2.43.0


From 1599d4f3ee7d110720d3f7dbc7162dcaf9a4929b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:22 +0000
Subject: [PATCH 04/33] fix: spline error corridor and page estimate are exact
 for keys of up to 64 bits

---
 lib/Distribution/embedDB.c | 42 ++++++++++++++++++++++++++++++++++----
 src/spline/spline.c        | 42 ++++++++++++++++++++++++++++++++++----
 2 files changed, 76 insertions(+), 8 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 116be06..7e580e1 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -97,18 +97,44 @@ void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     spl->numAddCalls = 0;
 }
 
+/**
+ * @brief    Compares the products x1 * y1 and x2 * y2 exactly (a 64-bit key difference times a 32-bit page difference does not fit in 64 bits).
+ * @return   Negative if the first product is smaller, zero if they are equal, and positive otherwise
+ */
+static int8_t splineCompareProducts(uint64_t x1, uint32_t y1, uint64_t x2, uint32_t y2) {
+    uint64_t low1 = (x1 & UINT32_MAX) * y1, low2 = (x2 & UINT32_MAX) * y2;
+    uint64_t high1 = (x1 >> 32) * y1 + (low1 >> 32), high2 = (x2 >> 32) * y2 + (low2 >> 32);
+    if (high1 != high2)
+        return high1 < high2 ? -1 : 1;
+    low1 &= UINT32_MAX;
+    low2 &= UINT32_MAX;
+    return low1 == low2 ? 0 : (low1 < low2 ? -1 : 1);
+}
+
+/**
+ * @brief    Compares the slopes of two lines. The y values may be negative.
+ * @return   Negative if the first slope is smaller, zero if they are equal, and positive otherwise
+ */
+static int8_t splineCompareSlopes(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
+    if ((y1 < 0) != (y2 < 0))
+        return y1 < 0 ? -1 : 1;
+    if (y1 < 0)
+        return splineCompareProducts(x1, -y2, x2, -y1);
+    return splineCompareProducts(x2, y1, x1, y2);
+}
+
 /**
  * @brief    Check if first line is to the left (counter-clockwise) of the second.
  */
 static inline int8_t splineIsLeft(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
-    return y1 * x2 > y2 * x1;
+    return splineCompareSlopes(x1, y1, x2, y2) > 0;
 }
 
 /**
  * @brief    Check if first line is to the right (clockwise) of the second.
  */
 static inline int8_t splineIsRight(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
-    return y1 * x2 < y2 * x1;
+    return splineCompareSlopes(x1, y1, x2, y2) < 0;
 }
 
 /**
@@ -398,8 +424,16 @@ void splineFind(spline *spl, void *key, int8_t compareKey(void *, void *), id_t
     memcpy(&upKeyVal, upKey, spl->keySize);
 
     // Estimate location as page number
-    // Keydiff * slope + y
-    id_t locationEstimate = (id_t)((keyVal - downKeyVal) * (upPage - downPage) / (long double)(upKeyVal - downKeyVal)) + downPage;
+    // Keydiff * slope + y, rounded down: the last page whose position on the segment is not after the key
+    id_t locationEstimate = downPage, lastEstimate = upPage;
+    while (locationEstimate < lastEstimate) {
+        id_t middle = locationEstimate + (lastEstimate - locationEstimate + 1) / 2;
+        if (splineCompareProducts(upKeyVal - downKeyVal, middle - downPage, keyVal - downKeyVal, upPage - downPage) <= 0) {
+            locationEstimate = middle;
+        } else {
+            lastEstimate = middle - 1;
+        }
+    }
     memcpy(loc, &locationEstimate, sizeof(id_t));
 
     // Set error bounds based on maxError from spline construction
diff --git a/src/spline/spline.c b/src/spline/spline.c
index 131536b..1d3ecda 100644
--- a/src/spline/spline.c
+++ b/src/spline/spline.c
@@ -68,18 +68,44 @@ void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     spl->numAddCalls = 0;
 }
 
+/**
+ * @brief    Compares the products x1 * y1 and x2 * y2 exactly (a 64-bit key difference times a 32-bit page difference does not fit in 64 bits).
+ * @return   Negative if the first product is smaller, zero if they are equal, and positive otherwise
+ */
+static int8_t splineCompareProducts(uint64_t x1, uint32_t y1, uint64_t x2, uint32_t y2) {
+    uint64_t low1 = (x1 & UINT32_MAX) * y1, low2 = (x2 & UINT32_MAX) * y2;
+    uint64_t high1 = (x1 >> 32) * y1 + (low1 >> 32), high2 = (x2 >> 32) * y2 + (low2 >> 32);
+    if (high1 != high2)
+        return high1 < high2 ? -1 : 1;
+    low1 &= UINT32_MAX;
+    low2 &= UINT32_MAX;
+    return low1 == low2 ? 0 : (low1 < low2 ? -1 : 1);
+}
+
+/**
+ * @brief    Compares the slopes of two lines. The y values may be negative.
+ * @return   Negative if the first slope is smaller, zero if they are equal, and positive otherwise
+ */
+static int8_t splineCompareSlopes(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
+    if ((y1 < 0) != (y2 < 0))
+        return y1 < 0 ? -1 : 1;
+    if (y1 < 0)
+        return splineCompareProducts(x1, -y2, x2, -y1);
+    return splineCompareProducts(x2, y1, x1, y2);
+}
+
 /**
  * @brief    Check if first line is to the left (counter-clockwise) of the second.
  */
 static inline int8_t splineIsLeft(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
-    return y1 * x2 > y2 * x1;
+    return splineCompareSlopes(x1, y1, x2, y2) > 0;
 }
 
 /**
  * @brief    Check if first line is to the right (clockwise) of the second.
  */
 static inline int8_t splineIsRight(uint64_t x1, int64_t y1, uint64_t x2, int64_t y2) {
-    return y1 * x2 < y2 * x1;
+    return splineCompareSlopes(x1, y1, x2, y2) < 0;
 }
 
 /**
@@ -369,8 +395,16 @@ void splineFind(spline *spl, void *key, int8_t compareKey(void *, void *), id_t
     memcpy(&upKeyVal, upKey, spl->keySize);
 
     // Estimate location as page number
-    // Keydiff * slope + y
-    id_t locationEstimate = (id_t)((keyVal - downKeyVal) * (upPage - downPage) / (long double)(upKeyVal - downKeyVal)) + downPage;
+    // Keydiff * slope + y, rounded down: the last page whose position on the segment is not after the key
+    id_t locationEstimate = downPage, lastEstimate = upPage;
+    while (locationEstimate < lastEstimate) {
+        id_t middle = locationEstimate + (lastEstimate - locationEstimate + 1) / 2;
+        if (splineCompareProducts(upKeyVal - downKeyVal, middle - downPage, keyVal - downKeyVal, upPage - downPage) <= 0) {
+            locationEstimate = middle;
+        } else {
+            lastEstimate = middle - 1;
+        }
+    }
     memcpy(loc, &locationEstimate, sizeof(id_t));
 
     // Set error bounds based on maxError from spline construction
-- 
2.43.0


From d67a3673168735e37ac2ea4a80aa63edc02cc32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 05/33] fix: bitmap utilities report every overlap and build
 64-bit ranges in storage order

---
 lib/Distribution/embedDB.c           | 53 ++++++++++++++++------------
 lib/EmbedDB-Utility/embedDBUtility.c | 53 ++++++++++++++++------------
 2 files changed, 60 insertions(+), 46 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 7e580e1..9c1dcc3 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4258,8 +4258,8 @@ int8_t inBitmapInt8(void *data, void *bm) {
     uint8_t tmpbm = 0;
     updateBitmapInt8(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap
+    return (tmpbm & *bmval) != 0;
 }
 
 /* A 16-bit bitmap on a 32-bit int value */
@@ -4273,12 +4273,11 @@ void updateBitmapInt16(void *data, void *bm) {
     int16_t minBase = 320;
     int32_t current = minBase;
     uint16_t num = 32768;
-    while (val > current) {
+    /* Always set last bit if value bigger than largest cutoff */
+    while (val > current && num > 1) {
         current += stepSize;
         num = num / 2;
     }
-    if (num == 0)
-        num = 1; /* Always set last bit if value bigger than largest cutoff */
     *bmval = *bmval | num;
 }
 
@@ -4288,8 +4287,8 @@ int8_t inBitmapInt16(void *data, void *bm) {
     uint16_t tmpbm = 0;
     updateBitmapInt16(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
@@ -4353,8 +4352,8 @@ int8_t inBitmapInt64(void *data, void *bm) {
     uint64_t tmpbm = 0;
     updateBitmapInt64(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
@@ -4369,26 +4368,34 @@ void buildBitmapInt64FromRange(void *min, void *max, void *bm) {
         *(uint64_t *)bm = UINT64_MAX; /* Everything */
         return;
     } else {
-        uint64_t minMap = 0, maxMap = 0;
+        // The values ascend from the msb of the first byte to the lsb of the last byte
+        uint8_t minMap[8] = {0}, maxMap[8] = {0};
+        uint8_t *bmval = (uint8_t *)bm;
+        int8_t i = 0;
         if (min != NULL) {
-            updateBitmapInt64(min, &minMap);
-            // Turn on all bits below the bit for min value (cause the lsb are for the higher values)
-            minMap = minMap | (minMap - 1);
-            if (max == NULL) {
-                *(uint64_t *)bm = minMap;
-                return;
+            updateBitmapInt64(min, minMap);
+            while (minMap[i] == 0) {
+                i++;
             }
+            // Turn on all bits for values higher than the min value
+            minMap[i] = minMap[i] | (minMap[i] - 1);
+            memset(minMap + i + 1, 255, 7 - i);
+        } else {
+            memset(minMap, 255, 8);
         }
         if (max != NULL) {
-            updateBitmapInt64(max, &maxMap);
-            // Turn on all bits above the bit for max value (cause the msb are for the lower values)
-            maxMap = ~(maxMap - 1);
-            if (min == NULL) {
-                *(uint64_t *)bm = maxMap;
-                return;
+            updateBitmapInt64(max, maxMap);
+            // Turn on all bits for values lower than the max value
+            for (i = 0; maxMap[i] == 0; i++) {
+                maxMap[i] = 255;
             }
+            maxMap[i] = ~(maxMap[i] - 1);
+        } else {
+            memset(maxMap, 255, 8);
+        }
+        for (i = 0; i < 8; i++) {
+            bmval[i] = minMap[i] & maxMap[i];
         }
-        *(uint64_t *)bm = minMap & maxMap;
     }
 }
 
diff --git a/lib/EmbedDB-Utility/embedDBUtility.c b/lib/EmbedDB-Utility/embedDBUtility.c
index e633364..294e9cc 100644
--- a/lib/EmbedDB-Utility/embedDBUtility.c
+++ b/lib/EmbedDB-Utility/embedDBUtility.c
@@ -98,8 +98,8 @@ int8_t inBitmapInt8(void *data, void *bm) {
     uint8_t tmpbm = 0;
     updateBitmapInt8(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap
+    return (tmpbm & *bmval) != 0;
 }
 
 /* A 16-bit bitmap on a 32-bit int value */
@@ -113,12 +113,11 @@ void updateBitmapInt16(void *data, void *bm) {
     int16_t minBase = 320;
     int32_t current = minBase;
     uint16_t num = 32768;
-    while (val > current) {
+    /* Always set last bit if value bigger than largest cutoff */
+    while (val > current && num > 1) {
         current += stepSize;
         num = num / 2;
     }
-    if (num == 0)
-        num = 1; /* Always set last bit if value bigger than largest cutoff */
     *bmval = *bmval | num;
 }
 
@@ -128,8 +127,8 @@ int8_t inBitmapInt16(void *data, void *bm) {
     uint16_t tmpbm = 0;
     updateBitmapInt16(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
@@ -193,8 +192,8 @@ int8_t inBitmapInt64(void *data, void *bm) {
     uint64_t tmpbm = 0;
     updateBitmapInt64(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
@@ -209,26 +208,34 @@ void buildBitmapInt64FromRange(void *min, void *max, void *bm) {
         *(uint64_t *)bm = UINT64_MAX; /* Everything */
         return;
     } else {
-        uint64_t minMap = 0, maxMap = 0;
+        // The values ascend from the msb of the first byte to the lsb of the last byte
+        uint8_t minMap[8] = {0}, maxMap[8] = {0};
+        uint8_t *bmval = (uint8_t *)bm;
+        int8_t i = 0;
         if (min != NULL) {
-            updateBitmapInt64(min, &minMap);
-            // Turn on all bits below the bit for min value (cause the lsb are for the higher values)
-            minMap = minMap | (minMap - 1);
-            if (max == NULL) {
-                *(uint64_t *)bm = minMap;
-                return;
+            updateBitmapInt64(min, minMap);
+            while (minMap[i] == 0) {
+                i++;
             }
+            // Turn on all bits for values higher than the min value
+            minMap[i] = minMap[i] | (minMap[i] - 1);
+            memset(minMap + i + 1, 255, 7 - i);
+        } else {
+            memset(minMap, 255, 8);
         }
         if (max != NULL) {
-            updateBitmapInt64(max, &maxMap);
-            // Turn on all bits above the bit for max value (cause the msb are for the lower values)
-            maxMap = ~(maxMap - 1);
-            if (min == NULL) {
-                *(uint64_t *)bm = maxMap;
-                return;
+            updateBitmapInt64(max, maxMap);
+            // Turn on all bits for values lower than the max value
+            for (i = 0; maxMap[i] == 0; i++) {
+                maxMap[i] = 255;
             }
+            maxMap[i] = ~(maxMap[i] - 1);
+        } else {
+            memset(maxMap, 255, 8);
+        }
+        for (i = 0; i < 8; i++) {
+            bmval[i] = minMap[i] & maxMap[i];
         }
-        *(uint64_t *)bm = minMap & maxMap;
     }
 }
 
-- 
2.43.0


From 0b20ffb408e9c965bfd6c11d38398818f3f5efd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 06/33] fix: integer comparators do not overflow

---
 lib/Distribution/embedDB.c           | 13 +++++++------
 lib/EmbedDB-Utility/embedDBUtility.c | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 9c1dcc3..b5ee871 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4403,19 +4403,20 @@ int8_t int32Comparator(void *a, void *b) {
     int32_t i1, i2;
     memcpy(&i1, a, sizeof(int32_t));
     memcpy(&i2, b, sizeof(int32_t));
-    int32_t result = i1 - i2;
-    if (result < 0)
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
 
 int8_t int64Comparator(void *a, void *b) {
-    int64_t result = *((int64_t *)a) - *((int64_t *)b);
-    if (result < 0)
+    int64_t i1, i2;
+    memcpy(&i1, a, sizeof(int64_t));
+    memcpy(&i2, b, sizeof(int64_t));
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
diff --git a/lib/EmbedDB-Utility/embedDBUtility.c b/lib/EmbedDB-Utility/embedDBUtility.c
index 294e9cc..b707507 100644
--- a/lib/EmbedDB-Utility/embedDBUtility.c
+++ b/lib/EmbedDB-Utility/embedDBUtility.c
@@ -243,19 +243,20 @@ int8_t int32Comparator(void *a, void *b) {
     int32_t i1, i2;
     memcpy(&i1, a, sizeof(int32_t));
     memcpy(&i2, b, sizeof(int32_t));
-    int32_t result = i1 - i2;
-    if (result < 0)
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
 
 int8_t int64Comparator(void *a, void *b) {
-    int64_t result = *((int64_t *)a) - *((int64_t *)b);
-    if (result < 0)
+    int64_t i1, i2;
+    memcpy(&i1, a, sizeof(int64_t));
+    memcpy(&i2, b, sizeof(int64_t));
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
-- 
2.43.0


From 7154197eb12c7438a391551f21e27549d7eee92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 07/33] fix: record and header sizes and record numbers above
 127

---
 lib/Distribution/embedDB.c | 10 +++++-----
 lib/Distribution/embedDB.h |  6 +++---
 src/embedDB/embedDB.c      | 10 +++++-----
 src/embedDB/embedDB.h      |  6 +++---
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index b5ee871..788968d 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -789,7 +789,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -889,7 +889,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
      * They may be either an erased page or pages for record-level consistency.
      */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 4) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -1908,7 +1908,7 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
  * @param	data	Pre-allocated memory to copy data for record
  * @return	Return non-negative integer representing offset if success. Non-zero value if error.
  */
-int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
+id_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
     // return -1 if there is nothing in the buffer
     if (EMBEDDB_GET_COUNT(buffer) == 0) {
         return NO_RECORD_FOUND;
@@ -1937,7 +1937,7 @@ int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
 int8_t embedDBGet(embedDBState *state, void *key, void *data) {
     void *outputBuffer = state->buffer;
     if (state->nextDataPageId == 0) {
-        int8_t success = searchBuffer(state, outputBuffer, key, data);
+        id_t success = searchBuffer(state, outputBuffer, key, data);
         if (success != NO_RECORD_FOUND) {
             return 0;
         }
@@ -2015,7 +2015,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     void *outputBuffer = (int8_t *)state->buffer;
 
     // search output buffer for record, mem copy fixed record into data
-    int8_t recordNum = searchBuffer(state, outputBuffer, key, data);
+    id_t recordNum = searchBuffer(state, outputBuffer, key, data);
 
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
diff --git a/lib/Distribution/embedDB.h b/lib/Distribution/embedDB.h
index 194eb88..468c5c3 100644
--- a/lib/Distribution/embedDB.h
+++ b/lib/Distribution/embedDB.h
@@ -404,9 +404,9 @@ typedef struct {
     count_t pageSize;                                                     /* Size of physical page on device */
     int16_t parameters;                                                   /* Parameter flags for indexing and bitmaps */
     int8_t keySize;                                                       /* Size of key in bytes (fixed-size records) */
-    int8_t dataSize;                                                      /* Size of data in bytes (fixed-size records). Do not include space for variable size records if you are using them. */
-    int8_t recordSize;                                                    /* Size of record in bytes (fixed-size records) */
-    int8_t headerSize;                                                    /* Size of header in bytes (calculated during init()) */
+    count_t dataSize;                                                     /* Size of data in bytes (fixed-size records). Do not include space for variable size records if you are using them. */
+    count_t recordSize;                                                   /* Size of record in bytes (fixed-size records) */
+    count_t headerSize;                                                   /* Size of header in bytes (calculated during init()) */
     int8_t variableDataHeaderSize;                                        /* Size of page header in variable data files (calculated during init()) */
     int8_t bitmapSize;                                                    /* Size of bitmap in bytes */
     count_t maxRecordsPerPage;                                            /* Maximum records per page */
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index bc888b6..fab7b16 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -331,7 +331,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -431,7 +431,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
      * They may be either an erased page or pages for record-level consistency.
      */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 4) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -1450,7 +1450,7 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
  * @param	data	Pre-allocated memory to copy data for record
  * @return	Return non-negative integer representing offset if success. Non-zero value if error.
  */
-int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
+id_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
     // return -1 if there is nothing in the buffer
     if (EMBEDDB_GET_COUNT(buffer) == 0) {
         return NO_RECORD_FOUND;
@@ -1479,7 +1479,7 @@ int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
 int8_t embedDBGet(embedDBState *state, void *key, void *data) {
     void *outputBuffer = state->buffer;
     if (state->nextDataPageId == 0) {
-        int8_t success = searchBuffer(state, outputBuffer, key, data);
+        id_t success = searchBuffer(state, outputBuffer, key, data);
         if (success != NO_RECORD_FOUND) {
             return 0;
         }
@@ -1557,7 +1557,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     void *outputBuffer = (int8_t *)state->buffer;
 
     // search output buffer for record, mem copy fixed record into data
-    int8_t recordNum = searchBuffer(state, outputBuffer, key, data);
+    id_t recordNum = searchBuffer(state, outputBuffer, key, data);
 
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
diff --git a/src/embedDB/embedDB.h b/src/embedDB/embedDB.h
index 5d9521b..30c2aac 100644
--- a/src/embedDB/embedDB.h
+++ b/src/embedDB/embedDB.h
@@ -224,9 +224,9 @@ typedef struct {
     count_t pageSize;                                                     /* Size of physical page on device */
     int16_t parameters;                                                   /* Parameter flags for indexing and bitmaps */
     int8_t keySize;                                                       /* Size of key in bytes (fixed-size records) */
-    int8_t dataSize;                                                      /* Size of data in bytes (fixed-size records). Do not include space for variable size records if you are using them. */
-    int8_t recordSize;                                                    /* Size of record in bytes (fixed-size records) */
-    int8_t headerSize;                                                    /* Size of header in bytes (calculated during init()) */
+    count_t dataSize;                                                     /* Size of data in bytes (fixed-size records). Do not include space for variable size records if you are using them. */
+    count_t recordSize;                                                   /* Size of record in bytes (fixed-size records) */
+    count_t headerSize;                                                   /* Size of header in bytes (calculated during init()) */
     int8_t variableDataHeaderSize;                                        /* Size of page header in variable data files (calculated during init()) */
     int8_t bitmapSize;                                                    /* Size of bitmap in bytes */
     count_t maxRecordsPerPage;                                            /* Maximum records per page */
-- 
2.43.0


From 71bfb39cc24de5e294a0899e7a40ef3d594f341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 08/33] fix: page header has room for the bitmap and the
 minimum and maximum values

---
 lib/Distribution/embedDB.c | 10 +++++++---
 src/embedDB/embedDB.c      | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 788968d..87faca3 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -552,7 +552,7 @@ void initBufferPage(embedDBState *state, int pageNum) {
         ((int8_t *)buf)[i] = 0;
     }
 
-    if (pageNum != EMBEDDB_VAR_WRITE_BUFFER(state->parameters)) {
+    if (pageNum == EMBEDDB_DATA_WRITE_BUFFER && EMBEDDB_USING_MAX_MIN(state->parameters)) {
         /* Initialize header key min. Max and sum is already set to zero by the
          * for-loop above */
         void *min = EMBEDDB_GET_MIN_KEY(buf);
@@ -642,11 +642,15 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #endif
             return -1;
         }
-        state->headerSize += state->bitmapSize;
     }
 
+    /* The bitmap is kept in every data page, even if the pages are not indexed */
+    if (EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters))
+        state->headerSize += state->bitmapSize;
+
+    /* The minimum and maximum values have a fixed place after the largest bitmap */
     if (EMBEDDB_USING_MAX_MIN(state->parameters))
-        state->headerSize += state->keySize * 2 + state->dataSize * 2;
+        state->headerSize = EMBEDDB_MIN_OFFSET + state->keySize * 2 + state->dataSize * 2;
 
     /* Flags to show that these values have not been initalized with actual data yet */
     state->bufferedPageId = -1;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index fab7b16..b4a14cb 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -94,7 +94,7 @@ void initBufferPage(embedDBState *state, int pageNum) {
         ((int8_t *)buf)[i] = 0;
     }
 
-    if (pageNum != EMBEDDB_VAR_WRITE_BUFFER(state->parameters)) {
+    if (pageNum == EMBEDDB_DATA_WRITE_BUFFER && EMBEDDB_USING_MAX_MIN(state->parameters)) {
         /* Initialize header key min. Max and sum is already set to zero by the
          * for-loop above */
         void *min = EMBEDDB_GET_MIN_KEY(buf);
@@ -184,11 +184,15 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #endif
             return -1;
         }
-        state->headerSize += state->bitmapSize;
     }
 
+    /* The bitmap is kept in every data page, even if the pages are not indexed */
+    if (EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters))
+        state->headerSize += state->bitmapSize;
+
+    /* The minimum and maximum values have a fixed place after the largest bitmap */
     if (EMBEDDB_USING_MAX_MIN(state->parameters))
-        state->headerSize += state->keySize * 2 + state->dataSize * 2;
+        state->headerSize = EMBEDDB_MIN_OFFSET + state->keySize * 2 + state->dataSize * 2;
 
     /* Flags to show that these values have not been initalized with actual data yet */
     state->bufferedPageId = -1;
-- 
2.43.0


From 28134d9c2fec14a9bc512adf011c1b29243f45ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:39 +0000
Subject: [PATCH 09/33] fix: sign extension of signed 5 to 7 byte columns in
 sum and average

---
 lib/Distribution/embedDB.c            | 4 ++--
 src/query-interface/advancedQueries.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 87faca3..a673ca2 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3863,7 +3863,7 @@ void sumAdd(embedDBAggregateFunc *aggFunc, embedDBSchema *inputSchema, const voi
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        int64_t sign = val & ((uint64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t *)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
@@ -4066,7 +4066,7 @@ void avgAdd(struct embedDBAggregateFunc *aggFunc, embedDBSchema *inputSchema, co
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        int64_t sign = val & ((uint64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t *)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 2a513a9..5d7dd46 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -861,7 +861,7 @@ void sumAdd(embedDBAggregateFunc* aggFunc, embedDBSchema* inputSchema, const voi
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        int64_t sign = val & ((uint64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t*)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
@@ -1064,7 +1064,7 @@ void avgAdd(struct embedDBAggregateFunc* aggFunc, embedDBSchema* inputSchema, co
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        int64_t sign = val & ((uint64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t*)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
-- 
2.43.0


From 09c2afa5de760886e8a6cd1187650364162b1242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:15 +0000
Subject: [PATCH 10/33] fix: refuse configurations without space for a key, a
 record, a page buffer, an erase block or variable data

---
 lib/Distribution/embedDB.c | 34 ++++++++++++++++++++++++++++++++++
 src/embedDB/embedDB.c      | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 68 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index a673ca2..c2c175b 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -603,6 +603,27 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         return -1;
     }
 
+    if (state->keySize < 1) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Key size must be at least one byte.\n");
+#endif
+        return -1;
+    }
+
+    if (state->bufferSizeInBlocks < 2) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: embedDB requires at least 2 page buffers.\n");
+#endif
+        return -1;
+    }
+
+    if (state->eraseSizeInPages == 0) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The erase size must be at least one page.\n");
+#endif
+        return -1;
+    }
+
     /* check the number of allocated pages is a multiple of the erase size */
     if (state->numDataPages % state->eraseSizeInPages != 0) {
 #ifdef PRINT_ERRORS
@@ -623,6 +644,12 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         if (state->numVarPages % state->eraseSizeInPages != 0) {
 #ifdef PRINT_ERRORS
             printf("ERROR: The number of allocated variable data pages must be divisible by the erase size in pages.\n");
+#endif
+            return -1;
+        }
+        if (state->numVarPages == 0 || state->varFile == NULL) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Variable data requires a file and pages to store it.\n");
 #endif
             return -1;
         }
@@ -657,6 +684,13 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     state->bufferedIndexPageId = -1;
     state->bufferedVarPage = -1;
 
+    if (state->pageSize < state->headerSize + state->recordSize) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: A page must have space for its header and at least one record.\n");
+#endif
+        return -1;
+    }
+
     /* Calculate number of records per page */
     state->maxRecordsPerPage = (state->pageSize - state->headerSize) / state->recordSize;
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index b4a14cb..628423e 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -145,6 +145,27 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         return -1;
     }
 
+    if (state->keySize < 1) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Key size must be at least one byte.\n");
+#endif
+        return -1;
+    }
+
+    if (state->bufferSizeInBlocks < 2) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: embedDB requires at least 2 page buffers.\n");
+#endif
+        return -1;
+    }
+
+    if (state->eraseSizeInPages == 0) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The erase size must be at least one page.\n");
+#endif
+        return -1;
+    }
+
     /* check the number of allocated pages is a multiple of the erase size */
     if (state->numDataPages % state->eraseSizeInPages != 0) {
 #ifdef PRINT_ERRORS
@@ -165,6 +186,12 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         if (state->numVarPages % state->eraseSizeInPages != 0) {
 #ifdef PRINT_ERRORS
             printf("ERROR: The number of allocated variable data pages must be divisible by the erase size in pages.\n");
+#endif
+            return -1;
+        }
+        if (state->numVarPages == 0 || state->varFile == NULL) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Variable data requires a file and pages to store it.\n");
 #endif
             return -1;
         }
@@ -199,6 +226,13 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     state->bufferedIndexPageId = -1;
     state->bufferedVarPage = -1;
 
+    if (state->pageSize < state->headerSize + state->recordSize) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: A page must have space for its header and at least one record.\n");
+#endif
+        return -1;
+    }
+
     /* Calculate number of records per page */
     state->maxRecordsPerPage = (state->pageSize - state->headerSize) / state->recordSize;
 
-- 
2.43.0


From ea2315b0384966aeaccc77442594577273ca00ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 11/33] fix: locate an index page by the data pages it covers

---
 lib/Distribution/embedDB.c | 119 ++++++++++++++++++++++---------------
 lib/Distribution/embedDB.h |   1 +
 src/embedDB/embedDB.c      | 119 ++++++++++++++++++++++---------------
 src/embedDB/embedDB.h      |   1 +
 4 files changed, 146 insertions(+), 94 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index c2c175b..96fddb9 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1104,11 +1104,6 @@ int8_t embedDBInitIndex(embedDBState *state) {
     /* Allocate third page of buffer as index output page */
     initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
 
-    /* Add page id to minimum value spot in page */
-    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-    id_t *ptr = ((id_t *)((int8_t *)buf + 8));
-    *ptr = state->nextDataPageId;
-
     state->nextIdxPageId = 0;
     state->numAvailIndexPages = state->numIndexPages;
     state->minIndexPageId = 0;
@@ -1493,6 +1488,72 @@ void indexPage(embedDBState *state, uint32_t pageNumber) {
     }
 }
 
+/**
+ * @brief	Adds the bitmap of the data page in the write buffer to the index page being filled.
+ * 			An index page holds the bitmaps of consecutive data pages, starting with the page id saved in its header.
+ * @param	state	embedDB algorithm state structure
+ * @param	pageNum	Logical page id of the data page
+ */
+static void addToIndexBuffer(embedDBState *state, id_t pageNum) {
+    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
+    if (EMBEDDB_GET_COUNT(buf) >= state->maxIdxRecordsPerPage) {
+        /* Save index page. If that fails, the data pages it covers are not indexed and will always be read. */
+        writeIndexPage(state, buf);
+        initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
+    }
+
+    count_t idxcount = EMBEDDB_GET_COUNT(buf);
+    if (idxcount == 0) {
+        /* Add page id to minimum value spot in page */
+        memcpy((int8_t *)buf + EMBEDDB_IDX_MIN_OFFSET, &pageNum, sizeof(id_t));
+    }
+
+    EMBEDDB_INC_COUNT(buf);
+
+    /* Copy record onto index page */
+    void *bm = EMBEDDB_GET_BITMAP(state->buffer);
+    memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
+}
+
+/**
+ * @brief	Finds the bitmap that the index file holds for a data page. Index pages that were flushed may cover
+ * 			any number of data pages, so the page is located with the page ids in their headers.
+ * @param	state		embedDB algorithm state structure
+ * @param	dataPage	Logical page id of the data page
+ * @return	Pointer to the bitmap in the index read buffer, or NULL if the data page is not indexed or the index can not be read
+ */
+static void *findIndexBitmap(embedDBState *state, id_t dataPage) {
+    int8_t *buf = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize;
+    id_t low = state->minIndexPageId, high = state->nextIdxPageId;
+
+    while (low < high) {
+        /* Without flushes this is the page of the bitmap, with flushes it is on a later page */
+        id_t indexPage = dataPage / state->maxIdxRecordsPerPage;
+        if (indexPage < low || indexPage >= high || low != state->minIndexPageId || high != state->nextIdxPageId) {
+            indexPage = low + (high - low) / 2;
+        }
+
+        if (readIndexPage(state, indexPage % state->numIndexPages) != 0) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Failed to read index page %i (%i)\n", indexPage, indexPage % state->numIndexPages);
+#endif
+            return NULL;
+        }
+
+        id_t firstDataPage;
+        memcpy(&firstDataPage, buf + EMBEDDB_IDX_MIN_OFFSET, sizeof(id_t));
+        if (dataPage < firstDataPage) {
+            high = indexPage;
+        } else if (dataPage - firstDataPage >= EMBEDDB_GET_COUNT(buf)) {
+            low = indexPage + 1;
+        } else {
+            return buf + EMBEDDB_IDX_HEADER_SIZE + (dataPage - firstDataPage) * state->bitmapSize;
+        }
+    }
+
+    return NULL;
+}
+
 /**
  * @brief	Puts a given key, data pair into structure.
  * @param	state	embedDB algorithm state structure
@@ -1536,25 +1597,7 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
         /* Save record in index file */
         if (state->indexFile != NULL) {
-            void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-            count_t idxcount = EMBEDDB_GET_COUNT(buf);
-            if (idxcount >= state->maxIdxRecordsPerPage) {
-                /* Save index page */
-                writeIndexPage(state, buf);
-
-                idxcount = 0;
-                initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
-
-                /* Add page id to minimum value spot in page */
-                id_t *ptr = (id_t *)((int8_t *)buf + 8);
-                *ptr = pageNum;
-            }
-
-            EMBEDDB_INC_COUNT(buf);
-
-            /* Copy record onto index page */
-            void *bm = EMBEDDB_GET_BITMAP(state->buffer);
-            memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
+            addToIndexBuffer(state, pageNum);
         }
 
         updateMaxiumError(state, state->buffer);
@@ -2190,12 +2233,7 @@ int8_t embedDBFlush(embedDBState *state) {
 
     if (EMBEDDB_USING_INDEX(state->parameters)) {
         void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-        count_t idxcount = EMBEDDB_GET_COUNT(buf);
-        EMBEDDB_INC_COUNT(buf);
-
-        /* Copy record onto index page */
-        void *bm = EMBEDDB_GET_BITMAP(state->buffer);
-        memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
+        addToIndexBuffer(state, pageNum);
 
         id_t writeResult = writeIndexPage(state, buf);
         if (writeResult == -1) {
@@ -2247,25 +2285,12 @@ int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *da
 
         // If we are just starting to read a new page and we have a query bitmap
         if (it->nextDataRec == 0 && it->queryBitmap != NULL) {
-            // Find what index page determines if we should read the data page
-            uint32_t indexPage = it->nextDataPage / state->maxIdxRecordsPerPage;
-            uint16_t indexRec = it->nextDataPage % state->maxIdxRecordsPerPage;
-
-            if (state->indexFile != NULL && indexPage >= state->minIndexPageId && indexPage < state->nextIdxPageId) {
-                // If the index page that contains this data page exists, else we must read the data page regardless cause we don't have the index saved for it
-
-                if (readIndexPage(state, indexPage % state->numIndexPages) != 0) {
-#ifdef PRINT_ERRORS
-                    printf("ERROR: Failed to read index page %i (%i)\n", indexPage, indexPage % state->numIndexPages);
-#endif
-                    return 0;
-                }
-
+            if (state->indexFile != NULL && searchWriteBuf == 0) {
                 // Get bitmap for data page in question
-                void *indexBM = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize + EMBEDDB_IDX_HEADER_SIZE + indexRec * state->bitmapSize;
+                void *indexBM = findIndexBitmap(state, it->nextDataPage);
 
-                // Determine if we should read the data page
-                if (!bitmapOverlap(it->queryBitmap, indexBM, state->bitmapSize)) {
+                // If there is no index saved for this data page we must read the data page regardless. Otherwise, determine if we should read the data page
+                if (indexBM != NULL && !bitmapOverlap(it->queryBitmap, indexBM, state->bitmapSize)) {
                     // Do not read this data page, try the next one
                     it->nextDataPage++;
                     continue;
diff --git a/lib/Distribution/embedDB.h b/lib/Distribution/embedDB.h
index 468c5c3..a0f26a5 100644
--- a/lib/Distribution/embedDB.h
+++ b/lib/Distribution/embedDB.h
@@ -258,6 +258,7 @@ typedef uint16_t count_t;
 #define EMBEDDB_BITMAP_OFFSET 6
 // #define EMBEDDB_MIN_OFFSET		8
 #define EMBEDDB_MIN_OFFSET 14
+#define EMBEDDB_IDX_MIN_OFFSET 8
 #define EMBEDDB_IDX_HEADER_SIZE 16
 
 #define EMBEDDB_NO_VAR_DATA UINT32_MAX
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 628423e..c72434b 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -646,11 +646,6 @@ int8_t embedDBInitIndex(embedDBState *state) {
     /* Allocate third page of buffer as index output page */
     initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
 
-    /* Add page id to minimum value spot in page */
-    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-    id_t *ptr = ((id_t *)((int8_t *)buf + 8));
-    *ptr = state->nextDataPageId;
-
     state->nextIdxPageId = 0;
     state->numAvailIndexPages = state->numIndexPages;
     state->minIndexPageId = 0;
@@ -1035,6 +1030,72 @@ void indexPage(embedDBState *state, uint32_t pageNumber) {
     }
 }
 
+/**
+ * @brief	Adds the bitmap of the data page in the write buffer to the index page being filled.
+ * 			An index page holds the bitmaps of consecutive data pages, starting with the page id saved in its header.
+ * @param	state	embedDB algorithm state structure
+ * @param	pageNum	Logical page id of the data page
+ */
+static void addToIndexBuffer(embedDBState *state, id_t pageNum) {
+    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
+    if (EMBEDDB_GET_COUNT(buf) >= state->maxIdxRecordsPerPage) {
+        /* Save index page. If that fails, the data pages it covers are not indexed and will always be read. */
+        writeIndexPage(state, buf);
+        initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
+    }
+
+    count_t idxcount = EMBEDDB_GET_COUNT(buf);
+    if (idxcount == 0) {
+        /* Add page id to minimum value spot in page */
+        memcpy((int8_t *)buf + EMBEDDB_IDX_MIN_OFFSET, &pageNum, sizeof(id_t));
+    }
+
+    EMBEDDB_INC_COUNT(buf);
+
+    /* Copy record onto index page */
+    void *bm = EMBEDDB_GET_BITMAP(state->buffer);
+    memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
+}
+
+/**
+ * @brief	Finds the bitmap that the index file holds for a data page. Index pages that were flushed may cover
+ * 			any number of data pages, so the page is located with the page ids in their headers.
+ * @param	state		embedDB algorithm state structure
+ * @param	dataPage	Logical page id of the data page
+ * @return	Pointer to the bitmap in the index read buffer, or NULL if the data page is not indexed or the index can not be read
+ */
+static void *findIndexBitmap(embedDBState *state, id_t dataPage) {
+    int8_t *buf = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize;
+    id_t low = state->minIndexPageId, high = state->nextIdxPageId;
+
+    while (low < high) {
+        /* Without flushes this is the page of the bitmap, with flushes it is on a later page */
+        id_t indexPage = dataPage / state->maxIdxRecordsPerPage;
+        if (indexPage < low || indexPage >= high || low != state->minIndexPageId || high != state->nextIdxPageId) {
+            indexPage = low + (high - low) / 2;
+        }
+
+        if (readIndexPage(state, indexPage % state->numIndexPages) != 0) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Failed to read index page %i (%i)\n", indexPage, indexPage % state->numIndexPages);
+#endif
+            return NULL;
+        }
+
+        id_t firstDataPage;
+        memcpy(&firstDataPage, buf + EMBEDDB_IDX_MIN_OFFSET, sizeof(id_t));
+        if (dataPage < firstDataPage) {
+            high = indexPage;
+        } else if (dataPage - firstDataPage >= EMBEDDB_GET_COUNT(buf)) {
+            low = indexPage + 1;
+        } else {
+            return buf + EMBEDDB_IDX_HEADER_SIZE + (dataPage - firstDataPage) * state->bitmapSize;
+        }
+    }
+
+    return NULL;
+}
+
 /**
  * @brief	Puts a given key, data pair into structure.
  * @param	state	embedDB algorithm state structure
@@ -1078,25 +1139,7 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
         /* Save record in index file */
         if (state->indexFile != NULL) {
-            void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-            count_t idxcount = EMBEDDB_GET_COUNT(buf);
-            if (idxcount >= state->maxIdxRecordsPerPage) {
-                /* Save index page */
-                writeIndexPage(state, buf);
-
-                idxcount = 0;
-                initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
-
-                /* Add page id to minimum value spot in page */
-                id_t *ptr = (id_t *)((int8_t *)buf + 8);
-                *ptr = pageNum;
-            }
-
-            EMBEDDB_INC_COUNT(buf);
-
-            /* Copy record onto index page */
-            void *bm = EMBEDDB_GET_BITMAP(state->buffer);
-            memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
+            addToIndexBuffer(state, pageNum);
         }
 
         updateMaxiumError(state, state->buffer);
@@ -1732,12 +1775,7 @@ int8_t embedDBFlush(embedDBState *state) {
 
     if (EMBEDDB_USING_INDEX(state->parameters)) {
         void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-        count_t idxcount = EMBEDDB_GET_COUNT(buf);
-        EMBEDDB_INC_COUNT(buf);
-
-        /* Copy record onto index page */
-        void *bm = EMBEDDB_GET_BITMAP(state->buffer);
-        memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
+        addToIndexBuffer(state, pageNum);
 
         id_t writeResult = writeIndexPage(state, buf);
         if (writeResult == -1) {
@@ -1789,25 +1827,12 @@ int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *da
 
         // If we are just starting to read a new page and we have a query bitmap
         if (it->nextDataRec == 0 && it->queryBitmap != NULL) {
-            // Find what index page determines if we should read the data page
-            uint32_t indexPage = it->nextDataPage / state->maxIdxRecordsPerPage;
-            uint16_t indexRec = it->nextDataPage % state->maxIdxRecordsPerPage;
-
-            if (state->indexFile != NULL && indexPage >= state->minIndexPageId && indexPage < state->nextIdxPageId) {
-                // If the index page that contains this data page exists, else we must read the data page regardless cause we don't have the index saved for it
-
-                if (readIndexPage(state, indexPage % state->numIndexPages) != 0) {
-#ifdef PRINT_ERRORS
-                    printf("ERROR: Failed to read index page %i (%i)\n", indexPage, indexPage % state->numIndexPages);
-#endif
-                    return 0;
-                }
-
+            if (state->indexFile != NULL && searchWriteBuf == 0) {
                 // Get bitmap for data page in question
-                void *indexBM = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize + EMBEDDB_IDX_HEADER_SIZE + indexRec * state->bitmapSize;
+                void *indexBM = findIndexBitmap(state, it->nextDataPage);
 
-                // Determine if we should read the data page
-                if (!bitmapOverlap(it->queryBitmap, indexBM, state->bitmapSize)) {
+                // If there is no index saved for this data page we must read the data page regardless. Otherwise, determine if we should read the data page
+                if (indexBM != NULL && !bitmapOverlap(it->queryBitmap, indexBM, state->bitmapSize)) {
                     // Do not read this data page, try the next one
                     it->nextDataPage++;
                     continue;
diff --git a/src/embedDB/embedDB.h b/src/embedDB/embedDB.h
index 30c2aac..3d1e1fe 100644
--- a/src/embedDB/embedDB.h
+++ b/src/embedDB/embedDB.h
@@ -78,6 +78,7 @@ typedef uint16_t count_t;
 #define EMBEDDB_BITMAP_OFFSET 6
 // #define EMBEDDB_MIN_OFFSET		8
 #define EMBEDDB_MIN_OFFSET 14
+#define EMBEDDB_IDX_MIN_OFFSET 8
 #define EMBEDDB_IDX_HEADER_SIZE 16
 
 #define EMBEDDB_NO_VAR_DATA UINT32_MAX
-- 
2.43.0


From fd221178df6fce3c4e9115382323f6c69121c7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:09 +0000
Subject: [PATCH 12/33] fix: index recovery finds the oldest index page and
 erases an incompletely erased block

---
 lib/Distribution/embedDB.c | 74 ++++++++++++++++++++++++++------------
 src/embedDB/embedDB.c      | 74 ++++++++++++++++++++++++++------------
 2 files changed, 102 insertions(+), 46 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 96fddb9..9789331 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1151,37 +1151,61 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
     id_t logicalIndexPageId = 0;
     id_t maxLogicaIndexPageId = 0;
     id_t physicalIndexPageId = 0;
-
-    /* This will become zero if there is no more to read */
-    int8_t moreToRead = !(readIndexPage(state, physicalIndexPageId));
-
-    bool haveWrappedInMemory = false;
-    int count = 0;
+    count_t blockSize = state->eraseSizeInPages;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_READ_BUFFER;
 
-    while (moreToRead && count < state->numIndexPages) {
-        memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
-        if (count == 0 || logicalIndexPageId == maxLogicaIndexPageId + 1) {
-            maxLogicaIndexPageId = logicalIndexPageId;
-            physicalIndexPageId++;
-            moreToRead = !(readIndexPage(state, physicalIndexPageId));
-            count++;
-        } else {
-            haveWrappedInMemory = logicalIndexPageId == maxLogicaIndexPageId - state->numIndexPages + 1;
+    /* The first block may have been erased to write the next page, in which case the oldest page is at the start of the second block */
+    bool hasData = false;
+    for (uint32_t i = 0; i < 2 && !hasData; i++) {
+        physicalIndexPageId = i * blockSize;
+        if (readIndexPage(state, physicalIndexPageId) != 0) {
             break;
         }
+        memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+        count_t numBitmaps = EMBEDDB_GET_COUNT(buffer);
+        hasData = logicalIndexPageId % state->numIndexPages == physicalIndexPageId && numBitmaps > 0 && numBitmaps <= state->maxIdxRecordsPerPage;
     }
 
-    if (count == 0)
+    /* if we have no valid pages, we can start from scratch */
+    if (!hasData)
         return 0;
 
-    state->nextIdxPageId = maxLogicaIndexPageId + 1;
-    id_t physicalPageIDOfSmallestData = 0;
-    if (haveWrappedInMemory) {
-        physicalPageIDOfSmallestData = logicalIndexPageId % state->numIndexPages;
+    state->minIndexPageId = logicalIndexPageId;
+    int8_t moreToRead = true;
+    while (moreToRead && logicalIndexPageId % state->numIndexPages == physicalIndexPageId && (logicalIndexPageId == state->minIndexPageId || logicalIndexPageId == maxLogicaIndexPageId + 1)) {
+        maxLogicaIndexPageId = logicalIndexPageId;
+        physicalIndexPageId++;
+        moreToRead = physicalIndexPageId < state->numIndexPages && readIndexPage(state, physicalIndexPageId) == 0;
+        memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
     }
-    readIndexPage(state, physicalPageIDOfSmallestData);
-    memcpy(&(state->minIndexPageId), buffer, sizeof(id_t));
+
+    if (moreToRead) {
+        id_t pagesToBlockBoundary = blockSize - (physicalIndexPageId % blockSize);
+
+        /* the next page may still be the oldest page, otherwise its block has been erased, on a block boundary possibly only in part */
+        if (maxLogicaIndexPageId + 1 >= state->numIndexPages && logicalIndexPageId == maxLogicaIndexPageId + 1 - state->numIndexPages) {
+            pagesToBlockBoundary = 0;
+        } else if (pagesToBlockBoundary == blockSize) {
+            forgetBufferedPage(&state->bufferedIndexPageId, physicalIndexPageId, physicalIndexPageId + blockSize);
+            if (state->fileInterface->erase(physicalIndexPageId, physicalIndexPageId + blockSize, state->pageSize, state->indexFile) != 1) {
+#ifdef PRINT_ERRORS
+                printf("Error: Unable to erase index pages during recovery!\n");
+#endif
+                return -1;
+            }
+        }
+
+        /* check if the oldest pages of the previous pass over the file start at the next block boundary */
+        physicalIndexPageId = (physicalIndexPageId + pagesToBlockBoundary) % state->numIndexPages;
+        if (maxLogicaIndexPageId + 1 + pagesToBlockBoundary >= state->numIndexPages && readIndexPage(state, physicalIndexPageId) == 0) {
+            memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+            if (logicalIndexPageId == maxLogicaIndexPageId + 1 + pagesToBlockBoundary - state->numIndexPages) {
+                state->minIndexPageId = logicalIndexPageId;
+            }
+        }
+    }
+
+    state->nextIdxPageId = maxLogicaIndexPageId + 1;
     state->numAvailIndexPages = state->numIndexPages + state->minIndexPageId - maxLogicaIndexPageId - 1;
 
     return 0;
@@ -2669,7 +2693,11 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
     /* Setup page number in header */
     memcpy(buffer, &(pageNum), sizeof(id_t));
 
-    if (state->numAvailIndexPages <= 0) {
+    if (state->numAvailIndexPages <= 0 && physicalPageNumber % state->eraseSizeInPages != 0) {
+        // The page is in a block which was already erased, but the content of the page outlived the erase
+        state->numAvailIndexPages++;
+        state->minIndexPageId++;
+    } else if (state->numAvailIndexPages <= 0) {
         // Erase index pages to make room for new page
         forgetBufferedPage(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + state->eraseSizeInPages);
         int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index c72434b..fd34c68 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -693,37 +693,61 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
     id_t logicalIndexPageId = 0;
     id_t maxLogicaIndexPageId = 0;
     id_t physicalIndexPageId = 0;
-
-    /* This will become zero if there is no more to read */
-    int8_t moreToRead = !(readIndexPage(state, physicalIndexPageId));
-
-    bool haveWrappedInMemory = false;
-    int count = 0;
+    count_t blockSize = state->eraseSizeInPages;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_READ_BUFFER;
 
-    while (moreToRead && count < state->numIndexPages) {
-        memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
-        if (count == 0 || logicalIndexPageId == maxLogicaIndexPageId + 1) {
-            maxLogicaIndexPageId = logicalIndexPageId;
-            physicalIndexPageId++;
-            moreToRead = !(readIndexPage(state, physicalIndexPageId));
-            count++;
-        } else {
-            haveWrappedInMemory = logicalIndexPageId == maxLogicaIndexPageId - state->numIndexPages + 1;
+    /* The first block may have been erased to write the next page, in which case the oldest page is at the start of the second block */
+    bool hasData = false;
+    for (uint32_t i = 0; i < 2 && !hasData; i++) {
+        physicalIndexPageId = i * blockSize;
+        if (readIndexPage(state, physicalIndexPageId) != 0) {
             break;
         }
+        memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+        count_t numBitmaps = EMBEDDB_GET_COUNT(buffer);
+        hasData = logicalIndexPageId % state->numIndexPages == physicalIndexPageId && numBitmaps > 0 && numBitmaps <= state->maxIdxRecordsPerPage;
     }
 
-    if (count == 0)
+    /* if we have no valid pages, we can start from scratch */
+    if (!hasData)
         return 0;
 
-    state->nextIdxPageId = maxLogicaIndexPageId + 1;
-    id_t physicalPageIDOfSmallestData = 0;
-    if (haveWrappedInMemory) {
-        physicalPageIDOfSmallestData = logicalIndexPageId % state->numIndexPages;
+    state->minIndexPageId = logicalIndexPageId;
+    int8_t moreToRead = true;
+    while (moreToRead && logicalIndexPageId % state->numIndexPages == physicalIndexPageId && (logicalIndexPageId == state->minIndexPageId || logicalIndexPageId == maxLogicaIndexPageId + 1)) {
+        maxLogicaIndexPageId = logicalIndexPageId;
+        physicalIndexPageId++;
+        moreToRead = physicalIndexPageId < state->numIndexPages && readIndexPage(state, physicalIndexPageId) == 0;
+        memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
     }
-    readIndexPage(state, physicalPageIDOfSmallestData);
-    memcpy(&(state->minIndexPageId), buffer, sizeof(id_t));
+
+    if (moreToRead) {
+        id_t pagesToBlockBoundary = blockSize - (physicalIndexPageId % blockSize);
+
+        /* the next page may still be the oldest page, otherwise its block has been erased, on a block boundary possibly only in part */
+        if (maxLogicaIndexPageId + 1 >= state->numIndexPages && logicalIndexPageId == maxLogicaIndexPageId + 1 - state->numIndexPages) {
+            pagesToBlockBoundary = 0;
+        } else if (pagesToBlockBoundary == blockSize) {
+            forgetBufferedPage(&state->bufferedIndexPageId, physicalIndexPageId, physicalIndexPageId + blockSize);
+            if (state->fileInterface->erase(physicalIndexPageId, physicalIndexPageId + blockSize, state->pageSize, state->indexFile) != 1) {
+#ifdef PRINT_ERRORS
+                printf("Error: Unable to erase index pages during recovery!\n");
+#endif
+                return -1;
+            }
+        }
+
+        /* check if the oldest pages of the previous pass over the file start at the next block boundary */
+        physicalIndexPageId = (physicalIndexPageId + pagesToBlockBoundary) % state->numIndexPages;
+        if (maxLogicaIndexPageId + 1 + pagesToBlockBoundary >= state->numIndexPages && readIndexPage(state, physicalIndexPageId) == 0) {
+            memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+            if (logicalIndexPageId == maxLogicaIndexPageId + 1 + pagesToBlockBoundary - state->numIndexPages) {
+                state->minIndexPageId = logicalIndexPageId;
+            }
+        }
+    }
+
+    state->nextIdxPageId = maxLogicaIndexPageId + 1;
     state->numAvailIndexPages = state->numIndexPages + state->minIndexPageId - maxLogicaIndexPageId - 1;
 
     return 0;
@@ -2211,7 +2235,11 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
     /* Setup page number in header */
     memcpy(buffer, &(pageNum), sizeof(id_t));
 
-    if (state->numAvailIndexPages <= 0) {
+    if (state->numAvailIndexPages <= 0 && physicalPageNumber % state->eraseSizeInPages != 0) {
+        // The page is in a block which was already erased, but the content of the page outlived the erase
+        state->numAvailIndexPages++;
+        state->minIndexPageId++;
+    } else if (state->numAvailIndexPages <= 0) {
         // Erase index pages to make room for new page
         forgetBufferedPage(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + state->eraseSizeInPages);
         int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
-- 
2.43.0


From 04d8d3377e15e7f0f58cfe1dab9665a61e017fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 13/33] fix: failed writes, erases and flushes are reported and
 do not lose records or advance page ids

---
 lib/Distribution/embedDB.c | 69 +++++++++++++++++++++++++-------------
 src/embedDB/embedDB.c      | 69 +++++++++++++++++++++++++-------------
 2 files changed, 92 insertions(+), 46 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 9789331..b1e92f8 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1616,6 +1616,12 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     if (count >= state->maxRecordsPerPage) {
         // As the first buffer is the data write buffer, no manipulation is required
         id_t pageNum = writePage(state, state->buffer);
+        if (pageNum == (id_t)-1) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Unable to write the full data page. Insert Failed.\n");
+#endif
+            return -1;
+        }
 
         indexPage(state, pageNum);
 
@@ -2125,7 +2131,9 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
         // flush variable record buffer to storage to read later on
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0) {
+            return -1;
+        }
         // copy contents of write buffer to read buffer for embedDBSetupVarDataStream()
         readToWriteBuf(state);
         // else if there are records in the file system, mem cpy fixed record into data
@@ -2215,20 +2223,26 @@ int8_t embedDBFlushVar(embedDBState *state) {
 
     // only flush variable buffer
     id_t writeResult = writeVariablePage(state, (int8_t *)state->buffer + EMBEDDB_VAR_WRITE_BUFFER(state->parameters) * state->pageSize);
-    if (writeResult == -1) {
+    if (writeResult == (id_t)-1) {
 #ifdef PRINT_ERRORS
         printf("Failed to write variable data page during embedDBFlushVar.");
 #endif
         return -1;
     }
 
-    state->fileInterface->flush(state->varFile);
     // init new buffer
     initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
     // determine how many bytes are left
     int temp = state->pageSize - (state->currentVarLoc % state->pageSize);
     // create new offset
     state->currentVarLoc += temp + state->variableDataHeaderSize;
+
+    if (state->fileInterface->flush(state->varFile) != 1) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush the variable data file during embedDBFlushVar.");
+#endif
+        return -1;
+    }
     return 0;
 }
 
@@ -2238,20 +2252,37 @@ int8_t embedDBFlushVar(embedDBState *state) {
  * @returns 0 if successul and a non-zero value otherwise
  */
 int8_t embedDBFlush(embedDBState *state) {
+    // Flush var data page before the records that refer to it
+    if (EMBEDDB_USING_VDATA(state->parameters)) {
+        int8_t varFlushResult = embedDBFlushVar(state);
+        if (varFlushResult != 0) {
+#ifdef PRINT_ERRORS
+            printf("Failed to flush variable data page");
+#endif
+            return -1;
+        }
+    }
+
     // As the first buffer is the data write buffer, no address change is required
     int8_t *buffer = (int8_t *)state->buffer + EMBEDDB_DATA_WRITE_BUFFER * state->pageSize;
     if (EMBEDDB_GET_COUNT(buffer) < 1)
         return 0;
 
     id_t pageNum = writePage(state, buffer);
-    if (pageNum == -1) {
+    if (pageNum == (id_t)-1) {
 #ifdef PRINT_ERRORS
         printf("Failed to write page during embedDBFlush.");
 #endif
         return -1;
     }
 
-    state->fileInterface->flush(state->dataFile);
+    int8_t flushResult = 0;
+    if (state->fileInterface->flush(state->dataFile) != 1) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush the data file during embedDBFlush.");
+#endif
+        flushResult = -1;
+    }
 
     indexPage(state, pageNum);
 
@@ -2260,15 +2291,13 @@ int8_t embedDBFlush(embedDBState *state) {
         addToIndexBuffer(state, pageNum);
 
         id_t writeResult = writeIndexPage(state, buf);
-        if (writeResult == -1) {
+        if (writeResult == (id_t)-1 || state->fileInterface->flush(state->indexFile) != 1) {
 #ifdef PRINT_ERRORS
             printf("Failed to write index page during embedDBFlush.");
 #endif
-            return -1;
+            flushResult = -1;
         }
 
-        state->fileInterface->flush(state->indexFile);
-
         /* Reinitialize buffer */
         initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
     }
@@ -2276,17 +2305,7 @@ int8_t embedDBFlush(embedDBState *state) {
     /* Reinitialize buffer */
     initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
 
-    // Flush var data page
-    if (EMBEDDB_USING_VDATA(state->parameters)) {
-        int8_t varFlushResult = embedDBFlushVar(state);
-        if (varFlushResult != 0) {
-#ifdef PRINT_ERRORS
-            printf("Failed to flush variable data page");
-#endif
-            return -1;
-        }
-    }
-    return 0;
+    return flushResult;
 }
 
 /**
@@ -2386,7 +2405,9 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
     void *outputBuffer = (int8_t *)state->buffer;
     if (it->nextDataPage == 0 && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
         readToWriteBuf(state);
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0) {
+            return 0;
+        }
     }
 
     // Get the vardata address from the record
@@ -2552,7 +2573,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextDataPageId++;
+    id_t pageNum = state->nextDataPageId;
     id_t physicalPageNum = pageNum % state->numDataPages;
 
     /* Setup page number in header */
@@ -2589,6 +2610,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextDataPageId++;
     state->numAvailDataPages--;
     state->numWrites++;
 
@@ -2687,7 +2709,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextIdxPageId++;
+    id_t pageNum = state->nextIdxPageId;
     id_t physicalPageNumber = pageNum % state->numIndexPages;
 
     /* Setup page number in header */
@@ -2721,6 +2743,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextIdxPageId++;
     state->numAvailIndexPages--;
     state->numIdxWrites++;
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index fd34c68..fd7d2f5 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1158,6 +1158,12 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     if (count >= state->maxRecordsPerPage) {
         // As the first buffer is the data write buffer, no manipulation is required
         id_t pageNum = writePage(state, state->buffer);
+        if (pageNum == (id_t)-1) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Unable to write the full data page. Insert Failed.\n");
+#endif
+            return -1;
+        }
 
         indexPage(state, pageNum);
 
@@ -1667,7 +1673,9 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
         // flush variable record buffer to storage to read later on
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0) {
+            return -1;
+        }
         // copy contents of write buffer to read buffer for embedDBSetupVarDataStream()
         readToWriteBuf(state);
         // else if there are records in the file system, mem cpy fixed record into data
@@ -1757,20 +1765,26 @@ int8_t embedDBFlushVar(embedDBState *state) {
 
     // only flush variable buffer
     id_t writeResult = writeVariablePage(state, (int8_t *)state->buffer + EMBEDDB_VAR_WRITE_BUFFER(state->parameters) * state->pageSize);
-    if (writeResult == -1) {
+    if (writeResult == (id_t)-1) {
 #ifdef PRINT_ERRORS
         printf("Failed to write variable data page during embedDBFlushVar.");
 #endif
         return -1;
     }
 
-    state->fileInterface->flush(state->varFile);
     // init new buffer
     initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
     // determine how many bytes are left
     int temp = state->pageSize - (state->currentVarLoc % state->pageSize);
     // create new offset
     state->currentVarLoc += temp + state->variableDataHeaderSize;
+
+    if (state->fileInterface->flush(state->varFile) != 1) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush the variable data file during embedDBFlushVar.");
+#endif
+        return -1;
+    }
     return 0;
 }
 
@@ -1780,20 +1794,37 @@ int8_t embedDBFlushVar(embedDBState *state) {
  * @returns 0 if successul and a non-zero value otherwise
  */
 int8_t embedDBFlush(embedDBState *state) {
+    // Flush var data page before the records that refer to it
+    if (EMBEDDB_USING_VDATA(state->parameters)) {
+        int8_t varFlushResult = embedDBFlushVar(state);
+        if (varFlushResult != 0) {
+#ifdef PRINT_ERRORS
+            printf("Failed to flush variable data page");
+#endif
+            return -1;
+        }
+    }
+
     // As the first buffer is the data write buffer, no address change is required
     int8_t *buffer = (int8_t *)state->buffer + EMBEDDB_DATA_WRITE_BUFFER * state->pageSize;
     if (EMBEDDB_GET_COUNT(buffer) < 1)
         return 0;
 
     id_t pageNum = writePage(state, buffer);
-    if (pageNum == -1) {
+    if (pageNum == (id_t)-1) {
 #ifdef PRINT_ERRORS
         printf("Failed to write page during embedDBFlush.");
 #endif
         return -1;
     }
 
-    state->fileInterface->flush(state->dataFile);
+    int8_t flushResult = 0;
+    if (state->fileInterface->flush(state->dataFile) != 1) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush the data file during embedDBFlush.");
+#endif
+        flushResult = -1;
+    }
 
     indexPage(state, pageNum);
 
@@ -1802,15 +1833,13 @@ int8_t embedDBFlush(embedDBState *state) {
         addToIndexBuffer(state, pageNum);
 
         id_t writeResult = writeIndexPage(state, buf);
-        if (writeResult == -1) {
+        if (writeResult == (id_t)-1 || state->fileInterface->flush(state->indexFile) != 1) {
 #ifdef PRINT_ERRORS
             printf("Failed to write index page during embedDBFlush.");
 #endif
-            return -1;
+            flushResult = -1;
         }
 
-        state->fileInterface->flush(state->indexFile);
-
         /* Reinitialize buffer */
         initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
     }
@@ -1818,17 +1847,7 @@ int8_t embedDBFlush(embedDBState *state) {
     /* Reinitialize buffer */
     initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
 
-    // Flush var data page
-    if (EMBEDDB_USING_VDATA(state->parameters)) {
-        int8_t varFlushResult = embedDBFlushVar(state);
-        if (varFlushResult != 0) {
-#ifdef PRINT_ERRORS
-            printf("Failed to flush variable data page");
-#endif
-            return -1;
-        }
-    }
-    return 0;
+    return flushResult;
 }
 
 /**
@@ -1928,7 +1947,9 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
     void *outputBuffer = (int8_t *)state->buffer;
     if (it->nextDataPage == 0 && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
         readToWriteBuf(state);
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0) {
+            return 0;
+        }
     }
 
     // Get the vardata address from the record
@@ -2094,7 +2115,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextDataPageId++;
+    id_t pageNum = state->nextDataPageId;
     id_t physicalPageNum = pageNum % state->numDataPages;
 
     /* Setup page number in header */
@@ -2131,6 +2152,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextDataPageId++;
     state->numAvailDataPages--;
     state->numWrites++;
 
@@ -2229,7 +2251,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextIdxPageId++;
+    id_t pageNum = state->nextIdxPageId;
     id_t physicalPageNumber = pageNum % state->numIndexPages;
 
     /* Setup page number in header */
@@ -2263,6 +2285,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    state->nextIdxPageId++;
     state->numAvailIndexPages--;
     state->numIdxWrites++;
 
-- 
2.43.0


From 36a5cd3ed8a2c60fbe30cd6c161b6911a1ff7228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:32 +0000
Subject: [PATCH 14/33] fix: variable data is stored before its record, found
 in the write buffer and recovered from any wrap position

---
 lib/Distribution/embedDB.c | 298 +++++++++++++++++++++++--------------
 src/embedDB/embedDB.c      | 298 +++++++++++++++++++++++--------------
 2 files changed, 378 insertions(+), 218 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index b1e92f8..8f78f7a 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1254,9 +1254,11 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
 
     /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
     uint32_t i = 0;
+    bool maybeFirstPage = false;
+    id_t physicalPageIDOfSmallestData = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = logicalVariablePageId % state->numVarPages == count;
+        validData = logicalVariablePageId != (id_t)-1 && logicalVariablePageId % state->numVarPages == count;
         if (validData) {
             uint64_t largestVarRecordId = 0;
             /* Fetch the largest key value for which we have data on this page */
@@ -1269,6 +1271,10 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
                 i = 2;
                 hasData = true;
                 maxLogicalVariablePageId = logicalVariablePageId;
+                /* The oldest page is on the second block if the first one has been erased */
+                physicalPageIDOfSmallestData = count < blockSize || (maybeFirstPage && logicalVariablePageId == 1) ? 0 : count;
+            } else {
+                maybeFirstPage = true;
             }
             physicalVariablePageId++;
             count++;
@@ -1281,6 +1287,14 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
         moreToRead = !(readVariablePage(state, physicalVariablePageId));
     }
 
+    /* If there is no other page, the first page holds the data of the record with key 0 */
+    if (!hasData && maybeFirstPage) {
+        hasData = true;
+        physicalVariablePageId = 1;
+        count = 1;
+        moreToRead = !(readVariablePage(state, physicalVariablePageId));
+    }
+
     /* if we have no valid data, we just have an empty file can can start from the scratch */
     if (!hasData)
         return 0;
@@ -1300,31 +1314,35 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is we have not wrapped and the smallest key is on the first valid page.
      */
-    id_t physicalPageIDOfSmallestData = 0;
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numVarPages) {
         /* find where the next block boundary is */
         id_t pagesToBlockBoundary = blockSize - (count % blockSize);
 
+        /* if we are on a block boundary, the next block may have been erased only in part, so we erase it and skip to the start of the block after it */
+        if (pagesToBlockBoundary == blockSize) {
+            forgetBufferedPage(&state->bufferedVarPage, count, count + blockSize);
+            if (state->fileInterface->erase(count, count + blockSize, state->pageSize, state->varFile) != 1) {
+#ifdef PRINT_ERRORS
+                printf("Error: Unable to erase variable data pages during recovery!\n");
+#endif
+                return -1;
+            }
+        }
+
         /* go to the next block boundary */
         physicalVariablePageId = (physicalVariablePageId + pagesToBlockBoundary) % state->numVarPages;
         moreToRead = !(readVariablePage(state, physicalVariablePageId));
 
-        /* there should have been more to read becuase the file should not be empty at this point if it was not empty at the previous block */
-        if (!moreToRead) {
-            return -1;
-        }
-
-        /* check if data is valid or if it is junk */
-        memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = logicalVariablePageId % state->numVarPages == physicalVariablePageId;
-
-        /* this means we have wrapped and our start is actually here */
-        if (validData) {
-            physicalPageIDOfSmallestData = physicalVariablePageId;
+        /* check if the oldest page of the previous pass over the file is here, which means we have wrapped and our start is actually here */
+        if (moreToRead && maxLogicalVariablePageId + 1 + pagesToBlockBoundary >= state->numVarPages) {
+            memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
+            if (logicalVariablePageId == maxLogicalVariablePageId + 1 + pagesToBlockBoundary - state->numVarPages) {
+                physicalPageIDOfSmallestData = physicalVariablePageId;
+            }
         }
     }
 
@@ -1347,6 +1365,7 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
         if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && state->nextDataPageId == 0) {
             /* check the buffer for records  */
             dataBuffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_WRITE_BUFFER;
+            hasData = EMBEDDB_GET_COUNT(dataBuffer) > 0;
         } else {
             /* read page with smallest data we still have */
             dataBuffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
@@ -1361,10 +1380,13 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
 
         /* Get smallest key from page and put it into the minVarRecordId */
         uint64_t minKey = 0;
-        memcpy(&minKey, embedDBGetMinKey(state, dataBuffer), state->keySize);
-        state->minVarRecordId = minKey;
+        if (hasData) {
+            memcpy(&minKey, embedDBGetMinKey(state, dataBuffer), state->keySize);
+            state->minVarRecordId = minKey;
+        }
     } else {
         /* We lose some records, but know for sure we have all records larger than this*/
+        state->minVarRecordId = 0;
         memcpy(&(state->minVarRecordId), (int8_t *)buffer + sizeof(id_t), state->keySize);
         state->minVarRecordId++;
     }
@@ -1579,15 +1601,12 @@ static void *findIndexBitmap(embedDBState *state, id_t dataPage) {
 }
 
 /**
- * @brief	Puts a given key, data pair into structure.
+ * @brief	Checks that a key is larger than all keys inserted so far.
  * @param	state	embedDB algorithm state structure
- * @param	key		Key for record
- * @param	data	Data for record
- * @return	Return 0 if success. Non-zero value if error.
+ * @param	key		Key to insert
+ * @return	Return 0 if the key can be inserted. Non-zero value if error.
  */
-int8_t embedDBPut(embedDBState *state, void *key, void *data) {
-    /* Copy record into block */
-
+static int8_t checkKeyOrder(embedDBState *state, void *key) {
     count_t count = EMBEDDB_GET_COUNT(state->buffer);
     if (state->nextDataPageId > 0 || count > 0) {
         void *previousKey = NULL;
@@ -1611,6 +1630,21 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
         }
     }
 
+    return 0;
+}
+
+/**
+ * @brief	Appends a record to the write buffer. The order of the keys must already have been checked.
+ * @param	state		embedDB algorithm state structure
+ * @param	key			Key for record
+ * @param	data		Data for record
+ * @param	varLocation	Location of the variable data of the record, or EMBEDDB_NO_VAR_DATA
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+static int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t varLocation) {
+    /* Copy record into block */
+    count_t count = EMBEDDB_GET_COUNT(state->buffer);
+
     /* Write current page if full */
     bool wrotePage = false;
     if (count >= state->maxRecordsPerPage) {
@@ -1643,13 +1677,7 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
     /* Copy variable data offset if using variable data*/
     if (EMBEDDB_USING_VDATA(state->parameters)) {
-        uint32_t dataLocation;
-        if (state->recordHasVarData) {
-            dataLocation = state->currentVarLoc % (state->numVarPages * state->pageSize);
-        } else {
-            dataLocation = EMBEDDB_NO_VAR_DATA;
-        }
-        memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize + state->keySize + state->dataSize, &dataLocation, sizeof(uint32_t));
+        memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize + state->keySize + state->dataSize, &varLocation, sizeof(uint32_t));
     }
 
     /* Update count */
@@ -1703,6 +1731,29 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     return 0;
 }
 
+/**
+ * @brief	Puts a given key, data pair into structure.
+ * @param	state	embedDB algorithm state structure
+ * @param	key		Key for record
+ * @param	data	Data for record
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+int8_t embedDBPut(embedDBState *state, void *key, void *data) {
+    int8_t r = checkKeyOrder(state, key);
+    if (r != 0) {
+        return r;
+    }
+
+    /* If the current page is full it will be written, so the variable data of the records on it has to be written first */
+    if (EMBEDDB_USING_VDATA(state->parameters) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage) {
+        if (embedDBFlushVar(state) != 0) {
+            return -1;
+        }
+    }
+
+    return putRecord(state, key, data, EMBEDDB_NO_VAR_DATA);
+}
+
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
     /* erase the record-level consistency blocks */
 
@@ -1756,6 +1807,66 @@ void updateMaxiumError(embedDBState *state, void *buffer) {
     }
 }
 
+/**
+ * @brief	Writes the variable data page in the buffer to storage and starts the next one.
+ * @param	state	embedDB algorithm state structure
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+static int8_t saveVarBuffer(embedDBState *state) {
+    if (writeVariablePage(state, (int8_t *)state->buffer + EMBEDDB_VAR_WRITE_BUFFER(state->parameters) * state->pageSize) == (id_t)-1) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to write variable data page.\n");
+#endif
+        return -1;
+    }
+    initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+    // Move data writing location to the beginning of the next page, leaving the room for the header
+    state->currentVarLoc = (state->nextVarPageId % state->numVarPages) * state->pageSize + state->variableDataHeaderSize;
+    return 0;
+}
+
+/**
+ * @brief	Appends the length and the content of variable data to the variable data buffer, which is written whenever it is full.
+ * @param	state			embedDB algorithm state structure
+ * @param	key				Key of the record that the data belongs to
+ * @param	variableData	Variable length data for record
+ * @param	length			Length of the variable length data in bytes
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+static int8_t putVariableData(embedDBState *state, void *key, void *variableData, uint32_t length) {
+    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+
+    // Update the header to include the maximum key value stored on this page
+    memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
+
+    // Write the length of the data item into the buffer
+    memcpy((uint8_t *)buf + state->currentVarLoc % state->pageSize, &length, sizeof(uint32_t));
+    state->currentVarLoc += 4;
+
+    uint32_t amtWritten = 0;
+    while (1) {
+        // If we need to write the buffer to file
+        if (state->currentVarLoc % state->pageSize == 0) {
+            if (saveVarBuffer(state) != 0) {
+                return -1;
+            }
+
+            // Update the header to include the maximum key value stored on this page and account for page number
+            memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
+        }
+
+        if (amtWritten == length) {
+            return 0;
+        }
+
+        // Copy data into the buffer. Write the min of the space left in this page and the remaining length of the data
+        uint32_t amtToWrite = min(state->pageSize - state->currentVarLoc % state->pageSize, length - amtWritten);
+        memcpy((uint8_t *)buf + (state->currentVarLoc % state->pageSize), (uint8_t *)variableData + amtWritten, amtToWrite);
+        amtWritten += amtToWrite;
+        state->currentVarLoc += amtToWrite;
+    }
+}
+
 /**
  * @brief	Puts the given key, data, and variable length data into the structure.
  * @param	state			embedDB algorithm state structure
@@ -1773,6 +1884,11 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
         return -1;
     }
 
+    int8_t r = checkKeyOrder(state, key);
+    if (r != 0) {
+        return r;
+    }
+
     // Insert their data
 
     /*
@@ -1780,69 +1896,48 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
      * data here and if the data page will be written in embedDBGet
      */
     void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-    if (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage)) {
-        writeVariablePage(state, buf);
-        initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-        // Move data writing location to the beginning of the next page, leaving the room for the header
-        state->currentVarLoc += state->pageSize - state->currentVarLoc % state->pageSize + state->variableDataHeaderSize;
+    bool emptyVarBuffer = state->currentVarLoc % state->pageSize == state->variableDataHeaderSize;
+    if (!emptyVarBuffer && (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage))) {
+        if (saveVarBuffer(state) != 0) {
+            return -1;
+        }
     }
 
     if (variableData == NULL) {
         // Var data enabled, but not provided
-        state->recordHasVarData = 0;
-        return embedDBPut(state, key, data);
+        return putRecord(state, key, data, EMBEDDB_NO_VAR_DATA);
     }
 
-    // Perform the regular insert
-    state->recordHasVarData = 1;
-    int8_t r;
-    if ((r = embedDBPut(state, key, data)) != 0) {
-        return r;
-    }
-
-    if (state->minVarRecordId == UINT64_MAX) {
-        memcpy(&state->minVarRecordId, key, state->keySize);
+    // Store the variable data before the record which refers to it
+    uint32_t varLocation = state->currentVarLoc;
+    id_t varPageId = state->nextVarPageId;
+    uint64_t previousMaxKey = 0;
+    memcpy(&previousMaxKey, (int8_t *)buf + sizeof(id_t), state->keySize);
+    r = putVariableData(state, key, variableData, length);
+    if (r == 0 && EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
+        r = embedDBFlushVar(state);
     }
 
-    // Update the header to include the maximum key value stored on this page
-    memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
-
-    // Write the length of the data item into the buffer
-    memcpy((uint8_t *)buf + state->currentVarLoc % state->pageSize, &length, sizeof(uint32_t));
-    state->currentVarLoc += 4;
-
-    // Check if we need to write after doing that
-    if (state->currentVarLoc % state->pageSize == 0) {
-        writeVariablePage(state, buf);
-        initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-
-        // Update the header to include the maximum key value stored on this page
-        memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
-        state->currentVarLoc += state->variableDataHeaderSize;
+    // Perform the regular insert
+    if (r == 0) {
+        r = putRecord(state, key, data, varLocation);
     }
 
-    int amtWritten = 0;
-    while (length > 0) {
-        // Copy data into the buffer. Write the min of the space left in this page and the remaining length of the data
-        uint16_t amtToWrite = min(state->pageSize - state->currentVarLoc % state->pageSize, length);
-        memcpy((uint8_t *)buf + (state->currentVarLoc % state->pageSize), (uint8_t *)variableData + amtWritten, amtToWrite);
-        length -= amtToWrite;
-        amtWritten += amtToWrite;
-        state->currentVarLoc += amtToWrite;
-
-        // If we need to write the buffer to file
-        if (state->currentVarLoc % state->pageSize == 0) {
-            writeVariablePage(state, buf);
+    if (r != 0) {
+        // The record was not inserted, so its variable data does not have to be kept
+        if (state->nextVarPageId == varPageId) {
+            state->currentVarLoc = varLocation;
+            memcpy((int8_t *)buf + sizeof(id_t), &previousMaxKey, state->keySize);
+        } else {
             initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-
-            // Update the header to include the maximum key value stored on this page and account for page number
-            memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
-            state->currentVarLoc += state->variableDataHeaderSize;
+            state->currentVarLoc = (state->nextVarPageId % state->numVarPages) * state->pageSize + state->variableDataHeaderSize;
         }
+        return r;
     }
 
-    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        embedDBFlushVar(state);
+    if (state->minVarRecordId == UINT64_MAX) {
+        state->minVarRecordId = 0;
+        memcpy(&state->minVarRecordId, key, state->keySize);
     }
 
     return 0;
@@ -2216,27 +2311,11 @@ void embedDBCloseIterator(embedDBIterator *it) {
  * @returns 0 if successul and a non-zero value otherwise
  */
 int8_t embedDBFlushVar(embedDBState *state) {
-    /* Check if we actually have any variable data in the buffer */
-    if (state->currentVarLoc % state->pageSize == state->variableDataHeaderSize) {
-        return 0;
-    }
-
-    // only flush variable buffer
-    id_t writeResult = writeVariablePage(state, (int8_t *)state->buffer + EMBEDDB_VAR_WRITE_BUFFER(state->parameters) * state->pageSize);
-    if (writeResult == (id_t)-1) {
-#ifdef PRINT_ERRORS
-        printf("Failed to write variable data page during embedDBFlushVar.");
-#endif
+    /* Check if we actually have any variable data in the buffer. If not, there may still be pages that were written but not flushed. */
+    if (state->currentVarLoc % state->pageSize != state->variableDataHeaderSize && saveVarBuffer(state) != 0) {
         return -1;
     }
 
-    // init new buffer
-    initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-    // determine how many bytes are left
-    int temp = state->pageSize - (state->currentVarLoc % state->pageSize);
-    // create new offset
-    state->currentVarLoc += temp + state->variableDataHeaderSize;
-
     if (state->fileInterface->flush(state->varFile) != 1) {
 #ifdef PRINT_ERRORS
         printf("Failed to flush the variable data file during embedDBFlushVar.");
@@ -2403,7 +2482,7 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
     }
 
     void *outputBuffer = (int8_t *)state->buffer;
-    if (it->nextDataPage == 0 && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
+    if (it->nextDataPage == state->nextDataPageId && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
         readToWriteBuf(state);
         if (embedDBFlushVar(state) != 0) {
             return 0;
@@ -2766,6 +2845,16 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
 
     // Erase data if needed
     if (state->numAvailVarPages <= 0) {
+        // Last page that is deleted
+        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
+
+        // Read in that page so we can update which records we still have the data for
+        if (readVariablePage(state, pageNum) != 0) {
+            return -1;
+        }
+        uint64_t maxDeletedKey = 0;
+        memcpy(&maxDeletedKey, (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t), state->keySize);
+
         forgetBufferedPage(&state->bufferedVarPage, physicalPageId, physicalPageId + state->eraseSizeInPages);
         int8_t eraseResult = state->fileInterface->erase(physicalPageId, physicalPageId + state->eraseSizeInPages, state->pageSize, state->varFile);
         if (eraseResult != 1) {
@@ -2775,16 +2864,7 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
             return -1;
         }
         state->numAvailVarPages += state->eraseSizeInPages;
-        // Last page that is deleted
-        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
-
-        // Read in that page so we can update which records we still have the data for
-        if (readVariablePage(state, pageNum) != 0) {
-            return -1;
-        }
-        void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t);
-        memcpy(&state->minVarRecordId, buf, state->keySize);
-        state->minVarRecordId += 1;  // Add one because the result from the last line is a record that is erased
+        state->minVarRecordId = maxDeletedKey + 1;  // Add one because the record with this key is erased
     }
 
     // Add logical page number to data page
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index fd7d2f5..6b05d6e 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -796,9 +796,11 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
 
     /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
     uint32_t i = 0;
+    bool maybeFirstPage = false;
+    id_t physicalPageIDOfSmallestData = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = logicalVariablePageId % state->numVarPages == count;
+        validData = logicalVariablePageId != (id_t)-1 && logicalVariablePageId % state->numVarPages == count;
         if (validData) {
             uint64_t largestVarRecordId = 0;
             /* Fetch the largest key value for which we have data on this page */
@@ -811,6 +813,10 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
                 i = 2;
                 hasData = true;
                 maxLogicalVariablePageId = logicalVariablePageId;
+                /* The oldest page is on the second block if the first one has been erased */
+                physicalPageIDOfSmallestData = count < blockSize || (maybeFirstPage && logicalVariablePageId == 1) ? 0 : count;
+            } else {
+                maybeFirstPage = true;
             }
             physicalVariablePageId++;
             count++;
@@ -823,6 +829,14 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
         moreToRead = !(readVariablePage(state, physicalVariablePageId));
     }
 
+    /* If there is no other page, the first page holds the data of the record with key 0 */
+    if (!hasData && maybeFirstPage) {
+        hasData = true;
+        physicalVariablePageId = 1;
+        count = 1;
+        moreToRead = !(readVariablePage(state, physicalVariablePageId));
+    }
+
     /* if we have no valid data, we just have an empty file can can start from the scratch */
     if (!hasData)
         return 0;
@@ -842,31 +856,35 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is we have not wrapped and the smallest key is on the first valid page.
      */
-    id_t physicalPageIDOfSmallestData = 0;
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numVarPages) {
         /* find where the next block boundary is */
         id_t pagesToBlockBoundary = blockSize - (count % blockSize);
 
+        /* if we are on a block boundary, the next block may have been erased only in part, so we erase it and skip to the start of the block after it */
+        if (pagesToBlockBoundary == blockSize) {
+            forgetBufferedPage(&state->bufferedVarPage, count, count + blockSize);
+            if (state->fileInterface->erase(count, count + blockSize, state->pageSize, state->varFile) != 1) {
+#ifdef PRINT_ERRORS
+                printf("Error: Unable to erase variable data pages during recovery!\n");
+#endif
+                return -1;
+            }
+        }
+
         /* go to the next block boundary */
         physicalVariablePageId = (physicalVariablePageId + pagesToBlockBoundary) % state->numVarPages;
         moreToRead = !(readVariablePage(state, physicalVariablePageId));
 
-        /* there should have been more to read becuase the file should not be empty at this point if it was not empty at the previous block */
-        if (!moreToRead) {
-            return -1;
-        }
-
-        /* check if data is valid or if it is junk */
-        memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
-        validData = logicalVariablePageId % state->numVarPages == physicalVariablePageId;
-
-        /* this means we have wrapped and our start is actually here */
-        if (validData) {
-            physicalPageIDOfSmallestData = physicalVariablePageId;
+        /* check if the oldest page of the previous pass over the file is here, which means we have wrapped and our start is actually here */
+        if (moreToRead && maxLogicalVariablePageId + 1 + pagesToBlockBoundary >= state->numVarPages) {
+            memcpy(&logicalVariablePageId, buffer, sizeof(id_t));
+            if (logicalVariablePageId == maxLogicalVariablePageId + 1 + pagesToBlockBoundary - state->numVarPages) {
+                physicalPageIDOfSmallestData = physicalVariablePageId;
+            }
         }
     }
 
@@ -889,6 +907,7 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
         if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && state->nextDataPageId == 0) {
             /* check the buffer for records  */
             dataBuffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_WRITE_BUFFER;
+            hasData = EMBEDDB_GET_COUNT(dataBuffer) > 0;
         } else {
             /* read page with smallest data we still have */
             dataBuffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
@@ -903,10 +922,13 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
 
         /* Get smallest key from page and put it into the minVarRecordId */
         uint64_t minKey = 0;
-        memcpy(&minKey, embedDBGetMinKey(state, dataBuffer), state->keySize);
-        state->minVarRecordId = minKey;
+        if (hasData) {
+            memcpy(&minKey, embedDBGetMinKey(state, dataBuffer), state->keySize);
+            state->minVarRecordId = minKey;
+        }
     } else {
         /* We lose some records, but know for sure we have all records larger than this*/
+        state->minVarRecordId = 0;
         memcpy(&(state->minVarRecordId), (int8_t *)buffer + sizeof(id_t), state->keySize);
         state->minVarRecordId++;
     }
@@ -1121,15 +1143,12 @@ static void *findIndexBitmap(embedDBState *state, id_t dataPage) {
 }
 
 /**
- * @brief	Puts a given key, data pair into structure.
+ * @brief	Checks that a key is larger than all keys inserted so far.
  * @param	state	embedDB algorithm state structure
- * @param	key		Key for record
- * @param	data	Data for record
- * @return	Return 0 if success. Non-zero value if error.
+ * @param	key		Key to insert
+ * @return	Return 0 if the key can be inserted. Non-zero value if error.
  */
-int8_t embedDBPut(embedDBState *state, void *key, void *data) {
-    /* Copy record into block */
-
+static int8_t checkKeyOrder(embedDBState *state, void *key) {
     count_t count = EMBEDDB_GET_COUNT(state->buffer);
     if (state->nextDataPageId > 0 || count > 0) {
         void *previousKey = NULL;
@@ -1153,6 +1172,21 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
         }
     }
 
+    return 0;
+}
+
+/**
+ * @brief	Appends a record to the write buffer. The order of the keys must already have been checked.
+ * @param	state		embedDB algorithm state structure
+ * @param	key			Key for record
+ * @param	data		Data for record
+ * @param	varLocation	Location of the variable data of the record, or EMBEDDB_NO_VAR_DATA
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+static int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t varLocation) {
+    /* Copy record into block */
+    count_t count = EMBEDDB_GET_COUNT(state->buffer);
+
     /* Write current page if full */
     bool wrotePage = false;
     if (count >= state->maxRecordsPerPage) {
@@ -1185,13 +1219,7 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
     /* Copy variable data offset if using variable data*/
     if (EMBEDDB_USING_VDATA(state->parameters)) {
-        uint32_t dataLocation;
-        if (state->recordHasVarData) {
-            dataLocation = state->currentVarLoc % (state->numVarPages * state->pageSize);
-        } else {
-            dataLocation = EMBEDDB_NO_VAR_DATA;
-        }
-        memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize + state->keySize + state->dataSize, &dataLocation, sizeof(uint32_t));
+        memcpy((int8_t *)state->buffer + (state->recordSize * count) + state->headerSize + state->keySize + state->dataSize, &varLocation, sizeof(uint32_t));
     }
 
     /* Update count */
@@ -1245,6 +1273,29 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     return 0;
 }
 
+/**
+ * @brief	Puts a given key, data pair into structure.
+ * @param	state	embedDB algorithm state structure
+ * @param	key		Key for record
+ * @param	data	Data for record
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+int8_t embedDBPut(embedDBState *state, void *key, void *data) {
+    int8_t r = checkKeyOrder(state, key);
+    if (r != 0) {
+        return r;
+    }
+
+    /* If the current page is full it will be written, so the variable data of the records on it has to be written first */
+    if (EMBEDDB_USING_VDATA(state->parameters) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage) {
+        if (embedDBFlushVar(state) != 0) {
+            return -1;
+        }
+    }
+
+    return putRecord(state, key, data, EMBEDDB_NO_VAR_DATA);
+}
+
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
     /* erase the record-level consistency blocks */
 
@@ -1298,6 +1349,66 @@ void updateMaxiumError(embedDBState *state, void *buffer) {
     }
 }
 
+/**
+ * @brief	Writes the variable data page in the buffer to storage and starts the next one.
+ * @param	state	embedDB algorithm state structure
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+static int8_t saveVarBuffer(embedDBState *state) {
+    if (writeVariablePage(state, (int8_t *)state->buffer + EMBEDDB_VAR_WRITE_BUFFER(state->parameters) * state->pageSize) == (id_t)-1) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to write variable data page.\n");
+#endif
+        return -1;
+    }
+    initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+    // Move data writing location to the beginning of the next page, leaving the room for the header
+    state->currentVarLoc = (state->nextVarPageId % state->numVarPages) * state->pageSize + state->variableDataHeaderSize;
+    return 0;
+}
+
+/**
+ * @brief	Appends the length and the content of variable data to the variable data buffer, which is written whenever it is full.
+ * @param	state			embedDB algorithm state structure
+ * @param	key				Key of the record that the data belongs to
+ * @param	variableData	Variable length data for record
+ * @param	length			Length of the variable length data in bytes
+ * @return	Return 0 if success. Non-zero value if error.
+ */
+static int8_t putVariableData(embedDBState *state, void *key, void *variableData, uint32_t length) {
+    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
+
+    // Update the header to include the maximum key value stored on this page
+    memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
+
+    // Write the length of the data item into the buffer
+    memcpy((uint8_t *)buf + state->currentVarLoc % state->pageSize, &length, sizeof(uint32_t));
+    state->currentVarLoc += 4;
+
+    uint32_t amtWritten = 0;
+    while (1) {
+        // If we need to write the buffer to file
+        if (state->currentVarLoc % state->pageSize == 0) {
+            if (saveVarBuffer(state) != 0) {
+                return -1;
+            }
+
+            // Update the header to include the maximum key value stored on this page and account for page number
+            memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
+        }
+
+        if (amtWritten == length) {
+            return 0;
+        }
+
+        // Copy data into the buffer. Write the min of the space left in this page and the remaining length of the data
+        uint32_t amtToWrite = min(state->pageSize - state->currentVarLoc % state->pageSize, length - amtWritten);
+        memcpy((uint8_t *)buf + (state->currentVarLoc % state->pageSize), (uint8_t *)variableData + amtWritten, amtToWrite);
+        amtWritten += amtToWrite;
+        state->currentVarLoc += amtToWrite;
+    }
+}
+
 /**
  * @brief	Puts the given key, data, and variable length data into the structure.
  * @param	state			embedDB algorithm state structure
@@ -1315,6 +1426,11 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
         return -1;
     }
 
+    int8_t r = checkKeyOrder(state, key);
+    if (r != 0) {
+        return r;
+    }
+
     // Insert their data
 
     /*
@@ -1322,69 +1438,48 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
      * data here and if the data page will be written in embedDBGet
      */
     void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-    if (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage)) {
-        writeVariablePage(state, buf);
-        initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-        // Move data writing location to the beginning of the next page, leaving the room for the header
-        state->currentVarLoc += state->pageSize - state->currentVarLoc % state->pageSize + state->variableDataHeaderSize;
+    bool emptyVarBuffer = state->currentVarLoc % state->pageSize == state->variableDataHeaderSize;
+    if (!emptyVarBuffer && (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage))) {
+        if (saveVarBuffer(state) != 0) {
+            return -1;
+        }
     }
 
     if (variableData == NULL) {
         // Var data enabled, but not provided
-        state->recordHasVarData = 0;
-        return embedDBPut(state, key, data);
+        return putRecord(state, key, data, EMBEDDB_NO_VAR_DATA);
     }
 
-    // Perform the regular insert
-    state->recordHasVarData = 1;
-    int8_t r;
-    if ((r = embedDBPut(state, key, data)) != 0) {
-        return r;
-    }
-
-    if (state->minVarRecordId == UINT64_MAX) {
-        memcpy(&state->minVarRecordId, key, state->keySize);
+    // Store the variable data before the record which refers to it
+    uint32_t varLocation = state->currentVarLoc;
+    id_t varPageId = state->nextVarPageId;
+    uint64_t previousMaxKey = 0;
+    memcpy(&previousMaxKey, (int8_t *)buf + sizeof(id_t), state->keySize);
+    r = putVariableData(state, key, variableData, length);
+    if (r == 0 && EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
+        r = embedDBFlushVar(state);
     }
 
-    // Update the header to include the maximum key value stored on this page
-    memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
-
-    // Write the length of the data item into the buffer
-    memcpy((uint8_t *)buf + state->currentVarLoc % state->pageSize, &length, sizeof(uint32_t));
-    state->currentVarLoc += 4;
-
-    // Check if we need to write after doing that
-    if (state->currentVarLoc % state->pageSize == 0) {
-        writeVariablePage(state, buf);
-        initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-
-        // Update the header to include the maximum key value stored on this page
-        memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
-        state->currentVarLoc += state->variableDataHeaderSize;
+    // Perform the regular insert
+    if (r == 0) {
+        r = putRecord(state, key, data, varLocation);
     }
 
-    int amtWritten = 0;
-    while (length > 0) {
-        // Copy data into the buffer. Write the min of the space left in this page and the remaining length of the data
-        uint16_t amtToWrite = min(state->pageSize - state->currentVarLoc % state->pageSize, length);
-        memcpy((uint8_t *)buf + (state->currentVarLoc % state->pageSize), (uint8_t *)variableData + amtWritten, amtToWrite);
-        length -= amtToWrite;
-        amtWritten += amtToWrite;
-        state->currentVarLoc += amtToWrite;
-
-        // If we need to write the buffer to file
-        if (state->currentVarLoc % state->pageSize == 0) {
-            writeVariablePage(state, buf);
+    if (r != 0) {
+        // The record was not inserted, so its variable data does not have to be kept
+        if (state->nextVarPageId == varPageId) {
+            state->currentVarLoc = varLocation;
+            memcpy((int8_t *)buf + sizeof(id_t), &previousMaxKey, state->keySize);
+        } else {
             initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-
-            // Update the header to include the maximum key value stored on this page and account for page number
-            memcpy((int8_t *)buf + sizeof(id_t), key, state->keySize);
-            state->currentVarLoc += state->variableDataHeaderSize;
+            state->currentVarLoc = (state->nextVarPageId % state->numVarPages) * state->pageSize + state->variableDataHeaderSize;
         }
+        return r;
     }
 
-    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        embedDBFlushVar(state);
+    if (state->minVarRecordId == UINT64_MAX) {
+        state->minVarRecordId = 0;
+        memcpy(&state->minVarRecordId, key, state->keySize);
     }
 
     return 0;
@@ -1758,27 +1853,11 @@ void embedDBCloseIterator(embedDBIterator *it) {
  * @returns 0 if successul and a non-zero value otherwise
  */
 int8_t embedDBFlushVar(embedDBState *state) {
-    /* Check if we actually have any variable data in the buffer */
-    if (state->currentVarLoc % state->pageSize == state->variableDataHeaderSize) {
-        return 0;
-    }
-
-    // only flush variable buffer
-    id_t writeResult = writeVariablePage(state, (int8_t *)state->buffer + EMBEDDB_VAR_WRITE_BUFFER(state->parameters) * state->pageSize);
-    if (writeResult == (id_t)-1) {
-#ifdef PRINT_ERRORS
-        printf("Failed to write variable data page during embedDBFlushVar.");
-#endif
+    /* Check if we actually have any variable data in the buffer. If not, there may still be pages that were written but not flushed. */
+    if (state->currentVarLoc % state->pageSize != state->variableDataHeaderSize && saveVarBuffer(state) != 0) {
         return -1;
     }
 
-    // init new buffer
-    initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-    // determine how many bytes are left
-    int temp = state->pageSize - (state->currentVarLoc % state->pageSize);
-    // create new offset
-    state->currentVarLoc += temp + state->variableDataHeaderSize;
-
     if (state->fileInterface->flush(state->varFile) != 1) {
 #ifdef PRINT_ERRORS
         printf("Failed to flush the variable data file during embedDBFlushVar.");
@@ -1945,7 +2024,7 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
     }
 
     void *outputBuffer = (int8_t *)state->buffer;
-    if (it->nextDataPage == 0 && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
+    if (it->nextDataPage == state->nextDataPageId && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
         readToWriteBuf(state);
         if (embedDBFlushVar(state) != 0) {
             return 0;
@@ -2308,6 +2387,16 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
 
     // Erase data if needed
     if (state->numAvailVarPages <= 0) {
+        // Last page that is deleted
+        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
+
+        // Read in that page so we can update which records we still have the data for
+        if (readVariablePage(state, pageNum) != 0) {
+            return -1;
+        }
+        uint64_t maxDeletedKey = 0;
+        memcpy(&maxDeletedKey, (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t), state->keySize);
+
         forgetBufferedPage(&state->bufferedVarPage, physicalPageId, physicalPageId + state->eraseSizeInPages);
         int8_t eraseResult = state->fileInterface->erase(physicalPageId, physicalPageId + state->eraseSizeInPages, state->pageSize, state->varFile);
         if (eraseResult != 1) {
@@ -2317,16 +2406,7 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
             return -1;
         }
         state->numAvailVarPages += state->eraseSizeInPages;
-        // Last page that is deleted
-        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
-
-        // Read in that page so we can update which records we still have the data for
-        if (readVariablePage(state, pageNum) != 0) {
-            return -1;
-        }
-        void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t);
-        memcpy(&state->minVarRecordId, buf, state->keySize);
-        state->minVarRecordId += 1;  // Add one because the result from the last line is a record that is erased
+        state->minVarRecordId = maxDeletedKey + 1;  // Add one because the record with this key is erased
     }
 
     // Add logical page number to data page
-- 
2.43.0


From 145a5fe4eb9c413422c2655e7c5f1e7891829af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:51 +0000
Subject: [PATCH 15/33] fix: data file recovery finds the oldest page and
 erases an incompletely erased block

---
 lib/Distribution/embedDB.c | 34 ++++++++++++++++++++--------------
 src/embedDB/embedDB.c      | 34 ++++++++++++++++++++--------------
 2 files changed, 40 insertions(+), 28 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 8f78f7a..003ef97 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -828,6 +828,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
     /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
     uint32_t i = 0;
     count_t numRecords = 0;
+    id_t physicalPageIDOfSmallestData = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -835,6 +836,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
         if (validData && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1) {
             hasData = true;
             maxLogicalPageId = logicalPageId;
+            physicalPageIDOfSmallestData = physicalPageId;
             physicalPageId++;
             updateMaxiumError(state, buffer);
             count++;
@@ -867,31 +869,35 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is we have not wrapped and the smallest key is on the first page with valid data.
      */
-    id_t physicalPageIDOfSmallestData = 0;
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numDataPages) {
         /* find where the next block boundary is */
         id_t pagesToBlockBoundary = blockSize - (count % blockSize);
 
+        /* if we are on a block boundary, the next block may have been erased only in part, so we erase it and skip to the start of the block after it */
+        if (pagesToBlockBoundary == blockSize) {
+            forgetBufferedPage(&state->bufferedPageId, count, count + blockSize);
+            if (state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile) != 1) {
+#ifdef PRINT_ERRORS
+                printf("Error: Unable to erase data pages during recovery!\n");
+#endif
+                return -1;
+            }
+        }
+
         /* go to the next block boundary */
         physicalPageId = (physicalPageId + pagesToBlockBoundary) % state->numDataPages;
         moreToRead = !(readPage(state, physicalPageId));
 
-        /* there should have been more to read becuase the file should not be empty at this point if it was not empty at the previous block */
-        if (!moreToRead) {
-            return -1;
-        }
-
-        /* check if data is valid or if it is junk */
-        memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == physicalPageId;
-
-        /* this means we have wrapped and our start is actually here */
-        if (validData) {
-            physicalPageIDOfSmallestData = physicalPageId;
+        /* check if the oldest page of the previous pass over the file is here, which means we have wrapped and our start is actually here */
+        if (moreToRead && maxLogicalPageId + 1 + pagesToBlockBoundary >= state->numDataPages) {
+            memcpy(&logicalPageId, buffer, sizeof(id_t));
+            if (logicalPageId == maxLogicalPageId + 1 + pagesToBlockBoundary - state->numDataPages) {
+                physicalPageIDOfSmallestData = physicalPageId;
+            }
         }
     }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 6b05d6e..33957fc 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -370,6 +370,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
     /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
     uint32_t i = 0;
     count_t numRecords = 0;
+    id_t physicalPageIDOfSmallestData = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -377,6 +378,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
         if (validData && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1) {
             hasData = true;
             maxLogicalPageId = logicalPageId;
+            physicalPageIDOfSmallestData = physicalPageId;
             physicalPageId++;
             updateMaxiumError(state, buffer);
             count++;
@@ -409,31 +411,35 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is we have not wrapped and the smallest key is on the first page with valid data.
      */
-    id_t physicalPageIDOfSmallestData = 0;
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numDataPages) {
         /* find where the next block boundary is */
         id_t pagesToBlockBoundary = blockSize - (count % blockSize);
 
+        /* if we are on a block boundary, the next block may have been erased only in part, so we erase it and skip to the start of the block after it */
+        if (pagesToBlockBoundary == blockSize) {
+            forgetBufferedPage(&state->bufferedPageId, count, count + blockSize);
+            if (state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile) != 1) {
+#ifdef PRINT_ERRORS
+                printf("Error: Unable to erase data pages during recovery!\n");
+#endif
+                return -1;
+            }
+        }
+
         /* go to the next block boundary */
         physicalPageId = (physicalPageId + pagesToBlockBoundary) % state->numDataPages;
         moreToRead = !(readPage(state, physicalPageId));
 
-        /* there should have been more to read becuase the file should not be empty at this point if it was not empty at the previous block */
-        if (!moreToRead) {
-            return -1;
-        }
-
-        /* check if data is valid or if it is junk */
-        memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == physicalPageId;
-
-        /* this means we have wrapped and our start is actually here */
-        if (validData) {
-            physicalPageIDOfSmallestData = physicalPageId;
+        /* check if the oldest page of the previous pass over the file is here, which means we have wrapped and our start is actually here */
+        if (moreToRead && maxLogicalPageId + 1 + pagesToBlockBoundary >= state->numDataPages) {
+            memcpy(&logicalPageId, buffer, sizeof(id_t));
+            if (logicalPageId == maxLogicalPageId + 1 + pagesToBlockBoundary - state->numDataPages) {
+                physicalPageIDOfSmallestData = physicalPageId;
+            }
         }
     }
 
-- 
2.43.0


From ec1170a31866510279e8172d2b9a50cfe612b12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:45 +0000
Subject: [PATCH 16/33] fix: iterators skip pages that were deleted since the
 last call

---
 lib/Distribution/embedDB.c | 5 +++++
 src/embedDB/embedDB.c      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 003ef97..379073f 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2404,6 +2404,11 @@ int8_t embedDBFlush(embedDBState *state) {
 int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *data) {
     int searchWriteBuf = 0;
     while (1) {
+        // The page may have been deleted to make room for newer data since the last call
+        if (it->nextDataPage < state->minDataPageId) {
+            it->nextDataPage = state->minDataPageId;
+            it->nextDataRec = 0;
+        }
         if (it->nextDataPage > state->nextDataPageId) {
             return 0;
         }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 33957fc..eb2de64 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1946,6 +1946,11 @@ int8_t embedDBFlush(embedDBState *state) {
 int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *data) {
     int searchWriteBuf = 0;
     while (1) {
+        // The page may have been deleted to make room for newer data since the last call
+        if (it->nextDataPage < state->minDataPageId) {
+            it->nextDataPage = state->minDataPageId;
+            it->nextDataRec = 0;
+        }
         if (it->nextDataPage > state->nextDataPageId) {
             return 0;
         }
-- 
2.43.0


From f61e3d24f7ffc6953059699924f661c6f24d225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 17/33] fix: reading a variable data stream in pieces that end
 at a page boundary

---
 lib/Distribution/embedDB.c | 7 +++++--
 src/embedDB/embedDB.c      | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 379073f..e8d5172 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2618,6 +2618,11 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
         stream->bytesRead += amtToRead;
         stream->fileOffset += amtToRead;
 
+        // Skip past the header of the next page, even if the next page is only needed by the next read
+        if (stream->fileOffset % state->pageSize == 0) {
+            stream->fileOffset += state->variableDataHeaderSize;
+        }
+
         // If we need to keep reading, read the next page
         if (amtRead < length && stream->bytesRead < stream->totalBytes) {
             pageNum = (pageNum + 1) % state->numVarPages;
@@ -2627,8 +2632,6 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
 #endif
                 return 0;
             }
-            // Skip past the header
-            stream->fileOffset += state->variableDataHeaderSize;
         }
     }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index eb2de64..8968807 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2160,6 +2160,11 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
         stream->bytesRead += amtToRead;
         stream->fileOffset += amtToRead;
 
+        // Skip past the header of the next page, even if the next page is only needed by the next read
+        if (stream->fileOffset % state->pageSize == 0) {
+            stream->fileOffset += state->variableDataHeaderSize;
+        }
+
         // If we need to keep reading, read the next page
         if (amtRead < length && stream->bytesRead < stream->totalBytes) {
             pageNum = (pageNum + 1) % state->numVarPages;
@@ -2169,8 +2174,6 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
 #endif
                 return 0;
             }
-            // Skip past the header
-            stream->fileOffset += state->variableDataHeaderSize;
         }
     }
 
-- 
2.43.0


From 36c8ab0a52709c09cd61645c64141f33d9980f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:59 +0000
Subject: [PATCH 18/33] fix: record-level consistency shifts its blocks before
 it needs them and recovers after the end of the file

---
 lib/Distribution/embedDB.c | 107 ++++++++++++++++++++++++-------------
 src/embedDB/embedDB.c      | 107 ++++++++++++++++++++++++-------------
 2 files changed, 140 insertions(+), 74 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index e8d5172..c3b3f13 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -924,6 +924,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     count_t blockSize = state->eraseSizeInPages;
     bool validData = false;
     bool hasPermanentData = false;
+    id_t physicalPageIDOfSmallestData = 0;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
 
     /* This will become zero if there is no more to read */
@@ -942,6 +943,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
             /* Setup for next loop so it does not have to worry about setting the initial values */
             hasPermanentData = true;
             maxLogicalPageId = logicalPageId;
+            physicalPageIDOfSmallestData = physicalPageId;
             physicalPageId++;
             updateMaxiumError(state, buffer);
             count++;
@@ -974,13 +976,17 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
         physicalPageId = 0;
     }
 
+    /* the next page may be at the start of the file again */
+    count %= state->numDataPages;
+    physicalPageId = count;
+
     /* find where the next block boundary is */
     id_t pagesToBlockBoundary = blockSize - (count % blockSize);
     /* if we are on a block-boundary, we erase the next page in case the erase failed and then skip to the start of the next block */
     if (pagesToBlockBoundary == blockSize) {
         forgetBufferedPage(&state->bufferedPageId, count, count + blockSize);
         int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
-        if (!eraseSuccess) {
+        if (eraseSuccess != 1) {
 #ifdef PRINT_ERRORS
             printf("Error: Unable to erase data page during recovery!\n");
 #endif
@@ -999,22 +1005,20 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     uint32_t rlcMaxLogicialPageNumber = UINT32_MAX;
     uint32_t rlcMaxRecordCount = UINT32_MAX;
     uint32_t rlcMaxPage = UINT32_MAX;
-    moreToRead = !(readPage(state, physicalPageId));
-    while (moreToRead && numPagesRead < numPagesToRead) {
+    while (numPagesRead < numPagesToRead && readPage(state, physicalPageId) == 0) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         /* If the next logical page number is not the one after the max data page, we can just skip to the next page.
          * We also need to read the page if there are no permanent records but the logicalPageId is zero, as this indicates we have record-level consistency records
          */
-        if (logicalPageId == maxLogicalPageId + 1 || (logicalPageId == 0 && !hasPermanentData)) {
+        if (logicalPageId == (hasPermanentData ? maxLogicalPageId + 1 : 0)) {
             uint32_t numRecords = EMBEDDB_GET_COUNT(buffer);
-            if (rlcMaxRecordCount == UINT32_MAX || numRecords > rlcMaxRecordCount) {
+            if (numRecords > 0 && numRecords <= state->maxRecordsPerPage && (rlcMaxRecordCount == UINT32_MAX || numRecords > rlcMaxRecordCount)) {
                 rlcMaxRecordCount = numRecords;
                 rlcMaxLogicialPageNumber = logicalPageId;
                 rlcMaxPage = numPagesRead;
             }
         }
         physicalPageId = (physicalPageId + 1) % state->numDataPages;
-        moreToRead = !(readPage(state, physicalPageId));
         numPagesRead++;
     }
 
@@ -1044,7 +1048,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
         eraseEndingPage = eraseStartingPage + blockSize;
         forgetBufferedPage(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
-        if (!eraseSuccess) {
+        if (eraseSuccess != 1) {
 #ifdef PRINT_ERRORS
             printf("Error: Unable to erase pages in data file!\n");
 #endif
@@ -1058,20 +1062,18 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
         return 0;
     }
 
-    /* Now check if we have wrapped after the record level consistency.
-     * The default case is we start at beginning of data file.
+    /*
+     * Now check if we have wrapped after the record level consistency, in which case the oldest page is in the block after them.
+     * The default case is the first page with valid data.
      */
-    id_t physicalPageIDOfSmallestData = 0;
-
-    physicalPageId = (state->rlcPhysicalStartingPage + 2 * blockSize) % state->numDataPages;
-    int8_t readSuccess = readPage(state, physicalPageId);
-    if (readSuccess == 0) {
-        memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == physicalPageId;
-
-        /* this means we have wrapped and our start is actually here */
-        if (validData) {
-            physicalPageIDOfSmallestData = physicalPageId;
+    id_t pagesToOldest = pagesToBlockBoundary + 2 * blockSize;
+    if (maxLogicalPageId + 1 + pagesToOldest >= state->numDataPages) {
+        physicalPageId = (state->rlcPhysicalStartingPage + 2 * blockSize) % state->numDataPages;
+        if (readPage(state, physicalPageId) == 0) {
+            memcpy(&logicalPageId, buffer, sizeof(id_t));
+            if (logicalPageId == maxLogicalPageId + 1 + pagesToOldest - state->numDataPages) {
+                physicalPageIDOfSmallestData = physicalPageId;
+            }
         }
     }
 
@@ -1652,7 +1654,6 @@ static int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t var
     count_t count = EMBEDDB_GET_COUNT(state->buffer);
 
     /* Write current page if full */
-    bool wrotePage = false;
     if (count >= state->maxRecordsPerPage) {
         // As the first buffer is the data write buffer, no manipulation is required
         id_t pageNum = writePage(state, state->buffer);
@@ -1674,7 +1675,13 @@ static int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t var
 
         count = 0;
         initBufferPage(state, 0);
-        wrotePage = true;
+    }
+
+    /* The record-level consistency blocks have to be moved once the permanent pages have reached them */
+    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && state->nextDataPageId % state->numDataPages == state->rlcPhysicalStartingPage) {
+        if (shiftRecordLevelConsistencyBlocks(state) != 0) {
+            return -1;
+        }
     }
 
     /* Copy record onto page */
@@ -1726,12 +1733,19 @@ static int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t var
 
     /* If using record level consistency, we need to immediately write the updated page to storage */
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        /* Need to move record level consistency pointers if on a block boundary */
-        if (wrotePage && state->nextDataPageId % state->eraseSizeInPages == 0) {
-            /* move record-level consistency blocks */
-            shiftRecordLevelConsistencyBlocks(state);
+        int8_t writeResult = writeTemporaryPage(state, state->buffer);
+        if (writeResult != 0) {
+            /* The record is not stored, so it is removed from the page again. The bounds of the data may stay too wide. */
+            if (count == 0) {
+                initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
+            } else {
+                memcpy((int8_t *)state->buffer + EMBEDDB_COUNT_OFFSET, &count, sizeof(count_t));
+                if (EMBEDDB_USING_MAX_MIN(state->parameters)) {
+                    memcpy(EMBEDDB_GET_MAX_KEY(state->buffer, state), (int8_t *)state->buffer + state->headerSize + (count - 1) * state->recordSize, state->keySize);
+                }
+            }
         }
-        return writeTemporaryPage(state, state->buffer);
+        return writeResult;
     }
 
     return 0;
@@ -1761,6 +1775,14 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 }
 
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
+    /* the records on the temporary pages have been written to permanent pages, which must be in storage before the temporary pages are erased */
+    if (state->fileInterface->flush(state->dataFile) != 1) {
+#ifdef PRINT_ERRORS
+        printf("Error: Unable to flush the data file when shifting record level consistency blocks!\n");
+#endif
+        return -1;
+    }
+
     /* erase the record-level consistency blocks */
 
     /* TODO: Likely an optimisation here where we don't always need to erase the second block, but that will make this algorithm more complicated and the savings could be minimal */
@@ -1777,7 +1799,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
         eraseEndingPage = eraseStartingPage + state->eraseSizeInPages;
         forgetBufferedPage(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
-        if (!eraseSuccess) {
+        if (eraseSuccess != 1) {
 #ifdef PRINT_ERRORS
             printf("Error: Unable to erase pages in data file when shifting record level consistency blocks!\n");
 #endif
@@ -2733,31 +2755,42 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         state->nextRLCPhysicalPageLocation = state->rlcPhysicalStartingPage;
     }
 
-    /* If in pageNum is second page in block, we erase the other record-level consistency block */
-    if (state->nextRLCPhysicalPageLocation % state->eraseSizeInPages == 1) {
+    /* If in pageNum is second page in block, we erase the other record-level consistency block. A block of one page is erased right before it is written. */
+    count_t blockSize = state->eraseSizeInPages;
+    if (blockSize == 1 || state->nextRLCPhysicalPageLocation % blockSize == 1) {
         uint32_t eraseStartingPage = state->rlcPhysicalStartingPage;
-        count_t blockSize = state->eraseSizeInPages;
-        if (state->nextRLCPhysicalPageLocation == eraseStartingPage + 1) {
+        if (blockSize == 1) {
+            eraseStartingPage = state->nextRLCPhysicalPageLocation;
+        } else if (state->nextRLCPhysicalPageLocation == eraseStartingPage + 1) {
             eraseStartingPage = (eraseStartingPage + blockSize) % state->numDataPages;
         }
         uint32_t eraseEndingPage = eraseStartingPage + blockSize;
 
         forgetBufferedPage(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
-        if (!eraseSuccess) {
+        if (eraseSuccess != 1) {
 #ifdef PRINT_ERRORS
-            printf("Failed to erase block starting at physical page %i in the data file.", state->nextRLCPhysicalPageLocation);
-            return -2;
+            printf("Failed to erase block starting at physical page %i in the data file.", eraseStartingPage);
 #endif
+            return -2;
         }
     }
 
     /* Write temporary page to storage */
     forgetBufferedPage(&state->bufferedPageId, state->nextRLCPhysicalPageLocation, state->nextRLCPhysicalPageLocation + 1);
-    int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation++, state->pageSize, state->dataFile);
+    int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation, state->pageSize, state->dataFile);
     if (!writeSuccess) {
 #ifdef PRINT_ERRORS
-        printf("Failed to write temporary page for record-level-consistency: Logical Page Number %i - Physical Page (%i)\n", state->nextDataPageId, state->nextRLCPhysicalPageLocation - 1);
+        printf("Failed to write temporary page for record-level-consistency: Logical Page Number %i - Physical Page (%i)\n", state->nextDataPageId, state->nextRLCPhysicalPageLocation);
+#endif
+        return -1;
+    }
+    state->nextRLCPhysicalPageLocation++;
+
+    /* The record must be in storage when the insert returns */
+    if (state->fileInterface->flush(state->dataFile) != 1) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush the data file after writing a temporary page for record-level-consistency\n");
 #endif
         return -1;
     }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 8968807..07ac3e9 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -466,6 +466,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     count_t blockSize = state->eraseSizeInPages;
     bool validData = false;
     bool hasPermanentData = false;
+    id_t physicalPageIDOfSmallestData = 0;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
 
     /* This will become zero if there is no more to read */
@@ -484,6 +485,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
             /* Setup for next loop so it does not have to worry about setting the initial values */
             hasPermanentData = true;
             maxLogicalPageId = logicalPageId;
+            physicalPageIDOfSmallestData = physicalPageId;
             physicalPageId++;
             updateMaxiumError(state, buffer);
             count++;
@@ -516,13 +518,17 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
         physicalPageId = 0;
     }
 
+    /* the next page may be at the start of the file again */
+    count %= state->numDataPages;
+    physicalPageId = count;
+
     /* find where the next block boundary is */
     id_t pagesToBlockBoundary = blockSize - (count % blockSize);
     /* if we are on a block-boundary, we erase the next page in case the erase failed and then skip to the start of the next block */
     if (pagesToBlockBoundary == blockSize) {
         forgetBufferedPage(&state->bufferedPageId, count, count + blockSize);
         int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
-        if (!eraseSuccess) {
+        if (eraseSuccess != 1) {
 #ifdef PRINT_ERRORS
             printf("Error: Unable to erase data page during recovery!\n");
 #endif
@@ -541,22 +547,20 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     uint32_t rlcMaxLogicialPageNumber = UINT32_MAX;
     uint32_t rlcMaxRecordCount = UINT32_MAX;
     uint32_t rlcMaxPage = UINT32_MAX;
-    moreToRead = !(readPage(state, physicalPageId));
-    while (moreToRead && numPagesRead < numPagesToRead) {
+    while (numPagesRead < numPagesToRead && readPage(state, physicalPageId) == 0) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         /* If the next logical page number is not the one after the max data page, we can just skip to the next page.
          * We also need to read the page if there are no permanent records but the logicalPageId is zero, as this indicates we have record-level consistency records
          */
-        if (logicalPageId == maxLogicalPageId + 1 || (logicalPageId == 0 && !hasPermanentData)) {
+        if (logicalPageId == (hasPermanentData ? maxLogicalPageId + 1 : 0)) {
             uint32_t numRecords = EMBEDDB_GET_COUNT(buffer);
-            if (rlcMaxRecordCount == UINT32_MAX || numRecords > rlcMaxRecordCount) {
+            if (numRecords > 0 && numRecords <= state->maxRecordsPerPage && (rlcMaxRecordCount == UINT32_MAX || numRecords > rlcMaxRecordCount)) {
                 rlcMaxRecordCount = numRecords;
                 rlcMaxLogicialPageNumber = logicalPageId;
                 rlcMaxPage = numPagesRead;
             }
         }
         physicalPageId = (physicalPageId + 1) % state->numDataPages;
-        moreToRead = !(readPage(state, physicalPageId));
         numPagesRead++;
     }
 
@@ -586,7 +590,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
         eraseEndingPage = eraseStartingPage + blockSize;
         forgetBufferedPage(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
-        if (!eraseSuccess) {
+        if (eraseSuccess != 1) {
 #ifdef PRINT_ERRORS
             printf("Error: Unable to erase pages in data file!\n");
 #endif
@@ -600,20 +604,18 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
         return 0;
     }
 
-    /* Now check if we have wrapped after the record level consistency.
-     * The default case is we start at beginning of data file.
+    /*
+     * Now check if we have wrapped after the record level consistency, in which case the oldest page is in the block after them.
+     * The default case is the first page with valid data.
      */
-    id_t physicalPageIDOfSmallestData = 0;
-
-    physicalPageId = (state->rlcPhysicalStartingPage + 2 * blockSize) % state->numDataPages;
-    int8_t readSuccess = readPage(state, physicalPageId);
-    if (readSuccess == 0) {
-        memcpy(&logicalPageId, buffer, sizeof(id_t));
-        validData = logicalPageId % state->numDataPages == physicalPageId;
-
-        /* this means we have wrapped and our start is actually here */
-        if (validData) {
-            physicalPageIDOfSmallestData = physicalPageId;
+    id_t pagesToOldest = pagesToBlockBoundary + 2 * blockSize;
+    if (maxLogicalPageId + 1 + pagesToOldest >= state->numDataPages) {
+        physicalPageId = (state->rlcPhysicalStartingPage + 2 * blockSize) % state->numDataPages;
+        if (readPage(state, physicalPageId) == 0) {
+            memcpy(&logicalPageId, buffer, sizeof(id_t));
+            if (logicalPageId == maxLogicalPageId + 1 + pagesToOldest - state->numDataPages) {
+                physicalPageIDOfSmallestData = physicalPageId;
+            }
         }
     }
 
@@ -1194,7 +1196,6 @@ static int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t var
     count_t count = EMBEDDB_GET_COUNT(state->buffer);
 
     /* Write current page if full */
-    bool wrotePage = false;
     if (count >= state->maxRecordsPerPage) {
         // As the first buffer is the data write buffer, no manipulation is required
         id_t pageNum = writePage(state, state->buffer);
@@ -1216,7 +1217,13 @@ static int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t var
 
         count = 0;
         initBufferPage(state, 0);
-        wrotePage = true;
+    }
+
+    /* The record-level consistency blocks have to be moved once the permanent pages have reached them */
+    if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && state->nextDataPageId % state->numDataPages == state->rlcPhysicalStartingPage) {
+        if (shiftRecordLevelConsistencyBlocks(state) != 0) {
+            return -1;
+        }
     }
 
     /* Copy record onto page */
@@ -1268,12 +1275,19 @@ static int8_t putRecord(embedDBState *state, void *key, void *data, uint32_t var
 
     /* If using record level consistency, we need to immediately write the updated page to storage */
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        /* Need to move record level consistency pointers if on a block boundary */
-        if (wrotePage && state->nextDataPageId % state->eraseSizeInPages == 0) {
-            /* move record-level consistency blocks */
-            shiftRecordLevelConsistencyBlocks(state);
+        int8_t writeResult = writeTemporaryPage(state, state->buffer);
+        if (writeResult != 0) {
+            /* The record is not stored, so it is removed from the page again. The bounds of the data may stay too wide. */
+            if (count == 0) {
+                initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
+            } else {
+                memcpy((int8_t *)state->buffer + EMBEDDB_COUNT_OFFSET, &count, sizeof(count_t));
+                if (EMBEDDB_USING_MAX_MIN(state->parameters)) {
+                    memcpy(EMBEDDB_GET_MAX_KEY(state->buffer, state), (int8_t *)state->buffer + state->headerSize + (count - 1) * state->recordSize, state->keySize);
+                }
+            }
         }
-        return writeTemporaryPage(state, state->buffer);
+        return writeResult;
     }
 
     return 0;
@@ -1303,6 +1317,14 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 }
 
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
+    /* the records on the temporary pages have been written to permanent pages, which must be in storage before the temporary pages are erased */
+    if (state->fileInterface->flush(state->dataFile) != 1) {
+#ifdef PRINT_ERRORS
+        printf("Error: Unable to flush the data file when shifting record level consistency blocks!\n");
+#endif
+        return -1;
+    }
+
     /* erase the record-level consistency blocks */
 
     /* TODO: Likely an optimisation here where we don't always need to erase the second block, but that will make this algorithm more complicated and the savings could be minimal */
@@ -1319,7 +1341,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
         eraseEndingPage = eraseStartingPage + state->eraseSizeInPages;
         forgetBufferedPage(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
-        if (!eraseSuccess) {
+        if (eraseSuccess != 1) {
 #ifdef PRINT_ERRORS
             printf("Error: Unable to erase pages in data file when shifting record level consistency blocks!\n");
 #endif
@@ -2275,31 +2297,42 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         state->nextRLCPhysicalPageLocation = state->rlcPhysicalStartingPage;
     }
 
-    /* If in pageNum is second page in block, we erase the other record-level consistency block */
-    if (state->nextRLCPhysicalPageLocation % state->eraseSizeInPages == 1) {
+    /* If in pageNum is second page in block, we erase the other record-level consistency block. A block of one page is erased right before it is written. */
+    count_t blockSize = state->eraseSizeInPages;
+    if (blockSize == 1 || state->nextRLCPhysicalPageLocation % blockSize == 1) {
         uint32_t eraseStartingPage = state->rlcPhysicalStartingPage;
-        count_t blockSize = state->eraseSizeInPages;
-        if (state->nextRLCPhysicalPageLocation == eraseStartingPage + 1) {
+        if (blockSize == 1) {
+            eraseStartingPage = state->nextRLCPhysicalPageLocation;
+        } else if (state->nextRLCPhysicalPageLocation == eraseStartingPage + 1) {
             eraseStartingPage = (eraseStartingPage + blockSize) % state->numDataPages;
         }
         uint32_t eraseEndingPage = eraseStartingPage + blockSize;
 
         forgetBufferedPage(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
-        if (!eraseSuccess) {
+        if (eraseSuccess != 1) {
 #ifdef PRINT_ERRORS
-            printf("Failed to erase block starting at physical page %i in the data file.", state->nextRLCPhysicalPageLocation);
-            return -2;
+            printf("Failed to erase block starting at physical page %i in the data file.", eraseStartingPage);
 #endif
+            return -2;
         }
     }
 
     /* Write temporary page to storage */
     forgetBufferedPage(&state->bufferedPageId, state->nextRLCPhysicalPageLocation, state->nextRLCPhysicalPageLocation + 1);
-    int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation++, state->pageSize, state->dataFile);
+    int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation, state->pageSize, state->dataFile);
     if (!writeSuccess) {
 #ifdef PRINT_ERRORS
-        printf("Failed to write temporary page for record-level-consistency: Logical Page Number %i - Physical Page (%i)\n", state->nextDataPageId, state->nextRLCPhysicalPageLocation - 1);
+        printf("Failed to write temporary page for record-level-consistency: Logical Page Number %i - Physical Page (%i)\n", state->nextDataPageId, state->nextRLCPhysicalPageLocation);
+#endif
+        return -1;
+    }
+    state->nextRLCPhysicalPageLocation++;
+
+    /* The record must be in storage when the insert returns */
+    if (state->fileInterface->flush(state->dataFile) != 1) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush the data file after writing a temporary page for record-level-consistency\n");
 #endif
         return -1;
     }
-- 
2.43.0


From eb191c90c8d2afc90a712d8c65b36312e451efa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:10 +0000
Subject: [PATCH 19/33] fix: distribution calculates the slope of an empty page
 like the library

---
 lib/Distribution/embedDB.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index c3b3f13..55d6772 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1429,6 +1429,7 @@ float embedDBCalculateSlope(embedDBState *state, void *buffer) {
     uint32_t slopeX1, slopeX2;
     slopeX1 = 0;
     slopeX2 = EMBEDDB_GET_COUNT(buffer) - 1;
+    if(EMBEDDB_GET_COUNT(buffer) == 0) slopeX2 = 0;
 
     if (state->keySize <= 4) {
         uint32_t slopeY1 = 0, slopeY2 = 0;
-- 
2.43.0


From fad9fb61b67e82d98b218b5579aad57d6de208ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:25 +0000
Subject: [PATCH 20/33] fix: reset the statistics with variable data and refuse
 an index page without space for a bitmap

---
 lib/Distribution/embedDB.c | 10 +++++++++-
 src/embedDB/embedDB.c      | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 55d6772..33e8095 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -758,7 +758,9 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         } else {
             varDataInitResult = embedDBInitVarData(state);
         }
-        return varDataInitResult;
+        if (varDataInitResult != 0) {
+            return varDataInitResult;
+        }
     } else {
         state->varFile = NULL;
         state->numVarPages = 0;
@@ -1107,6 +1109,12 @@ int8_t embedDBInitIndex(embedDBState *state) {
     /* Setup index file. */
 
     /* 4 for id, 2 for count, 2 unused, 4 for minKey (pageId), 4 for maxKey (pageId) */
+    if (state->bitmapSize < 1 || state->pageSize < 16 + state->bitmapSize) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: An index page must have space for its header and at least one bitmap.\n");
+#endif
+        return -1;
+    }
     state->maxIdxRecordsPerPage = (state->pageSize - 16) / state->bitmapSize;
 
     /* Allocate third page of buffer as index output page */
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 07ac3e9..6759a2a 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -300,7 +300,9 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         } else {
             varDataInitResult = embedDBInitVarData(state);
         }
-        return varDataInitResult;
+        if (varDataInitResult != 0) {
+            return varDataInitResult;
+        }
     } else {
         state->varFile = NULL;
         state->numVarPages = 0;
@@ -649,6 +651,12 @@ int8_t embedDBInitIndex(embedDBState *state) {
     /* Setup index file. */
 
     /* 4 for id, 2 for count, 2 unused, 4 for minKey (pageId), 4 for maxKey (pageId) */
+    if (state->bitmapSize < 1 || state->pageSize < 16 + state->bitmapSize) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: An index page must have space for its header and at least one bitmap.\n");
+#endif
+        return -1;
+    }
     state->maxIdxRecordsPerPage = (state->pageSize - 16) / state->bitmapSize;
 
     /* Allocate third page of buffer as index output page */
-- 
2.43.0


From 826d2fb14f134b2ea99028327cd0f832544b7400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 21/33] fix: key join keeps reporting the end once an input has
 run out

---
 lib/Distribution/embedDB.c            | 10 ++++++++++
 src/query-interface/advancedQueries.c | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 33e8095..6c42e18 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3902,6 +3902,7 @@ embedDBOperator *createAggregateOperator(embedDBOperator *input, int8_t (*groupf
 struct keyJoinInfo {
     embedDBOperator *input2;
     int8_t firstCall;
+    int8_t finished;  // Set once an input has run out of records. The record buffers of the inputs are not valid after that
 };
 
 void initKeyJoin(embedDBOperator *op) {
@@ -3955,6 +3956,7 @@ void initKeyJoin(embedDBOperator *op) {
     }
 
     state->firstCall = 1;
+    state->finished = 0;
 }
 
 int8_t nextKeyJoin(embedDBOperator *op) {
@@ -3970,11 +3972,16 @@ int8_t nextKeyJoin(embedDBOperator *op) {
 
     int8_t colSize = abs(schema1->columnSizes[0]);
 
+    if (state->finished) {
+        return 0;
+    }
+
     if (state->firstCall) {
         state->firstCall = 0;
 
         if (!input1->next(input1) || !input2->next(input2)) {
             // If this case happens, you goofed, but I'll handle it anyway
+            state->finished = 1;
             return 0;
         }
         goto check;
@@ -3986,18 +3993,21 @@ int8_t nextKeyJoin(embedDBOperator *op) {
         if (comp == 0) {
             // Move both forward because if they match at this point, they've already been matched
             if (!input1->next(input1) || !input2->next(input2)) {
+                state->finished = 1;
                 return 0;
             }
         } else if (comp < 0) {
             // Move record 1 forward
             if (!input1->next(input1)) {
                 // We are out of records on one side. Given the assumption that the inputs are sorted, there are no more possible joins
+                state->finished = 1;
                 return 0;
             }
         } else {
             // Move record 2 forward
             if (!input2->next(input2)) {
                 // We are out of records on one side. Given the assumption that the inputs are sorted, there are no more possible joins
+                state->finished = 1;
                 return 0;
             }
         }
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 5d7dd46..57dc4d3 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -654,6 +654,7 @@ embedDBOperator* createAggregateOperator(embedDBOperator* input, int8_t (*groupf
 struct keyJoinInfo {
     embedDBOperator* input2;
     int8_t firstCall;
+    int8_t finished;  // Set once an input has run out of records. The record buffers of the inputs are not valid after that
 };
 
 void initKeyJoin(embedDBOperator* op) {
@@ -707,6 +708,7 @@ void initKeyJoin(embedDBOperator* op) {
     }
 
     state->firstCall = 1;
+    state->finished = 0;
 }
 
 int8_t nextKeyJoin(embedDBOperator* op) {
@@ -722,11 +724,16 @@ int8_t nextKeyJoin(embedDBOperator* op) {
 
     int8_t colSize = abs(schema1->columnSizes[0]);
 
+    if (state->finished) {
+        return 0;
+    }
+
     if (state->firstCall) {
         state->firstCall = 0;
 
         if (!input1->next(input1) || !input2->next(input2)) {
             // If this case happens, you goofed, but I'll handle it anyway
+            state->finished = 1;
             return 0;
         }
         goto check;
@@ -738,18 +745,21 @@ int8_t nextKeyJoin(embedDBOperator* op) {
         if (comp == 0) {
             // Move both forward because if they match at this point, they've already been matched
             if (!input1->next(input1) || !input2->next(input2)) {
+                state->finished = 1;
                 return 0;
             }
         } else if (comp < 0) {
             // Move record 1 forward
             if (!input1->next(input1)) {
                 // We are out of records on one side. Given the assumption that the inputs are sorted, there are no more possible joins
+                state->finished = 1;
                 return 0;
             }
         } else {
             // Move record 2 forward
             if (!input2->next(input2)) {
                 // We are out of records on one side. Given the assumption that the inputs are sorted, there are no more possible joins
+                state->finished = 1;
                 return 0;
             }
         }
-- 
2.43.0


From 4b0fcf039f2c9ccabb0182646284ab96365551b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 22/33] fix: erasing all spline points also forgets the
 temporary last point

---
 lib/Distribution/embedDB.c | 4 +++-
 src/spline/spline.c        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 6c42e18..d20ff5d 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -279,8 +279,10 @@ int splineErase(spline *spl, uint32_t numPoints) {
 
     spl->count -= numPoints;
     spl->pointsStartIndex = (spl->pointsStartIndex + numPoints) % spl->size;
-    if (spl->count == 0)
+    if (spl->count == 0) {
         spl->numAddCalls = 0;
+        spl->tempLastPoint = 0;
+    }
     return 0;
 }
 
diff --git a/src/spline/spline.c b/src/spline/spline.c
index 1d3ecda..d604b5a 100644
--- a/src/spline/spline.c
+++ b/src/spline/spline.c
@@ -250,8 +250,10 @@ int splineErase(spline *spl, uint32_t numPoints) {
 
     spl->count -= numPoints;
     spl->pointsStartIndex = (spl->pointsStartIndex + numPoints) % spl->size;
-    if (spl->count == 0)
+    if (spl->count == 0) {
         spl->numAddCalls = 0;
+        spl->tempLastPoint = 0;
+    }
     return 0;
 }
 
-- 
2.43.0


From f7216f8c643e25e2576a17862e732c9e369231b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 23/33] fix: desktop storage computes page offsets in 64 bits
 and reports failed seeks

---
 lib/Desktop-File-Interface/desktopFileInterface.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/Desktop-File-Interface/desktopFileInterface.c b/lib/Desktop-File-Interface/desktopFileInterface.c
index 47c0812..f1012f3 100644
--- a/lib/Desktop-File-Interface/desktopFileInterface.c
+++ b/lib/Desktop-File-Interface/desktopFileInterface.c
@@ -24,13 +24,17 @@ void tearDownFile(void *file) {
 
 int8_t FILE_READ(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    fseek(fileInfo->file, pageSize * pageNum, SEEK_SET);
+    if (fseek(fileInfo->file, (long)pageNum * pageSize, SEEK_SET) != 0) {
+        return 0;
+    }
     return fread(buffer, pageSize, 1, fileInfo->file);
 }
 
 int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    fseek(fileInfo->file, pageNum * pageSize, SEEK_SET);
+    if (fseek(fileInfo->file, (long)pageNum * pageSize, SEEK_SET) != 0) {
+        return 0;
+    }
     return fwrite(buffer, pageSize, 1, fileInfo->file);
 }
 
@@ -41,17 +45,17 @@ int8_t FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize, void
 int8_t MOCK_FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize, void *file) {
     /* Seek to position in file */
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    int seekResult = fseek(fileInfo->file, startPage * pageSize, SEEK_SET);
+    int seekResult = fseek(fileInfo->file, (long)startPage * pageSize, SEEK_SET);
 
     if (seekResult != 0) {
 #ifdef PRINT_ERRORS
         printf("Error seeking in file.\n");
 #endif
-        return seekResult;
+        return 0;
     }
 
     /* Setup data to insert */
-    size_t memorySize = (endPage - startPage) * pageSize;
+    size_t memorySize = (size_t)(endPage - startPage) * pageSize;
     char *buffer = malloc(memorySize);
     memset(buffer, 1, memorySize);
 
-- 
2.43.0


From f3217fe4187df6e51117d8d2f7597b8828f6b13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 24/33] fix: SD card storage reports failed seeks and writes

---
 lib/SD-File-Interface/SDFileInterface.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lib/SD-File-Interface/SDFileInterface.c b/lib/SD-File-Interface/SDFileInterface.c
index 58da460..a8b9a86 100644
--- a/lib/SD-File-Interface/SDFileInterface.c
+++ b/lib/SD-File-Interface/SDFileInterface.c
@@ -59,7 +59,9 @@ void tearDownSDFile(void *file) {
 
 int8_t FILE_READ(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     SD_FILE_INFO *fileInfo = (SD_FILE_INFO *)file;
-    sd_fseek(fileInfo->sdFile, pageSize * pageNum, SEEK_SET);
+    if (sd_fseek(fileInfo->sdFile, pageSize * pageNum, SEEK_SET) != 0) {
+        return 0;
+    }
     return sd_fread(buffer, pageSize, 1, fileInfo->sdFile);
 }
 
@@ -70,7 +72,7 @@ int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file)
     if (fileSize < pageNum * pageSize) {
         int8_t seekSuccess = sd_fseek(fileInfo->sdFile, fileSize, SEEK_SET);
         if (seekSuccess == -1) {
-            return -1;
+            return 0;
         }
         size_t currentSize = fileSize;
         uint32_t max = UINT32_MAX;
@@ -78,18 +80,15 @@ int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file)
         while (currentSize < requiredSize) {
             writeSuccess = sd_fwrite(&max, sizeof(uint32_t), 1, fileInfo->sdFile);
             if (writeSuccess == 0)
-                return -1;
+                return 0;
             currentSize += 4;
         }
     }
     int8_t seekSuccess = sd_fseek(fileInfo->sdFile, pageNum * pageSize, SEEK_SET);
     if (seekSuccess == -1) {
-        return -1;
-    }
-    int8_t writeSuccess = sd_fwrite(buffer, pageSize, 1, fileInfo->sdFile) == pageSize;
-    if (seekSuccess == -1)
         return 0;
-    return 1;
+    }
+    return sd_fwrite(buffer, pageSize, 1, fileInfo->sdFile) == pageSize;
 }
 
 int8_t FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize, void *file) {
-- 
2.43.0


From ceeb9cf9df50256fb6c88b05087dce3d71b366d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 25/33] fix: a refused initialisation kept files open and
 memory allocated

---
 lib/Distribution/embedDB.c | 39 ++++++++++++++++++++++++++++++++------
 src/embedDB/embedDB.c      | 39 ++++++++++++++++++++++++++++++++------
 2 files changed, 66 insertions(+), 12 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index d20ff5d..8b94970 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -525,6 +525,7 @@ int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataS
 uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber);
 void readToWriteBuf(embedDBState *state);
 void readToWriteBufVar(embedDBState *state);
+void releaseSpline(embedDBState *state);
 
 void printBitmap(char *bm) {
     for (int8_t i = 0; i <= 7; i++) {
@@ -726,6 +727,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     dataInitResult = embedDBInitData(state);
 
     if (dataInitResult != 0) {
+        releaseSpline(state);
         return dataInitResult;
     }
 
@@ -736,7 +738,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #ifdef PRINT_ERRORS
             printf("ERROR: embedDB using index requires at least 4 page buffers.\n");
 #endif
-            return -1;
+            indexInitResult = -1;
         } else {
             indexInitResult = embedDBInitIndex(state);
         }
@@ -746,6 +748,8 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     }
 
     if (indexInitResult != 0) {
+        state->fileInterface->close(state->dataFile);
+        releaseSpline(state);
         return indexInitResult;
     }
 
@@ -756,11 +760,16 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #ifdef PRINT_ERRORS
             printf("ERROR: embedDB using variable records requires at least 4 page buffers if there is no index and 6 if there is.\n");
 #endif
-            return -1;
+            varDataInitResult = -1;
         } else {
             varDataInitResult = embedDBInitVarData(state);
         }
         if (varDataInitResult != 0) {
+            state->fileInterface->close(state->dataFile);
+            if (state->indexFile != NULL) {
+                state->fileInterface->close(state->indexFile);
+            }
+            releaseSpline(state);
             return varDataInitResult;
         }
     } else {
@@ -796,11 +805,15 @@ int8_t embedDBInitData(embedDBState *state) {
     if (!EMBEDDB_RESETING_DATA(state->parameters)) {
         openStatus = state->fileInterface->open(state->dataFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openStatus) {
+            int8_t recoveryResult;
             if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-                return embedDBInitDataFromFileWithRecordLevelConsistency(state);
+                recoveryResult = embedDBInitDataFromFileWithRecordLevelConsistency(state);
             } else {
-                return embedDBInitDataFromFile(state);
+                recoveryResult = embedDBInitDataFromFile(state);
             }
+            if (recoveryResult != 0)
+                state->fileInterface->close(state->dataFile);
+            return recoveryResult;
         }
     } else {
         openStatus = state->fileInterface->open(state->dataFile, EMBEDDB_FILE_MODE_W_PLUS_B);
@@ -1150,7 +1163,10 @@ int8_t embedDBInitIndex(embedDBState *state) {
     if (!EMBEDDB_RESETING_DATA(state->parameters)) {
         int8_t openStatus = state->fileInterface->open(state->indexFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openStatus) {
-            return embedDBInitIndexFromFile(state);
+            int8_t recoveryResult = embedDBInitIndexFromFile(state);
+            if (recoveryResult != 0)
+                state->fileInterface->close(state->indexFile);
+            return recoveryResult;
         }
     }
 
@@ -1242,7 +1258,10 @@ int8_t embedDBInitVarData(embedDBState *state) {
     if (!EMBEDDB_RESETING_DATA(state->parameters) && (state->nextDataPageId > 0 || EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters))) {
         int8_t openResult = state->fileInterface->open(state->varFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openResult) {
-            return embedDBInitVarDataFromFile(state);
+            int8_t recoveryResult = embedDBInitVarDataFromFile(state);
+            if (recoveryResult != 0)
+                state->fileInterface->close(state->varFile);
+            return recoveryResult;
         }
     }
 
@@ -3093,6 +3112,14 @@ void embedDBClose(embedDBState *state) {
     if (state->varFile != NULL) {
         state->fileInterface->close(state->varFile);
     }
+    releaseSpline(state);
+}
+
+/**
+ * @brief	Frees the spline structure if it is being used.
+ * @param	state	embedDB state structure
+ */
+void releaseSpline(embedDBState *state) {
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
         splineClose(state->spl);
         free(state->spl);
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 6759a2a..9c28571 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -65,6 +65,7 @@ int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataS
 uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber);
 void readToWriteBuf(embedDBState *state);
 void readToWriteBufVar(embedDBState *state);
+void releaseSpline(embedDBState *state);
 
 void printBitmap(char *bm) {
     for (int8_t i = 0; i <= 7; i++) {
@@ -266,6 +267,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     dataInitResult = embedDBInitData(state);
 
     if (dataInitResult != 0) {
+        releaseSpline(state);
         return dataInitResult;
     }
 
@@ -276,7 +278,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #ifdef PRINT_ERRORS
             printf("ERROR: embedDB using index requires at least 4 page buffers.\n");
 #endif
-            return -1;
+            indexInitResult = -1;
         } else {
             indexInitResult = embedDBInitIndex(state);
         }
@@ -286,6 +288,8 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     }
 
     if (indexInitResult != 0) {
+        state->fileInterface->close(state->dataFile);
+        releaseSpline(state);
         return indexInitResult;
     }
 
@@ -296,11 +300,16 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #ifdef PRINT_ERRORS
             printf("ERROR: embedDB using variable records requires at least 4 page buffers if there is no index and 6 if there is.\n");
 #endif
-            return -1;
+            varDataInitResult = -1;
         } else {
             varDataInitResult = embedDBInitVarData(state);
         }
         if (varDataInitResult != 0) {
+            state->fileInterface->close(state->dataFile);
+            if (state->indexFile != NULL) {
+                state->fileInterface->close(state->indexFile);
+            }
+            releaseSpline(state);
             return varDataInitResult;
         }
     } else {
@@ -336,11 +345,15 @@ int8_t embedDBInitData(embedDBState *state) {
     if (!EMBEDDB_RESETING_DATA(state->parameters)) {
         openStatus = state->fileInterface->open(state->dataFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openStatus) {
+            int8_t recoveryResult;
             if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-                return embedDBInitDataFromFileWithRecordLevelConsistency(state);
+                recoveryResult = embedDBInitDataFromFileWithRecordLevelConsistency(state);
             } else {
-                return embedDBInitDataFromFile(state);
+                recoveryResult = embedDBInitDataFromFile(state);
             }
+            if (recoveryResult != 0)
+                state->fileInterface->close(state->dataFile);
+            return recoveryResult;
         }
     } else {
         openStatus = state->fileInterface->open(state->dataFile, EMBEDDB_FILE_MODE_W_PLUS_B);
@@ -690,7 +703,10 @@ int8_t embedDBInitIndex(embedDBState *state) {
     if (!EMBEDDB_RESETING_DATA(state->parameters)) {
         int8_t openStatus = state->fileInterface->open(state->indexFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openStatus) {
-            return embedDBInitIndexFromFile(state);
+            int8_t recoveryResult = embedDBInitIndexFromFile(state);
+            if (recoveryResult != 0)
+                state->fileInterface->close(state->indexFile);
+            return recoveryResult;
         }
     }
 
@@ -782,7 +798,10 @@ int8_t embedDBInitVarData(embedDBState *state) {
     if (!EMBEDDB_RESETING_DATA(state->parameters) && (state->nextDataPageId > 0 || EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters))) {
         int8_t openResult = state->fileInterface->open(state->varFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openResult) {
-            return embedDBInitVarDataFromFile(state);
+            int8_t recoveryResult = embedDBInitVarDataFromFile(state);
+            if (recoveryResult != 0)
+                state->fileInterface->close(state->varFile);
+            return recoveryResult;
         }
     }
 
@@ -2632,6 +2651,14 @@ void embedDBClose(embedDBState *state) {
     if (state->varFile != NULL) {
         state->fileInterface->close(state->varFile);
     }
+    releaseSpline(state);
+}
+
+/**
+ * @brief	Frees the spline structure if it is being used.
+ * @param	state	embedDB state structure
+ */
+void releaseSpline(embedDBState *state) {
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
         splineClose(state->spl);
         free(state->spl);
-- 
2.43.0


From 0451ccbd32bc1a8b80e7b7f86ff0add7a9e6b9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:25 +0000
Subject: [PATCH 26/33] fix: closing an aggregate lost its input, which was
 never freed with the chain

---
 lib/Distribution/embedDB.c            | 1 -
 src/query-interface/advancedQueries.c | 1 -
 2 files changed, 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 8b94970..0fa6621 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3879,7 +3879,6 @@ int8_t nextAggregate(embedDBOperator *op) {
 
 void closeAggregate(embedDBOperator *op) {
     op->input->close(op->input);
-    op->input = NULL;
     embedDBFreeSchema(&op->schema);
     free(((struct aggregateInfo *)op->state)->lastRecordBuffer);
     free(op->state);
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 57dc4d3..22c46d5 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -602,7 +602,6 @@ int8_t nextAggregate(embedDBOperator* op) {
 
 void closeAggregate(embedDBOperator* op) {
     op->input->close(op->input);
-    op->input = NULL;
     embedDBFreeSchema(&op->schema);
     free(((struct aggregateInfo*)op->state)->lastRecordBuffer);
     free(op->state);
-- 
2.43.0


From 5f2ed4e49592841a199ad1427a1af320ba1108ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:38 +0000
Subject: [PATCH 27/33] fix: reading variable data from a store without
 variable data reported success

---
 lib/Distribution/embedDB.c | 2 +-
 src/embedDB/embedDB.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 0fa6621..2a8ed3f 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2274,7 +2274,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
 #ifdef PRINT_ERRORS
         printf("ERROR: embedDBGetVar called when not using variable data\n");
 #endif
-        return 0;
+        return -1;
     }
     void *outputBuffer = (int8_t *)state->buffer;
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 9c28571..90d6b8b 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1813,7 +1813,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
 #ifdef PRINT_ERRORS
         printf("ERROR: embedDBGetVar called when not using variable data\n");
 #endif
-        return 0;
+        return -1;
     }
     void *outputBuffer = (int8_t *)state->buffer;
 
-- 
2.43.0


From bbf898aa593056ac88e5402c41785512e89d1caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:50 +0000
Subject: [PATCH 28/33] fix: read pages of 32768 bytes and more from the SD
 card (the byte count was held in 16 bits)

---
 lib/SD-Wrapper/sdcard_c_iface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/SD-Wrapper/sdcard_c_iface.cpp b/lib/SD-Wrapper/sdcard_c_iface.cpp
index 2f72f1e..7ba8fcf 100644
--- a/lib/SD-Wrapper/sdcard_c_iface.cpp
+++ b/lib/SD-Wrapper/sdcard_c_iface.cpp
@@ -104,7 +104,7 @@ SD_FILE *sd_fopen(const char *filename, const char *mode) {
 
 size_t sd_fread(void *ptr, size_t size, size_t nmemb, SD_FILE *stream) {
     /* read is the size of bytes * num of size-bytes */
-    int16_t num_bytes = stream->f.read((char *)ptr, size * nmemb);
+    int num_bytes = stream->f.read((char *)ptr, size * nmemb);
 
     if (num_bytes < 0)
         return 0;
-- 
2.43.0


From 7fec1d93356e1a394b9e433c1e7e403d0045323b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:13 +0000
Subject: [PATCH 29/33] fix: find pages whose ids are above 2^31

---
 lib/Distribution/embedDB.c | 8 ++++----
 src/embedDB/embedDB.c      | 6 +++---
 src/spline/spline.c        | 2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 2a8ed3f..0596e28 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -398,7 +398,7 @@ void splineFind(spline *spl, void *key, int8_t compareKey(void *, void *), id_t
         uint32_t lowEstimate, highEstimate, locEstimate = 0;
         memcpy(&lowEstimate, (int8_t *)spl->firstSplinePoint + spl->keySize, sizeof(uint32_t));
         memcpy(&highEstimate, (int8_t *)smallestSplinePoint + spl->keySize, sizeof(uint32_t));
-        locEstimate = (lowEstimate + highEstimate) / 2;
+        locEstimate = lowEstimate + (highEstimate - lowEstimate) / 2;
 
         memcpy(loc, &locEstimate, sizeof(uint32_t));
         memcpy(low, &lowEstimate, sizeof(uint32_t));
@@ -2078,9 +2078,9 @@ id_t embedDBSearchNode(embedDBState *state, void *buffer, void *key, int8_t rang
  * @param 	high		Uper bound for the page the record could be found on
  * @return	Return 0 if success. Non-zero value if error.
  */
-int8_t linearSearch(embedDBState *state, void *buf, void *key, int32_t pageId, int32_t low, int32_t high) {
+int8_t linearSearch(embedDBState *state, void *buf, void *key, id_t pageId, id_t low, id_t high) {
     int32_t pageError = 0;
-    int32_t physPageId;
+    id_t physPageId;
     while (1) {
         /* Move logical page number to physical page id based on location of first data page */
         physPageId = pageId % state->numDataPages;
@@ -2147,7 +2147,7 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
     /* if the spline returns a lowbound lower than than the smallest page we have, we can move the lowbound and location up */
     if (lowbound < state->minDataPageId) {
         lowbound = state->minDataPageId;
-        location = (lowbound + highbound) / 2;
+        location = lowbound + (highbound - lowbound) / 2;
     }
 
     // Check if the currently buffered page is the correct one
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 90d6b8b..af7a99b 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1617,9 +1617,9 @@ id_t embedDBSearchNode(embedDBState *state, void *buffer, void *key, int8_t rang
  * @param 	high		Uper bound for the page the record could be found on
  * @return	Return 0 if success. Non-zero value if error.
  */
-int8_t linearSearch(embedDBState *state, void *buf, void *key, int32_t pageId, int32_t low, int32_t high) {
+int8_t linearSearch(embedDBState *state, void *buf, void *key, id_t pageId, id_t low, id_t high) {
     int32_t pageError = 0;
-    int32_t physPageId;
+    id_t physPageId;
     while (1) {
         /* Move logical page number to physical page id based on location of first data page */
         physPageId = pageId % state->numDataPages;
@@ -1686,7 +1686,7 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
     /* if the spline returns a lowbound lower than than the smallest page we have, we can move the lowbound and location up */
     if (lowbound < state->minDataPageId) {
         lowbound = state->minDataPageId;
-        location = (lowbound + highbound) / 2;
+        location = lowbound + (highbound - lowbound) / 2;
     }
 
     // Check if the currently buffered page is the correct one
diff --git a/src/spline/spline.c b/src/spline/spline.c
index d604b5a..f7d8560 100644
--- a/src/spline/spline.c
+++ b/src/spline/spline.c
@@ -369,7 +369,7 @@ void splineFind(spline *spl, void *key, int8_t compareKey(void *, void *), id_t
         uint32_t lowEstimate, highEstimate, locEstimate = 0;
         memcpy(&lowEstimate, (int8_t *)spl->firstSplinePoint + spl->keySize, sizeof(uint32_t));
         memcpy(&highEstimate, (int8_t *)smallestSplinePoint + spl->keySize, sizeof(uint32_t));
-        locEstimate = (lowEstimate + highEstimate) / 2;
+        locEstimate = lowEstimate + (highEstimate - lowEstimate) / 2;
 
         memcpy(loc, &locEstimate, sizeof(uint32_t));
         memcpy(low, &lowEstimate, sizeof(uint32_t));
-- 
2.43.0


From b24cbb4f4934164bd5797c85e08678e4e2f4a93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:08 +0000
Subject: [PATCH 30/33] fix: queries that are refused deliver no rows, and
 refused schemas leave no memory behind

---
 lib/Distribution/embedDB.c            | 41 +++++++++++++++++++++++++--
 src/query-interface/advancedQueries.c | 37 +++++++++++++++++++++++-
 src/query-interface/schema.c          |  4 ++-
 3 files changed, 78 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 0596e28..e6a2c9d 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3179,12 +3179,13 @@ embedDBSchema *embedDBCreateSchema(uint8_t numCols, int8_t *colSizes, int8_t *co
     uint16_t totalSize = 0;
     for (uint8_t i = 0; i < numCols; i++) {
         int8_t sign = colSignedness[i];
-        uint8_t colSize = colSizes[i];
+        int8_t colSize = colSizes[i];
         totalSize += colSize;
         if (colSize <= 0) {
 #ifdef PRINT_ERRORS
             printf("ERROR: Column size must be greater than zero\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
         if (sign == embedDB_COLUMN_SIGNED) {
@@ -3195,6 +3196,7 @@ embedDBSchema *embedDBCreateSchema(uint8_t numCols, int8_t *colSizes, int8_t *co
 #ifdef PRINT_ERRORS
             printf("ERROR: Must only use embedDB_COLUMN_SIGNED or embedDB_COLUMN_UNSIGNED to describe column signedness\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
     }
@@ -3455,6 +3457,11 @@ int8_t nextTableScan(embedDBOperator *op) {
         return 0;
     }
 
+    // The scan was not initialized, e.g. because the schema doesn't match the records
+    if (op->recordBuffer == NULL) {
+        return 0;
+    }
+
     // Get next record
     embedDBState *state = (embedDBState *)(((void **)op->state)[0]);
     embedDBIterator *it = (embedDBIterator *)(((void **)op->state)[1]);
@@ -3527,6 +3534,9 @@ void initProjection(embedDBOperator *op) {
 
     // Init input
     op->input->init(op->input);
+    if (op->input->schema == NULL) {
+        return;  // The input could not be initialized
+    }
 
     // Get state
     uint8_t numCols = *(uint8_t *)op->state;
@@ -3568,6 +3578,10 @@ void initProjection(embedDBOperator *op) {
 }
 
 int8_t nextProjection(embedDBOperator *op) {
+    if (op->recordBuffer == NULL) {
+        return 0;  // Was not initialized
+    }
+
     uint8_t numCols = *(uint8_t *)op->state;
     uint8_t *cols = (uint8_t *)op->state + 1;
     embedDBSchema *inputSchema = op->input->schema;
@@ -3651,6 +3665,9 @@ void initSelection(embedDBOperator *op) {
 
     // Init input
     op->input->init(op->input);
+    if (op->input->schema == NULL) {
+        return;  // The input could not be initialized
+    }
 
     // Init output schema
     if (op->schema == NULL) {
@@ -3670,6 +3687,10 @@ void initSelection(embedDBOperator *op) {
 }
 
 int8_t nextSelection(embedDBOperator *op) {
+    if (op->recordBuffer == NULL) {
+        return 0;  // Was not initialized
+    }
+
     embedDBSchema *schema = op->input->schema;
     struct selectionInfo *state = op->state;
 
@@ -3763,6 +3784,9 @@ void initAggregate(embedDBOperator *op) {
 
     // Init input
     op->input->init(op->input);
+    if (op->input->schema == NULL) {
+        return;  // The input could not be initialized
+    }
 
     struct aggregateInfo *state = op->state;
     state->isLastRecordUsable = 0;
@@ -3813,6 +3837,10 @@ void initAggregate(embedDBOperator *op) {
 }
 
 int8_t nextAggregate(embedDBOperator *op) {
+    if (op->recordBuffer == NULL) {
+        return 0;  // Was not initialized
+    }
+
     struct aggregateInfo *state = op->state;
     embedDBOperator *input = op->input;
 
@@ -3944,6 +3972,9 @@ void initKeyJoin(embedDBOperator *op) {
 
     embedDBSchema *schema1 = input1->schema;
     embedDBSchema *schema2 = input2->schema;
+    if (schema1 == NULL || schema2 == NULL) {
+        return;  // The inputs could not be initialized
+    }
 
     // Check that join is compatible
     if (schema1->columnSizes[0] != schema2->columnSizes[0] || schema1->columnSizes[0] < 0 || schema2->columnSizes[0] < 0) {
@@ -3975,7 +4006,9 @@ void initKeyJoin(embedDBOperator *op) {
     }
 
     // Allocate recordBuffer
-    op->recordBuffer = malloc(getRecordSizeFromSchema(op->schema));
+    if (op->recordBuffer == NULL) {
+        op->recordBuffer = malloc(getRecordSizeFromSchema(op->schema));
+    }
     if (op->recordBuffer == NULL) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while initializing join operator\n");
@@ -3988,6 +4021,10 @@ void initKeyJoin(embedDBOperator *op) {
 }
 
 int8_t nextKeyJoin(embedDBOperator *op) {
+    if (op->recordBuffer == NULL) {
+        return 0;  // Was not initialized
+    }
+
     struct keyJoinInfo *state = op->state;
     embedDBOperator *input1 = op->input;
     embedDBOperator *input2 = state->input2;
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 22c46d5..2808bb5 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -178,6 +178,11 @@ int8_t nextTableScan(embedDBOperator* op) {
         return 0;
     }
 
+    // The scan was not initialized, e.g. because the schema doesn't match the records
+    if (op->recordBuffer == NULL) {
+        return 0;
+    }
+
     // Get next record
     embedDBState* state = (embedDBState*)(((void**)op->state)[0]);
     embedDBIterator* it = (embedDBIterator*)(((void**)op->state)[1]);
@@ -250,6 +255,9 @@ void initProjection(embedDBOperator* op) {
 
     // Init input
     op->input->init(op->input);
+    if (op->input->schema == NULL) {
+        return;  // The input could not be initialized
+    }
 
     // Get state
     uint8_t numCols = *(uint8_t*)op->state;
@@ -291,6 +299,10 @@ void initProjection(embedDBOperator* op) {
 }
 
 int8_t nextProjection(embedDBOperator* op) {
+    if (op->recordBuffer == NULL) {
+        return 0;  // Was not initialized
+    }
+
     uint8_t numCols = *(uint8_t*)op->state;
     uint8_t* cols = (uint8_t*)op->state + 1;
     embedDBSchema* inputSchema = op->input->schema;
@@ -374,6 +386,9 @@ void initSelection(embedDBOperator* op) {
 
     // Init input
     op->input->init(op->input);
+    if (op->input->schema == NULL) {
+        return;  // The input could not be initialized
+    }
 
     // Init output schema
     if (op->schema == NULL) {
@@ -393,6 +408,10 @@ void initSelection(embedDBOperator* op) {
 }
 
 int8_t nextSelection(embedDBOperator* op) {
+    if (op->recordBuffer == NULL) {
+        return 0;  // Was not initialized
+    }
+
     embedDBSchema* schema = op->input->schema;
     struct selectionInfo* state = op->state;
 
@@ -486,6 +505,9 @@ void initAggregate(embedDBOperator* op) {
 
     // Init input
     op->input->init(op->input);
+    if (op->input->schema == NULL) {
+        return;  // The input could not be initialized
+    }
 
     struct aggregateInfo* state = op->state;
     state->isLastRecordUsable = 0;
@@ -536,6 +558,10 @@ void initAggregate(embedDBOperator* op) {
 }
 
 int8_t nextAggregate(embedDBOperator* op) {
+    if (op->recordBuffer == NULL) {
+        return 0;  // Was not initialized
+    }
+
     struct aggregateInfo* state = op->state;
     embedDBOperator* input = op->input;
 
@@ -667,6 +693,9 @@ void initKeyJoin(embedDBOperator* op) {
 
     embedDBSchema* schema1 = input1->schema;
     embedDBSchema* schema2 = input2->schema;
+    if (schema1 == NULL || schema2 == NULL) {
+        return;  // The inputs could not be initialized
+    }
 
     // Check that join is compatible
     if (schema1->columnSizes[0] != schema2->columnSizes[0] || schema1->columnSizes[0] < 0 || schema2->columnSizes[0] < 0) {
@@ -698,7 +727,9 @@ void initKeyJoin(embedDBOperator* op) {
     }
 
     // Allocate recordBuffer
-    op->recordBuffer = malloc(getRecordSizeFromSchema(op->schema));
+    if (op->recordBuffer == NULL) {
+        op->recordBuffer = malloc(getRecordSizeFromSchema(op->schema));
+    }
     if (op->recordBuffer == NULL) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while initializing join operator\n");
@@ -711,6 +742,10 @@ void initKeyJoin(embedDBOperator* op) {
 }
 
 int8_t nextKeyJoin(embedDBOperator* op) {
+    if (op->recordBuffer == NULL) {
+        return 0;  // Was not initialized
+    }
+
     struct keyJoinInfo* state = op->state;
     embedDBOperator* input1 = op->input;
     embedDBOperator* input2 = state->input2;
diff --git a/src/query-interface/schema.c b/src/query-interface/schema.c
index 5790949..5ec5c33 100644
--- a/src/query-interface/schema.c
+++ b/src/query-interface/schema.c
@@ -57,12 +57,13 @@ embedDBSchema* embedDBCreateSchema(uint8_t numCols, int8_t* colSizes, int8_t* co
     uint16_t totalSize = 0;
     for (uint8_t i = 0; i < numCols; i++) {
         int8_t sign = colSignedness[i];
-        uint8_t colSize = colSizes[i];
+        int8_t colSize = colSizes[i];
         totalSize += colSize;
         if (colSize <= 0) {
 #ifdef PRINT_ERRORS
             printf("ERROR: Column size must be greater than zero\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
         if (sign == embedDB_COLUMN_SIGNED) {
@@ -73,6 +74,7 @@ embedDBSchema* embedDBCreateSchema(uint8_t numCols, int8_t* colSizes, int8_t* co
 #ifdef PRINT_ERRORS
             printf("ERROR: Must only use embedDB_COLUMN_SIGNED or embedDB_COLUMN_UNSIGNED to describe column signedness\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
     }
-- 
2.43.0


From e5a6dd77db9c7f45478b7f60fc3721684701654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:12 +0000
Subject: [PATCH 31/33] fix: a flush after one that failed flushes the pages
 that are still unflushed

---
 lib/Distribution/embedDB.c | 10 +++++++++-
 src/embedDB/embedDB.c      | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index e6a2c9d..88e4078 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2402,8 +2402,16 @@ int8_t embedDBFlush(embedDBState *state) {
 
     // As the first buffer is the data write buffer, no address change is required
     int8_t *buffer = (int8_t *)state->buffer + EMBEDDB_DATA_WRITE_BUFFER * state->pageSize;
-    if (EMBEDDB_GET_COUNT(buffer) < 1)
+    if (EMBEDDB_GET_COUNT(buffer) < 1) {
+        /* There may still be pages that were written but not flushed */
+        if (state->fileInterface->flush(state->dataFile) != 1 || (EMBEDDB_USING_INDEX(state->parameters) && state->fileInterface->flush(state->indexFile) != 1)) {
+#ifdef PRINT_ERRORS
+            printf("Failed to flush the files during embedDBFlush.");
+#endif
+            return -1;
+        }
         return 0;
+    }
 
     id_t pageNum = writePage(state, buffer);
     if (pageNum == (id_t)-1) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index af7a99b..c12b9f6 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1941,8 +1941,16 @@ int8_t embedDBFlush(embedDBState *state) {
 
     // As the first buffer is the data write buffer, no address change is required
     int8_t *buffer = (int8_t *)state->buffer + EMBEDDB_DATA_WRITE_BUFFER * state->pageSize;
-    if (EMBEDDB_GET_COUNT(buffer) < 1)
+    if (EMBEDDB_GET_COUNT(buffer) < 1) {
+        /* There may still be pages that were written but not flushed */
+        if (state->fileInterface->flush(state->dataFile) != 1 || (EMBEDDB_USING_INDEX(state->parameters) && state->fileInterface->flush(state->indexFile) != 1)) {
+#ifdef PRINT_ERRORS
+            printf("Failed to flush the files during embedDBFlush.");
+#endif
+            return -1;
+        }
         return 0;
+    }
 
     id_t pageNum = writePage(state, buffer);
     if (pageNum == (id_t)-1) {
-- 
2.43.0


From 776a8587d7bffdf8323c128093a4e676c82ef589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:17 +0000
Subject: [PATCH 32/33] fix: variable data reaches storage before the data page
 that refers to it

---
 lib/Distribution/embedDB.c | 7 ++++++-
 src/embedDB/embedDB.c      | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 88e4078..37d52f0 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1955,7 +1955,12 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
      */
     void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
     bool emptyVarBuffer = state->currentVarLoc % state->pageSize == state->variableDataHeaderSize;
-    if (!emptyVarBuffer && (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage))) {
+    if (!EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage) {
+        // The variable data must be in storage before the data page that refers to it
+        if (embedDBFlushVar(state) != 0) {
+            return -1;
+        }
+    } else if (!emptyVarBuffer && state->currentVarLoc % state->pageSize > state->pageSize - 4) {
         if (saveVarBuffer(state) != 0) {
             return -1;
         }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index c12b9f6..3143cea 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1494,7 +1494,12 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
      */
     void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
     bool emptyVarBuffer = state->currentVarLoc % state->pageSize == state->variableDataHeaderSize;
-    if (!emptyVarBuffer && (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage))) {
+    if (!EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage) {
+        // The variable data must be in storage before the data page that refers to it
+        if (embedDBFlushVar(state) != 0) {
+            return -1;
+        }
+    } else if (!emptyVarBuffer && state->currentVarLoc % state->pageSize > state->pageSize - 4) {
         if (saveVarBuffer(state) != 0) {
             return -1;
         }
-- 
2.43.0


From 98f0085468f434557852b7bdf8775ac0a90aebb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:17 +0000
Subject: [PATCH 33/33] fix: an index that covers data pages which were lost
 starts over

---
 lib/Distribution/embedDB.c | 22 +++++++++++++++++++---
 src/embedDB/embedDB.c      | 22 +++++++++++++++++++---
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 37d52f0..11b79d4 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1164,9 +1164,11 @@ int8_t embedDBInitIndex(embedDBState *state) {
         int8_t openStatus = state->fileInterface->open(state->indexFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openStatus) {
             int8_t recoveryResult = embedDBInitIndexFromFile(state);
-            if (recoveryResult != 0)
-                state->fileInterface->close(state->indexFile);
-            return recoveryResult;
+            if (recoveryResult == 0)
+                return 0;
+            state->fileInterface->close(state->indexFile);
+            if (recoveryResult < 0)
+                return recoveryResult;
         }
     }
 
@@ -1242,6 +1244,20 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
     state->nextIdxPageId = maxLogicaIndexPageId + 1;
     state->numAvailIndexPages = state->numIndexPages + state->minIndexPageId - maxLogicaIndexPageId - 1;
 
+    /* If data pages the index covers did not reach storage, their ids will be used again for other records, so the index has to start over */
+    id_t firstDataPage;
+    if (readIndexPage(state, maxLogicaIndexPageId % state->numIndexPages) != 0) {
+        return -1;
+    }
+    memcpy(&firstDataPage, (int8_t *)buffer + EMBEDDB_IDX_MIN_OFFSET, sizeof(id_t));
+    if (firstDataPage + EMBEDDB_GET_COUNT(buffer) > state->nextDataPageId) {
+        state->nextIdxPageId = 0;
+        state->minIndexPageId = 0;
+        state->numAvailIndexPages = state->numIndexPages;
+        state->bufferedIndexPageId = -1;
+        return 1;
+    }
+
     return 0;
 }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 3143cea..4b501e5 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -704,9 +704,11 @@ int8_t embedDBInitIndex(embedDBState *state) {
         int8_t openStatus = state->fileInterface->open(state->indexFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openStatus) {
             int8_t recoveryResult = embedDBInitIndexFromFile(state);
-            if (recoveryResult != 0)
-                state->fileInterface->close(state->indexFile);
-            return recoveryResult;
+            if (recoveryResult == 0)
+                return 0;
+            state->fileInterface->close(state->indexFile);
+            if (recoveryResult < 0)
+                return recoveryResult;
         }
     }
 
@@ -782,6 +784,20 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
     state->nextIdxPageId = maxLogicaIndexPageId + 1;
     state->numAvailIndexPages = state->numIndexPages + state->minIndexPageId - maxLogicaIndexPageId - 1;
 
+    /* If data pages the index covers did not reach storage, their ids will be used again for other records, so the index has to start over */
+    id_t firstDataPage;
+    if (readIndexPage(state, maxLogicaIndexPageId % state->numIndexPages) != 0) {
+        return -1;
+    }
+    memcpy(&firstDataPage, (int8_t *)buffer + EMBEDDB_IDX_MIN_OFFSET, sizeof(id_t));
+    if (firstDataPage + EMBEDDB_GET_COUNT(buffer) > state->nextDataPageId) {
+        state->nextIdxPageId = 0;
+        state->minIndexPageId = 0;
+        state->numAvailIndexPages = state->numIndexPages;
+        state->bufferedIndexPageId = -1;
+        return 1;
+    }
+
     return 0;
 }
 
-- 
2.43.0

