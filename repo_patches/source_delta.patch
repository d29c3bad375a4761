From 29a2a2b6f183caa52bda801498a71f0bbc88f61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:11 +0000
Subject: [PATCH 01/49] fix: mapGetIntArray returned 0 or 1 for other values
 read through _ColorRange

---
 src/core/vsapi.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/vsapi.cpp b/src/core/vsapi.cpp
index 8df20d0..fd7d38a 100644
--- a/src/core/vsapi.cpp
+++ b/src/core/vsapi.cpp
@@ -875,8 +875,10 @@ static const int64_t *VS_CC mapGetIntArray(const VSMap *map, const char *key, in
     if (arr) {
         if (remapRange) {
             auto *intArr = reinterpret_cast<const VSIntArray *>(arr);
-            if (intArr->size() == 1)
-                return flipRangeProperty(intArr->at(0)) == 1 ? &staticOne : &staticZero;
+            if (intArr->size() == 1 && intArr->at(0) == 0)
+                return &staticOne;
+            else if (intArr->size() == 1 && intArr->at(0) == 1)
+                return &staticZero;
             else
                 return intArr->getDataPointer();
 
-- 
2.43.0


From 68549d5931d626b9536987ace9589f28509a198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:35 +0000
Subject: [PATCH 02/49] fix: a pool thread blocked in getFrame held back the
 memory hungry tasks it was waiting for

Admission control only starts calls predicted to exceed the memory limit when
no other call is being processed. A filter call blocked in a nested getFrame
still counted as being processed, so when the frame it waited for needed such
a call nothing could ever run again.
---
 src/core/vsthreadpool.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/vsthreadpool.cpp b/src/core/vsthreadpool.cpp
index b648e8c..649636d 100644
--- a/src/core/vsthreadpool.cpp
+++ b/src/core/vsthreadpool.cpp
@@ -442,8 +442,11 @@ void VSThreadPool::startExternal(const PVSFrameContext &context) {
     std::lock_guard<std::mutex> l(taskLock);
     context->reqOrder = ++reqCounter;
     context->reserveThread = context->reserveThread && (allThreads.count(std::this_thread::get_id()) > 0);
-    if (context->reserveThread)
+    if (context->reserveThread) {
         --activeThreads;
+        // a thread blocked on its own request can't finish its call first, don't let it hold back the tasks it's waiting for
+        processingThreads.fetch_sub(1, std::memory_order_relaxed);
+    }
     assert(context);
     // A reserveThread request comes from a pool thread that immediately blocks waiting for this exact
     // frame. Parking it in altTasks during a flush would deadlock: the blocked thread never becomes idle,
@@ -463,6 +466,8 @@ void VSThreadPool::returnFrame(VSFrameContext *rCtx, const PVSFrame &f, std::uni
     completedExternalFrames.fetch_add(1, std::memory_order_relaxed);
     bool outputLock = rCtx->lockOnOutput;
     bool reserveThread = rCtx->reserveThread;
+    if (reserveThread)
+        processingThreads.fetch_add(1, std::memory_order_relaxed);
     // we need to unlock here so the callback may request more frames without causing a deadlock
     // AND so that slow callbacks will only block operations in this thread, not all the others
     lock.unlock();
-- 
2.43.0


From 5f6326312238008ae77f629e245f0d1b0e9dcb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:54 +0000
Subject: [PATCH 03/49] fix: a frame freed after its core with frame reference
 debugging on accessed the freed core

---
 src/core/vscore.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index 49a9fbc..f5c8705 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -2112,6 +2112,9 @@ VSCore::~VSCore() {
     for(const auto &iter : plugins)
         delete iter.second;
     plugins.clear();
+    // frames that outlive the core can't unregister themselves later
+    for (VSFrame *frame : frameRefs)
+        frame->frameRefDebug = false;
     memory->on_core_freed();
 }
 
-- 
2.43.0


From ef46ae10efc98f0ea64c6151724aca14fdc79b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:54 +0000
Subject: [PATCH 04/49] fix: data race between frame creation and the frame
 reference debug log

---
 src/core/vscore.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index f5c8705..cd5a0f4 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -157,6 +157,9 @@ void VSPlaneData::release() noexcept {
 void VSFrame::setAllocationInfo() noexcept {
     VSNode *currentNode = core->currentProcessingNode;
 
+    // getFrameRefInfo() can already see this frame from another thread
+    std::lock_guard<std::mutex> lock(core->frameRefMutex);
+
     if (contentType == mtVideo) {
         char fmtname[32];
         core->getVideoFormatName(format.vf, fmtname);
-- 
2.43.0


From 66b24d2c3b79963557daa72db3a3a54ab65d49cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:06 +0000
Subject: [PATCH 05/49] fix: SplitPlanes leaked its argument when passed a
 variable format clip

---
 src/core/simplefilters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 6b82c43..42883d0 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -634,6 +634,7 @@ static void VS_CC splitPlanesCreate(const VSMap *in, VSMap *out, void *userData,
     const VSVideoInfo *vi = vsapi->getVideoInfo(node);
 
     if (vi->format.colorFamily == cfUndefined) {
+        vsapi->freeNode(node);
         vsapi->mapSetError(out, "SplitPlanes: only constant format clips supported");
         return;
     }
-- 
2.43.0


From 1b8b77a83ca2dc8dc71102ce370b3232fb25c0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:25 +0000
Subject: [PATCH 06/49] fix: BlankAudio with keep set returns frames of the
 wrong length when the last frame is shorter

---
 src/core/audiofilters.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/core/audiofilters.cpp b/src/core/audiofilters.cpp
index 7e967c5..54d130f 100644
--- a/src/core/audiofilters.cpp
+++ b/src/core/audiofilters.cpp
@@ -1246,16 +1246,18 @@ static const VSFrame *VS_CC blankAudioGetframe(int n, int activationReason, void
             return frame;
         }
 
-        VSFrame *frame = nullptr;
-        if (!d->f) {
-            frame = vsapi->newAudioFrame(&d->ai.format, samples, nullptr, core);
-            for (int channel = 0; channel < d->ai.format.numChannels; channel++)
-                memset(vsapi->getWritePtr(frame, channel), 0, samples * d->ai.format.bytesPerSample);
-        }
+        // the last frame can be shorter than the others so it can't always share the kept frame
+        bool keep = d->keep && (samples == VS_AUDIO_FRAME_SAMPLES || samples == d->ai.numSamples);
+
+        if (keep && d->f)
+            return vsapi->addFrameRef(d->f);
+
+        VSFrame *frame = vsapi->newAudioFrame(&d->ai.format, samples, nullptr, core);
+        for (int channel = 0; channel < d->ai.format.numChannels; channel++)
+            memset(vsapi->getWritePtr(frame, channel), 0, samples * d->ai.format.bytesPerSample);
 
-        if (d->keep) {
-            if (frame)
-                d->f = frame;
+        if (keep) {
+            d->f = frame;
             return vsapi->addFrameRef(d->f);
         } else {
             return frame;
-- 
2.43.0


From 08c18acc4dcd5c0d2d5dfebca071c6fe731b70de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:52 +0000
Subject: [PATCH 07/49] fix: Crop accepts areas outside the frame when the sum
 of its arguments overflows

---
 src/core/simplefilters.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 42883d0..bd39f96 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -119,7 +119,7 @@ static int cropVerify(int x, int y, int width, int height, int srcwidth, int src
         snprintf(msg, len, "Crop: negative/zero cropping dimensions not allowed");
 
     if (srcheight > 0 && srcwidth > 0)
-        if (srcheight < height + y || srcwidth < width + x)
+        if (srcheight < static_cast<int64_t>(height) + y || srcwidth < static_cast<int64_t>(width) + x)
             snprintf(msg, len, "Crop: cropped area extends beyond frame dimensions");
 
     if (fi) {
@@ -228,8 +228,8 @@ static void VS_CC cropRelCreate(const VSMap *in, VSMap *out, void *userData, VSC
     d->x = vsapi->mapGetIntSaturated(in, "left", 0, &err);
     d->y = vsapi->mapGetIntSaturated(in, "top", 0, &err);
 
-    d->height = d->vi->height - d->y - vsapi->mapGetIntSaturated(in, "bottom", 0, &err);
-    d->width = d->vi->width - d->x - vsapi->mapGetIntSaturated(in, "right", 0, &err);
+    d->height = int64ToIntS(static_cast<int64_t>(d->vi->height) - d->y - vsapi->mapGetIntSaturated(in, "bottom", 0, &err));
+    d->width = int64ToIntS(static_cast<int64_t>(d->vi->width) - d->x - vsapi->mapGetIntSaturated(in, "right", 0, &err));
 
     // passthrough for the no cropping case
     if (d->x == 0 && d->y == 0 && d->width == d->vi->width && d->height == d->vi->height) {
-- 
2.43.0


From e07e249a3632958ccc760e1dcbcc59069082962c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:52 +0000
Subject: [PATCH 08/49] fix: AddBorders accepts borders whose sum overflows and
 writes outside the frame

---
 src/core/simplefilters.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index bd39f96..ecbdb67 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -432,8 +432,16 @@ static void VS_CC addBordersCreate(const VSMap *in, VSMap *out, void *userData,
         RETERROR("AddBorders: invalid number of color values specified");
     }
 
-    vi.height += vi.height ? (d->top + d->bottom) : 0;
-    vi.width += vi.width ? (d->left + d->right) : 0;
+    int64_t newHeight = static_cast<int64_t>(vi.height) + d->top + d->bottom;
+    int64_t newWidth = static_cast<int64_t>(vi.width) + d->left + d->right;
+
+    if (newHeight > INT_MAX || newWidth > INT_MAX)
+        RETERROR("AddBorders: resulting frame is too large");
+
+    if (vi.height && vi.width) {
+        vi.height = static_cast<int>(newHeight);
+        vi.width = static_cast<int>(newWidth);
+    }
 
     VSFilterDependency deps[] = {{d->node, rpStrictSpatial}};
     vsapi->createVideoFilter(out, "AddBorders", &vi, addBordersGetframe, filterFree<AddBordersData>, fmParallel, deps, 1, d.release(), core);
-- 
2.43.0


From d0877cb3083c51aff34d1142ba4c26d2b55de296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:52 +0000
Subject: [PATCH 09/49] fix: ShufflePlanes returned an undefined format when
 plane 0 is 32 times the size of the others

---
 src/core/simplefilters.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index ecbdb67..d37fa09 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -620,7 +620,8 @@ static void VS_CC shufflePlanesCreate(const VSMap *in, VSMap *out, void *userDat
         if (d->format == cfRGB && (ssH != 0 || ssW != 0))
             RETERROR("ShufflePlanes: subsampled RGB not allowed");
 
-        vsapi->queryVideoFormat(&d->vi.format, d->format, d->vi.format.sampleType, d->vi.format.bitsPerSample, ssW, ssH, core);
+        if (!vsapi->queryVideoFormat(&d->vi.format, d->format, d->vi.format.sampleType, d->vi.format.bitsPerSample, ssW, ssH, core))
+            RETERROR("ShufflePlanes: no video format exists for the given planes");
     }
 
     if (d->format == cfGray) {
-- 
2.43.0


From ac807822cb9dc357fde48b04458d0ed62e350f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:52 +0000
Subject: [PATCH 10/49] fix: SplitPlanes aborted the process when passed a clip
 with variable dimensions

---
 src/core/simplefilters.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index d37fa09..944cf7c 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -663,6 +663,11 @@ static void VS_CC splitPlanesCreate(const VSMap *in, VSMap *out, void *userData,
     for (int i = 0; i < numPlanes; i++) {
         vsapi->mapSetInt(map, "planes", i, maReplace);
         VSMap *tmp = vsapi->invoke(vsapi->getPluginByID(VSH_STD_PLUGIN_ID, core), "ShufflePlanes", map);
+        if (const char *error = vsapi->mapGetError(tmp)) {
+            vsapi->mapSetError(out, error);
+            vsapi->freeMap(tmp);
+            break;
+        }
         vsapi->mapConsumeNode(out, "clip", vsapi->mapGetNode(tmp, "clip", 0, nullptr), maAppend);
         vsapi->freeMap(tmp);
     }
-- 
2.43.0


From 56811be87f166c46c3a39d8316396ccc775b6303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:12 +0000
Subject: [PATCH 11/49] fix: DoubleWeave marked its last frame as top field
 first whatever the field order

---
 src/core/simplefilters.cpp | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 944cf7c..3829389 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -807,24 +807,15 @@ static const VSFrame *VS_CC doubleWeaveGetframe(int n, int activationReason, voi
         if (err)
             src2_field = -1;
 
-        const VSFrame *srctop = nullptr;
-        const VSFrame *srcbtn = nullptr;
+        // src1 and src2 are the same frame when n is the last one so the pointers can't tell which field comes first
+        bool topFirst;
 
         if (src1_field == 0 && src2_field == 1) {
-            srcbtn = src1;
-            srctop = src2;
+            topFirst = false;
         } else if (src1_field == 1 && src2_field == 0) {
-            srctop = src1;
-            srcbtn = src2;
+            topFirst = true;
         } else if (d->tff != -1) {
-            int par = (n & 1) ^ d->tff;
-            if (par) {
-                srctop = src1;
-                srcbtn = src2;
-            } else {
-                srctop = src2;
-                srcbtn = src1;
-            }
+            topFirst = !!((n & 1) ^ d->tff);
         } else {
             vsapi->setFilterError("DoubleWeave: field order could not be determined from frame properties", frameCtx);
             vsapi->freeFrame(src1);
@@ -832,11 +823,14 @@ static const VSFrame *VS_CC doubleWeaveGetframe(int n, int activationReason, voi
             return nullptr;
         }
 
+        const VSFrame *srctop = topFirst ? src1 : src2;
+        const VSFrame *srcbtn = topFirst ? src2 : src1;
+
         VSFrame *dst = vsapi->newVideoFrame(&d->vi.format, d->vi.width, d->vi.height, src1, core);
         const VSVideoFormat *fi = vsapi->getVideoFrameFormat(dst);
         VSMap *dstprops = vsapi->getFramePropertiesRW(dst);
         vsapi->mapDeleteKey(dstprops, "_Field");
-        vsapi->mapSetInt(dstprops, "_FieldBased", 1 + (srctop == src1), maReplace);
+        vsapi->mapSetInt(dstprops, "_FieldBased", topFirst ? VSC_FIELD_TOP : VSC_FIELD_BOTTOM, maReplace);
 
         for (int plane = 0; plane < fi->numPlanes; plane++) {
             const uint8_t *srcptop = vsapi->getReadPtr(srctop, plane);
-- 
2.43.0


From 642b50b9daaf470e3affd2efd06d2ce1cca0de08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 12/49] fix: FrameEval aborted the process when the function
 returned an audio node

---
 src/core/simplefilters.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 3829389..6e2978c 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -1414,7 +1414,8 @@ static const VSFrame *VS_CC frameEvalGetFrameWithProps(int n, int activationReas
         VSNode *node = vsapi->mapGetNode(d->out, "val", 0, &err);
         vsapi->clearMap(d->out);
 
-        if (err) {
+        if (err || vsapi->getNodeType(node) != mtVideo) {
+            vsapi->freeNode(node);
             vsapi->setFilterError("FrameEval: Function didn't return a clip", frameCtx);
             return nullptr;
         }
@@ -1469,7 +1470,8 @@ static const VSFrame *VS_CC frameEvalGetFrameNoProps(int n, int activationReason
         VSNode *node = vsapi->mapGetNode(d->out, "val", 0, &err);
         vsapi->clearMap(d->out);
 
-        if (err) {
+        if (err || vsapi->getNodeType(node) != mtVideo) {
+            vsapi->freeNode(node);
             vsapi->setFilterError("FrameEval: Function didn't return a clip", frameCtx);
             return nullptr;
         }
-- 
2.43.0


From d8ac4e2bd3d697a40b997d37ba331145453b5522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 13/49] fix: ModifyFrame aborted the process when the function
 returned an audio frame

---
 src/core/simplefilters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 6e2978c..3e9943c 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -1593,7 +1593,7 @@ static const VSFrame *VS_CC modifyFrameGetFrame(int n, int activationReason, voi
 
         const VSFrame *f = vsapi->mapGetFrame(d->out, "val", 0, &err);
         vsapi->clearMap(d->out);
-        if (err) {
+        if (err || vsapi->getFrameType(f) != mtVideo) {
             vsapi->freeFrame(f);
             vsapi->setFilterError("ModifyFrame: Returned value not a frame", frameCtx);
             return nullptr;
-- 
2.43.0


From ff4a29f798a49b48b39a9b60397e57c0b8747bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:00 +0000
Subject: [PATCH 14/49] fix: PropToClip aborted the process when the property
 held an audio frame

---
 src/core/simplefilters.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 3e9943c..325dbd1 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -2129,7 +2129,7 @@ static const VSFrame *VS_CC propToClipGetFrame(int n, int activationReason, void
         vsapi->freeFrame(src);
 
         if (dst) {
-            if (!isSameVideoFormat(&d->vi.format, vsapi->getVideoFrameFormat(dst)) || d->vi.height != vsapi->getFrameHeight(dst, 0) || d->vi.width != vsapi->getFrameWidth(dst, 0)) {
+            if (vsapi->getFrameType(dst) != mtVideo || !isSameVideoFormat(&d->vi.format, vsapi->getVideoFrameFormat(dst)) || d->vi.height != vsapi->getFrameHeight(dst, 0) || d->vi.width != vsapi->getFrameWidth(dst, 0)) {
                 vsapi->freeFrame(dst);
                 vsapi->setFilterError("PropToClip: retrieved frame doesn't match output format or dimensions", frameCtx);
                 return nullptr;
@@ -2171,7 +2171,8 @@ static void VS_CC propToClipCreate(const VSMap *in, VSMap *out, void *userData,
         RETERROR(("PropToClip: upstream error: " + std::string(errmsg)).c_str());
 
     const VSFrame *msrc = vsapi->mapGetFrame(vsapi->getFramePropertiesRO(src), d->prop.c_str(), d->index, &err);
-    if (err) {
+    if (err || vsapi->getFrameType(msrc) != mtVideo) {
+        vsapi->freeFrame(msrc);
         vsapi->freeFrame(src);
         RETERROR(("PropToClip: no frame stored in property: " + d->prop + " index " + std::to_string(d->index)).c_str());
     }
-- 
2.43.0


From 2fddf75c27204df90d9af2a0b9a4227d0e34c001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 15/49] fix: Merge wrote past its instance data when given more
 than three weights

---
 src/core/mergefilters.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/mergefilters.cpp b/src/core/mergefilters.cpp
index e54e37f..6e1978c 100644
--- a/src/core/mergefilters.cpp
+++ b/src/core/mergefilters.cpp
@@ -389,6 +389,8 @@ static void VS_CC mergeCreate(const VSMap *in, VSMap *out, void *userData, VSCor
     std::unique_ptr<MergeData> d(new MergeData(vsapi));
 
     int nweight = vsapi->mapNumElements(in, "weight");
+    if (nweight > 3)
+        RETERROR("Merge: more weights given than the number of planes to merge");
     for (int i = 0; i < 3; i++)
         d->fweight[i] = 0.5f;
     for (int i = 0; i < nweight; i++)
-- 
2.43.0


From da6801bad7a683d25e2c11c7c5580cfeddeb4196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 16/49] fix: MaskedMerge accepted a mask of another sample type
 and used its samples as its own

---
 src/core/mergefilters.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/mergefilters.cpp b/src/core/mergefilters.cpp
index 6e1978c..d37ad37 100644
--- a/src/core/mergefilters.cpp
+++ b/src/core/mergefilters.cpp
@@ -612,6 +612,7 @@ static void VS_CC maskedMergeCreate(const VSMap *in, VSMap *out, void *userData,
         RETERROR(("MaskedMerge: both clips must have the same constant format and dimensions, passed " + videoInfoToString(d->vi, vsapi) + " and " + videoInfoToString(vsapi->getVideoInfo(d->nodes[1]), vsapi)).c_str());
 
     if (maskvi->width != d->vi->width || maskvi->height != d->vi->height || maskvi->format.bitsPerSample != d->vi->format.bitsPerSample
+        || maskvi->format.sampleType != d->vi->format.sampleType
         || (!isSameVideoFormat(&maskvi->format, &d->vi->format) && maskvi->format.colorFamily != cfGray && !d->first_plane))
         RETERROR(("MaskedMerge: mask clip must have same dimensions as main clip and be the same format or grayscale, passed " + videoInfoToString(d->vi, vsapi) + " and " + videoInfoToString(maskvi, vsapi)).c_str());
 
-- 
2.43.0


From f30126a93b3939645f12c3d6ab325ffa8d2dc047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:43 +0000
Subject: [PATCH 17/49] fix: Lut and Lut2 copied unprocessed planes into frames
 with another sample size and read outside them

---
 src/core/lutfilters.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/lutfilters.cpp b/src/core/lutfilters.cpp
index d1dd677..bed6935 100644
--- a/src/core/lutfilters.cpp
+++ b/src/core/lutfilters.cpp
@@ -281,6 +281,10 @@ static void VS_CC lutCreate(const VSMap *in, VSMap *out, void *userData, VSCore
 
         getPlanesArg(in, d->process, vsapi);
 
+        for (int plane = 0; plane < d->vi->format.numPlanes; plane++)
+            if (!d->process[plane] && d->vi_out.format.bytesPerSample != d->vi->format.bytesPerSample)
+                RETERROR("Lut: all planes must be processed when the sample size of the output differs from that of the input");
+
         VSFunction *func = vsapi->mapGetFunction(in, "function", 0, &err);
         int lut_elem = vsapi->mapNumElements(in, "lut");
         int lutf_elem = vsapi->mapNumElements(in, "lutf");
@@ -592,6 +596,10 @@ static void VS_CC lut2Create(const VSMap *in, VSMap *out, void *userData, VSCore
 
         getPlanesArg(in, d->process, vsapi);
 
+        for (int plane = 0; plane < d->vi[0]->format.numPlanes; plane++)
+            if (!d->process[plane] && d->vi_out.format.bytesPerSample != d->vi[0]->format.bytesPerSample)
+                RETERROR("Lut2: all planes must be processed when the sample size of the output differs from that of the input");
+
         VSFunction *func = vsapi->mapGetFunction(in, "function", 0, &err);
         int lut_elem = vsapi->mapNumElements(in, "lut");
         int lutf_elem = vsapi->mapNumElements(in, "lutf");
-- 
2.43.0


From 8bd5c0aec9fdb85594d33d864a957d38fde826c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:30 +0000
Subject: [PATCH 18/49] fix: Lut2 crashed when the second clip lacked a plane
 it had to process

---
 src/core/lutfilters.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/lutfilters.cpp b/src/core/lutfilters.cpp
index bed6935..c6cafec 100644
--- a/src/core/lutfilters.cpp
+++ b/src/core/lutfilters.cpp
@@ -600,6 +600,10 @@ static void VS_CC lut2Create(const VSMap *in, VSMap *out, void *userData, VSCore
             if (!d->process[plane] && d->vi_out.format.bytesPerSample != d->vi[0]->format.bytesPerSample)
                 RETERROR("Lut2: all planes must be processed when the sample size of the output differs from that of the input");
 
+        for (int plane = d->vi[1]->format.numPlanes; plane < d->vi[0]->format.numPlanes; plane++)
+            if (d->process[plane])
+                RETERROR("Lut2: the second clip doesn't have all the planes to be processed");
+
         VSFunction *func = vsapi->mapGetFunction(in, "function", 0, &err);
         int lut_elem = vsapi->mapNumElements(in, "lut");
         int lutf_elem = vsapi->mapNumElements(in, "lutf");
-- 
2.43.0


From 027d6a87bed4f8ee6de64efa3022c4cbb1de112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:43 +0000
Subject: [PATCH 19/49] fix: AddBorders aborted when the borders made a frame
 of a clip with variable dimensions too large

---
 src/core/simplefilters.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 325dbd1..f76bf0e 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -298,7 +298,16 @@ static const VSFrame *VS_CC addBordersGetframe(int n, int activationReason, void
             return nullptr;
         }
 
-        dst = vsapi->newVideoFrame(fi, vsapi->getFrameWidth(src, 0) + d->left + d->right, vsapi->getFrameHeight(src, 0) + d->top + d->bottom, src, core);
+        int64_t newWidth = static_cast<int64_t>(vsapi->getFrameWidth(src, 0)) + d->left + d->right;
+        int64_t newHeight = static_cast<int64_t>(vsapi->getFrameHeight(src, 0)) + d->top + d->bottom;
+
+        if (newWidth > INT_MAX || newHeight > INT_MAX) {
+            vsapi->freeFrame(src);
+            vsapi->setFilterError("AddBorders: resulting frame is too large", frameCtx);
+            return nullptr;
+        }
+
+        dst = vsapi->newVideoFrame(fi, static_cast<int>(newWidth), static_cast<int>(newHeight), src, core);
 
         int bytesPerSample = fi->bytesPerSample;
 
-- 
2.43.0


From e541913afde10d787d1b5c9098173065754461f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:12 +0000
Subject: [PATCH 20/49] fix: BoxBlur blurred Gray clips whose only plane was
 not in planes

---
 src/core/boxblurfilter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/boxblurfilter.cpp b/src/core/boxblurfilter.cpp
index fb0f0b2..b8aa3bb 100644
--- a/src/core/boxblurfilter.cpp
+++ b/src/core/boxblurfilter.cpp
@@ -625,7 +625,10 @@ static void VS_CC boxBlurCreate(const VSMap *in, VSMap *out, void *userData, VSC
 
         VSPlugin *stdplugin = vsapi->getPluginByID(VSH_STD_PLUGIN_ID, core);
 
-        if (vi->format.numPlanes == 1) {
+        if (vi->format.numPlanes == 1 && !process[0]) {
+            vsapi->mapConsumeNode(out, "clip", node, maAppend);
+            node = nullptr;
+        } else if (vi->format.numPlanes == 1) {
             VSNode *tmpnode = applyBoxBlurPlaneFiltering(stdplugin, node, hradius, hpasses, vradius, vpasses, core, vsapi);
             node = nullptr;
             vsapi->mapSetNode(out, "clip", tmpnode, maAppend);
-- 
2.43.0


From a5bf46bf5b3a24d80796fe8db244302fa67efa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:27 +0000
Subject: [PATCH 21/49] fix: Expr dropped the constant of a sum whose other
 terms cancel out

---
 src/core/expr/expr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/expr/expr.cpp b/src/core/expr/expr.cpp
index 4b5e282..07a94da 100644
--- a/src/core/expr/expr.cpp
+++ b/src/core/expr/expr.cpp
@@ -801,7 +801,7 @@ public:
                 head = addNode;
             }
         } else {
-            head = tree.makeNode({ ExprOpType::CONSTANT, 0.0f });
+            head = tree.makeNode({ ExprOpType::CONSTANT, scalarTerm });
         }
 
         return head;
-- 
2.43.0


From cb09f69e6f5e4260e8fa3a477b53982c2bc82784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:55 +0000
Subject: [PATCH 22/49] fix: Expr turned the square root of a product into a
 product of powers that negative factors do not have

---
 src/core/expr/expr.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/expr/expr.cpp b/src/core/expr/expr.cpp
index 07a94da..ac4534c 100644
--- a/src/core/expr/expr.cpp
+++ b/src/core/expr/expr.cpp
@@ -536,6 +536,10 @@ class ExponentMap {
         for (size_t i = 0; i < origSequence.size(); ++i) {
             const ExpressionTreeNode *value = index.at(origSequence[i]);
 
+            // Not expanded in the map.
+            if (map.count(origSequence[i]))
+                continue;
+
             if (value->op == ExprOpType::POW && isConstant(*value->right)) {
                 origSequence[i] = value->left->valueNum;
                 changed = true;
@@ -557,6 +561,12 @@ class ExponentMap {
             const ExpressionTreeNode *value = index.at(it->first);
             bool erase = false;
 
+            // (a * b) ** c = a ** c * b ** c and (a ** b) ** c = a ** (b * c) do not hold for negative values unless c is an integer.
+            if (!isInteger(it->second)) {
+                ++it;
+                continue;
+            }
+
             if (value->op == ExprOpType::POW && isConstant(*value->right)) {
                 index[value->left->valueNum] = value->left;
 
-- 
2.43.0


From b4dd854bfc57c3a08a52b5ffdfe155aed7e3d20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:24 +0000
Subject: [PATCH 23/49] fix: vspipe freed the error map of a rejected range
 twice and crashed

---
 src/vspipe/vspipe.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index 5c19fd7..9eeeb2c 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -1199,7 +1199,6 @@ int main(int argc, char **argv) {
 
             if (mapError) {
                 fprintf(stderr, "%s\n", vsapi->mapGetError(mapError));
-                vsapi->freeMap(mapError);
                 vsapi->freeMap(result);
                 vsapi->freeMap(alphaResult);
                 vsapi->freeNode(node);
-- 
2.43.0


From 2579d480efeb03e09913d8599bffba92b02d7eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:24 +0000
Subject: [PATCH 24/49] fix: vspipe leaked the alpha clip when a range was
 selected

---
 src/vspipe/vspipe.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index 9eeeb2c..d868295 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -1208,8 +1208,10 @@ int main(int argc, char **argv) {
             } else {
                 vsapi->freeNode(node);
                 node = vsapi->mapGetNode(result, "clip", 0, nullptr);
-                if (alphaResult)
+                if (alphaResult) {
+                    vsapi->freeNode(alphaNode);
                     alphaNode = vsapi->mapGetNode(alphaResult, "clip", 0, nullptr);
+                }
                 vsapi->freeMap(result);
                 vsapi->freeMap(alphaResult);
             }
-- 
2.43.0


From b1eccb843ffe1718cfde864c8d7e48f5b4db8fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:24 +0000
Subject: [PATCH 25/49] fix: vspipe cut string properties at the first zero in
 JSON output

---
 src/vspipe/vsjson.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vspipe/vsjson.cpp b/src/vspipe/vsjson.cpp
index bc06c81..5df983a 100644
--- a/src/vspipe/vsjson.cpp
+++ b/src/vspipe/vsjson.cpp
@@ -95,7 +95,7 @@ std::string convertVSMapToJSON(const VSMap *map, const VSAPI *vsapi) {
                     int typeHint = vsapi->mapGetDataTypeHint(map, key, j, nullptr);
                     jsonStr += (j ? ", " : "");
                     if (typeHint == dtUtf8 || (typeHint == dtUnknown && vsapi->mapGetDataSize(map, key, j, nullptr) < 200 && isAsciiPrintable(std::string(vsapi->mapGetData(map, key, j, nullptr), vsapi->mapGetDataSize(map, key, j, nullptr)))))
-                        jsonStr += escapeJSONString(vsapi->mapGetData(map, key, j, nullptr));
+                        jsonStr += escapeJSONString(std::string(vsapi->mapGetData(map, key, j, nullptr), vsapi->mapGetDataSize(map, key, j, nullptr)));
                     else
                         jsonStr += "\"[binary data size: " + std::to_string(vsapi->mapGetDataSize(map, key, j, nullptr)) + "]\"";
                 }
-- 
2.43.0


From b6b9578991205f17a496ded40c4c410a83b74b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:24 +0000
Subject: [PATCH 26/49] fix: vspipe wrote invalid JSON for frame, node and
 function properties

---
 src/vspipe/vsjson.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vspipe/vsjson.cpp b/src/vspipe/vsjson.cpp
index 5df983a..34f3044 100644
--- a/src/vspipe/vsjson.cpp
+++ b/src/vspipe/vsjson.cpp
@@ -100,6 +100,11 @@ std::string convertVSMapToJSON(const VSMap *map, const VSAPI *vsapi) {
                         jsonStr += "\"[binary data size: " + std::to_string(vsapi->mapGetDataSize(map, key, j, nullptr)) + "]\"";
                 }
                 break;
+            default:
+                // frames, nodes and functions have no JSON representation
+                for (int j = 0; j < numElems; j++)
+                    jsonStr += (j ? ", null" : "null");
+                break;
             }
 
             if (numElems > 1)
-- 
2.43.0


From edb1f987186e8e1ac07ab75afe669c40a8f8d98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:24 +0000
Subject: [PATCH 27/49] fix: vspipe wrote invalid JSON for NaN and infinite
 properties

---
 src/vspipe/vsjson.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vspipe/vsjson.cpp b/src/vspipe/vsjson.cpp
index 34f3044..446f565 100644
--- a/src/vspipe/vsjson.cpp
+++ b/src/vspipe/vsjson.cpp
@@ -20,6 +20,7 @@
 
 #include "vsjson.h"
 #include <charconv>
+#include <cmath>
 
 static bool isAsciiPrintable(const std::string &s) {
     for (const auto c : s)
@@ -29,6 +30,10 @@ static bool isAsciiPrintable(const std::string &s) {
 }
 
 static std::string doubleToString(double v) {
+    // JSON has no way to write infinities and NaN
+    if (!std::isfinite(v))
+        return "null";
+
     char buffer[100];
     auto res = std::to_chars(buffer, buffer + sizeof(buffer), v, std::chars_format::fixed);
     return std::string(buffer, res.ptr - buffer);
-- 
2.43.0


From 0d375277c00fcb5b09c06ab42002e6701e0228cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:24 +0000
Subject: [PATCH 28/49] fix: vspipe reported success when the end of its output
 couldn't be written

---
 src/vspipe/vspipe.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index d868295..76a3a81 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -1262,12 +1262,17 @@ int main(int argc, char **argv) {
                 success = !outputNode(opts, data.get(), vssapi->getCore(se));
         }
 
-        if (outFile)
-            fflush(outFile);
-        if (timecodesFile)
-            fflush(timecodesFile);
-        if (jsonFile)
-            fflush(jsonFile);
+        // the last part of every file is only really written here
+        auto flushOutput = [&success](FILE *file, const char *name) {
+            if (file && fflush(file) && success) {
+                fprintf(stderr, "Error: failed to write the end of the %s, errno: %d\n", name, errno);
+                success = false;
+            }
+        };
+
+        flushOutput(outFile, "output");
+        flushOutput(timecodesFile, "timecodes file");
+        flushOutput(jsonFile, "JSON file");
 
         std::chrono::duration<double> elapsedSeconds = std::chrono::steady_clock::now() - data->startTime;
         if (opts.mode == VSPipeMode::Output) {
-- 
2.43.0


From 93ccd1f95a09aaeff5dd03e225c1099597be3020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:23 +0000
Subject: [PATCH 29/49] fix: freeScript kept the environment alive when
 dropping a variable changed the others

---
 src/cython/vapoursynth.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index ff695af..09b8c8a 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -3923,7 +3923,8 @@ cdef public api void vpy4_freeScript(VSScript *se) noexcept nogil:
     with gil:
         if se.pyenvdict:
             pyenvdict = <dict>se.pyenvdict
-            for key in pyenvdict:
+            # dropping a value may run code that changes the dict
+            for key in list(pyenvdict):
                 pyenvdict[key] = None
             pyenvdict.clear()
             try:
-- 
2.43.0


From 62b4e120aaf987d67fb25011e4491ad98bcebe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:57 +0000
Subject: [PATCH 30/49] fix: methods of a Core whose environment was destroyed
 passed a null core to the library

---
 src/cython/vapoursynth.pyx | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 09b8c8a..d2860e4 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -3015,20 +3015,24 @@ cdef class CoreTimings(object):
 
     @property
     def enabled(self):
+        self.core.ensure_valid()
         return bool(self.core.funcs.getCoreNodeTiming(self.core.core))
 
     @enabled.setter
     def enabled(self, bint enabled):
+        self.core.ensure_valid()
         self.core.funcs.setCoreNodeTiming(self.core.core, enabled)
 
     @property
     def freed_nodes(self):
+        self.core.ensure_valid()
         return self.core.funcs.getFreedNodeProcessingTime(self.core.core, False)
 
     @freed_nodes.setter
     def freed_nodes(self, bint value):
         if value != 0:
             raise ValueError("You can only set freed_nodes to 0, to reset its counter!")
+        self.core.ensure_valid()
         self.core.funcs.getFreedNodeProcessingTime(self.core.core, True)
 
     def __repr__(self):
@@ -3126,19 +3130,23 @@ cdef class Core(object):
             raise AttributeError('No attribute with the name ' + name + ' exists. Did you mistype a plugin namespace or forget to install a plugin?')
 
     def plugins(self):
+        self.ensure_valid()
         cdef VSPlugin *plugin = self.funcs.getNextPlugin(NULL, self.core)
         while plugin:
             tmp = createPlugin(plugin, self.funcs, self)
             plugin = self.funcs.getNextPlugin(plugin, self.core)
             yield tmp
+            self.ensure_valid()
 
     def query_video_format(self, int color_family, int sample_type, int bits_per_sample, int subsampling_w = 0, int subsampling_h = 0):
+        self.ensure_valid()
         cdef VSVideoFormat fmt
         if not self.funcs.queryVideoFormat(&fmt, color_family, sample_type, bits_per_sample, subsampling_w, subsampling_h, self.core):
             raise Error('Invalid format specified')
         return createVideoFormat(&fmt, self.funcs, self.core)
 
     def get_video_format(self, uint32_t id):
+        self.ensure_valid()
         cdef VSVideoFormat fmt
         if not self.funcs.getVideoFormatByID(&fmt, id, self.core):
             raise Error('Invalid format id specified')
@@ -3146,6 +3154,7 @@ cdef class Core(object):
             return createVideoFormat(&fmt, self.funcs, self.core)
 
     def create_video_frame(self, int format, int width, int height):
+        self.ensure_valid()
         cdef VSVideoFormat fmt
         if not self.funcs.getVideoFormatByID(&fmt, format, self.core):
             raise Error('Invalid format id specified')
@@ -3154,6 +3163,7 @@ cdef class Core(object):
         return createVideoFrame(ref, self.funcs, self.core)
 
     def log_message(self, int message_type, str message):
+        self.ensure_valid()
         # released gil, the log api dispatches to handlers that acquire the gil so calling in
         # while holding it can deadlock against a thread mid message delivery
         cdef bytes message_bytes = message.encode('utf-8')
@@ -3162,6 +3172,7 @@ cdef class Core(object):
             self.funcs.logMessage(message_type, message_cstr, self.core)
 
     def add_log_handler(self, handler_func):
+        self.ensure_valid()
         handler_func(mtDebug, 'New message handler installed from python')
         cdef LogHandle lh = createLogHandle(handler_func)
         Py_INCREF(lh)
@@ -3173,6 +3184,7 @@ cdef class Core(object):
         return lh
 
     def remove_log_handler(self, LogHandle handle):
+        self.ensure_valid()
         cdef VSLogHandle *h = handle.handle
         cdef bint result
         with nogil:
@@ -3180,10 +3192,12 @@ cdef class Core(object):
         return result
 
     def clear_cache(self):
+        self.ensure_valid()
         self.funcs.clearCoreCaches(self.core)
 
     @property
     def core_version(self):
+        self.ensure_valid()
         cdef VSCoreInfo2 v
         self.funcs.getCoreInfo2(self.core, &v)
 
@@ -3191,6 +3205,7 @@ cdef class Core(object):
 
     @property
     def api_version(self):
+        self.ensure_valid()
         cdef VSCoreInfo2 v
         self.funcs.getCoreInfo2(self.core, &v)
 
@@ -3221,6 +3236,7 @@ cdef class Core(object):
         )
 
     def __str__(self):
+        self.ensure_valid()
         cdef VSCoreInfo2 v
         self.funcs.getCoreInfo2(self.core, &v)
 
-- 
2.43.0


From ab78c3838ea69427fbc0d74de7522cdf4f70080f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:57 +0000
Subject: [PATCH 31/49] fix: plugins and functions of a destroyed environment
 used freed memory

---
 src/cython/vapoursynth.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index d2860e4..449b072 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -3381,6 +3381,7 @@ cdef class Plugin(object):
         raise Error('Class cannot be instantiated directly')
 
     def __getattr__(self, name):
+        self.core.ensure_valid()
         tname = name.encode('utf-8')
         cdef const char *cname = tname
         cdef VSPluginFunction *func = self.funcs.getPluginFunctionByName(cname, self.plugin)
@@ -3391,14 +3392,17 @@ cdef class Plugin(object):
             raise AttributeError('There is no function named ' + name)
 
     def functions(self):
+        self.core.ensure_valid()
         cdef VSPluginFunction *func = self.funcs.getNextPluginFunction(NULL, self.plugin)
         while func:
             tmp = createFunction(func, self, self.funcs)
             func = self.funcs.getNextPluginFunction(func, self.plugin)
             yield tmp
+            self.core.ensure_valid()
 
     @property
     def version(self):
+        self.core.ensure_valid()
         ver = <int>self.funcs.getPluginVersion(self.plugin)
 
         ver_major = (ver >> 16)
@@ -3408,6 +3412,7 @@ cdef class Plugin(object):
 
     @property
     def plugin_path(self):
+        self.core.ensure_valid()
         cdef const char *ppath = self.funcs.getPluginPath(self.plugin)
         if ppath:
             return ppath.decode('utf-8')
@@ -3489,6 +3494,7 @@ cdef class Function(object):
         cdef VSMap *inm
         cdef VSMap *outm
         cdef char *cname
+        self.plugin.core.ensure_valid()
         arglist = list(args)
         if self.plugin.injected_arg is not None:
             arglist.insert(0, self.plugin.injected_arg)
-- 
2.43.0


From 631ca0437f0f17ad9509262b90e92f695f759171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:57 +0000
Subject: [PATCH 32/49] fix: properties of a node whose environment was
 destroyed passed a null node to the library

---
 src/cython/vapoursynth.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 449b072..e6e4296 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -2271,24 +2271,29 @@ cdef class RawNode(object):
 
     @property
     def node_name(self):
+        self.ensure_valid()
         return self.funcs.getNodeName(self.node).decode("utf-8")
 
     @property
     def timings(self):
+        self.ensure_valid()
         return self.funcs.getNodeProcessingTime(self.node, False)
 
     @timings.setter
     def timings(self, bint value):
         if value != 0:
             raise ValueError("You can only set timings to 0, to reset its counter!")
+        self.ensure_valid()
         self.funcs.getNodeProcessingTime(self.node, True)
 
     @property
     def mode(self):
+        self.ensure_valid()
         return FilterMode(self.funcs.getNodeFilterMode(self.node))
 
     @property
     def dependencies(self):
+        self.ensure_valid()
         return tuple(
             createNode(self.funcs.addNodeRef(self.funcs.getNodeDependency(self.node, idx).source), self.funcs, self.core)
             for idx in range(self.funcs.getNumNodeDependencies(self.node))
-- 
2.43.0


From eb7f19a7d38c365042f5cc08ae5e052fe8a5a665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:18 +0000
Subject: [PATCH 33/49] fix: destroyed clips and closed frames passed as
 arguments or properties were dereferenced as null

---
 src/cython/vapoursynth.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index e6e4296..1ad814e 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -1162,9 +1162,11 @@ cdef void dictToMap(dict ndict, VSMap *inm, VSCore *core, const VSAPI *funcs) ex
                 if funcs.mapSetData(inm, ckey, v, <int>len(v), dtBinary, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif isinstance(v, RawNode):
+                (<RawNode>v).ensure_valid()
                 if funcs.mapSetNode(inm, ckey, (<RawNode>v).node, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif isinstance(v, RawFrame):
+                (<RawFrame>v)._ensure_open()
                 if funcs.mapSetFrame(inm, ckey, (<RawFrame>v).constf, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif isinstance(v, Func):
@@ -1197,9 +1199,11 @@ cdef void typedDictToMap(dict ndict, dict atypes, VSMap *inm, VSCore *core, cons
 
         for v in val:
             if (atypes[key][:5] == 'vnode' and isinstance(v, VideoNode)) or (atypes[key][:5] == 'anode' and isinstance(v, AudioNode)):
+                (<RawNode>v).ensure_valid()
                 if funcs.mapSetNode(inm, ckey, (<RawNode>v).node, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif ((atypes[key][:6] == 'vframe') and isinstance(v, VideoFrame)) or (atypes[key][:6] == 'aframe' and isinstance(v, AudioFrame)):
+                (<RawFrame>v)._ensure_open()
                 if funcs.mapSetFrame(inm, ckey, (<RawFrame>v).constf, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif atypes[key][:4] == 'func' and isinstance(v, Func):
@@ -1429,9 +1433,11 @@ cdef class FrameProps(object):
         try:
             for v in val:
                 if isinstance(v, RawNode):
+                    (<RawNode>v).ensure_valid()
                     if funcs.mapSetNode(m, b, (<RawNode>v).node, 1) != 0:
                         raise Error('Not all values are of the same type')
                 elif isinstance(v, RawFrame):
+                    (<RawFrame>v)._ensure_open()
                     if funcs.mapSetFrame(m, b, (<RawFrame>v).constf, 1) != 0:
                         raise Error('Not all values are of the same type')
                 elif isinstance(v, Func):
-- 
2.43.0


From 19456930a7f824b4c36a835da1c5a54652665223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:18 +0000
Subject: [PATCH 34/49] fix: frames requested asynchronously got lost without
 an environment and outlived theirs

---
 src/cython/vapoursynth.pyx | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 1ad814e..2c100ec 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -1055,12 +1055,19 @@ cdef void __stdcall frameDoneCallback(void *data, const VSFrame *f, int n, VSNod
                     error_str = errormsg.decode('utf-8')
                 py_exc = d.env.retrieve_exception(error_str) if d.env is not None else None
                 error = py_exc or Error(error_str)
-            else:
-                result = createConstFrame(f, d.funcs, d.node.core.core)
 
             try:
-                with use_environment(d.env).use():
+                if d.env is None:
+                    # requested while no environment was active
+                    if error is None:
+                        result = createConstFrame(f, d.funcs, d.node.core.core)
                     d.callback(result, error)
+                else:
+                    with use_environment(d.env).use():
+                        # created here so the frame is known to the environment it belongs to
+                        if error is None:
+                            result = createConstFrame(f, d.funcs, d.node.core.core)
+                        d.callback(result, error)
             except:
                 traceback.print_exc()
         finally:
-- 
2.43.0


From caa1be7e269628dc9d760ba8d8f1d1a99eb9cd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:18 +0000
Subject: [PATCH 35/49] fix: an on_destroy callback raising SystemExit kept the
 others from running and the environment half destroyed

---
 src/cython/vapoursynth.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 2c100ec..2d1afba 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -469,7 +469,7 @@ cdef class EnvironmentPolicyAPI:
             for callback in callbacks:
                 try:
                     callback()
-                except Exception as e:
+                except BaseException as e:
                     formatted = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
                     if env.core is not None:
                         env.core.log_message(MessageType.MESSAGE_TYPE_CRITICAL, formatted)
-- 
2.43.0


From 896abb09b592f1c11ff5bf3f0c680c40b671139f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:18 +0000
Subject: [PATCH 36/49] fix: unregister_policy failed when destroying an
 environment changed the set of environments

---
 src/cython/vapoursynth.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 2d1afba..458001d 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -522,7 +522,7 @@ cdef class EnvironmentPolicyAPI:
 
     def unregister_policy(self):
         self.ensure_policy_matches()
-        for environment in self._known_environments.values():
+        for environment in list(self._known_environments.values()):
             self.destroy_environment(environment)
         clear_policy(delay=False)
 
-- 
2.43.0


From 8c589a459a9be51ed8d8bc5a05123b687609166c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:34 +0000
Subject: [PATCH 37/49] fix: get_core_ptr read garbage without a core and
 set_logger made a core for a destroyed environment

---
 src/cython/vapoursynth.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 458001d..9717c87 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -442,6 +442,7 @@ cdef class EnvironmentPolicyAPI:
         return env
 
     def set_logger(self, env, logger):
+        vsscript_get_core_internal(env)
         Py_INCREF(logger)
         _set_logger(env, _logCb, _logFree, <void *>logger)
 
@@ -451,7 +452,7 @@ cdef class EnvironmentPolicyAPI:
 
     def get_core_ptr(self, EnvironmentData environment_data):
         self.ensure_policy_matches()
-        return ctypes.c_void_p(<uintptr_t>environment_data.core.core)
+        return ctypes.c_void_p(<uintptr_t>vsscript_get_core_internal(environment_data).core)
 
     def destroy_environment(self, EnvironmentData env):
         self.ensure_policy_matches()
@@ -3318,6 +3319,8 @@ cdef Core _get_core(threads = None):
 
 cdef Core vsscript_get_core_internal(EnvironmentData env):
     if env.core is None:
+        if not env.alive:
+            raise Error('The environment has been destroyed.')
         env.core = createCore(env)
     return env.core
 
-- 
2.43.0


From 679e436a984b06c38bf766d859d4c7f7a237f9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:09 +0000
Subject: [PATCH 38/49] fix: set_output accepted clips of destroyed
 environments

---
 src/cython/vapoursynth.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 9717c87..ddcb7c6 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -2442,6 +2442,7 @@ cdef class VideoNode(RawNode):
     def set_output(self, int index = 0, VideoNode alpha = None, int alt_output = 0):
         self.ensure_valid()
         if alpha is not None:
+            alpha.ensure_valid()
             if (self.vi.width != alpha.vi.width) or (self.vi.height != alpha.vi.height):
                 raise Error('Alpha clip dimensions must match the main video')
             if (self.num_frames != alpha.num_frames):
@@ -2872,6 +2873,7 @@ cdef class AudioNode(RawNode):
             fileobj.flush()
 
     def set_output(self, int index = 0):
+        self.ensure_valid()
         _get_output_dict("set_output")[index] = self
 
     @property
-- 
2.43.0


From 01103dea70bcedd19804773a0fba4868912ba70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:31 +0000
Subject: [PATCH 39/49] fix: closing a frames() iterator could leave a request
 running

---
 src/cython/vapoursynth.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index ddcb7c6..e2a5ce8 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -2258,7 +2258,9 @@ cdef class RawNode(object):
                     if close:
                         result.close()
         finally:
-            finished = True
+            # a request being made on another thread has to get into reorder first
+            with lock:
+                finished = True
 
             for fut in reorder.copy().values():
                 if fut.exception() is not None:
-- 
2.43.0


From cc5ab984ea9e977de0c0bd0fa90567a3d43d548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:31 +0000
Subject: [PATCH 40/49] fix: output() wrote past its buffer when an _Alpha
 frame was larger than the clip

---
 src/cython/vapoursynth.pyx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index e2a5ce8..766831c 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -2515,6 +2515,7 @@ cdef class VideoNode(RawNode):
             const VSAPI *lib = self.funcs
             const VSVideoFormat *fi
             uint8_t *buffer = NULL
+            uint8_t *new_buffer
             size_t buffer_size = <size_t>0
             ptrdiff_t stride
             const uint8_t *readPtr
@@ -2562,6 +2563,13 @@ cdef class VideoNode(RawNode):
                         rowSize = <size_t>lib.getFrameWidth(constf, p) * fi.bytesPerSample
                         height = lib.getFrameHeight(constf, p)
 
+                        if rowSize * height > buffer_size:
+                            new_buffer = <uint8_t *>realloc(buffer, rowSize * height)
+                            if not new_buffer:
+                                raise Error("Failed to reallocate output buffer")
+                            buffer = new_buffer
+                            buffer_size = rowSize * height
+
                         if stride == <ptrdiff_t>rowSize:
                             write(PyMemoryView_FromMemory(<char *>readPtr, rowSize * height, PyBUF_READ))
                         else:
-- 
2.43.0


From b7f247354657245431adaa132698007633c2c340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:15 +0000
Subject: [PATCH 41/49] fix: frames() could hang waiting for a callback that
 needs the GIL

---
 src/cython/vapoursynth.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 766831c..9033c4c 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -35,6 +35,7 @@ import os
 import enum
 import ctypes
 import threading
+import time
 import traceback
 import gc
 import sys
@@ -2236,7 +2237,8 @@ cdef class RawNode(object):
         try:
             while (not finished) or (curr_frames > 0) or running > 0:
                 if sidx not in reorder:
-                    # Spin. Reorder being empty should never happen.
+                    # The callback that requests the next frame hasn't run yet, release the GIL for it.
+                    time.sleep(0)
                     continue
 
                 # Get next requested frame
-- 
2.43.0


From 84e5ca159c8c58adf96cb340ade31d83200ecf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:21 +0000
Subject: [PATCH 42/49] fix: multiplying a number by a clip raised TypeError

---
 src/cython/vapoursynth.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 9033c4c..912f1bd 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -2608,6 +2608,9 @@ cdef class VideoNode(RawNode):
             raise ValueError('Loop count must be one or bigger')
         return (<VideoNode>node).core.std.Loop(clip=node, times=val)
 
+    def __rmul__(self, other):
+        return self * other
+
     def __getitem__(self, val):
         if isinstance(val, slice):
             if val.step is not None and val.step == 0:
@@ -2911,6 +2914,9 @@ cdef class AudioNode(RawNode):
             raise ValueError('Loop count must be one or bigger')
         return (<AudioNode>node).core.std.AudioLoop(clip=node, times=val)
 
+    def __rmul__(self, other):
+        return self * other
+
     def __getitem__(self, val):
         if isinstance(val, slice):
             if val.step is not None and val.step == 0:
-- 
2.43.0


From 5214f04af0bf6ff1df0fedc1039beec8a19c5e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:59 +0000
Subject: [PATCH 43/49] fix: output() left frame requests running when it
 failed

---
 src/cython/vapoursynth.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 912f1bd..00d53ce 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -2532,8 +2532,9 @@ cdef class VideoNode(RawNode):
         if not buffer:
             raise Error("Failed to allocate memory for output buffer")
 
+        frames = self.frames(prefetch, backlog, close=True)
         try:
-            for idx, frame in enumerate(self.frames(prefetch, backlog, close=True)):
+            for idx, frame in enumerate(frames):
                 if y4m:
                     write(b"FRAME\n")
 
@@ -2585,6 +2586,7 @@ cdef class VideoNode(RawNode):
                     progress_update(idx + 1, total)
         finally:
             free(buffer)
+            frames.close()
 
         if hasattr(fileobj, "flush"):
             fileobj.flush()
@@ -2829,6 +2831,7 @@ cdef class AudioNode(RawNode):
 
         write = fileobj.write
 
+        frames = self.frames(prefetch, backlog, close=True)
         try:
             if progress_update is not None:
                 progress_update(0, self.num_frames)
@@ -2856,7 +2859,7 @@ cdef class AudioNode(RawNode):
                     raise Error("Failed to create WAV header")
                 write((<char *>&whdr)[:sizeof(WaveHeader)])
 
-            for idx, frame in enumerate(self.frames(prefetch, backlog, close=True)):
+            for idx, frame in enumerate(frames):
                 af = <AudioFrame>frame
                 num_samples_in_frame = af.funcs.getFrameLength(af.constf)
                 required_size = <size_t>num_samples_in_frame * self.num_channels * bytes_per_output_sample
@@ -2883,6 +2886,7 @@ cdef class AudioNode(RawNode):
         finally:
             free(src_ptrs)
             free(interleave_buffer)
+            frames.close()
 
         if hasattr(fileobj, "flush"):
             fileobj.flush()
-- 
2.43.0


From 5d6ad651dcafe7e83e0d9a7441e11f19377f306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:03 +0000
Subject: [PATCH 44/49] fix: frames and nodes made in another environment or in
 none outlived their core

---
 src/cython/vapoursynth.pyx | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 00d53ce..8dcfcb7 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -600,6 +600,24 @@ cdef clear_policy(delay=False):
 cdef EnvironmentData _env_current():
     return get_policy().get_current_environment()
 
+# The environments by the address of their core. A frame or node can't be used without its core
+# even when it was created in another environment or in none.
+cdef object _core_environments = weakref.WeakValueDictionary()
+
+cdef _add_known_frame(object frame, EnvironmentData env, VSCore *core):
+    cdef EnvironmentData owner = _core_environments.get(<uintptr_t>core)
+    if env is not None and env.known_frames is not None:
+        env.known_frames.add(frame)
+    if owner is not None and owner is not env and owner.known_frames is not None:
+        owner.known_frames.add(frame)
+
+cdef _add_known_node(object node, EnvironmentData env, Core core):
+    cdef EnvironmentData owner = _core_environments.get(<uintptr_t>core.core)
+    if env is not None and env.known_nodes is not None:
+        env.known_nodes.add(node)
+    if owner is not None and owner is not env and owner.known_nodes is not None:
+        owner.known_nodes.add(node)
+
 
 # Make sure the policy is cleared at exit.
 atexit.register(lambda: clear_policy(delay=True))
@@ -1803,8 +1821,7 @@ cdef VideoFrame createConstVideoFrame(const VSFrame *constf, const VSAPI *funcs,
     instance.format = createVideoFormat(funcs.getVideoFrameFormat(constf), funcs, core)
     instance.width = funcs.getFrameWidth(constf, 0)
     instance.height = funcs.getFrameHeight(constf, 0)
-    if env is not None and env.known_frames is not None:
-        env.known_frames.add(instance)
+    _add_known_frame(instance, env, core)
     return instance
 
 
@@ -1820,8 +1837,7 @@ cdef VideoFrame createVideoFrame(VSFrame *f, const VSAPI *funcs, VSCore *core):
     instance.format = createVideoFormat(funcs.getVideoFrameFormat(f), funcs, core)
     instance.width = funcs.getFrameWidth(f, 0)
     instance.height = funcs.getFrameHeight(f, 0)
-    if env is not None and env.known_frames is not None:
-        env.known_frames.add(instance)
+    _add_known_frame(instance, env, core)
     return instance
 
 
@@ -2011,8 +2027,7 @@ cdef AudioFrame createConstAudioFrame(const VSFrame *constf, const VSAPI *funcs,
     instance.bytes_per_sample = format.bytesPerSample
     instance.channel_layout = format.channelLayout
     instance.num_channels = format.numChannels
-    if env is not None and env.known_frames is not None:
-        env.known_frames.add(instance)
+    _add_known_frame(instance, env, core)
     return instance
 
 
@@ -2031,8 +2046,7 @@ cdef AudioFrame createAudioFrame(VSFrame *f, const VSAPI *funcs, VSCore *core):
     instance.bytes_per_sample = format.bytesPerSample
     instance.channel_layout = format.channelLayout
     instance.num_channels = format.numChannels
-    if env is not None and env.known_frames is not None:
-        env.known_frames.add(instance)
+    _add_known_frame(instance, env, core)
     return instance
 
 
@@ -2713,8 +2727,7 @@ cdef VideoNode createVideoNode(VSNode *node, const VSAPI *funcs, Core core):
     else:
         instance.fps = Fraction(0, 1)
 
-    if env is not None and env.known_nodes is not None:
-        env.known_nodes.add(instance)
+    _add_known_node(instance, env, core)
 
     return instance
 
@@ -3021,8 +3034,7 @@ cdef AudioNode createAudioNode(VSNode *node, const VSAPI *funcs, Core core):
     instance.channel_layout = instance.ai.format.channelLayout
     instance.num_channels = instance.ai.format.numChannels
 
-    if env is not None and env.known_nodes is not None:
-        env.known_nodes.add(instance)
+    _add_known_node(instance, env, core)
 
     return instance
 
@@ -3314,6 +3326,7 @@ cdef Core createCore(EnvironmentData env):
     if instance.funcs == NULL:
         raise Error('Failed to obtain VapourSynth API pointer. Is the Python module and loaded core library mismatched?')
     instance.core = instance.funcs.createCore(env.coreCreationFlags)
+    _core_environments[<uintptr_t>instance.core] = env
     instance.timings = createCoreTimings(instance)
     instance.creationFlags = env.coreCreationFlags
     if instance.core_version.release_major != VS_CURRENT_RELEASE:
-- 
2.43.0


From 775d42c08caf9c157cd51312175ae59a8133596c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:39 +0000
Subject: [PATCH 45/49] fix: clips equal to another one outlived their
 environment when graph inspection is enabled

---
 src/cython/vapoursynth.pyx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 8dcfcb7..8c22440 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -430,7 +430,8 @@ cdef class EnvironmentPolicyAPI:
         env.coreCreationFlags = flags
         env.on_destroy = []
         env.env_locals = weakref.WeakKeyDictionary()
-        env.known_nodes = weakref.WeakSet()
+        # by id since equal nodes have to be known separately
+        env.known_nodes = weakref.WeakValueDictionary()
         env.known_frames = weakref.WeakSet()
         env.active_futures = weakref.WeakSet()
         env.alive = True
@@ -479,7 +480,7 @@ cdef class EnvironmentPolicyAPI:
                         sys.stderr.write(formatted)
 
         # Invalidate all remaining nodes and frames from this environment
-        for node in list(env.known_nodes):
+        for node in list(env.known_nodes.values()):
             if not isinstance(node, RawNode):
                 continue
             rn = <RawNode>node
@@ -614,9 +615,9 @@ cdef _add_known_frame(object frame, EnvironmentData env, VSCore *core):
 cdef _add_known_node(object node, EnvironmentData env, Core core):
     cdef EnvironmentData owner = _core_environments.get(<uintptr_t>core.core)
     if env is not None and env.known_nodes is not None:
-        env.known_nodes.add(node)
+        env.known_nodes[id(node)] = node
     if owner is not None and owner is not env and owner.known_nodes is not None:
-        owner.known_nodes.add(node)
+        owner.known_nodes[id(node)] = node
 
 
 # Make sure the policy is cleared at exit.
-- 
2.43.0


From e81fe74ff93a7152a2ceef62d524b6942387306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:02 +0000
Subject: [PATCH 46/49] fix: freeing a filter using a node of another core
 released the wrong core

---
 src/core/vscore.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index cd5a0f4..391bb1b 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -1946,6 +1946,7 @@ struct VSCoreShittyFreeList {
     VSFilterFree freeFunc;
     void *instanceData;
     int apiMajor;
+    VSCore *core; // not the same for all when a filter uses nodes from another core
     VSCoreShittyFreeList *next;
 };
 
@@ -1958,7 +1959,7 @@ void VSCore::destroyFilterInstance(VSNode *node) {
         freedNodeProcessingTime += node->processingTime;
 
     if (node->freeFunc) {
-        nodeFreeList = new VSCoreShittyFreeList({ node->freeFunc, node->instanceData, node->apiMajor, nodeFreeList });
+        nodeFreeList = new VSCoreShittyFreeList({ node->freeFunc, node->instanceData, node->apiMajor, this, nodeFreeList });
     } else {
         filterInstanceDestroyed();
     }
@@ -1967,9 +1968,10 @@ void VSCore::destroyFilterInstance(VSNode *node) {
         while (nodeFreeList) {
             VSCoreShittyFreeList *current = nodeFreeList;
             nodeFreeList = current->next;
-            current->freeFunc(current->instanceData, this, getVSAPIInternal(current->apiMajor));
+            VSCore *core = current->core;
+            current->freeFunc(current->instanceData, core, getVSAPIInternal(current->apiMajor));
             delete current;
-            filterInstanceDestroyed();
+            core->filterInstanceDestroyed();
         }
     }
 
-- 
2.43.0


From f725d1a7e3857634e1113ea2a4ae1cce475c12c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:29 +0000
Subject: [PATCH 47/49] fix: clips made by calling a function of another
 environment's core got the wrong core

---
 src/cython/vapoursynth.pyx | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 8c22440..115e917 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -1113,7 +1113,9 @@ cdef int64_t rangeToIntFilter(object value, str key):
             value = Range.RANGE_FULL
     return int(value)
 
-cdef object mapToDict(const VSMap *map, bint flatten):
+cdef object mapToDict(const VSMap *map, bint flatten, Core core=None):
+    # core is the one the map's nodes and frames belong to, the one of the current environment if not given
+    cdef Core current
     cdef const VSAPI *funcs = getVSAPIInternal()
     cdef int numKeys = funcs.mapNumKeys(map)
     retdict = {}
@@ -1138,9 +1140,11 @@ cdef object mapToDict(const VSMap *map, bint flatten):
                 if funcs.mapGetDataTypeHint(map, retkey, y, NULL) == dtUtf8:
                     newval = newval.decode('utf-8')
             elif proptype == ptVideoNode or proptype == ptAudioNode:
-                newval = createNode(funcs.mapGetNode(map, retkey, y, NULL), funcs, _get_core())
+                current = _get_core()
+                newval = createNode(funcs.mapGetNode(map, retkey, y, NULL), funcs, current if core is None else core)
             elif proptype == ptVideoFrame or proptype == ptAudioFrame:
-                newval = createConstFrame(funcs.mapGetFrame(map, retkey, y, NULL), funcs, _get_core().core)
+                current = _get_core()
+                newval = createConstFrame(funcs.mapGetFrame(map, retkey, y, NULL), funcs, current.core if core is None else core.core)
             elif proptype == ptFunction:
                 newval = createFuncRef(funcs.mapGetFunction(map, retkey, y, NULL), funcs)
 
@@ -1421,8 +1425,12 @@ cdef class FrameProps(object):
                     aval = aval.decode('utf-8')
                 ol.append(aval)
         elif t == ptVideoNode or t == ptAudioNode:
+            core = _get_core()
+            owner = _core_environments.get(<uintptr_t>self.core)
+            if owner is not None:
+                core = vsscript_get_core_internal(owner)
             for i in range(numelem):
-                ol.append(createNode(self.funcs.mapGetNode(m, b, i, NULL), self.funcs, _get_core()))
+                ol.append(createNode(self.funcs.mapGetNode(m, b, i, NULL), self.funcs, core))
         elif t == ptVideoFrame or t == ptAudioFrame:
             for i in range(numelem):
                 ol.append(createConstFrame(self.funcs.mapGetFrame(m, b, i, NULL), self.funcs, self.core))
@@ -2358,7 +2366,7 @@ cdef class RawNode(object):
         if not self._inspectable():
             raise Error("This node is not inspectable.")
 
-        return mapToDict(self.funcs.getNodeCreationFunctionArguments(self.node, 0), False)
+        return mapToDict(self.funcs.getNodeCreationFunctionArguments(self.node, 0), False, self.core)
 
     def __add__(self, other):
         raise NotImplementedError
@@ -3639,7 +3647,7 @@ cdef class Function(object):
             py_exc = env.retrieve_exception(msg_str) if env is not None else None
             raise py_exc or Error(msg_str)
 
-        retdict = mapToDict(outm, True)
+        retdict = mapToDict(outm, True, self.plugin.core)
         self.funcs.freeMap(outm)
         return retdict
 
-- 
2.43.0


From 026f9f84ed3e4eb3a1479e973dc61652f76ed34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:21 +0000
Subject: [PATCH 48/49] fix: destroying an environment did not wait for
 requests of its callbacks and of other environments

---
 src/cython/vapoursynth.pyx | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 115e917..dbd56c9 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -461,9 +461,7 @@ cdef class EnvironmentPolicyAPI:
         if not env.alive:
             return
 
-        futs = env.active_futures
-        env.active_futures = None
-        wait_futures(futs)
+        wait_active_futures(env)
 
         callbacks = env.on_destroy
         env.on_destroy = None
@@ -479,6 +477,10 @@ cdef class EnvironmentPolicyAPI:
                     else:
                         sys.stderr.write(formatted)
 
+        # The callbacks may have requested frames too
+        wait_active_futures(env)
+        env.active_futures = None
+
         # Invalidate all remaining nodes and frames from this environment
         for node in list(env.known_nodes.values()):
             if not isinstance(node, RawNode):
@@ -612,6 +614,22 @@ cdef _add_known_frame(object frame, EnvironmentData env, VSCore *core):
     if owner is not None and owner is not env and owner.known_frames is not None:
         owner.known_frames.add(frame)
 
+cdef _add_active_future(object fut, EnvironmentData env, Core core):
+    cdef EnvironmentData owner = None
+    if core is not None:
+        owner = _core_environments.get(<uintptr_t>core.core)
+    if env is not None and env.active_futures is not None:
+        env.active_futures.add(fut)
+    if owner is not None and owner is not env and owner.active_futures is not None:
+        owner.active_futures.add(fut)
+
+cdef wait_active_futures(EnvironmentData env):
+    # more requests can be made when one finishes
+    futs = [fut for fut in env.active_futures if not fut.done()]
+    while futs:
+        wait_futures(futs)
+        futs = [fut for fut in env.active_futures if not fut.done()]
+
 cdef _add_known_node(object node, EnvironmentData env, Core core):
     cdef EnvironmentData owner = _core_environments.get(<uintptr_t>core.core)
     if env is not None and env.known_nodes is not None:
@@ -1032,8 +1050,7 @@ cdef class CallbackData(object):
         # just the future returning form
         self.fut = Future()
         self.fut.set_running_or_notify_cancel()
-        if env is not None and env.active_futures is not None:
-            env.active_futures.add(self.fut)
+        _add_active_future(self.fut, env, (<RawNode>node).core)
 
 
 cdef createCallbackData(const VSAPI* funcs, RawNode node, object cb):
@@ -2448,8 +2465,7 @@ cdef class VideoNode(RawNode):
         # tracked so environment teardown can wait for blocking requests as well
         fut = Future()
         fut.set_running_or_notify_cancel()
-        if env is not None and env.active_futures is not None:
-            env.active_futures.add(fut)
+        _add_active_future(fut, env, self.core)
         try:
             with nogil:
                 f = self.funcs.getFrame(n, self.node, errorMsg, 4096)
@@ -2783,8 +2799,7 @@ cdef class AudioNode(RawNode):
         # tracked so environment teardown can wait for blocking requests as well
         fut = Future()
         fut.set_running_or_notify_cancel()
-        if env is not None and env.active_futures is not None:
-            env.active_futures.add(fut)
+        _add_active_future(fut, env, self.core)
         try:
             with nogil:
                 f = self.funcs.getFrame(n, self.node, errorMsg, 4096)
-- 
2.43.0


From 605ed755b000ad1627cb6daacf2adc2a94d5afa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:27 +0000
Subject: [PATCH 49/49] fix: destroying an environment freed clips of other
 environments' cores with requests running

---
 src/cython/vapoursynth.pyx | 77 ++++++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 33 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index dbd56c9..258da4a 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -433,7 +433,7 @@ cdef class EnvironmentPolicyAPI:
         # by id since equal nodes have to be known separately
         env.known_nodes = weakref.WeakValueDictionary()
         env.known_frames = weakref.WeakSet()
-        env.active_futures = weakref.WeakSet()
+        env.active_futures = set()
         env.alive = True
 
         with self._lock:
@@ -614,26 +614,36 @@ cdef _add_known_frame(object frame, EnvironmentData env, VSCore *core):
     if owner is not None and owner is not env and owner.known_frames is not None:
         owner.known_frames.add(frame)
 
-cdef _add_active_future(object fut, EnvironmentData env, Core core):
+cdef _add_active_future(object fut, EnvironmentData env, RawNode node):
+    # Destroying any of these environments frees the node
+    cdef EnvironmentData created = node.env_ref() if node.env_ref is not None else None
     cdef EnvironmentData owner = None
-    if core is not None:
-        owner = _core_environments.get(<uintptr_t>core.core)
+    if node.core is not None:
+        owner = _core_environments.get(<uintptr_t>node.core.core)
+    _track_future(fut, env)
+    if created is not env:
+        _track_future(fut, created)
+    if owner is not env and owner is not created:
+        _track_future(fut, owner)
+
+cdef _track_future(object fut, EnvironmentData env):
     if env is not None and env.active_futures is not None:
         env.active_futures.add(fut)
-    if owner is not None and owner is not env and owner.active_futures is not None:
-        owner.active_futures.add(fut)
+        fut.add_done_callback(env.active_futures.discard)
 
 cdef wait_active_futures(EnvironmentData env):
-    # more requests can be made when one finishes
-    futs = [fut for fut in env.active_futures if not fut.done()]
+    # A request can make another one before it finishes so only a snapshot where nothing
+    # at all is left means there won't be more
+    futs = list(env.active_futures)
     while futs:
         wait_futures(futs)
-        futs = [fut for fut in env.active_futures if not fut.done()]
+        futs = list(env.active_futures)
 
-cdef _add_known_node(object node, EnvironmentData env, Core core):
+cdef _add_known_node(RawNode node, EnvironmentData env, Core core):
     cdef EnvironmentData owner = _core_environments.get(<uintptr_t>core.core)
     if env is not None and env.known_nodes is not None:
         env.known_nodes[id(node)] = node
+        node.env_ref = weakref.ref(env)
     if owner is not None and owner is not env and owner.known_nodes is not None:
         owner.known_nodes[id(node)] = node
 
@@ -1050,7 +1060,7 @@ cdef class CallbackData(object):
         # just the future returning form
         self.fut = Future()
         self.fut.set_running_or_notify_cancel()
-        _add_active_future(self.fut, env, (<RawNode>node).core)
+        _add_active_future(self.fut, env, node)
 
 
 cdef createCallbackData(const VSAPI* funcs, RawNode node, object cb):
@@ -2162,6 +2172,7 @@ cdef class RawNode(object):
     cdef VSNode *node
     cdef const VSAPI *funcs
     cdef Core core
+    cdef object env_ref
 
     cdef object __weakref__
 
@@ -2465,22 +2476,22 @@ cdef class VideoNode(RawNode):
         # tracked so environment teardown can wait for blocking requests as well
         fut = Future()
         fut.set_running_or_notify_cancel()
-        _add_active_future(fut, env, self.core)
+        _add_active_future(fut, env, self)
         try:
             with nogil:
                 f = self.funcs.getFrame(n, self.node, errorMsg, 4096)
-        finally:
-            fut.set_result(None)
 
-        if f == NULL:
-            if (errorMsg[0]):
-                msg_str = ep.decode('utf-8')
-                py_exc = env.retrieve_exception(msg_str) if env is not None else None
-                raise py_exc or Error(msg_str)
-            else:
-                raise Error('Internal error - no error given')
-        else:
+            if f == NULL:
+                if (errorMsg[0]):
+                    msg_str = ep.decode('utf-8')
+                    py_exc = env.retrieve_exception(msg_str) if env is not None else None
+                    raise py_exc or Error(msg_str)
+                else:
+                    raise Error('Internal error - no error given')
+
             return createConstVideoFrame(f, self.funcs, self.core.core)
+        finally:
+            fut.set_result(None)
 
     def set_output(self, int index = 0, VideoNode alpha = None, int alt_output = 0):
         self.ensure_valid()
@@ -2799,22 +2810,22 @@ cdef class AudioNode(RawNode):
         # tracked so environment teardown can wait for blocking requests as well
         fut = Future()
         fut.set_running_or_notify_cancel()
-        _add_active_future(fut, env, self.core)
+        _add_active_future(fut, env, self)
         try:
             with nogil:
                 f = self.funcs.getFrame(n, self.node, errorMsg, 4096)
-        finally:
-            fut.set_result(None)
 
-        if f == NULL:
-            if (errorMsg[0]):
-                msg_str = ep.decode('utf-8')
-                py_exc = env.retrieve_exception(msg_str) if env is not None else None
-                raise py_exc or Error(msg_str)
-            else:
-                raise Error('Internal error - no error given')
-        else:
+            if f == NULL:
+                if (errorMsg[0]):
+                    msg_str = ep.decode('utf-8')
+                    py_exc = env.retrieve_exception(msg_str) if env is not None else None
+                    raise py_exc or Error(msg_str)
+                else:
+                    raise Error('Internal error - no error given')
+
             return createConstAudioFrame(f, self.funcs, self.core.core)
+        finally:
+            fut.set_result(None)
 
     def output(self, object fileobj not None, bint wav = False, bint w64 = False, object progress_update = None, int prefetch = 0, int backlog = -1):
         self.ensure_valid()
-- 
2.43.0

