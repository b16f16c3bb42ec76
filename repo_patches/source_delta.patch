From b2bb9223e20363576f853181043f19ce202c688f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 01/68] fix: do not resolve prototype members as flags when
 ordering flags

---
 packages/experiment-core/src/evaluation/topological-sort.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-core/src/evaluation/topological-sort.ts b/packages/experiment-core/src/evaluation/topological-sort.ts
index 7003320..a24eb25 100644
--- a/packages/experiment-core/src/evaluation/topological-sort.ts
+++ b/packages/experiment-core/src/evaluation/topological-sort.ts
@@ -21,7 +21,11 @@ const parentTraversal = (
   available: Record<string, EvaluationFlag>,
   path: string[] = [],
 ): EvaluationFlag[] | undefined => {
-  const flag = available[flagKey];
+  // Only own properties are flags: a key such as "constructor" must not resolve
+  // to a member of Object.prototype.
+  const flag = Object.prototype.hasOwnProperty.call(available, flagKey)
+    ? available[flagKey]
+    : undefined;
   if (!flag) {
     return undefined;
   } else if (!flag.dependencies || flag.dependencies.length === 0) {
-- 
2.43.0


From 9d2c6c9b3fad840d8427842818e98f1a69fbaea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 02/68] fix: evaluation trace names no matched segment when no
 variant matched

---
 packages/experiment-core/src/evaluation/evaluation.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-core/src/evaluation/evaluation.ts b/packages/experiment-core/src/evaluation/evaluation.ts
index cff7021..5cbef03 100644
--- a/packages/experiment-core/src/evaluation/evaluation.ts
+++ b/packages/experiment-core/src/evaluation/evaluation.ts
@@ -180,7 +180,8 @@ export class EvaluationEngine {
     const trace: FlagEvaluationTrace = {
       flagKey: flag.key,
       matched: winnerVariant !== undefined,
-      matchedSegment: matchedSegmentName,
+      matchedSegment:
+        winnerVariant !== undefined ? matchedSegmentName : undefined,
       steps,
     };
 
-- 
2.43.0


From 66a12a05b00696f4244264121216995a703c936f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 03/68] fix: parse long prerelease versions in linear time

---
 packages/experiment-core/src/evaluation/semantic-version.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-core/src/evaluation/semantic-version.ts b/packages/experiment-core/src/evaluation/semantic-version.ts
index 126225c..c3755a5 100644
--- a/packages/experiment-core/src/evaluation/semantic-version.ts
+++ b/packages/experiment-core/src/evaluation/semantic-version.ts
@@ -6,7 +6,9 @@ const PATCH_REGEX = '(\\d+)';
 
 // prerelease is optional. If provided, it should be a hyphen followed by a
 // series of dot separated identifiers where an identifer can contain anything in [-0-9a-zA-Z]
-const PRERELEASE_REGEX = '(-(([-\\w]+\\.?)*))?';
+// (identifiers must be separated by a dot in the pattern: making the dot optional
+// gives exponentially many ways to match and a long version can hang the page)
+const PRERELEASE_REGEX = '(-([-\\w]+(\\.[-\\w]+)*\\.?)?)?';
 
 // version pattern should be major.minor(.patchAndPreRelease) where .patchAndPreRelease is optional
 const VERSION_PATTERN = `^${MAJOR_MINOR_REGEX}(\\.${PATCH_REGEX}${PRERELEASE_REGEX})?$`;
-- 
2.43.0


From 76b5b7112a925d8a0e10b446ab34e5be4c317132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 04/68] fix: do not resolve prototype members as variants or
 flags

---
 .../experiment-browser/src/experimentClient.ts    | 15 +++++++++++----
 packages/experiment-browser/src/storage/cache.ts  |  5 ++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 4462b2c..6db07c3 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -503,7 +503,7 @@ export class ExperimentClient implements Client {
     const flags = topologicalSort(this.flags.getAll(), flagKeys);
     const context = convertUserToContext(user);
     const evaluationVariants = this.engine.evaluate(context, flags);
-    const variants: Variants = {};
+    const variants: Variants = Object.create(null);
     for (const flagKey of Object.keys(evaluationVariants)) {
       variants[flagKey] = convertEvaluationVariantToVariant(
         evaluationVariants[flagKey],
@@ -583,7 +583,7 @@ export class ExperimentClient implements Client {
       };
     }
     // Initial variants
-    const initialVariant = this.config.initialVariants[key];
+    const initialVariant = this.getInitialVariant(key);
     if (!isNullOrUndefined(initialVariant)) {
       return {
         variant: convertVariant(initialVariant),
@@ -645,7 +645,7 @@ export class ExperimentClient implements Client {
       };
     }
     // Initial variants
-    const initialVariant = this.config.initialVariants[key];
+    const initialVariant = this.getInitialVariant(key);
     if (!isNullOrUndefined(initialVariant)) {
       return {
         variant: convertVariant(initialVariant),
@@ -682,7 +682,7 @@ export class ExperimentClient implements Client {
   ): SourceVariant {
     let defaultSourceVariant: SourceVariant = {};
     // Initial variants
-    const initialVariantsVariant = this.config.initialVariants[key];
+    const initialVariantsVariant = this.getInitialVariant(key);
     if (!isNullOrUndefined(initialVariantsVariant)) {
       return {
         variant: convertVariant(initialVariantsVariant),
@@ -908,6 +908,13 @@ export class ExperimentClient implements Client {
     return this.addContext(user);
   }
 
+  private getInitialVariant(key: string): Variant | undefined {
+    const initialVariants = this.config.initialVariants;
+    return Object.prototype.hasOwnProperty.call(initialVariants, key)
+      ? initialVariants[key]
+      : undefined;
+  }
+
   private sourceVariants(): Variants | undefined {
     if (this.config.source == Source.LocalStorage) {
       return this.variants.getAll();
diff --git a/packages/experiment-browser/src/storage/cache.ts b/packages/experiment-browser/src/storage/cache.ts
index 0759d0e..ee01870 100644
--- a/packages/experiment-browser/src/storage/cache.ts
+++ b/packages/experiment-browser/src/storage/cache.ts
@@ -92,7 +92,10 @@ export class LoadStoreCache<V> {
   }
 
   public get(key: string): V | undefined {
-    return this.cache[key];
+    // Flag keys are arbitrary: do not resolve members of Object.prototype.
+    return Object.prototype.hasOwnProperty.call(this.cache, key)
+      ? this.cache[key]
+      : undefined;
   }
 
   public getAll(): Record<string, V> {
-- 
2.43.0


From 5f47e6c31e75757985c1a115d7fa8e5ac6d3ba9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 05/68] fix: reject fetch responses whose body is not an object
 of variants

---
 packages/experiment-core/src/api/evaluation-api.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-core/src/api/evaluation-api.ts b/packages/experiment-core/src/api/evaluation-api.ts
index fa8d8f3..22ca4a5 100644
--- a/packages/experiment-core/src/api/evaluation-api.ts
+++ b/packages/experiment-core/src/api/evaluation-api.ts
@@ -89,6 +89,14 @@ export class SdkEvaluationApi implements EvaluationApi {
         `Fetch error response: status=${response.status}`,
       );
     }
-    return JSON.parse(response.body);
+    const results = JSON.parse(response.body);
+    if (
+      typeof results !== 'object' ||
+      results === null ||
+      Array.isArray(results)
+    ) {
+      throw Error('Fetch error response: unexpected body');
+    }
+    return results;
   }
 }
-- 
2.43.0


From d0be24ca8b945bf6b7032748b7850512df2125d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:18 +0000
Subject: [PATCH 06/68] fix: ignore stored values of the wrong shape when
 loading variants and flags

---
 .../experiment-browser/src/storage/cache.ts   | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-browser/src/storage/cache.ts b/packages/experiment-browser/src/storage/cache.ts
index ee01870..1a3e146 100644
--- a/packages/experiment-browser/src/storage/cache.ts
+++ b/packages/experiment-browser/src/storage/cache.ts
@@ -26,7 +26,11 @@ export const getFlagStorage = (
 ): LoadStoreCache<EvaluationFlag> => {
   const truncatedDeployment = deploymentKey.substring(deploymentKey.length - 6);
   const namespace = `amp-exp-${instanceName}-${truncatedDeployment}-flags`;
-  return new LoadStoreCache<EvaluationFlag>(namespace, storage);
+  return new LoadStoreCache<EvaluationFlag>(
+    namespace,
+    storage,
+    transformFlagFromStorage,
+  );
 };
 
 export const getVariantsOptionsStorage = (
@@ -129,6 +133,9 @@ export class LoadStoreCache<V> {
       // Do nothing
       return;
     }
+    if (typeof jsonValues !== 'object' || Array.isArray(jsonValues)) {
+      return;
+    }
     const values: Record<string, V> = {};
     for (const key of Object.keys(jsonValues)) {
       try {
@@ -154,6 +161,23 @@ export class LoadStoreCache<V> {
   }
 }
 
+const isObject = (value: unknown): boolean =>
+  typeof value === 'object' && value !== null && !Array.isArray(value);
+
+// Ignore stored values which are not flag configurations.
+const transformFlagFromStorage = (
+  storageValue: unknown,
+): EvaluationFlag | undefined => {
+  const flag = storageValue as EvaluationFlag;
+  return isObject(flag) &&
+    typeof flag.key === 'string' &&
+    isObject(flag.variants) &&
+    Array.isArray(flag.segments) &&
+    flag.segments.every(isObject)
+    ? flag
+    : undefined;
+};
+
 export const transformVariantFromStorage = (storageValue: unknown): Variant => {
   if (typeof storageValue === 'string') {
     // From v0 string format
@@ -161,7 +185,7 @@ export const transformVariantFromStorage = (storageValue: unknown): Variant => {
       key: storageValue,
       value: storageValue,
     };
-  } else if (typeof storageValue === 'object') {
+  } else if (isObject(storageValue)) {
     // From v1 or v2 object format
     const key = storageValue['key'];
     const value = storageValue['value'];
-- 
2.43.0


From 4496462071bdd031752e8822dd6e803f221db42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:36 +0000
Subject: [PATCH 07/68] fix: a new fetch supersedes the retries of earlier
 fetches

---
 .../src/experimentClient.ts                   | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 6db07c3..f2c6561 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -96,6 +96,8 @@ export class ExperimentClient implements Client {
   private userProvider: ExperimentUserProvider | undefined;
   private userSessionExposureTracker: UserSessionExposureTracker | undefined;
   private retriesBackoff: Backoff | undefined;
+  // Identifies the latest fetch, which supersedes the retries of earlier ones
+  private fetchSequence = 0;
   private poller: Poller;
   private isRunning = false;
   private readonly integrationManager: IntegrationManager;
@@ -733,6 +735,7 @@ export class ExperimentClient implements Client {
     timeoutMillis: number,
     retry: boolean,
     options?: FetchOptions,
+    retriedSequence?: number,
   ): Promise<Variants> {
     // Don't even try to fetch variants if API key is not set
     if (!this.apiKey) {
@@ -746,17 +749,28 @@ export class ExperimentClient implements Client {
     if (retry) {
       this.stopRetries();
     }
+    const sequence = retriedSequence ?? ++this.fetchSequence;
 
     try {
       const variants = await this.doFetch(user, timeoutMillis, {
         trackingOption: this.fetchVariantsOptions.get()?.trackingOption,
         ...options,
       });
-      await this.storeVariants(variants, options);
+      // Do not let a retry overwrite the result of a newer fetch.
+      if (
+        retriedSequence === undefined ||
+        retriedSequence === this.fetchSequence
+      ) {
+        await this.storeVariants(variants, options);
+      }
       return variants;
     } catch (e) {
-      if (retry && this.shouldRetryFetch(e)) {
-        void this.startRetries(user, options);
+      if (
+        retry &&
+        sequence === this.fetchSequence &&
+        this.shouldRetryFetch(e)
+      ) {
+        void this.startRetries(user, options, sequence);
       }
       throw e;
     }
@@ -865,6 +879,7 @@ export class ExperimentClient implements Client {
   private async startRetries(
     user: ExperimentUser,
     options: FetchOptions,
+    sequence: number,
   ): Promise<void> {
     this.logger.debug('[Experiment] Retry fetch');
     this.retriesBackoff = new Backoff(
@@ -874,7 +889,13 @@ export class ExperimentClient implements Client {
       fetchBackoffScalar,
     );
     void this.retriesBackoff.start(async () => {
-      await this.fetchInternal(user, fetchBackoffTimeout, false, options);
+      await this.fetchInternal(
+        user,
+        fetchBackoffTimeout,
+        false,
+        options,
+        sequence,
+      );
     });
   }
 
-- 
2.43.0


From 3714a6bece634189edcd858d3f212f55397799ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 08/68] fix: start() waits for both requests and does not poll
 once stopped

---
 .../experiment-browser/src/experimentClient.ts     | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index f2c6561..ceff93e 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -261,10 +261,15 @@ export class ExperimentClient implements Client {
       const flagsReadyPromise = this.doFlags();
       const fetchOnStart = this.config.fetchOnStart ?? true;
       if (fetchOnStart) {
-        await Promise.all([this.fetch(user), flagsReadyPromise]);
-      } else {
-        await flagsReadyPromise;
+        // Wait for both requests to settle, even if one of them fails.
+        const flagsSettledPromise = flagsReadyPromise.catch(() => undefined);
+        try {
+          await this.fetch(user);
+        } finally {
+          await flagsSettledPromise;
+        }
       }
+      await flagsReadyPromise;
     } catch (e) {
       // If throwOnError is true, rethrow the error
       if (this.config.throwOnError) {
@@ -273,7 +278,8 @@ export class ExperimentClient implements Client {
       // Otherwise, silently handle the error (existing behavior)
     }
 
-    if (this.config.pollOnStart) {
+    // Do not start polling if stopped while waiting for the requests above.
+    if (this.config.pollOnStart && this.isRunning) {
       this.poller.start();
     }
   }
-- 
2.43.0


From 5c4b0eeefbe81f66dea63119a3a345909958843c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:48 +0000
Subject: [PATCH 09/68] fix: copy users in by value and let missing fields fall
 back when merging them

---
 packages/experiment-browser/src/experimentClient.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index ceff93e..2f80eaa 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -326,7 +326,7 @@ export class ExperimentClient implements Client {
     this.setUser(user || {});
     try {
       await this.fetchInternal(
-        user,
+        this.getUser(),
         this.config.fetchTimeoutMillis,
         this.config.retryFetchOnFailure,
         options,
@@ -462,7 +462,7 @@ export class ExperimentClient implements Client {
       this.user = null;
       return;
     }
-    if (this.user?.user_properties) {
+    if (user.user_properties) {
       const userPropertiesCopy = { ...user.user_properties };
       this.user = { ...user, user_properties: userPropertiesCopy };
     } else {
@@ -922,8 +922,8 @@ export class ExperimentClient implements Client {
     return {
       library: `experiment-js-client/${PACKAGE_VERSION}`,
       ...providedUser,
-      ...integrationUser,
-      ...user,
+      ...filterNullUndefined(integrationUser),
+      ...filterNullUndefined(user),
       user_properties: mergedUserProperties,
     };
   }
-- 
2.43.0


From fee331aa8c2c02771566fa76277c8fcf5c45d14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:47 +0000
Subject: [PATCH 10/68] fix: exposures keep their own copy of the metadata and
 any flag key is tracked

---
 packages/experiment-browser/src/experimentClient.ts           | 3 ++-
 .../experiment-browser/src/util/userSessionExposureTracker.ts | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 2f80eaa..c22c017 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -989,7 +989,8 @@ export class ExperimentClient implements Client {
       }
     }
 
-    if (metadata) exposure.metadata = metadata;
+    // Copy the metadata, which is amended below and shared with the variant.
+    if (metadata) exposure.metadata = { ...metadata };
     if (this.isWebExperiment) {
       exposure.time = Date.now();
     }
diff --git a/packages/experiment-browser/src/util/userSessionExposureTracker.ts b/packages/experiment-browser/src/util/userSessionExposureTracker.ts
index d66b192..55104b5 100644
--- a/packages/experiment-browser/src/util/userSessionExposureTracker.ts
+++ b/packages/experiment-browser/src/util/userSessionExposureTracker.ts
@@ -13,7 +13,7 @@ interface Identity {
  */
 export class UserSessionExposureTracker {
   private readonly exposureTrackingProvider: ExposureTrackingProvider;
-  private tracked: Record<string, string | undefined> = {};
+  private tracked: Record<string, string | undefined> = Object.create(null);
   private identity: Identity = {};
 
   constructor(exposureTrackingProvider: ExposureTrackingProvider) {
@@ -27,7 +27,7 @@ export class UserSessionExposureTracker {
     };
 
     if (!this.identityEquals(this.identity, newIdentity)) {
-      this.tracked = {};
+      this.tracked = Object.create(null);
     }
     this.identity = newIdentity;
 
-- 
2.43.0


From a72c7331fbe9d0aea59168854162e47acb3668a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 11/68] fix: events wait for the integration that replaces
 another one

---
 .../src/integration/manager.ts                | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index e39d5b2..79dd62d 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -66,20 +66,18 @@ export class IntegrationManager {
       void this.integration.teardown();
     }
     this.integration = integration;
+    // Keep events in the queue until the new integration is ready.
+    this.queue.setTracker(undefined);
+    const onReady = () => {
+      if (this.integration === integration) {
+        this.queue.setTracker(integration.track.bind(integration));
+      }
+      this.resolve();
+    };
     if (integration.setup) {
-      this.integration.setup(this.config, this.client).then(
-        () => {
-          this.queue.setTracker(this.integration.track.bind(integration));
-          this.resolve();
-        },
-        () => {
-          this.queue.setTracker(this.integration.track.bind(integration));
-          this.resolve();
-        },
-      );
+      this.integration.setup(this.config, this.client).then(onReady, onReady);
     } else {
-      this.queue.setTracker(this.integration.track.bind(integration));
-      this.resolve();
+      onReady();
     }
   }
 
-- 
2.43.0


From 6d9138521c33554e39bf8e867c0cd59e20221650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:34 +0000
Subject: [PATCH 12/68] fix: exposures survive storage faults, reentrancy and
 repeated refusals

---
 .../src/integration/manager.ts                | 166 +++++++++++-------
 1 file changed, 107 insertions(+), 59 deletions(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index 79dd62d..fbad8da 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -134,14 +134,20 @@ export class SessionDedupeCache {
   private readonly isSessionStorageAvailable = checkIsSessionStorageAvailable();
   private inMemoryCache: Record<string, string | null> = {};
   private identity: Identity = {};
+  // The last write failed: the memory is more recent than the storage.
+  private isStorageStale = false;
 
   constructor(instanceName: string) {
     this.storageKey = `EXP_sent_v3_${instanceName}`;
     // Remove previous versions of storage if they exist.
-    const sessionStorage = getSessionStorage();
-    if (this.isSessionStorageAvailable && sessionStorage) {
-      sessionStorage.removeItem(`EXP_sent_${instanceName}`);
-      sessionStorage.removeItem(`EXP_sent_v2_${instanceName}`);
+    if (this.isSessionStorageAvailable) {
+      try {
+        const sessionStorage = getSessionStorage();
+        sessionStorage?.removeItem(`EXP_sent_${instanceName}`);
+        sessionStorage?.removeItem(`EXP_sent_v2_${instanceName}`);
+      } catch (e) {
+        // Previous versions are never read.
+      }
     }
   }
 
@@ -156,13 +162,16 @@ export class SessionDedupeCache {
       deviceId: user?.device_id,
     };
 
+    this.loadCache();
     if (!this.identityEquals(this.identity, newIdentity)) {
-      this.clearCache();
+      this.inMemoryCache = {};
     }
     this.identity = newIdentity;
 
-    this.loadCache();
-    const hasKey = exposure.flag_key in this.inMemoryCache;
+    const hasKey = Object.prototype.hasOwnProperty.call(
+      this.inMemoryCache,
+      exposure.flag_key,
+    );
     const cachedVariant = this.inMemoryCache[exposure.flag_key];
     // Normalize undefined to null for comparison and storage since JSON.stringify
     // omits keys with undefined values and converts undefined to null
@@ -177,14 +186,6 @@ export class SessionDedupeCache {
     return shouldTrack;
   }
 
-  private clearCache(): void {
-    this.inMemoryCache = {};
-    const sessionStorage = getSessionStorage();
-    if (this.isSessionStorageAvailable && sessionStorage) {
-      sessionStorage.removeItem(this.storageKey);
-    }
-  }
-
   private identityEquals(id1: Identity, id2: Identity): boolean {
     if (id1.userId && id2.userId) {
       return id1.userId === id2.userId;
@@ -196,25 +197,34 @@ export class SessionDedupeCache {
   }
 
   private loadCache(): void {
-    const sessionStorage = getSessionStorage();
-    if (this.isSessionStorageAvailable && sessionStorage) {
-      const storedCache = sessionStorage.getItem(this.storageKey);
-      this.inMemoryCache = storedCache ? JSON.parse(storedCache) : {};
+    if (!this.isSessionStorageAvailable || this.isStorageStale) return;
+    try {
+      const sessionStorage = getSessionStorage();
+      if (sessionStorage) {
+        this.inMemoryCache = parseObject(
+          sessionStorage.getItem(this.storageKey),
+        );
+      }
+    } catch (e) {
+      // The storage cannot be read, rely on the memory.
     }
   }
 
   private storeCache(): void {
-    const sessionStorage = getSessionStorage();
-    if (this.isSessionStorageAvailable && sessionStorage) {
-      try {
+    if (!this.isSessionStorageAvailable) return;
+    try {
+      const sessionStorage = getSessionStorage();
+      if (sessionStorage) {
         sessionStorage.setItem(
           this.storageKey,
           JSON.stringify(this.inMemoryCache),
         );
-      } catch (e) {
-        // Gracefully handle QuotaExceededError or other storage errors.
-        // The in-memory cache will still work for deduplication within this session.
       }
+      this.isStorageStale = false;
+    } catch (e) {
+      // Gracefully handle QuotaExceededError or other storage errors.
+      // The in-memory cache will still work for deduplication on this page.
+      this.isStorageStale = true;
     }
   }
 }
@@ -226,6 +236,9 @@ export class PersistentTrackingQueue {
   private inMemoryQueue: ExperimentEvent[] = [];
   private poller: any | undefined;
   private tracker: ((event: ExperimentEvent) => boolean) | undefined;
+  private isFlushing = false;
+  // The last write failed: the memory is more recent than the storage.
+  private isStorageStale = false;
 
   constructor(instanceName: string, maxQueueSize: number = MAX_QUEUE_SIZE) {
     this.storageKey = `EXP_unsent_${instanceName}`;
@@ -233,64 +246,88 @@ export class PersistentTrackingQueue {
   }
 
   push(event: ExperimentEvent): void {
+    if (this.isFlushing) {
+      // Pushed by the tracker: the ongoing flush gets to it.
+      this.inMemoryQueue.push(event);
+      return;
+    }
     this.loadQueue();
     this.inMemoryQueue.push(event);
     this.flush();
     this.storeQueue();
   }
 
-  setTracker(tracker: (event: ExperimentEvent) => boolean): void {
+  setTracker(tracker: ((event: ExperimentEvent) => boolean) | undefined): void {
     this.tracker = tracker;
-    const setInterval = getSetInterval();
-    if (setInterval) {
-      this.poller = setInterval(() => {
-        this.loadFlushStore();
-      }, 1000);
+    if (tracker && !this.isFlushing) {
+      this.loadFlushStore();
     }
-    this.loadFlushStore();
   }
 
   private flush(): void {
-    if (!this.tracker) return;
-    if (this.inMemoryQueue.length === 0) return;
-    let i = 0;
-    for (; i < this.inMemoryQueue.length; i++) {
-      try {
-        if (!this.tracker(this.inMemoryQueue[i])) {
+    if (this.tracker && this.inMemoryQueue.length > 0) {
+      this.isFlushing = true;
+      let i = 0;
+      for (; i < this.inMemoryQueue.length; i++) {
+        try {
+          if (!this.tracker?.(this.inMemoryQueue[i])) {
+            break;
+          }
+        } catch (e) {
           break;
         }
-      } catch (e) {
-        break;
       }
+      this.inMemoryQueue = this.inMemoryQueue.slice(i);
+      this.isFlushing = false;
     }
-    this.inMemoryQueue = this.inMemoryQueue.slice(i);
-    if (this.inMemoryQueue.length === 0 && this.poller) {
-      const clearInterval = getClearInterval();
-      if (clearInterval) {
-        clearInterval(this.poller);
-      }
+    this.updatePoller();
+  }
+
+  // Poll for as long as events are waiting for the tracker to accept them.
+  private updatePoller(): void {
+    const isWaiting = this.tracker && this.inMemoryQueue.length > 0;
+    if (isWaiting && !this.poller) {
+      this.poller = getSetInterval()?.(() => {
+        this.loadFlushStore();
+      }, 1000);
+    } else if (!isWaiting && this.poller) {
+      getClearInterval()?.(this.poller);
       this.poller = undefined;
     }
   }
 
   private loadQueue(): void {
-    const localStorage = getLocalStorage();
-    if (this.isLocalStorageAvailable && localStorage) {
-      const storedQueue = localStorage.getItem(this.storageKey);
-      this.inMemoryQueue = storedQueue ? JSON.parse(storedQueue) : [];
+    if (!this.isLocalStorageAvailable || this.isStorageStale) return;
+    try {
+      const localStorage = getLocalStorage();
+      if (localStorage) {
+        const storedQueue = localStorage.getItem(this.storageKey);
+        const queue: unknown = storedQueue ? JSON.parse(storedQueue) : [];
+        this.inMemoryQueue = Array.isArray(queue)
+          ? queue.filter((event) => typeof event?.eventType === 'string')
+          : [];
+      }
+    } catch (e) {
+      // The storage cannot be read, rely on the memory.
     }
   }
 
   private storeQueue(): void {
-    const localStorage = getLocalStorage();
-    if (this.isLocalStorageAvailable && localStorage) {
-      // Trim the queue if it is too large.
-      if (this.inMemoryQueue.length > this.maxQueueSize) {
-        this.inMemoryQueue = this.inMemoryQueue.slice(
-          this.inMemoryQueue.length - this.maxQueueSize,
-        );
-      }
-      localStorage.setItem(this.storageKey, JSON.stringify(this.inMemoryQueue));
+    // Trim the queue if it is too large.
+    if (this.inMemoryQueue.length > this.maxQueueSize) {
+      this.inMemoryQueue = this.inMemoryQueue.slice(
+        this.inMemoryQueue.length - this.maxQueueSize,
+      );
+    }
+    if (!this.isLocalStorageAvailable) return;
+    try {
+      getLocalStorage()?.setItem(
+        this.storageKey,
+        JSON.stringify(this.inMemoryQueue),
+      );
+      this.isStorageStale = false;
+    } catch (e) {
+      this.isStorageStale = true;
     }
   }
 
@@ -301,6 +338,17 @@ export class PersistentTrackingQueue {
   }
 }
 
+const parseObject = (json: string | null): Record<string, string | null> => {
+  try {
+    const value = JSON.parse(json);
+    return value && typeof value === 'object' && !Array.isArray(value)
+      ? value
+      : {};
+  } catch (e) {
+    return {};
+  }
+};
+
 const checkIsSessionStorageAvailable = (): boolean => {
   const globalScope = getGlobalScope();
   if (globalScope) {
-- 
2.43.0


From 705f9cf7894ac5987543fe77d094a533f7d1fcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:26 +0000
Subject: [PATCH 13/68] fix: the event bridge keeps order and events when its
 receiver throws or logs

---
 .../analytics-connector/src/eventBridge.ts    | 28 +++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/packages/analytics-connector/src/eventBridge.ts b/packages/analytics-connector/src/eventBridge.ts
index e89ebff..d2d70ab 100644
--- a/packages/analytics-connector/src/eventBridge.ts
+++ b/packages/analytics-connector/src/eventBridge.ts
@@ -14,12 +14,16 @@ export interface EventBridge {
 export class EventBridgeImpl implements EventBridge {
   private receiver: AnalyticsEventReceiver;
   private queue: AnalyticsEvent[] = [];
+  private isFlushing = false;
 
   logEvent(event: AnalyticsEvent): void {
     if (!this.receiver) {
       if (this.queue.length < 512) {
         this.queue.push(event);
       }
+    } else if (this.isFlushing) {
+      // Logged by the receiver: delivered after the queued events.
+      this.queue.push(event);
     } else {
       this.receiver(event);
     }
@@ -27,11 +31,25 @@ export class EventBridgeImpl implements EventBridge {
 
   setEventReceiver(receiver: AnalyticsEventReceiver): void {
     this.receiver = receiver;
-    if (this.queue.length > 0) {
-      this.queue.forEach((event) => {
-        receiver(event);
-      });
-      this.queue = [];
+    if (!this.isFlushing) {
+      this.flush();
+    }
+  }
+
+  private flush(): void {
+    const errors: unknown[] = [];
+    this.isFlushing = true;
+    while (this.receiver && this.queue.length > 0) {
+      try {
+        this.receiver(this.queue.shift());
+      } catch (e) {
+        // The other events must still be delivered.
+        errors.push(e);
+      }
+    }
+    this.isFlushing = false;
+    if (errors.length > 0) {
+      throw errors[0];
     }
   }
 }
-- 
2.43.0


From d6a32cef3d133a59cc4518471f60805c7aae6041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:38 +0000
Subject: [PATCH 14/68] fix: the identity store shares no objects with its
 callers and compares properties named length

---
 .../analytics-connector/src/identityStore.ts  | 37 +++++++++++++------
 .../analytics-connector/src/util/equals.ts    |  6 +--
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/packages/analytics-connector/src/identityStore.ts b/packages/analytics-connector/src/identityStore.ts
index 1689594..6c4af99 100644
--- a/packages/analytics-connector/src/identityStore.ts
+++ b/packages/analytics-connector/src/identityStore.ts
@@ -52,11 +52,8 @@ export class IdentityStoreImpl implements IdentityStore {
   editIdentity(): IdentityEditor {
     // eslint-disable-next-line @typescript-eslint/no-this-alias
     const self: IdentityStore = this;
-    const actingUserProperties = { ...this.identity.userProperties };
-    const actingIdentity: Identity = {
-      ...this.identity,
-      userProperties: actingUserProperties,
-    };
+    const actingIdentity: Identity = copy(this.identity);
+    actingIdentity.userProperties = actingIdentity.userProperties || {};
     return {
       setUserId: function (userId: string): IdentityEditor {
         actingIdentity.userId = userId;
@@ -71,7 +68,7 @@ export class IdentityStoreImpl implements IdentityStore {
       setUserProperties: function (
         userProperties: Record<string, unknown>,
       ): IdentityEditor {
-        actingIdentity.userProperties = userProperties;
+        actingIdentity.userProperties = copy(userProperties);
         return this;
       },
 
@@ -88,7 +85,7 @@ export class IdentityStoreImpl implements IdentityStore {
           switch (action) {
             case ID_OP_SET:
               for (const [key, value] of Object.entries(properties)) {
-                actingProperties[key] = value;
+                actingProperties[key] = copy(value);
               }
               break;
             case ID_OP_UNSET:
@@ -113,15 +110,16 @@ export class IdentityStoreImpl implements IdentityStore {
   }
 
   getIdentity(): Identity {
-    return { ...this.identity };
+    return copy(this.identity);
   }
 
   setIdentity(identity: Identity): void {
-    const originalIdentity = { ...this.identity };
-    this.identity = { ...identity };
-    if (!isEqual(originalIdentity, this.identity)) {
+    const originalIdentity = this.identity;
+    const newIdentity = copy({ ...identity });
+    this.identity = newIdentity;
+    if (!isEqual(originalIdentity, newIdentity)) {
       this.listeners.forEach((listener) => {
-        listener(identity);
+        listener(copy(newIdentity));
       });
     }
   }
@@ -134,3 +132,18 @@ export class IdentityStoreImpl implements IdentityStore {
     this.listeners.delete(listener);
   }
 }
+
+// Deep copy of arrays and objects, so that neither side can change the other's.
+const copy = <T>(value: T): T => {
+  if (Array.isArray(value)) {
+    return value.map(copy) as unknown as T;
+  }
+  if (Object.prototype.toString.call(value) === '[object Object]') {
+    const result = { ...value };
+    for (const key of Object.keys(result)) {
+      result[key] = copy(result[key]);
+    }
+    return result;
+  }
+  return value;
+};
diff --git a/packages/analytics-connector/src/util/equals.ts b/packages/analytics-connector/src/util/equals.ts
index c8069f4..558275e 100644
--- a/packages/analytics-connector/src/util/equals.ts
+++ b/packages/analytics-connector/src/util/equals.ts
@@ -18,9 +18,6 @@ export const isEqual = (obj1: any, obj2: any): boolean => {
     return false;
   }
   // if got here - objects
-  if (obj1.length !== obj2.length) {
-    return false;
-  }
   //check if arrays
   const isArrayA = Array.isArray(obj1);
   const isArrayB = Array.isArray(obj2);
@@ -29,6 +26,9 @@ export const isEqual = (obj1: any, obj2: any): boolean => {
   }
   if (isArrayA && isArrayB) {
     //arrays
+    if (obj1.length !== obj2.length) {
+      return false;
+    }
     for (let i = 0; i < obj1.length; i++) {
       if (!isEqual(obj1[i], obj2[i])) {
         return false;
-- 
2.43.0


From 0342159a554227306ac7602aa94a70373a8afbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:51 +0000
Subject: [PATCH 15/68] fix: tolerate malformed and non-ASCII analytics cookies
 and any connector name

---
 .../src/analyticsConnector.ts                 |  9 +++--
 packages/experiment-browser/src/util/state.ts | 38 +++++++++++++------
 2 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/packages/analytics-connector/src/analyticsConnector.ts b/packages/analytics-connector/src/analyticsConnector.ts
index 6efcb7b..9037dfe 100644
--- a/packages/analytics-connector/src/analyticsConnector.ts
+++ b/packages/analytics-connector/src/analyticsConnector.ts
@@ -13,10 +13,11 @@ export class AnalyticsConnector {
     if (!safeGlobal['analyticsConnectorInstances']) {
       safeGlobal['analyticsConnectorInstances'] = {};
     }
-    if (!safeGlobal['analyticsConnectorInstances'][instanceName]) {
-      safeGlobal['analyticsConnectorInstances'][instanceName] =
-        new AnalyticsConnector();
+    const instances = safeGlobal['analyticsConnectorInstances'];
+    // Instances may be named like a member of the object prototype.
+    if (!Object.prototype.hasOwnProperty.call(instances, instanceName)) {
+      instances[instanceName] = new AnalyticsConnector();
     }
-    return safeGlobal['analyticsConnectorInstances'][instanceName];
+    return instances[instanceName];
   }
 }
diff --git a/packages/experiment-browser/src/util/state.ts b/packages/experiment-browser/src/util/state.ts
index c9a314f..15a6241 100644
--- a/packages/experiment-browser/src/util/state.ts
+++ b/packages/experiment-browser/src/util/state.ts
@@ -20,18 +20,18 @@ export const parseAmplitudeCookie = (
   if (!document) {
     return;
   }
-  const cookies = document.cookie.split('; ');
-  for (const cookie of cookies) {
-    const [cookieKey, cookieValue] = cookie.split('=', 2);
-    if (cookieKey === key) {
-      value = decodeURIComponent(cookieValue);
-    }
-  }
-  if (!value) {
-    return;
-  }
-  // Parse cookie value depending on format
   try {
+    const cookies = document.cookie.split('; ');
+    for (const cookie of cookies) {
+      const [cookieKey, cookieValue] = cookie.split('=', 2);
+      if (cookieKey === key) {
+        value = decodeURIComponent(cookieValue);
+      }
+    }
+    if (!value) {
+      return;
+    }
+    // Parse cookie value depending on format
     // New format
     if (newFormat) {
       const decoding = atob(value);
@@ -41,7 +41,7 @@ export const parseAmplitudeCookie = (
     const values = value.split('.');
     let userId = undefined;
     if (values.length >= 2 && values[1]) {
-      userId = atob(values[1]);
+      userId = decodeUtf8(atob(values[1]));
     }
     return {
       deviceId: values[0],
@@ -86,6 +86,20 @@ export const parseAmplitudeSessionStorage = (
   }
 };
 
+// The legacy SDK encodes user ids as UTF-8.
+const decodeUtf8 = (bytes: string): string => {
+  try {
+    return decodeURIComponent(
+      bytes
+        .split('')
+        .map((c) => '%' + ('0' + c.charCodeAt(0).toString(16)).slice(-2))
+        .join(''),
+    );
+  } catch (e) {
+    return bytes;
+  }
+};
+
 const generateKey = (
   apiKey: string,
   newFormat: boolean,
-- 
2.43.0


From 5620d117c183f5fce223e29e8b3d7c1ea2eb9eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:56 +0000
Subject: [PATCH 16/68] fix: corrupt Segment storage contributes no user and
 skipSetup still tracks once Segment is initialized

---
 packages/plugin-segment/src/plugin.ts | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/packages/plugin-segment/src/plugin.ts b/packages/plugin-segment/src/plugin.ts
index 8a9c410..f093d84 100644
--- a/packages/plugin-segment/src/plugin.ts
+++ b/packages/plugin-segment/src/plugin.ts
@@ -21,6 +21,9 @@ export const segmentIntegrationPlugin: SegmentIntegrationPlugin = (
   };
   getInstance();
   let ready = false;
+  const isReady = (instance) =>
+    // Without setup, nothing else notices that segment has been initialized.
+    ready || (!!options.skipSetup && !!instance.initialized);
   const plugin: IntegrationPlugin = {
     name: '@amplitude/experiment-plugin-segment',
     type: 'integration',
@@ -52,7 +55,7 @@ export const segmentIntegrationPlugin: SegmentIntegrationPlugin = (
     },
     getUser(): ExperimentUser {
       const instance = getInstance();
-      if (ready) {
+      if (isReady(instance)) {
         return {
           user_id: instance.user().id(),
           device_id: instance.user().anonymousId(),
@@ -60,9 +63,13 @@ export const segmentIntegrationPlugin: SegmentIntegrationPlugin = (
         };
       }
       const get = (key: string) => {
-        const localStorage = getLocalStorage();
-        if (!localStorage) return undefined;
-        return JSON.parse(localStorage.getItem(key)) || undefined;
+        try {
+          const localStorage = getLocalStorage();
+          if (!localStorage) return undefined;
+          return JSON.parse(localStorage.getItem(key)) || undefined;
+        } catch (e) {
+          return undefined;
+        }
       };
       return {
         user_id: get('ajs_user_id'),
@@ -72,7 +79,7 @@ export const segmentIntegrationPlugin: SegmentIntegrationPlugin = (
     },
     track(event: ExperimentEvent): boolean {
       const instance = getInstance();
-      if (!ready) return false;
+      if (!isReady(instance)) return false;
       instance.track(event.eventType, event.eventProperties);
       return true;
     },
-- 
2.43.0


From 5aec83802704fd93e8fac4d2da0237a3efc1d595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:31 +0000
Subject: [PATCH 17/68] fix: flags that cannot be evaluated, denied cookies and
 full storage do not break the client

---
 .../src/experimentClient.ts                   | 19 +++++++++++++++----
 .../src/providers/default.ts                  | 11 +++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index c22c017..3d12a9b 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -508,10 +508,17 @@ export class ExperimentClient implements Client {
 
   private evaluate(flagKeys?: string[]): Variants {
     const user = this.addContext(this.user);
-    const flags = topologicalSort(this.flags.getAll(), flagKeys);
-    const context = convertUserToContext(user);
-    const evaluationVariants = this.engine.evaluate(context, flags);
     const variants: Variants = Object.create(null);
+    let evaluationVariants: ReturnType<EvaluationEngine['evaluate']>;
+    try {
+      const flags = topologicalSort(this.flags.getAll(), flagKeys);
+      const context = convertUserToContext(user);
+      evaluationVariants = this.engine.evaluate(context, flags);
+    } catch (e) {
+      // Flags which cannot be evaluated must not break the page.
+      this.logger.error(e);
+      return variants;
+    }
     for (const flagKey of Object.keys(evaluationVariants)) {
       variants[flagKey] = convertEvaluationVariantToVariant(
         evaluationVariants[flagKey],
@@ -791,7 +798,11 @@ export class ExperimentClient implements Client {
       ...(this.fetchVariantsOptions.get() || {}),
       trackingOption: doTrack ? 'track' : 'no-track',
     });
-    this.fetchVariantsOptions.store();
+    try {
+      this.fetchVariantsOptions.store();
+    } catch (e) {
+      // catch localStorage undefined error
+    }
   }
 
   private cleanUserPropsForFetch(user: ExperimentUser): ExperimentUser {
diff --git a/packages/experiment-browser/src/providers/default.ts b/packages/experiment-browser/src/providers/default.ts
index ca4ae5e..008976d 100644
--- a/packages/experiment-browser/src/providers/default.ts
+++ b/packages/experiment-browser/src/providers/default.ts
@@ -76,12 +76,15 @@ export class DefaultUserProvider implements ExperimentUserProvider {
   }
 
   private getCookie(): Record<string, string> {
-    if (!this.globalScope?.document?.cookie) {
+    try {
+      const cookie = this.globalScope?.document?.cookie;
+      return cookie
+        ? Object.fromEntries(cookie.split('; ').map((c) => c.split('=')))
+        : undefined;
+    } catch {
+      // Access to cookies is denied.
       return undefined;
     }
-    return Object.fromEntries(
-      this.globalScope?.document?.cookie?.split('; ').map((c) => c.split('=')),
-    );
   }
 
   private getLandingUrl(): string | undefined {
-- 
2.43.0


From 54b4f16c852a5e4ec69aa71b9b8176110edd769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:52 +0000
Subject: [PATCH 18/68] fix: a consent change superseded while it is announced
 is not announced after the newer one

---
 packages/experiment-tag/src/consent/consent-manager.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/experiment-tag/src/consent/consent-manager.ts b/packages/experiment-tag/src/consent/consent-manager.ts
index 64c2734..96d24f3 100644
--- a/packages/experiment-tag/src/consent/consent-manager.ts
+++ b/packages/experiment-tag/src/consent/consent-manager.ts
@@ -17,6 +17,7 @@ export class ConsentManager {
   private currentStatus: ConsentStatus;
   private explicitlySet = false;
   private readonly listeners = new Set<ConsentChangeListener>();
+  private transitions = 0;
 
   constructor(initialStatus: ConsentStatus = 'pending') {
     this.currentStatus = initialStatus;
@@ -76,7 +77,13 @@ export class ConsentManager {
     }
     const previous = this.currentStatus;
     this.currentStatus = status;
+    const transition = ++this.transitions;
     for (const listener of this.listeners) {
+      // A listener applied a newer transition, which every listener has heard
+      // by now: announcing this one to the rest would leave them behind it.
+      if (transition !== this.transitions) {
+        break;
+      }
       try {
         listener(status, previous);
       } catch (error) {
-- 
2.43.0


From 162f7a36547e092fced29b98f491ec37a28898ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:17 +0000
Subject: [PATCH 19/68] fix: values buffered before consent never overwrite or
 outlive later ones

---
 .../src/consent/consent-cookie-storage.ts     | 99 ++++++++++++-------
 packages/experiment-tag/src/util/storage.ts   | 51 ++++++----
 2 files changed, 92 insertions(+), 58 deletions(-)

diff --git a/packages/experiment-tag/src/consent/consent-cookie-storage.ts b/packages/experiment-tag/src/consent/consent-cookie-storage.ts
index 2c45419..3504a77 100644
--- a/packages/experiment-tag/src/consent/consent-cookie-storage.ts
+++ b/packages/experiment-tag/src/consent/consent-cookie-storage.ts
@@ -3,7 +3,6 @@ import { CookieStorage } from '@amplitude/analytics-core';
 import { mergeIdentityCookieJson } from '../util/grant-flush-merge';
 
 import {
-  consentGate,
   isConsentPending,
   isConsentWithheld,
   onConsentDecision,
@@ -45,26 +44,35 @@ export class ConsentAwareCookieStorage<T> implements AsyncCookieStore<T> {
   constructor(private readonly delegate: AsyncCookieStore<T>) {}
 
   async get(key: string): Promise<T | undefined> {
-    if (isConsentWithheld()) {
-      // Empty once consent has been refused, so this reads as absent.
+    if (isConsentPending()) {
       this.armFlush();
       const value = this.buffered.get(key);
       return value === undefined ? undefined : snapshotValue(value);
     }
-    await this.flush;
-    return this.delegate.get(key);
+    // Once consent has been refused, everything reads as absent and writes are
+    // dropped — including when the refusal arrives while joining the flush.
+    const settled = this.settle();
+    if (isConsentWithheld()) {
+      return undefined;
+    }
+    await settled;
+    return isConsentWithheld() ? undefined : this.delegate.get(key);
   }
 
   async set(key: string, value: T): Promise<void> {
+    if (isConsentPending()) {
+      this.armFlush();
+      this.buffered.set(key, snapshotValue(value));
+      return;
+    }
+    const settled = this.settle();
     if (isConsentWithheld()) {
-      if (isConsentPending()) {
-        this.armFlush();
-        this.buffered.set(key, snapshotValue(value));
-      }
       return;
     }
-    await this.flush;
-    return this.delegate.set(key, value);
+    await settled;
+    if (!isConsentWithheld()) {
+      return this.delegate.set(key, value);
+    }
   }
 
   async remove(key: string): Promise<void> {
@@ -75,7 +83,7 @@ export class ConsentAwareCookieStorage<T> implements AsyncCookieStore<T> {
       this.buffered.delete(key);
       return;
     }
-    await this.flush;
+    await this.settle();
     return this.delegate.remove(key);
   }
 
@@ -84,34 +92,49 @@ export class ConsentAwareCookieStorage<T> implements AsyncCookieStore<T> {
       return;
     }
     this.flushArmed = true;
-    onConsentDecision((granted) => {
-      const entries = [...this.buffered];
-      this.buffered.clear();
-      if (!granted) {
-        return;
-      }
-      this.flush = (async () => {
-        for (const [key, value] of entries) {
-          if (consentGate.manager.getStatus() !== 'granted') {
-            return;
-          }
-          try {
-            const existing = await this.delegate.get(key);
-            const merged =
-              typeof value === 'string'
-                ? (mergeIdentityCookieJson(
-                    existing as string | undefined,
-                    value,
-                  ) as T)
-                : value;
-            await this.delegate.set(key, merged);
-          } catch {
-            // Blocked cookie I/O degrades silently, as the raw paths do.
-          }
-        }
-      })();
+    onConsentDecision(() => {
+      void this.settle();
     });
   }
+
+  /**
+   * Hands the buffered cookies over once consent is granted, or drops them. Runs
+   * on the decision itself, or ahead of the first access after it when another
+   * listener of the same decision gets here first.
+   */
+  private settle(): Promise<void> | null {
+    const entries = [...this.buffered];
+    this.buffered.clear();
+    if (entries.length > 0 && !isConsentWithheld()) {
+      this.flush = this.writeThrough(entries);
+    }
+    return this.flush;
+  }
+
+  private async writeThrough(entries: [string, T][]): Promise<void> {
+    for (const [key, value] of entries) {
+      try {
+        if (isConsentWithheld()) {
+          return;
+        }
+        const existing = await this.delegate.get(key);
+        // Consent may have been refused while the cookie was read.
+        if (isConsentWithheld()) {
+          return;
+        }
+        const merged =
+          typeof value === 'string'
+            ? (mergeIdentityCookieJson(
+                existing as string | undefined,
+                value,
+              ) as T)
+            : value;
+        await this.delegate.set(key, merged);
+      } catch {
+        // Blocked cookie I/O degrades silently, as the raw paths do.
+      }
+    }
+  }
 }
 
 /**
diff --git a/packages/experiment-tag/src/util/storage.ts b/packages/experiment-tag/src/util/storage.ts
index 06e62b9..ffb0e74 100644
--- a/packages/experiment-tag/src/util/storage.ts
+++ b/packages/experiment-tag/src/util/storage.ts
@@ -41,25 +41,31 @@ const armConsentListener = (): void => {
   }
   armedManager = consentGate.manager;
   pendingWrites.clear();
-  onConsentDecision((granted) => {
-    if (granted) {
-      for (const { storageType, key, json } of pendingWrites.values()) {
-        if (consentGate.manager.getStatus() !== 'granted') {
-          break;
-        }
-        const merged = mergePendingJsonWithDevice(
-          storageType,
-          key,
-          json,
-          readDeviceJson,
-        );
-        writeThrough(storageType, key, merged);
-      }
+  onConsentDecision(settlePendingWrites);
+};
+
+/**
+ * Hands the pending writes over to the device once consent is granted, or drops
+ * them: on refusal consent was withheld for the whole window in which they were
+ * produced. Runs on the decision itself, or ahead of the first access after it
+ * when another listener of the same decision gets here first — a write made by
+ * that listener must not be overwritten by an older pending one.
+ */
+const settlePendingWrites = (): void => {
+  const writes = [...pendingWrites.values()];
+  pendingWrites.clear();
+  for (const { storageType, key, json } of writes) {
+    if (consentGate.manager.getStatus() !== 'granted') {
+      break;
     }
-    // Denial discards them: consent was withheld for the whole window in which
-    // they were produced.
-    pendingWrites.clear();
-  });
+    const merged = mergePendingJsonWithDevice(
+      storageType,
+      key,
+      json,
+      readDeviceJson,
+    );
+    writeThrough(storageType, key, merged);
+  }
 };
 
 const bufferKey = (storageType: StorageType, key: string): string =>
@@ -72,7 +78,12 @@ const bufferKey = (storageType: StorageType, key: string): string =>
 const isExempt = (key: string): boolean => CONSENT_EXEMPT_STORAGE_KEYS.has(key);
 
 /** Whether a key is subject to the gate at all. */
-const isGated = (key: string): boolean => isConsentWithheld() && !isExempt(key);
+const isGated = (key: string): boolean => {
+  if (pendingWrites.size > 0 && !isConsentPending()) {
+    settlePendingWrites();
+  }
+  return isConsentWithheld() && !isExempt(key);
+};
 
 /**
  * Get a JSON value from storage and parse it
@@ -187,7 +198,7 @@ export const removeStorageItem = (
   // would be a write to the device while the visitor is still deciding. Refusal
   // deliberately falls through to real storage, because that is the path denial
   // cleanup uses to erase what a previously consented visit left behind.
-  if (isConsentPending() && !isExempt(key)) {
+  if (isGated(key) && isConsentPending()) {
     armConsentListener();
     pendingWrites.delete(bufferKey(storageType, key));
     return;
-- 
2.43.0


From b3dc00b1f385ba55ac38418592c37903d38a2034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 20/68] fix: every consent subscriber hears all changes in
 order when one of them makes another

---
 .../src/consent/consent-manager.ts            | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/packages/experiment-tag/src/consent/consent-manager.ts b/packages/experiment-tag/src/consent/consent-manager.ts
index 96d24f3..bdac6a1 100644
--- a/packages/experiment-tag/src/consent/consent-manager.ts
+++ b/packages/experiment-tag/src/consent/consent-manager.ts
@@ -17,7 +17,7 @@ export class ConsentManager {
   private currentStatus: ConsentStatus;
   private explicitlySet = false;
   private readonly listeners = new Set<ConsentChangeListener>();
-  private transitions = 0;
+  private readonly announcements: (() => void)[] = [];
 
   constructor(initialStatus: ConsentStatus = 'pending') {
     this.currentStatus = initialStatus;
@@ -77,17 +77,25 @@ export class ConsentManager {
     }
     const previous = this.currentStatus;
     this.currentStatus = status;
-    const transition = ++this.transitions;
-    for (const listener of this.listeners) {
-      // A listener applied a newer transition, which every listener has heard
-      // by now: announcing this one to the rest would leave them behind it.
-      if (transition !== this.transitions) {
-        break;
+    const listeners = [...this.listeners];
+    this.announcements.push(() => {
+      for (const listener of listeners) {
+        if (!this.listeners.has(listener)) {
+          continue;
+        }
+        try {
+          listener(status, previous);
+        } catch (error) {
+          console.error('Consent status listener failed:', error);
+        }
       }
-      try {
-        listener(status, previous);
-      } catch (error) {
-        console.error('Consent status listener failed:', error);
+    });
+    // A transition applied by a listener waits for the one being announced, so
+    // that every listener hears all of them in the order they happened.
+    if (this.announcements.length === 1) {
+      while (this.announcements.length > 0) {
+        this.announcements[0]();
+        this.announcements.shift();
       }
     }
     return true;
-- 
2.43.0


From 820dd0d56376c0f8084dcf689724707290910f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 21/68] fix: impressions held before consent are never sent
 after a refusal

---
 .../src/consent/consent-impression-buffer.ts  | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/packages/experiment-tag/src/consent/consent-impression-buffer.ts b/packages/experiment-tag/src/consent/consent-impression-buffer.ts
index 918a36e..d2dba6a 100644
--- a/packages/experiment-tag/src/consent/consent-impression-buffer.ts
+++ b/packages/experiment-tag/src/consent/consent-impression-buffer.ts
@@ -7,9 +7,9 @@ import type {
 import type { ImpressionBufferDebugInfo } from '../types/debug';
 
 import {
+  consentGate,
   isConsentPending,
   isConsentWithheld,
-  onConsentDecision,
 } from './consent-gate';
 
 /** Matches the cap on the SDK's own PersistentTrackingQueue. */
@@ -83,8 +83,10 @@ class ImpressionBuffer {
       return;
     }
     this.flushArmed = true;
-    onConsentDecision((granted) => {
-      if (granted) {
+    // Stays subscribed past the grant: a refusal while some are still unsent
+    // drops those too, rather than leaving them for a later grant to send.
+    consentGate.manager.onChange((status) => {
+      if (status === 'granted') {
         this.flush();
       } else {
         this.discardBuffered();
@@ -110,17 +112,20 @@ class ImpressionBuffer {
       }
       return;
     }
-    let sent = 0;
-    for (; sent < this.buffered.length; sent++) {
+    // Sending one may decide consent anew, and with it what is left to send.
+    while (this.buffered.length > 0 && !isConsentWithheld()) {
+      const event = this.buffered[0];
       try {
-        if (!this.realTrack(this.buffered[sent])) {
+        if (!this.realTrack(event)) {
           break;
         }
       } catch {
         break;
       }
+      if (this.buffered[0] === event) {
+        this.buffered.shift();
+      }
     }
-    this.buffered.splice(0, sent);
     if (this.buffered.length > 0) {
       this.startRetry();
     } else {
-- 
2.43.0


From 974e5dbd92a51e125f3560fd33410b6dd2fb0c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 22/68] fix: a page whose cookies may not be read still gets a
 session

---
 packages/experiment-tag/src/util/cookie.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/util/cookie.ts b/packages/experiment-tag/src/util/cookie.ts
index 5940a35..ff567b9 100644
--- a/packages/experiment-tag/src/util/cookie.ts
+++ b/packages/experiment-tag/src/util/cookie.ts
@@ -246,7 +246,14 @@ export async function resolveCrossSubdomainObject<
 /** Reads a raw cookie value (URL-decoded) synchronously, or `undefined` if absent. */
 export function readRawCookie(key: string): string | undefined {
   if (typeof document === 'undefined') return undefined;
-  for (const c of document.cookie ? document.cookie.split('; ') : []) {
+  let cookies: string;
+  try {
+    cookies = document.cookie;
+  } catch {
+    // Reading cookies is denied (sandboxed frames): same as having none.
+    return undefined;
+  }
+  for (const c of cookies ? cookies.split('; ') : []) {
     const eq = c.indexOf('=');
     if ((eq === -1 ? c : c.slice(0, eq)) !== key) continue;
     const v = eq === -1 ? '' : c.slice(eq + 1);
-- 
2.43.0


From 270c69224720921c113d82b236056aa559b6892b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 23/68] fix: probing for the cookie domain leaves no cookie
 behind when cookies cannot be read

---
 packages/experiment-tag/src/util/cookie.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/experiment-tag/src/util/cookie.ts b/packages/experiment-tag/src/util/cookie.ts
index ff567b9..4bfa09d 100644
--- a/packages/experiment-tag/src/util/cookie.ts
+++ b/packages/experiment-tag/src/util/cookie.ts
@@ -139,12 +139,12 @@ function isDomainWritableSync(domain: string): boolean {
   const testKey = `AMP_TLD_TEST_${Date.now()}`;
   try {
     document.cookie = `${testKey}=1; domain=.${domain}; path=/; SameSite=Lax`;
-    const written = document.cookie.indexOf(`${testKey}=`) !== -1;
-    // Clean up the probe cookie regardless of the result.
-    document.cookie = `${testKey}=; domain=.${domain}; path=/; expires=Thu, 01 Jan 1970 00:00:00 GMT`;
-    return written;
+    return document.cookie.indexOf(`${testKey}=`) !== -1;
   } catch {
     return false;
+  } finally {
+    // Clean up the probe cookie regardless of the result.
+    deleteRawCookie(testKey, `.${domain}`);
   }
 }
 
-- 
2.43.0


From 1e419c992f18caf4159701118b7ca019a013db6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 24/68] fix: campaign targeting works on pages that may not
 read cookies

---
 packages/experiment-tag/src/util/campaign.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/util/campaign.ts b/packages/experiment-tag/src/util/campaign.ts
index df4e499..a136dfc 100644
--- a/packages/experiment-tag/src/util/campaign.ts
+++ b/packages/experiment-tag/src/util/campaign.ts
@@ -75,6 +75,11 @@ async function fetchCampaignData(
   const storage = createCookieStorage<Campaign>();
   const storageKey = getStorageKey(apiKey, MKTG);
   const currentCampaign = await new CampaignParser().parse();
-  const previousCampaign = await storage.get(storageKey);
+  let previousCampaign: Campaign | undefined;
+  try {
+    previousCampaign = await storage.get(storageKey);
+  } catch {
+    // A page that may not read cookies still targets on the other sources.
+  }
   return [currentCampaign, previousCampaign];
 }
-- 
2.43.0


From 0386cb5250002f1d797c1b06c551f966bb694f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 25/68] fix: stored behavioral events that are not records are
 skipped instead of failing startup

---
 .../experiment-tag/src/behavioral-targeting/event-storage.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
index 157c2b1..15b7934 100644
--- a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
+++ b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
@@ -346,6 +346,11 @@ export class EventStorageManager {
       Array.isArray(parsed.events) &&
       typeof parsed.nextId === 'number'
     ) {
+      // Entries that are not records cannot be counted or merged.
+      parsed.events = parsed.events.filter(
+        (event) =>
+          typeof event === 'object' && event !== null && !Array.isArray(event),
+      );
       // Backfill a uuid for any record persisted before uuid existed, so
       // each keeps a distinct dedup identity (see eventDedupKey). Without
       // this, uuid-less records share an undefined key and all but one
-- 
2.43.0


From 15904791384a33fef58e68dd6eefdc6476bd9603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 26/68] fix: malformed overlay messages are ignored and overlay
 scripts load from the validated address

---
 packages/experiment-tag/src/util/messenger.ts | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/packages/experiment-tag/src/util/messenger.ts b/packages/experiment-tag/src/util/messenger.ts
index e9adf31..d20100f 100644
--- a/packages/experiment-tag/src/util/messenger.ts
+++ b/packages/experiment-tag/src/util/messenger.ts
@@ -94,14 +94,20 @@ export class WindowMessenger {
           );
           return;
         }
-        if (e.data.type === 'OpenOverlay') {
+        if (e.data?.type === 'OpenOverlay') {
           DebugRecorder.push(
             'message_received',
             `origin=${e.origin}, type=OpenOverlay`,
           );
           DebugRecorder.push('origin_validation', 'PASS');
 
-          const injectSrc = new URL(e.data.context.injectSrc);
+          let injectSrc: URL;
+          try {
+            injectSrc = new URL(e.data.context.injectSrc);
+          } catch {
+            DebugRecorder.push('injectSrc_validation', 'FAIL: malformed');
+            return;
+          }
           if (state !== 'closed') {
             DebugRecorder.push('state_guard', `rejected: state=${state}`);
             return;
@@ -124,7 +130,8 @@ export class WindowMessenger {
           DebugRecorder.setMessengerState('loading');
           state = 'opening';
           showLoadingIndicator();
-          asyncLoadScript(e.data.context.injectSrc)
+          // The parsed address, as a raw one could resolve against the page.
+          asyncLoadScript(injectSrc.href)
             .then(() => {
               state = 'open';
               DebugRecorder.setMessengerState('loaded');
@@ -135,7 +142,7 @@ export class WindowMessenger {
               DebugRecorder.setMessengerState('error');
               DebugRecorder.push(
                 'script_load_error',
-                `Failed to load ${e.data.context.injectSrc}`,
+                `Failed to load ${injectSrc.href}`,
               );
               hideLoadingIndicator();
             });
@@ -163,11 +170,10 @@ export class WindowMessenger {
       if (injectSrc.protocol !== 'https:' || !match.test(injectSrc.hostname)) {
         return null;
       }
+      return { ...sessionData, injectSrc: injectSrc.href };
     } catch {
       return null;
     }
-
-    return sessionData;
   }
 }
 
-- 
2.43.0


From 510549633e7e32545893f149a7b592fb186caba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 27/68] fix: element_visible pages require a visible element
 and stay active until navigation

---
 .../src/subscriptions/subscriptions.ts           | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 73d8375..a6cd4a7 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -716,14 +716,16 @@ export class SubscriptionManager {
           const observer = new IntersectionObserver(
             (entries) => {
               entries.forEach((entry) => {
-                const isVisible = entry.intersectionRatio >= visibilityRatio;
-
-                // Update visibility state
-                this.elementVisibilityState.set(observerKey, isVisible);
-
-                // Publish event when element becomes visible
-                // Observer continues running; state check prevents duplicate firing
+                // A ratio of 0 is also reported for elements out of view
+                const isVisible =
+                  entry.isIntersecting &&
+                  entry.intersectionRatio >= visibilityRatio;
+
+                // Publish event when element becomes visible. The trigger stays
+                // satisfied until navigation, also when this or another matching
+                // element goes out of view.
                 if (isVisible) {
+                  this.elementVisibilityState.set(observerKey, true);
                   this.messageBus.publish('element_visible');
                 }
               });
-- 
2.43.0


From 09cfa2c723e8cc95ac6ed30a4d66cb41c817011c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 28/68] fix: elements already in view after a navigation
 satisfy visibility and scroll triggers again

---
 .../experiment-tag/src/subscriptions/subscriptions.ts    | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index a6cd4a7..5f49fb3 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -532,6 +532,15 @@ export class SubscriptionManager {
 
     this.setupTimeOnPagePublisher();
 
+    // Forget what was observed on the previous page, so that the initial check
+    // below observes, and reports, the elements of the new page
+    for (const observer of this.intersectionObservers.values()) {
+      observer.disconnect();
+    }
+    for (const observer of this.scrolledToObservers.values()) {
+      observer.disconnect();
+    }
+
     // Trigger initial check for elements that already exist on new page
     this.checkInitialElements();
   };
-- 
2.43.0


From 52d7d0d244d1841bab969e4d7b83bce7521b62c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 29/68] fix: one click, hover or focus reaches every
 user_interaction trigger it matches

---
 .../src/subscriptions/subscriptions.ts        | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 5f49fb3..0e9c7a3 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -43,6 +43,17 @@ const evaluationEngine = new EvaluationEngine();
 
 const DEBUG_DEBOUNCE_MS = 100;
 
+/** The element itself and the ancestors of it that match the selector. */
+const matchingAncestors = (element: Element, selector: string): Element[] => {
+  const matches: Element[] = [];
+  let match = element.closest(selector);
+  while (match) {
+    matches.push(match);
+    match = match.parentElement ? match.parentElement.closest(selector) : null;
+  }
+  return matches;
+};
+
 type initOptions = {
   useDefaultNavigationHandler?: boolean;
   isVisualEditorMode?: boolean;
@@ -977,7 +988,6 @@ export class SubscriptionManager {
                 fireTrigger();
               }
             }
-            break;
           }
         } catch (e) {
           // Invalid selector, skip
@@ -1007,8 +1017,7 @@ export class SubscriptionManager {
 
       for (const [selector, thresholds] of selectors) {
         try {
-          const matchedAncestor = target.closest(selector);
-          if (matchedAncestor) {
+          for (const matchedAncestor of matchingAncestors(target, selector)) {
             // Process all thresholds for this selector
             for (const minThresholdMs of thresholds) {
               const interactionKey = `${selector}\0${config.interactionType}\0${minThresholdMs}`;
@@ -1047,7 +1056,6 @@ export class SubscriptionManager {
                 }
               }
             }
-            break;
           }
         } catch (e) {
           // Invalid selector, skip
@@ -1065,8 +1073,7 @@ export class SubscriptionManager {
 
       for (const [selector] of selectors) {
         try {
-          const matchedAncestor = target.closest(selector);
-          if (matchedAncestor) {
+          for (const matchedAncestor of matchingAncestors(target, selector)) {
             // Only clear timeouts if we're actually leaving the matched ancestor
             // (not just moving to a child element)
             if (!relatedTarget || !matchedAncestor.contains(relatedTarget)) {
@@ -1079,7 +1086,6 @@ export class SubscriptionManager {
                 config.timeoutStorage.delete(matchedAncestor);
               }
             }
-            break;
           }
         } catch (e) {
           // Invalid selector, skip
-- 
2.43.0


From 65280258b28b91012d01574002915a9a7efc46ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 30/68] fix: pending hover and focus triggers do not survive a
 navigation

---
 .../src/subscriptions/subscriptions.ts        | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 0e9c7a3..cea7ea3 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -91,14 +91,14 @@ export class SubscriptionManager {
     {};
   private firedUserInteractions: Set<string> = new Set();
   private clickTimeouts: Map<string, ReturnType<typeof setTimeout>> = new Map();
-  private hoverTimeouts: WeakMap<
+  private hoverTimeouts: Map<
     Element,
     Map<string, ReturnType<typeof setTimeout>>
-  > = new WeakMap();
-  private focusTimeouts: WeakMap<
+  > = new Map();
+  private focusTimeouts: Map<
     Element,
     Map<string, ReturnType<typeof setTimeout>>
-  > = new WeakMap();
+  > = new Map();
   private userInteractionAbortController: AbortController | null = null;
   private pageLoadTime: number = Number.POSITIVE_INFINITY;
   private lastPublishedUrl: string | null = null;
@@ -532,6 +532,16 @@ export class SubscriptionManager {
     }
     this.clickTimeouts.clear();
 
+    // Clear pending hover and focus timeouts
+    for (const timeoutStorage of [this.hoverTimeouts, this.focusTimeouts]) {
+      for (const timeoutMap of timeoutStorage.values()) {
+        for (const timeout of timeoutMap.values()) {
+          this.globalScope.clearTimeout(timeout);
+        }
+      }
+      timeoutStorage.clear();
+    }
+
     // Deactivate all non-url_change pages since their trigger states were reset
     for (const [experiment, pages] of Object.entries(this.pageObjects)) {
       for (const page of Object.values(pages)) {
@@ -1005,10 +1015,7 @@ export class SubscriptionManager {
       interactionType: 'hover' | 'focus';
       startEvent: string;
       endEvent: string;
-      timeoutStorage: WeakMap<
-        Element,
-        Map<string, ReturnType<typeof setTimeout>>
-      >;
+      timeoutStorage: Map<Element, Map<string, ReturnType<typeof setTimeout>>>;
     },
   ) => {
     const startHandler = (event: Event) => {
-- 
2.43.0


From 6bb2d07f2d0dac1bf9cc4a70e8144228dae47f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 31/68] fix: page change subscribers are not told about the
 same change twice

---
 packages/experiment-tag/src/subscriptions/subscriptions.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index cea7ea3..f0a138a 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -478,7 +478,11 @@ export class SubscriptionManager {
           }
 
           // Notify subscribers if pages actually changed
-          if (pagesChanged) {
+          // and were not announced by another update in the meantime
+          if (
+            pagesChanged &&
+            !arePageObjectsEqual(activePages, this.lastNotifiedActivePages)
+          ) {
             this.lastNotifiedActivePages = clonePageObjects(activePages);
             for (const subscriber of this.pageChangeSubscribers) {
               subscriber({ activePages });
-- 
2.43.0


From 8043e36e935c7e5555cf9f85560a89dbef996ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 32/68] fix: a throwing page change subscriber does not stop
 the others

---
 packages/experiment-tag/src/subscriptions/subscriptions.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index f0a138a..88500b1 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -485,7 +485,11 @@ export class SubscriptionManager {
           ) {
             this.lastNotifiedActivePages = clonePageObjects(activePages);
             for (const subscriber of this.pageChangeSubscribers) {
-              subscriber({ activePages });
+              try {
+                subscriber({ activePages });
+              } catch (e) {
+                console.error('Page change subscriber failed:', e);
+              }
             }
           }
 
-- 
2.43.0


From 62eb901d049b2d37a04337c7f7ae99c78208ff91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 33/68] fix: showing the tab leaves no earlier time on page
 timer running

---
 packages/experiment-tag/src/subscriptions/subscriptions.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 88500b1..3b9950a 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -1165,6 +1165,7 @@ export class SubscriptionManager {
 
   private setUpTimeouts = (durations: Set<number>) => {
     durations.forEach((durationMs) => {
+      this.globalScope.clearTimeout(this.timeOnPageTimeouts[durationMs]);
       this.timeOnPageTimeouts[durationMs] = this.globalScope.setTimeout(() => {
         this.messageBus.publish('time_on_page', { durationMs });
         delete this.timeOnPageTimeouts[durationMs];
-- 
2.43.0


From d5f15a49fd79dbd64c5cce611162db53c8b40c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 34/68] fix: every mutate action of a variant is applied, not
 only the first

---
 packages/experiment-tag/src/experiment.ts | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 6ea4edf..4e3a4bf 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1299,11 +1299,13 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   }
 
   private async handleVariantAction(key: string, variant: Variant) {
+    let mutationOffset = 0;
     for (const action of variant.payload) {
       if (action.action === REDIRECT_ACTION) {
         await this.handleRedirect(action, key, variant);
       } else if (action.action === MUTATE_ACTION) {
-        this.handleMutate(action, key, variant);
+        this.handleMutate(action, key, variant, mutationOffset);
+        mutationOffset += Number(action.data?.mutations?.length ?? 0);
       } else if (action.action === INJECT_ACTION) {
         this.handleInject(action, key, variant);
       }
@@ -1633,7 +1635,16 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     }
   }
 
-  private handleMutate(action, flagKey: string, variant: Variant) {
+  /**
+   * @param mutationOffset the number of mutations in preceding mutate actions of
+   * the variant; applied mutations are identified by their position in the variant
+   */
+  private handleMutate(
+    action,
+    flagKey: string,
+    variant: Variant,
+    mutationOffset = 0,
+  ) {
     const mutations = action.data?.mutations || [];
     const variantKey = variant.key || '';
 
@@ -1643,7 +1654,8 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
 
     const mutationControllers: Record<number, MutationController> = {};
 
-    mutations.forEach((m, index) => {
+    mutations.forEach((m, actionIndex: number) => {
+      const index = mutationOffset + actionIndex;
       // Check if mutation is scoped to page
       if (!this.isActionActiveOnPage(flagKey, m?.metadata?.scope)) {
         // Revert and delete the mutation if it exists
-- 
2.43.0


From 3d6a2cc794e6d1ddd2997f19d1a30ca87324331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 35/68] fix: a mutation that cannot be applied does not stop
 the others or the page

---
 packages/experiment-tag/src/experiment.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 4e3a4bf..be3c7c8 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1679,7 +1679,14 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
           ]
         ) {
           // Apply mutation
-          mutationControllers[index] = mutate.declarative(m);
+          try {
+            mutationControllers[index] = mutate.declarative(m);
+          } catch (e) {
+            console.error(
+              `Experiment mutation failed for ${flagKey} variant ${variantKey}. Reason:`,
+              e,
+            );
+          }
         }
       }
     });
-- 
2.43.0


From edf5338369a6bc422fa3791b8d21a08b8936dc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 36/68] fix: an injection is reverted when its pages become
 inactive

---
 packages/experiment-tag/src/experiment.ts | 28 +++++++++++++++++------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index be3c7c8..6efb76d 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1717,19 +1717,33 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   private handleInject(action, flagKey: string, variant: Variant) {
     const variantKey = variant.key || '';
 
-    if (!this.isActionActiveOnPage(flagKey, action?.data?.scope)) {
-      this.appliedMutations[flagKey]?.[variantKey]?.[
-        INJECT_ACTION
-      ]?.[0]?.revert();
-      return;
-    }
     // Validate and transform ID
-    const rawId = action.data.id;
+    const rawId = action?.data?.id;
     if (!rawId || typeof rawId !== 'string' || rawId.length === 0) {
       return;
     }
     // Replace the `-` characters in the UUID to support function name
     const id = rawId.replace(/-/g, '');
+    if (!this.isActionActiveOnPage(flagKey, action?.data?.scope)) {
+      // Revert and delete the injection if it exists
+      const variantMap = this.appliedMutations[flagKey];
+      const injections = variantMap?.[variantKey]?.[INJECT_ACTION];
+      if (injections?.[id]) {
+        injections[id].revert();
+        delete injections[id];
+        // Delete empty objects
+        if (Object.keys(injections).length === 0) {
+          delete variantMap[variantKey][INJECT_ACTION];
+        }
+        if (Object.keys(variantMap[variantKey]).length === 0) {
+          delete variantMap[variantKey];
+        }
+        if (Object.keys(variantMap).length === 0) {
+          delete this.appliedMutations[flagKey];
+        }
+      }
+      return;
+    }
     // Check for repeat invocations
     if (this.appliedInjections.has(id)) {
       return;
-- 
2.43.0


From 7d26ccaac1c6bdc4109fc36df85d21ab5383a748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:54 +0000
Subject: [PATCH 37/68] fix: variants are not applied for a user that is still
 being resolved at startup

---
 packages/experiment-tag/src/experiment.ts | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 6efb76d..68c75dc 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -304,6 +304,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   public isRedirecting = false;
   private customRedirectHandler: ((url: string) => void) | undefined;
   public isRunning = false;
+  // True while start() resolves the user; variants evaluated before that are not
+  // those of the user, so applying them is left to start().
+  private isResolvingUser = false;
   private readonly messageBus: MessageBus;
   private pageObjects: PageObjects;
   private activePages: PageObjects = {};
@@ -553,6 +556,8 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     this.subscriptionManager.markUrlAsPublished(this.globalScope.location.href);
     this.messageBus.publish('url_change', { updateActivePages: true });
 
+    this.isResolvingUser = true;
+
     // Resolve the cross-subdomain cookie domain as early as possible — but after
     // the synchronous url_change above, whose subscribers apply anti-flicker
     // variants/redirects before this first await. Every EXP_ cookie needs it:
@@ -703,6 +708,8 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       await this.experimentClient.integrationManager.ready();
     }
 
+    this.isResolvingUser = false;
+
     // apply local variants
     await this.applyVariants({ flagKeys: this.localFlagKeys });
     await this.previewVariants({
@@ -797,6 +804,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
    * @param options
    */
   public async applyVariants(options?: ApplyVariantsOptions) {
+    if (this.isResolvingUser) {
+      return;
+    }
     const { flagKeys } = options || {};
     const variants = this.getVariants();
     if (Object.keys(variants).length === 0) {
-- 
2.43.0


From d6ece1625daa1a0cdca696c4e78d189cae97962c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:33 +0000
Subject: [PATCH 38/68] fix: a repeated query parameter does not hide a
 redirect loop

---
 packages/experiment-tag/src/experiment.ts | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 68c75dc..650e1f0 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -127,14 +127,21 @@ type RedirectMarker = {
   landed?: boolean;
 };
 
+/** Whether both queries have the same values, also repeated ones, for the key. */
+const sameParam = (
+  key: string,
+  a: URLSearchParams,
+  b: URLSearchParams,
+): boolean => a.getAll(key).join('\0') === b.getAll(key).join('\0');
+
 /** Query keys the redirect target adds or changes relative to the source URL. */
 const distinguishingParams = (fromUrl: string, targetUrl: string): string[] => {
   try {
     const fromParams = new URL(fromUrl).searchParams;
     const targetParams = new URL(targetUrl).searchParams;
     const keys: string[] = [];
-    targetParams.forEach((value, key) => {
-      if (fromParams.get(key) !== value) {
+    targetParams.forEach((_, key) => {
+      if (!keys.includes(key) && !sameParam(key, fromParams, targetParams)) {
         keys.push(key);
       }
     });
@@ -1552,8 +1559,8 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       }
       const currentParams = new URL(current).searchParams;
       const targetParams = new URL(marker.target).searchParams;
-      return marker.distinguishingParams.every(
-        (key) => currentParams.get(key) === targetParams.get(key),
+      return marker.distinguishingParams.every((key) =>
+        sameParam(key, currentParams, targetParams),
       );
     } catch {
       return false;
@@ -1576,7 +1583,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       const currentParams = new URL(current).searchParams;
       const targetParams = new URL(marker.target).searchParams;
       return marker.distinguishingParams.some(
-        (key) => currentParams.get(key) !== targetParams.get(key),
+        (key) => !sameParam(key, currentParams, targetParams),
       );
     } catch {
       return false;
-- 
2.43.0


From 07b0b4b087daf5d38a66c809ab1af5f89e90486c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:33 +0000
Subject: [PATCH 39/68] fix: a redirect impression is recorded on the target,
 not while the redirect is in flight

---
 packages/experiment-tag/src/experiment.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 650e1f0..51664a1 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1944,6 +1944,10 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   }
 
   private async fireStoredRedirectImpressions() {
+    // The impression belongs to the target, which is not reached yet
+    if (this.isRedirecting) {
+      return;
+    }
     const storageKey = `EXP_${this.apiKey.slice(0, 10)}_REDIRECT`;
 
     // Read URL param impressions (highest priority)
@@ -2039,6 +2043,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
 
     if (Object.keys(merged).length > 0) {
       this.globalScope.setTimeout(() => {
+        if (this.isRedirecting) {
+          return;
+        }
         void (async () => {
           for (const flagKey in merged) {
             const { variantKey, expKey, metadata } = merged[flagKey];
-- 
2.43.0


From af30d2e938342ae9fcf7f5f8ce30d8d7e6fe11d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:33 +0000
Subject: [PATCH 40/68] fix: a stored redirect impression is recorded once and
 others are kept

---
 packages/experiment-tag/src/experiment.ts | 79 ++++++++++++++++-------
 1 file changed, 55 insertions(+), 24 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 51664a1..aeb7826 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1971,17 +1971,29 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     }
 
     // Read sessionStorage impressions
-    const sessionImpressions =
+    const readSessionImpressions = () =>
       getStorageItem<Record<string, StoredRedirectImpression>>(
         'sessionStorage',
         storageKey,
       ) || {};
+    const sessionImpressions = readSessionImpressions();
 
     // Read cookie impressions (lowest priority) when opted in
     let cookieImpressions: Record<string, StoredRedirectImpression> = {};
     let cookieStorage:
       | AsyncCookieStore<Record<string, StoredRedirectImpression>>
       | undefined;
+    const readCookieImpressions = async () => {
+      try {
+        return (await cookieStorage?.get(storageKey)) || {};
+      } catch (error) {
+        console.error(
+          `Failed to retrieve redirect impressions from cookie ${storageKey}:`,
+          error,
+        );
+        return {};
+      }
+    };
     if (this.config.redirectConfig?.encodeRedirectInCookie) {
       const domain = await getTopLevelDomain(
         this.globalScope.location.hostname,
@@ -1991,15 +2003,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       >({
         ...(domain && { domain }),
         sameSite: 'Lax',
+        expirationDays: 1 / 1440, // 1 minute
       });
-      try {
-        cookieImpressions = (await cookieStorage.get(storageKey)) || {};
-      } catch (error) {
-        console.error(
-          `Failed to retrieve redirect impressions from cookie ${storageKey}:`,
-          error,
-        );
-      }
+      cookieImpressions = await readCookieImpressions();
     }
 
     // Merge with priority: url > session > cookie
@@ -2017,6 +2023,34 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       this.globalScope.location.href,
     );
 
+    // Remove only what was fired; others may have been stored in the meantime.
+    const removeStored = async (flagKeys: string[]) => {
+      const session = readSessionImpressions();
+      flagKeys.forEach((flagKey) => delete session[flagKey]);
+      if (Object.keys(session).length > 0) {
+        setStorageItem('sessionStorage', storageKey, session);
+      } else {
+        removeStorageItem('sessionStorage', storageKey);
+      }
+      if (cookieStorage) {
+        const cookies = await readCookieImpressions();
+        flagKeys.forEach((flagKey) => delete cookies[flagKey]);
+        try {
+          if (Object.keys(cookies).length > 0) {
+            await cookieStorage.set(storageKey, cookies);
+          } else {
+            await cookieStorage.remove(storageKey);
+          }
+        } catch (error) {
+          console.error(
+            `Failed to remove redirect impressions from cookie ${storageKey}:`,
+            error,
+          );
+        }
+      }
+    };
+
+    const fired: string[] = [];
     for (const flagKey in merged) {
       const { redirectUrl, variantKey, expKey, metadata } = merged[flagKey];
       if (matchesUrl([currentUrl], urlWithoutParamsAndAnchor(redirectUrl))) {
@@ -2026,28 +2060,24 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
           true,
         );
         delete merged[flagKey];
+        fired.push(flagKey);
       }
     }
 
-    const cleanup = async () => {
-      removeStorageItem('sessionStorage', storageKey);
-      if (cookieStorage) {
-        await cookieStorage.remove(storageKey).catch((error) => {
-          console.error(
-            `Failed to remove redirect impressions from cookie ${storageKey}:`,
-            error,
-          );
-        });
-      }
-    };
-
     if (Object.keys(merged).length > 0) {
       this.globalScope.setTimeout(() => {
         if (this.isRedirecting) {
           return;
         }
         void (async () => {
+          const cookies = await readCookieImpressions();
+          const session = readSessionImpressions();
+          const pending = { ...cookies, ...session, ...urlImpressions };
           for (const flagKey in merged) {
+            // Another check may have fired the impression in the meantime
+            if (!pending[flagKey]) {
+              continue;
+            }
             const { variantKey, expKey, metadata } = merged[flagKey];
             this.exposureWithDedupe(
               flagKey,
@@ -2055,11 +2085,12 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
               true,
             );
           }
-          await cleanup();
+          await removeStored(Object.keys(merged));
         })();
       }, 500);
-    } else {
-      await cleanup();
+    }
+    if (fired.length > 0) {
+      await removeStored(fired);
     }
   }
 
-- 
2.43.0


From ceba8e9a95078cf3241e888f6235db2009529b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 41/68] fix: a page whose parameters are in another order than
 the target's is the redirect's destination

---
 packages/experiment-tag/src/experiment.ts |  7 ++++---
 packages/experiment-tag/src/util/url.ts   | 10 ++++++----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index aeb7826..e154567 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -89,7 +89,7 @@ import {
 import {
   getUrlParams,
   removeQueryParams,
-  urlWithoutHash,
+  urlWithSortedQuery,
   urlWithoutParamsAndAnchor,
   urlWithoutQuery,
   concatenateQueryParamsOf,
@@ -1469,13 +1469,14 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       return true;
     }
     try {
-      if (new URL(targetUrl).hash) {
+      const { hash } = new URL(targetUrl);
+      if (hash && hash !== new URL(currentUrl).hash) {
         return false;
       }
     } catch {
       return false;
     }
-    return urlWithoutHash(currentUrl) === urlWithoutHash(targetUrl);
+    return urlWithSortedQuery(currentUrl) === urlWithSortedQuery(targetUrl);
   }
 
   private redirectMarkerStorageKey(): string {
diff --git a/packages/experiment-tag/src/util/url.ts b/packages/experiment-tag/src/util/url.ts
index 666d220..27ca608 100644
--- a/packages/experiment-tag/src/util/url.ts
+++ b/packages/experiment-tag/src/util/url.ts
@@ -44,13 +44,15 @@ export const urlWithoutQuery = (url: string): string => {
   }
 };
 
-export const urlWithoutHash = (url: string): string => {
-  if (!url) {
-    return '';
-  }
+/**
+ * Strip the hash and sort the query parameters by name, so that addresses which
+ * only differ in the order of their parameters compare equal.
+ */
+export const urlWithSortedQuery = (url: string): string => {
   try {
     const urlObj = new URL(url);
     urlObj.hash = '';
+    urlObj.searchParams.sort();
     return urlObj.toString();
   } catch {
     return url;
-- 
2.43.0


From 48763c1dbc5bd5eabcebb0b199c6d12b10210394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:47 +0000
Subject: [PATCH 42/68] fix: wrongly shaped stored identity data does not stop
 the tag

---
 packages/experiment-tag/src/experiment.ts | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index e154567..98c8c47 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -127,6 +127,14 @@ type RedirectMarker = {
   landed?: boolean;
 };
 
+/** The object kept in localStorage; anything else stored there counts as none. */
+const getStoredObject = (key: string): Record<string, string> => {
+  const stored = getStorageItem<Record<string, string>>('localStorage', key);
+  return typeof stored === 'object' && stored && !Array.isArray(stored)
+    ? stored
+    : {};
+};
+
 /** Whether both queries have the same values, also repeated ones, for the key. */
 const sameParam = (
   key: string,
@@ -576,11 +584,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     );
 
     const experimentStorageName = `EXP_${this.apiKey.slice(0, 10)}`;
-    const user =
-      getStorageItem<WebExperimentUser>(
-        'localStorage',
-        experimentStorageName,
-      ) || {};
+    const user: WebExperimentUser = getStoredObject(experimentStorageName);
 
     // if web_exp_id does not exist:
     // 1. if device_id exists, migrate device_id to web_exp_id and remove device_id
@@ -606,11 +610,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     });
 
     const defaultUserProviderStorageKey = `${experimentStorageName}_DEFAULT_USER_PROVIDER`;
-    const defaultUserProviderData =
-      getStorageItem<{ first_seen?: string }>(
-        'localStorage',
-        defaultUserProviderStorageKey,
-      ) || {};
+    const defaultUserProviderData: { first_seen?: string } = getStoredObject(
+      defaultUserProviderStorageKey,
+    );
 
     // web_exp_id is guaranteed above; seed v2 from it when no cookie/local v2 exists.
     const identity = await resolveCrossSubdomainObject(
-- 
2.43.0


From 851ae3ab1498c71647d534e32044155b585e7202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:18 +0000
Subject: [PATCH 43/68] fix: refusing consent also erases the redirect loop
 records

---
 packages/experiment-tag/src/consent/clear-data.ts | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/packages/experiment-tag/src/consent/clear-data.ts b/packages/experiment-tag/src/consent/clear-data.ts
index 62734bf..ec0e7f6 100644
--- a/packages/experiment-tag/src/consent/clear-data.ts
+++ b/packages/experiment-tag/src/consent/clear-data.ts
@@ -145,6 +145,15 @@ export const getPersistedDataKeys = (
   };
 };
 
+/**
+ * The redirect loop detector's session records (see `experiment.ts`), which name
+ * the pages a visitor was sent between.
+ */
+const getRedirectLoopKeys = (apiKey: string): string[] => {
+  const slice = apiKey.slice(0, 10);
+  return [`EXP_${slice}_REDIRECT_MARKER`, `EXP_${slice}_REDIRECT_SUPPRESSED`];
+};
+
 /**
  * Deletes everything experiment-tag has persisted for `apiKey`. Runs when
  * consent is denied at load — where the data belongs to an earlier session, or
@@ -178,6 +187,9 @@ export const clearAllPersistedData = (
   for (const key of keys.sessionStorage) {
     removeStorageItem('sessionStorage', key);
   }
+  for (const key of getRedirectLoopKeys(apiKey)) {
+    removeStorageItem('sessionStorage', key);
+  }
 
   const hostname = getGlobalScope()?.location?.hostname ?? '';
   const domains = getCookieDomainLevels(hostname).map((domain) => `.${domain}`);
-- 
2.43.0


From 691dcb31971b57858ffce1db62995f459be2fb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:33 +0000
Subject: [PATCH 44/68] fix: behaviors changed by a relay sync are noticed when
 an event changed them before

---
 .../src/behavioral-targeting/behavioral-targeting-manager.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-tag/src/behavioral-targeting/behavioral-targeting-manager.ts b/packages/experiment-tag/src/behavioral-targeting/behavioral-targeting-manager.ts
index 3a39154..dbb0c22 100644
--- a/packages/experiment-tag/src/behavioral-targeting/behavioral-targeting-manager.ts
+++ b/packages/experiment-tag/src/behavioral-targeting/behavioral-targeting-manager.ts
@@ -79,8 +79,6 @@ export class BehavioralTargetingManager {
   public async beginRelaySync(
     relayClient: RelayClient,
   ): Promise<RelaySyncResult> {
-    const behaviorsBefore = this.serializeMatchedBehaviors();
-
     await relayClient.init();
     if (!relayClient.relayAvailable) {
       await relayClient.waitForAvailable();
@@ -94,6 +92,9 @@ export class BehavioralTargetingManager {
       return { status: 'sync_failed' };
     }
 
+    // Taken here, not before the sync: events tracked while it was under way may
+    // have changed the matched behaviors, and were reported when they did.
+    const behaviorsBefore = this.serializeMatchedBehaviors();
     this.evaluateAll();
     return behaviorsBefore !== this.serializeMatchedBehaviors()
       ? { status: 'behaviors_changed' }
-- 
2.43.0


From 712876d06267538071d1b8ef7e3156a8509d3c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:33 +0000
Subject: [PATCH 45/68] fix: behaviors are compared with those the user was
 last given

---
 packages/experiment-tag/src/experiment.ts     |  3 ++
 .../src/subscriptions/subscriptions.ts        | 32 +++++++++++--------
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 98c8c47..744da42 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1122,6 +1122,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
 
     // Set the updated user
     this.experimentClient.setUser(updatedUser);
+    this.subscriptionManager?.markBehaviorsAsNotified(
+      this.behavioralTargetingManager.getMatchedBehaviors(),
+    );
   }
 
   /**
diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 3b9950a..4d87daf 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -417,6 +417,8 @@ export class SubscriptionManager {
               activeBehavioralFlags,
               this.lastNotifiedActiveBehavioralFlags,
             );
+          const previousBehavioralFlags =
+            this.lastNotifiedActiveBehavioralFlags;
           if (behaviorsChanged) {
             this.webExperimentClient.updateUserWithBehaviors();
           }
@@ -443,9 +445,7 @@ export class SubscriptionManager {
                 ? Array.from(
                     new Set([
                       ...Array.from(activeBehavioralFlags?.keys() || []),
-                      ...Array.from(
-                        this.lastNotifiedActiveBehavioralFlags?.keys() || [],
-                      ),
+                      ...Array.from(previousBehavioralFlags.keys()),
                     ]),
                   )
                 : [];
@@ -498,15 +498,6 @@ export class SubscriptionManager {
           if (pagesChanged || isUrlChange) {
             this.scheduleDebugNotification();
           }
-
-          // Update last notified behaviors if they changed
-          if (behaviorsChanged && activeBehavioralFlags) {
-            this.lastNotifiedActiveBehavioralFlags = new Map(
-              Array.from(activeBehavioralFlags.entries()).map(
-                ([key, value]) => [key, new Set(value)],
-              ),
-            );
-          }
         })();
       });
     }
@@ -521,6 +512,22 @@ export class SubscriptionManager {
     this.messageBus.publish('manual');
   };
 
+  /**
+   * Record the behaviors the user was last given, which later changes are
+   * measured against. Taken at once: events tracked while variants are being
+   * applied must be compared with these.
+   */
+  public markBehaviorsAsNotified = (
+    behaviors: Map<string, Set<string>>,
+  ): void => {
+    this.lastNotifiedActiveBehavioralFlags = new Map(
+      Array.from(behaviors.entries()).map(([key, value]) => [
+        key,
+        new Set(value),
+      ]),
+    );
+  };
+
   private resetTriggerStates = () => {
     DebugRecorder.push('trigger_reset', 'all non-url_change triggers cleared');
     // Clear "has fired" state for all triggers
@@ -532,7 +539,6 @@ export class SubscriptionManager {
     this.maxScrollPercentage = 0;
     this.pageLoadTime = Date.now();
     this.analyticsEventState.clear();
-    this.lastNotifiedActiveBehavioralFlags = new Map();
 
     // Clear pending click timeouts
     for (const timeout of this.clickTimeouts.values()) {
-- 
2.43.0


From 5935899d15f16c8deef71d61eb2ff27b668012ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:33 +0000
Subject: [PATCH 46/68] fix: an overtaken application of variants does not undo
 a newer one

---
 packages/experiment-tag/src/experiment.ts | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 744da42..28bc47e 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -317,6 +317,8 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   // a redirect is in-flight — location.replace() doesn't suspend painting, so
   // tearing the overlay down before the navigation commits flashes the source page.
   public isRedirecting = false;
+  private applyVariantsCalls = 0;
+  private readonly latestApplyVariantsCall: Record<string, number> = {};
   private customRedirectHandler: ((url: string) => void) | undefined;
   public isRunning = false;
   // True while start() resolves the user; variants evaluated before that are not
@@ -821,6 +823,14 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     if (Object.keys(variants).length === 0) {
       return;
     }
+    // Calls overlap where they wait (e.g. for events tracked in one burst). A
+    // flag that a later call applies is left to it, as its variant is the newer.
+    const call = ++this.applyVariantsCalls;
+    for (const key in variants) {
+      if (!flagKeys || flagKeys.includes(key)) {
+        this.latestApplyVariantsCall[key] = call;
+      }
+    }
     const currentUrl = urlWithoutParamsAndAnchor(
       this.globalScope.location.href,
     );
@@ -838,6 +848,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       if ((flagKeys && !flagKeys.includes(key)) || this.previewFlags[key]) {
         continue;
       }
+      if (this.latestApplyVariantsCall[key] !== call) {
+        continue;
+      }
       const variant = variants[key];
       const variantKey = variant.key || '';
 
-- 
2.43.0


From d08f9fcdcc80a01e7eb96f86e03cfee53824ccc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:11 +0000
Subject: [PATCH 47/68] fix: redirect with non-ASCII impression data in
 AMP_REDIRECT

btoa throws on characters outside Latin1, so a redirect whose variant
metadata or URL has such characters rejected start() and never happened.
---
 packages/experiment-tag/src/experiment.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 28bc47e..6a544be 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1446,7 +1446,13 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       };
       targetUrlObj.searchParams.set(
         REDIRECT_IMPRESSION_PARAM,
-        btoa(JSON.stringify(urlPayload)),
+        // btoa only accepts Latin1, so non-ASCII is kept as JSON escapes.
+        btoa(
+          JSON.stringify(urlPayload).replace(
+            /[\u0080-\uffff]/g,
+            (c) => '\\u' + c.charCodeAt(0).toString(16).padStart(4, '0'),
+          ),
+        ),
       );
       targetUrl = targetUrlObj.toString();
     }
-- 
2.43.0


From 1b7deeea2ce094581f93a530169a4634cee48405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:56 +0000
Subject: [PATCH 48/68] fix: element triggers notice changes that make a
 sibling or an ancestor match

An element that came to match a selector such as `.open + .panel` or
`.card:has(.on)` by a class or style change was not noticed, as only the
changed element and what it contains were checked.
---
 .../experiment-tag/src/subscriptions/subscriptions.ts    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 4d87daf..49b9bc5 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -681,14 +681,19 @@ export class SubscriptionManager {
       if (mutation.target.nodeType === Node.ELEMENT_NODE) {
         try {
           const target = mutation.target as Element;
-          // Check if target matches
-          if (target.matches(selector)) {
+          // Check if target or one of its ancestors matches
+          if (target.closest(selector)) {
             return true;
           }
           // Check if target contains matching elements
           if (target.querySelector(selector)) {
             return true;
           }
+          // Check if target has siblings that match or contain matching
+          // elements, e.g. `.open + .panel`
+          if (target.parentElement?.querySelector(selector)) {
+            return true;
+          }
         } catch (e) {
           // Invalid selector, skip
         }
-- 
2.43.0


From 0012b6c5596243607c9be5fa2cb344d3a9464263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:08 +0000
Subject: [PATCH 49/68] fix: a failing debug state subscriber does not keep the
 others from being told

---
 packages/experiment-tag/src/subscriptions/subscriptions.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 49b9bc5..7886b93 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -334,7 +334,11 @@ export class SubscriptionManager {
       this.debugDebounceTimer = null;
       const state = this.webExperimentClient.getDebugState();
       for (const subscriber of this.debugStateSubscribers) {
-        subscriber(state);
+        try {
+          subscriber(state);
+        } catch (e) {
+          console.error('Debug state subscriber failed:', e);
+        }
       }
     }, DEBUG_DEBOUNCE_MS);
   };
-- 
2.43.0


From e3e1a1673d7ff11bf9259a4d62eea43be98a8f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:34 +0000
Subject: [PATCH 50/68] fix: start with preview session data that lacks the
 previewed flags

---
 packages/experiment-tag/src/experiment.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 6a544be..913fbdc 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -2150,7 +2150,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
         'sessionStorage',
         PREVIEW_MODE_SESSION_KEY,
       );
-      if (previewState) {
+      if (previewState?.previewFlags) {
         this.previewFlags = previewState.previewFlags;
       }
     }
-- 
2.43.0


From 851576054b65f03bb0b187e2104bca538196a1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:34 +0000
Subject: [PATCH 51/68] fix: starting a preview keeps the site's own query
 parameters

---
 packages/experiment-tag/src/experiment.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 913fbdc..8702df8 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -2131,8 +2131,11 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       setStorageItem('sessionStorage', PREVIEW_MODE_SESSION_KEY, {
         previewFlags: this.previewFlags,
       });
+      // Parameters that belong to the site rather than to the preview stay
       const previewParamsToRemove = [
-        ...Object.keys(this.previewFlags),
+        ...Object.keys(this.previewFlags).filter(
+          (key) => this.flagVariantMap[key],
+        ),
         PREVIEW_MODE_PARAM,
       ];
       this.globalScope.history.replaceState(
-- 
2.43.0


From 5631db0cdfbf911837615b86809206d2ecc85d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:34 +0000
Subject: [PATCH 52/68] fix: previewing several flags shows one preview
 notification

---
 packages/experiment-tag/src/preview/preview.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/preview/preview.ts b/packages/experiment-tag/src/preview/preview.ts
index dfa17f9..6109e1b 100644
--- a/packages/experiment-tag/src/preview/preview.ts
+++ b/packages/experiment-tag/src/preview/preview.ts
@@ -105,7 +105,12 @@ export class PreviewModeModal {
 
     this.injectStyles();
     requestAnimationFrame(() => {
-      if (this.modal && document.body) {
+      // Another modal may have been appended since show() looked for one
+      if (
+        this.modal &&
+        document.body &&
+        !document.getElementById('amp-preview-modal')
+      ) {
         document.body.appendChild(this.modal);
       }
     });
-- 
2.43.0


From cc724e5c768e3e354bc555b25bddd8e6dc2f10f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:46 +0000
Subject: [PATCH 53/68] fix: navigations and triggers do not apply remote flags
 before they are fetched

---
 packages/experiment-tag/src/experiment.ts | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 8702df8..6df9ed1 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -334,6 +334,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   private relayClient: RelayClient | null = null;
   private subscriptionManager: SubscriptionManager | undefined;
   private isVisualEditorMode = false;
+  private isAwaitingRemoteFlags = false;
   private isDebugActive = false;
   // Preview mode is set by url params, postMessage or session storage, not chrome extension
   isPreviewMode = false;
@@ -722,6 +723,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     this.isResolvingUser = false;
 
     // apply local variants
+    this.isAwaitingRemoteFlags = true;
     await this.applyVariants({ flagKeys: this.localFlagKeys });
     await this.previewVariants({
       keyToVariant: this.previewFlags,
@@ -738,6 +740,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
         Object.keys(this.previewFlags).includes(key),
       )
     ) {
+      this.isAwaitingRemoteFlags = false;
       this.scheduleRelaySync(enrichedUser);
       this.isRunning = true;
       flushEventBuffer(this);
@@ -745,6 +748,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     }
 
     await this.fetchRemoteFlags();
+    this.isAwaitingRemoteFlags = false;
     // apply remote variants - if fetch is unsuccessful, fallback order: 1. localStorage flags, 2. initial flags
     await this.applyVariants({ flagKeys: this.remoteFlagKeys });
     this.scheduleRelaySync(enrichedUser);
@@ -851,6 +855,11 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       if (this.latestApplyVariantsCall[key] !== call) {
         continue;
       }
+      // Navigations and triggers must not apply remote flags (or flags that
+      // depend on one) while their configurations are still being fetched.
+      if (this.isAwaitingRemoteFlags && !this.localFlagKeys.includes(key)) {
+        continue;
+      }
       const variant = variants[key];
       const variantKey = variant.key || '';
 
-- 
2.43.0


From ec8a6767b8f1dfdd63eea71e1ebdbe2baea91423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:23 +0000
Subject: [PATCH 54/68] fix: an inserted element is inserted again when the
 insertion limit has passed

---
 .../experiment-tag/src/util/inject-utils.ts     | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/packages/experiment-tag/src/util/inject-utils.ts b/packages/experiment-tag/src/util/inject-utils.ts
index 500d5a7..7dbbf62 100644
--- a/packages/experiment-tag/src/util/inject-utils.ts
+++ b/packages/experiment-tag/src/util/inject-utils.ts
@@ -102,12 +102,6 @@ export const getInjectUtils = (state: { cancelled: boolean }): InjectUtils =>
             return; // element was already inserted
           }
 
-          if (rateLimit >= 10) {
-            return;
-          }
-          rateLimit++;
-          setTimeout(() => rateLimit--, 1000);
-
           const parent = document.querySelector(options.parentSelector);
           if (!parent) {
             return;
@@ -121,6 +115,17 @@ export const getInjectUtils = (state: { cancelled: boolean }): InjectUtils =>
             return;
           }
 
+          // Limit insertions, not attempts to find where to insert, and check
+          // again when an insertion no longer counts.
+          if (rateLimit >= 10) {
+            return;
+          }
+          rateLimit++;
+          setTimeout(() => {
+            rateLimit--;
+            checkElementInserted();
+          }, 1000);
+
           pauseGlobalObserver();
           parent.insertBefore(element, sibling);
           resumeGlobalObserver();
-- 
2.43.0


From 71c5323a764ff3617793c675c6847fa9db796c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:23 +0000
Subject: [PATCH 55/68] fix: inserting before a nested match does not pause the
 mutation observer for good

---
 packages/experiment-tag/src/util/inject-utils.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/util/inject-utils.ts b/packages/experiment-tag/src/util/inject-utils.ts
index 7dbbf62..bd4f91b 100644
--- a/packages/experiment-tag/src/util/inject-utils.ts
+++ b/packages/experiment-tag/src/util/inject-utils.ts
@@ -106,8 +106,11 @@ export const getInjectUtils = (state: { cancelled: boolean }): InjectUtils =>
           if (!parent) {
             return;
           }
+          // Only a child of the parent can be inserted before.
           const sibling = options.insertBeforeSelector
-            ? parent.querySelector(options.insertBeforeSelector)
+            ? Array.from(
+                parent.querySelectorAll(options.insertBeforeSelector),
+              ).find((e) => e.parentNode === parent) ?? null
             : null;
 
           if (options.insertBeforeSelector && !sibling) {
-- 
2.43.0


From db581904f5842ba865fb64cb39cb35d84782fcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:23 +0000
Subject: [PATCH 56/68] fix: the analytics connector works where globalThis is
 null

---
 packages/analytics-connector/src/util/global.ts | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/packages/analytics-connector/src/util/global.ts b/packages/analytics-connector/src/util/global.ts
index 465f436..c8bb921 100644
--- a/packages/analytics-connector/src/util/global.ts
+++ b/packages/analytics-connector/src/util/global.ts
@@ -1,7 +1,13 @@
 /* eslint-disable no-restricted-globals -- standalone global shim; cannot depend on experiment-core */
+// The global object is not always available by every name: globalThis is null
+// in some versions of iOS Safari. Use a module-local object if there is none.
 export const safeGlobal =
-  typeof globalThis !== 'undefined'
+  typeof globalThis !== 'undefined' && globalThis !== null
     ? globalThis
-    : typeof global !== 'undefined'
+    : typeof global !== 'undefined' && global !== null
     ? global
-    : self;
+    : typeof self !== 'undefined' && self !== null
+    ? self
+    : typeof window !== 'undefined' && window !== null
+    ? window
+    : {};
-- 
2.43.0


From 9b087507319c5d0dd473b764aea4f35c3543fd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:23 +0000
Subject: [PATCH 57/68] fix: the default user provider works with incomplete
 browser globals

---
 packages/experiment-browser/src/providers/default.ts | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/packages/experiment-browser/src/providers/default.ts b/packages/experiment-browser/src/providers/default.ts
index 008976d..e405fd2 100644
--- a/packages/experiment-browser/src/providers/default.ts
+++ b/packages/experiment-browser/src/providers/default.ts
@@ -8,10 +8,8 @@ import { ExperimentUser } from '../types/user';
 
 export class DefaultUserProvider implements ExperimentUserProvider {
   globalScope = getGlobalScope();
-  private readonly userAgent: string =
-    typeof this.globalScope?.navigator !== 'undefined'
-      ? this.globalScope?.navigator.userAgent
-      : undefined;
+  private readonly userAgent: string | undefined =
+    this.globalScope?.navigator?.userAgent;
   private readonly ua = new UAParser(this.userAgent).getResult();
   private readonly localStorage = new LocalStorage();
   private readonly sessionStorage = new SessionStorage();
@@ -34,7 +32,7 @@ export class DefaultUserProvider implements ExperimentUserProvider {
       os: this.getOs(this.ua),
       device_model: this.getDeviceModel(this.ua),
       device_category: this.ua.device?.type ?? 'desktop',
-      referring_url: this.globalScope?.document?.referrer.replace(/\/$/, ''),
+      referring_url: this.globalScope?.document?.referrer?.replace(/\/$/, ''),
       cookie: this.getCookie(),
       browser: this.getBrowser(this.ua),
       landing_url: this.getLandingUrl(),
@@ -48,6 +46,7 @@ export class DefaultUserProvider implements ExperimentUserProvider {
   private getLanguage(): string {
     return (
       (typeof navigator !== 'undefined' &&
+        navigator !== null &&
         ((navigator.languages && navigator.languages[0]) ||
           navigator.language)) ||
       ''
-- 
2.43.0


From b92a7878042ff55ae236dd6aa7343160160a4c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:24 +0000
Subject: [PATCH 58/68] fix: an analytics provider need not have the user
 property methods

---
 .../experiment-browser/src/util/sessionAnalyticsProvider.ts   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts b/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts
index 7de14ea..23e0919 100644
--- a/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts
+++ b/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts
@@ -36,7 +36,7 @@ export class SessionAnalyticsProvider implements ExperimentAnalyticsProvider {
     if (this.setProperties[event.key] == event.variant.value) {
       return;
     }
-    this.analyticsProvider.setUserProperty(event);
+    this.analyticsProvider.setUserProperty?.(event);
   }
 
   unsetUserProperty?(event: ExperimentAnalyticsEvent): void {
@@ -46,6 +46,6 @@ export class SessionAnalyticsProvider implements ExperimentAnalyticsProvider {
       this.unsetProperties[event.key] = 'unset';
       delete this.setProperties[event.key];
     }
-    this.analyticsProvider.unsetUserProperty(event);
+    this.analyticsProvider.unsetUserProperty?.(event);
   }
 }
-- 
2.43.0


From 61f1ac21fa55199912011fe62c0fe5dee4c42b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:24 +0000
Subject: [PATCH 59/68] fix: unset user properties of flags named like object
 members

---
 .../src/util/sessionAnalyticsProvider.ts                   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts b/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts
index 23e0919..ab1dd37 100644
--- a/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts
+++ b/packages/experiment-browser/src/util/sessionAnalyticsProvider.ts
@@ -14,9 +14,10 @@ export class SessionAnalyticsProvider implements ExperimentAnalyticsProvider {
 
   // In memory record of flagKey and variant value to in order to only set
   // user properties and track an exposure event once per session unless the
-  // variant value changes
-  private readonly setProperties: Record<string, string> = {};
-  private readonly unsetProperties: Record<string, string> = {};
+  // variant value changes. Keys may be named like members of Object.prototype.
+  private readonly setProperties: Record<string, string> = Object.create(null);
+  private readonly unsetProperties: Record<string, string> =
+    Object.create(null);
 
   constructor(analyticsProvider: ExperimentAnalyticsProvider) {
     this.analyticsProvider = analyticsProvider;
-- 
2.43.0


From 6764530f6648422d47a992761a5de8e8b86d1421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:43 +0000
Subject: [PATCH 60/68] fix: wrongly shaped stored redirect data does not stop
 the tag from starting

---
 packages/experiment-tag/src/experiment.ts | 52 +++++++++++------------
 1 file changed, 24 insertions(+), 28 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 6df9ed1..e2165bb 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -127,9 +127,12 @@ type RedirectMarker = {
   landed?: boolean;
 };
 
-/** The object kept in localStorage; anything else stored there counts as none. */
-const getStoredObject = (key: string): Record<string, string> => {
-  const stored = getStorageItem<Record<string, string>>('localStorage', key);
+/** The object kept in storage; anything else stored there counts as none. */
+const getStoredObject = <T = string>(
+  key: string,
+  storageType: 'localStorage' | 'sessionStorage' = 'localStorage',
+): Record<string, T> => {
+  const stored = getStorageItem<Record<string, T>>(storageType, key);
   return typeof stored === 'object' && stored && !Array.isArray(stored)
     ? stored
     : {};
@@ -1521,11 +1524,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   }
 
   private getRedirectMarkers(): Record<string, RedirectMarker> {
-    return (
-      getStorageItem<Record<string, RedirectMarker>>(
-        'sessionStorage',
-        this.redirectMarkerStorageKey(),
-      ) || {}
+    return getStoredObject<RedirectMarker>(
+      this.redirectMarkerStorageKey(),
+      'sessionStorage',
     );
   }
 
@@ -1547,21 +1548,20 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     }
   }
 
+  private getSuppressedRedirects(): string[] {
+    const suppressed = getStorageItem<string[]>(
+      'sessionStorage',
+      this.redirectSuppressStorageKey(),
+    );
+    return Array.isArray(suppressed) ? suppressed : [];
+  }
+
   private isRedirectSuppressed(flagKey: string): boolean {
-    const suppressed =
-      getStorageItem<string[]>(
-        'sessionStorage',
-        this.redirectSuppressStorageKey(),
-      ) || [];
-    return suppressed.includes(flagKey);
+    return this.getSuppressedRedirects().includes(flagKey);
   }
 
   private suppressRedirect(flagKey: string, reason: string): void {
-    const suppressed =
-      getStorageItem<string[]>(
-        'sessionStorage',
-        this.redirectSuppressStorageKey(),
-      ) || [];
+    const suppressed = this.getSuppressedRedirects();
     if (!suppressed.includes(flagKey)) {
       suppressed.push(flagKey);
       setStorageItem(
@@ -1939,11 +1939,10 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     };
 
     // Always write to sessionStorage
-    const stored =
-      getStorageItem<Record<string, StoredRedirectImpression>>(
-        'sessionStorage',
-        storageKey,
-      ) || {};
+    const stored = getStoredObject<StoredRedirectImpression>(
+      storageKey,
+      'sessionStorage',
+    );
     stored[flagKey] = impression;
     setStorageItem('sessionStorage', storageKey, stored);
 
@@ -2006,10 +2005,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
 
     // Read sessionStorage impressions
     const readSessionImpressions = () =>
-      getStorageItem<Record<string, StoredRedirectImpression>>(
-        'sessionStorage',
-        storageKey,
-      ) || {};
+      getStoredObject<StoredRedirectImpression>(storageKey, 'sessionStorage');
     const sessionImpressions = readSessionImpressions();
 
     // Read cookie impressions (lowest priority) when opted in
-- 
2.43.0


From 84e019f0d42dd1305878d5d048e5c45bab8e5faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:43 +0000
Subject: [PATCH 61/68] fix: styles are added in browsers without constructable
 stylesheets

---
 .../experiment-tag/src/util/csp-safe-stylesheet.ts    | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/packages/experiment-tag/src/util/csp-safe-stylesheet.ts b/packages/experiment-tag/src/util/csp-safe-stylesheet.ts
index 713c3d5..b6cdac9 100644
--- a/packages/experiment-tag/src/util/csp-safe-stylesheet.ts
+++ b/packages/experiment-tag/src/util/csp-safe-stylesheet.ts
@@ -58,6 +58,17 @@ export function cspSafeStyleSheet(
   // a synthetic/fake root, which is not a meaningful style target.
   const adoptTarget = supportsAdoptedStyleSheets(target) ? target : ownerDoc;
 
+  // Browsers without constructable stylesheets only take a style element.
+  if (!supportsAdoptedStyleSheets(adoptTarget)) {
+    const style = ownerDoc.createElement('style');
+    style.textContent = css;
+    const attach = (): void => {
+      (ownerDoc.head ?? ownerDoc.documentElement).appendChild(style);
+    };
+    attach();
+    return { revert: () => style.remove(), reapply: attach };
+  }
+
   // CSSStyleSheets are realm-bound — adopting one cross-realm throws
   // NotAllowedError. Construct the sheet via the target's owning realm so it
   // can be adopted into an iframe's contentDocument.
-- 
2.43.0


From 9fced88f173cd1eaa88ab9e59ad1ff677d098b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:16 +0000
Subject: [PATCH 62/68] fix: a redirect to an invalid address does not stop the
 other experiments

---
 packages/experiment-tag/src/experiment.ts | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index e2165bb..7c77c02 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1377,10 +1377,21 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
 
     const redirectUrl = action?.data?.url;
 
-    let targetUrl = concatenateQueryParamsOf(
-      this.globalScope.location.href,
-      redirectUrl,
-    );
+    let targetUrl: string;
+    try {
+      targetUrl = concatenateQueryParamsOf(
+        this.globalScope.location.href,
+        redirectUrl,
+      );
+    } catch (e) {
+      console.error(
+        `Experiment redirect failed for ${flagKey} variant ${
+          variant.key ?? ''
+        }. Reason:`,
+        e,
+      );
+      return;
+    }
 
     // Destination guard: already at the target, nothing to do. The hash counts
     // only when the redirect names one — hash-router sites route on it, while a
-- 
2.43.0


From 9db663efb15f89d334b4e4fbd980577ef9c9d5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:06 +0000
Subject: [PATCH 63/68] fix: a cookie value of the user may contain equals
 signs

---
 packages/experiment-browser/src/providers/default.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/providers/default.ts b/packages/experiment-browser/src/providers/default.ts
index e405fd2..8da5edb 100644
--- a/packages/experiment-browser/src/providers/default.ts
+++ b/packages/experiment-browser/src/providers/default.ts
@@ -78,7 +78,13 @@ export class DefaultUserProvider implements ExperimentUserProvider {
     try {
       const cookie = this.globalScope?.document?.cookie;
       return cookie
-        ? Object.fromEntries(cookie.split('; ').map((c) => c.split('=')))
+        ? Object.fromEntries(
+            cookie.split('; ').map((c) => {
+              // The value of a cookie may contain equals signs.
+              const [name, ...value] = c.split('=');
+              return value.length > 0 ? [name, value.join('=')] : [name];
+            }),
+          )
         : undefined;
     } catch {
       // Access to cookies is denied.
-- 
2.43.0


From 3e155a4a89dd0a7427f5a2a3cc987f358569e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:06 +0000
Subject: [PATCH 64/68] fix: a URL parameter named like an object member does
 not hide the others

---
 .../experiment-browser/src/providers/default.ts  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/packages/experiment-browser/src/providers/default.ts b/packages/experiment-browser/src/providers/default.ts
index 8da5edb..612066e 100644
--- a/packages/experiment-browser/src/providers/default.ts
+++ b/packages/experiment-browser/src/providers/default.ts
@@ -130,23 +130,23 @@ export class DefaultUserProvider implements ExperimentUserProvider {
       return undefined;
     }
 
-    const params: Record<string, string[]> = {};
+    // Parameters may be named like members of Object.prototype.
+    const params = new Map<string, string[]>();
 
     try {
       const url = new URL(this.globalScope.location.href);
       for (const [name, value] of url.searchParams) {
-        params[name] = [...(params[name] ?? []), ...value.split(',')];
+        params.set(name, [...(params.get(name) ?? []), ...value.split(',')]);
       }
     } catch (error) {
       return undefined;
     }
 
-    return Object.entries(params).reduce<Record<string, string | string[]>>(
-      (acc, [name, value]) => {
-        acc[name] = value.length == 1 ? value[0] : value;
-        return acc;
-      },
-      {},
+    return Object.fromEntries(
+      Array.from(params).map(([name, value]) => [
+        name,
+        value.length == 1 ? value[0] : value,
+      ]),
     );
   }
 }
-- 
2.43.0


From 781e28b8fec08d0c1d6ee57c03d1d18f81a427ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:17 +0000
Subject: [PATCH 65/68] fix: event properties changed after tracking do not
 change the tracked event

---
 .../src/behavioral-targeting/event-storage.ts      |  3 ++-
 packages/experiment-tag/src/index.ts               |  5 ++++-
 .../experiment-tag/src/util/copy-properties.ts     | 14 ++++++++++++++
 3 files changed, 20 insertions(+), 2 deletions(-)
 create mode 100644 packages/experiment-tag/src/util/copy-properties.ts

diff --git a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
index 15b7934..d026311 100644
--- a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
+++ b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
@@ -5,6 +5,7 @@ import {
   isConsentWithheld,
   onConsentDecision,
 } from '../consent/consent-gate';
+import { copyProperties } from '../util/copy-properties';
 import { getStorageItem, setStorageItem } from '../util/storage';
 
 import { RelayClient } from './relay-client';
@@ -126,7 +127,7 @@ export class EventStorageManager {
       event_type: eventType,
       timestamp: eventTime ?? Date.now(),
       session_id: sessionId,
-      properties,
+      properties: copyProperties(properties),
     };
 
     this.memoryCache.events.push(event);
diff --git a/packages/experiment-tag/src/index.ts b/packages/experiment-tag/src/index.ts
index a815cf2..0439d0c 100644
--- a/packages/experiment-tag/src/index.ts
+++ b/packages/experiment-tag/src/index.ts
@@ -9,6 +9,7 @@ import { SdkPreviewApi } from './preview/preview-api';
 import { ConsentStatus, InitConfigs, WebExperimentConfig } from './types';
 import { applyAntiFlickerCss, removeAntiFlickerCss } from './util/anti-flicker';
 import { mergeWithWindowConfig } from './util/config';
+import { copyProperties } from './util/copy-properties';
 import { isPreviewMode } from './util/url';
 
 const eventBuffer: Array<{
@@ -242,7 +243,9 @@ export const createPlugin = (): Plugin => ({
     } else {
       bufferAnalyticsEvent({
         event_type: context.event_type,
-        event_properties: context.event_properties as Record<string, unknown>,
+        event_properties: copyProperties(
+          context.event_properties as Record<string, unknown>,
+        ),
       });
     }
     return context;
diff --git a/packages/experiment-tag/src/util/copy-properties.ts b/packages/experiment-tag/src/util/copy-properties.ts
new file mode 100644
index 0000000..e66209a
--- /dev/null
+++ b/packages/experiment-tag/src/util/copy-properties.ts
@@ -0,0 +1,14 @@
+/**
+ * Copies event properties, so that what the caller does to its own object
+ * afterwards doesn't change the event. Properties that can't be copied, for
+ * instance because a getter throws, are returned as they are.
+ */
+export const copyProperties = <T>(properties: T): T => {
+  try {
+    return properties && typeof properties === 'object'
+      ? { ...properties }
+      : properties;
+  } catch {
+    return properties;
+  }
+};
-- 
2.43.0


From 0fbf6efd6ece39a86e6d1afd00cec2fc0bb1a210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:17 +0000
Subject: [PATCH 66/68] fix: an invalid relay address does not keep the client
 from starting

---
 packages/experiment-tag/src/experiment.ts | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 7c77c02..9e8a701 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1044,11 +1044,17 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     // tracking that also covers reapplyVariantsAfterRelaySync's awaits — a
     // guard checked only here would leave the re-apply fetch/apply tail
     // unguarded.
-    const relayClient = new RelayClient(
-      this.apiKey,
-      webExpIdV2,
-      getRelayUrl(this.apiKey, this.config.serverZone, this.config.relayUrl),
-    );
+    let relayClient: RelayClient;
+    try {
+      relayClient = new RelayClient(
+        this.apiKey,
+        webExpIdV2,
+        getRelayUrl(this.apiKey, this.config.serverZone, this.config.relayUrl),
+      );
+    } catch (error) {
+      console.warn('Experiment relay is not used:', error);
+      return;
+    }
     this.relayClient = relayClient;
 
     void this.behavioralTargetingManager
-- 
2.43.0


From e108fccb5f3948e6af0fd9435a4275d1d14307f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:35 +0000
Subject: [PATCH 67/68] fix: ask the zone of the window configuration for the
 latest configs

---
 packages/experiment-tag/src/index.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/index.ts b/packages/experiment-tag/src/index.ts
index 0439d0c..e07c066 100644
--- a/packages/experiment-tag/src/index.ts
+++ b/packages/experiment-tag/src/index.ts
@@ -164,7 +164,8 @@ const launchClient = (
     // to startClient so it stays gated on isRedirecting — a redirect experiment
     // surfaced in preview mode must keep the overlay up while navigation is
     // in-flight, just like the normal path.
-    fetchLatestConfigs(apiKey, config.serverZone)
+    const { serverZone } = mergeWithWindowConfig(config, globalScope);
+    fetchLatestConfigs(apiKey, serverZone)
       .then((previewState) => {
         const initialFlags = JSON.stringify(previewState.flags);
         const pageObjects = JSON.stringify(previewState.pageViewObjects);
-- 
2.43.0


From c8da659c36091414fc6c6993f0f421471cca4bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:02 +0000
Subject: [PATCH 68/68] fix: store only flags which were received

When the flags request timed out, the flag cache, already completed with
the initial flags, was stored. A later load with other initial flags then
used the stale ones.
---
 packages/experiment-browser/src/experimentClient.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 3d12a9b..0d1a538 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -856,6 +856,8 @@ export class ExperimentClient implements Client {
         if (this.config.throwOnError) {
           throw e;
         }
+        // Nothing was received, so there is nothing to store.
+        return;
       } else {
         throw e;
       }
-- 
2.43.0

