#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run this to regenerate it)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})
CORE='packages/experiment-core/src/'
BR='packages/experiment-browser/src/'
TAG='packages/experiment-tag/src/'
CON='packages/analytics-connector/src/'
SEG='packages/plugin-segment/src/'

p('C01','Flag evaluation follows the targeting rules for every flag and user',
  "Evaluating an ordered list of flags for a user gives each flag the variant of its first segment whose conditions match (an OR of ANDs over the is/contains/comparison/version/set/regex operators, with absent properties matching only through '(none)' semantics) and whose bucketing yields a variant the flag defines, with flag, segment and variant metadata merged in rising priority. A flag with no such segment gets no result, and a later flag's conditions can see the results of earlier flags. Evaluation never modifies the flags or the user it is given.",
  ['inputs','configurations'],'every flag configuration (segments, nested conditions, all twenty operators, buckets, metadata, dependencies on earlier flags) and every user context, including nulls, arrays, JSON-array strings, booleans and nested objects',
  'The unit tests evaluate a fixed set of server fixtures (which need the network and are not in the stable set) and a few hand-written flags; the operator x value-type x nullness matrix and segment interactions are only sampled.',
  [CORE+'evaluation/evaluation.ts',CORE+'evaluation/select.ts',CORE+'evaluation/semantic-version.ts'],
  [('segment walk','EvaluationEngine.evaluate/evaluateSegment'),('operator matching','matchCondition/matchNull/matchSet/matchString'),('version comparison','SemanticVersion.parse/compareTo')],
  observe=['EvaluationEngine.evaluate return value'])
p('C02','Bucketing is deterministic and respects allocation and split boundaries',
  "A user lands in an allocation and a variant purely as a function of the bucketing salt and value: the 32-bit Murmur3 hash of 'salt/value' modulo 100 picks the allocation range and the quotient by 100 picks the distribution range, both ranges including their start and excluding their end. The same user therefore always gets the same variant, widening an allocation never moves a user who was already inside it, and users split in proportion to the ranges; an empty or missing bucketing value, or a hash outside every range, gets the segment's default variant.",
  ['inputs','configurations'],'every salt, bucketing value (ASCII, multi-byte, empty, missing, numeric, object), allocation table and distribution table',
  'Existing tests check a few hundred fixed hashes; boundaries of ranges, non-ASCII input lengths and the statistical split are not exercised.',
  [CORE+'evaluation/evaluation.ts',CORE+'evaluation/murmur3.ts',CORE+'evaluation/utils.ts'],
  [('hash','hash32x86'),('bucket','EvaluationEngine.bucket')], observe=['EvaluationEngine.evaluate return value','hash32x86 return value'])
p('C03','Evaluation traces tell the truth about the evaluation they explain',
  "Evaluating with traces returns exactly the same variants as evaluating without them, for the same flags and user. Each trace says the flag matched if and only if a variant was returned, names a winning segment only then, and has one step per segment whose recorded condition outcomes, property values and bucketing outcome are what that segment really evaluated to.",
  ['inputs','configurations'],'every flag list and user context, including segments whose bucketed variant the flag does not define',
  'Tests compare a few traces by hand; the agreement of the two independent segment walks has to hold for every configuration.',
  [CORE+'evaluation/evaluation.ts'],[('traced walk','EvaluationEngine.evaluateWithTraces')], observe=['EvaluationEngine.evaluateWithTraces return value'])
p('C04','Flags are evaluated after the flags they depend on',
  "Ordering a set of flags (all of them or those reachable from requested keys) yields every reachable flag exactly once, each after all of its dependencies that exist, and nothing unrelated; dependencies that do not exist are ignored. A dependency cycle reachable from the requested keys is reported as an error and never loops forever; a cycle among other flags changes nothing for a flag that does not lead to it.",
  ['inputs'],'every dependency graph (chains, diamonds, forests, missing nodes, self loops, long cycles) and every requested key list, including keys equal to names found on the object prototype',
  'The tests order a dozen small fixed graphs.',
  [CORE+'evaluation/topological-sort.ts'],[('ordering','topologicalSort')], observe=['topologicalSort return value'])
p('C05','Remote requests carry exactly the user and options that were asked for',
  "Every variants request is one GET to the configured server with the deployment key in its Authorization header, and headers that decode back to exactly the merged user (without its cookie field) and, when given, the requested flag keys and assignment-tracking and exposure-tracking options; a flags request likewise carries the key and library. Server zone and server URL options select the hosts, any response other than 200 becomes an error that carries the status, and a request that does not answer within the timeout fails with a timeout error instead of hanging.",
  ['inputs','configurations','fault_sequences'],'every user (unicode, nested, large), option combination, server URL/zone setting, status code and response delay',
  'Tests cover one or two header combinations with ASCII users; encoding round trips and the client-level path (client.test.ts) need the network.',
  [CORE+'api/evaluation-api.ts',CORE+'api/flag-api.ts',BR+'transport/http.ts',BR+'experimentClient.ts'],
  [('request building','SdkEvaluationApi.getVariants / SdkFlagApi.getFlags'),('timeout','FetchHttpClient'),('user cleanup','cleanUserPropsForFetch')], observe=['global fetch calls'])

p('C06','No user value can make a flag evaluation stall',
  "Evaluating flags takes time proportional to the sizes of the flags and of the user: whatever strings a user or page supplies as property values (very long, repetitive, nearly matching version numbers, JSON arrays, numbers or booleans), evaluation of conditions other than a flag's own regular expressions returns promptly and with the same result as for any other value.",
  ['inputs'],'every operator and every property value up to tens of thousands of characters, including the worst cases of each value parser',
  'Unit tests use short values; quadratic or exponential parsing shows only on long adversarial ones.',
  [CORE+'evaluation/semantic-version.ts',CORE+'evaluation/evaluation.ts'],[('version parsing','SemanticVersion.parse'),('value coercion','coerceNumber/coerceStringArray')], observe=['EvaluationEngine.evaluate completion'])

p('C10','variant() returns the documented source in the documented precedence',
  "variant(key, fallback) returns the highest-priority available variant: with local storage as source it is the stored variant, then the inline fallback, then initial variants, then the configured fallback; with initial variants as source it is initial, then stored, then inline, then configured; for a locally evaluated flag (or any known flag with nothing else available) it is the local evaluation, then inline, initial and configured fallback. A stored or evaluated variant marked as the default is used only when no fallback of any kind exists, and a string fallback becomes a variant with that value. With no API key the result has no value.",
  ['configurations','histories'],'every combination of source, stored/initial/inline/configured/evaluated/default variants, flag evaluation mode and key, after any history of fetches, flag updates and reloads',
  'The tests that cover this are network tests left out of the stable set, and they sample one case per rung.',
  [BR+'experimentClient.ts',BR+'util/convert.ts'],[('precedence','variantAndSource and its three source-specific walks')], observe=['ExperimentClient.variant'])
p('C11','all() merges sources consistently with their priority',
  "all() contains every stored and initial variant, with the configured primary source winning a key present in both, and the local evaluation of every flag in local evaluation mode overriding both; flags in remote evaluation mode contribute nothing by themselves. Calling all(), or adding, replacing or removing entries of the object it returns, does not change what variant() or a later all() returns.",
  ['configurations','histories'],'every set of stored, initial and flag-evaluated variants, both sources, any interleaving with variant(), fetch and clear',
  'Covered only by network tests outside the stable set.',
  [BR+'experimentClient.ts'],[('merge','ExperimentClient.all')], observe=['ExperimentClient.all'])
p('C12','A fetch updates the cached variants exactly as its response says',
  "After a successful full fetch the cached variants are exactly those in the response; after a successful fetch limited to flag keys only the returned variants and the requested-but-missing keys change. A failed fetch (network error, bad status, malformed body, timeout) changes nothing, is not visible half-applied at any point, resolves unless the client is configured to throw, and clear() empties the cache; what is in memory is always what a reload would read back.",
  ['histories','fault_sequences','inputs'],'every sequence of full and partial fetches, clears and reloads, with responses that succeed, omit keys, fail or time out',
  'Needs histories over a faulty network; the client tests outside the stable set only check single calls.',
  [BR+'experimentClient.ts',BR+'storage/cache.ts'],[('apply response','storeVariants'),('persist','LoadStoreCache.store')], observe=['ExperimentClient.all','localStorage contents'])
p('C13','Cached state survives reloads and never leaks between deployments',
  "Variants, flags and the assignment-tracking option written by one client are what a new client with the same deployment key and instance name reads after a reload, in every supported stored shape, and clients with another instance name, or another key (keys being told apart by their last six characters), neither see nor modify them. What is stored are the flags last received; the initial flags of the current configuration complete them on every load. Missing, corrupt or wrongly shaped stored data, or storage that throws, leaves a working client that behaves as if nothing had been stored.",
  ['histories','fault_sequences','configurations'],'every pair of keys/instance names, stored value (legacy string and object shapes, garbage, truncated JSON, wrong JSON types) and storage failure',
  'Tests load a handful of well-formed values.',
  [BR+'storage/cache.ts',BR+'storage/local-storage.ts',BR+'storage/session-storage.ts',BR+'experimentClient.ts'],
  [('namespaced load/store','getVariantStorage/getFlagStorage/LoadStoreCache')], observe=['localStorage','ExperimentClient.variant'])
p('C14','Failed fetches are retried with bounded backoff and superseded by a new fetch',
  "After a fetch fails with a network error, timeout, 429 or non-4xx status and retries are enabled, it is retried at most eight times at delays starting at 500 ms, growing by half each time and never above ten seconds, until one succeeds; other 4xx failures and clients with retries disabled are never retried. A new fetch cancels every pending retry of earlier fetches, so once a newer fetch has settled no older retry sends a request or overwrites its result.",
  ['fault_sequences','schedules'],'every sequence of failures and successes and every interleaving of overlapping fetches with in-flight and pending retries',
  'Backoff is tested alone with millisecond delays; overlapping fetches and failure sequences are never scheduled.',
  [BR+'experimentClient.ts',BR+'util/backoff.ts'],[('retry','startRetries/stopRetries'),('backoff','Backoff')], observe=['global fetch calls','ExperimentClient.all'])
p('C15','Flag configs load on start, refresh on schedule and stop when stopped',
  "start() loads flags once however often it is called while running, resolves once the flags and (if enabled) variants requests have both settled, and from then on, if polling is on, refreshes flags (possibly once at once) at the configured interval, which is never shorter than one minute. After stop() no further flags request is ever sent until start() is called again, even when stop() is called while start() is still waiting; no failure of either request is left as an unhandled rejection; an answer that arrives after stop() may or may not be used. A successful refresh replaces all flags with the response plus the initial flags the response lacks, and a failed one keeps the previous flags.",
  ['schedules','fault_sequences','histories'],'every interleaving of start, stop, slow and failing flag responses and timer ticks, and every polling option',
  'Client start/poll tests need the network; schedules of stop against a pending start are not tested.',
  [BR+'experimentClient.ts',CORE+'util/poller.ts'],[('start/stop','ExperimentClient.start/stop'),('poller','Poller'),('refresh','doFlags')], observe=['global fetch calls','setInterval/clearInterval'])
p('C16','User objects are copied in and out and merged per field',
  "Changing the fields or user properties of a user object after passing it to the client, or of what getUser() returns, never changes the client's user, and the client never mutates the caller's objects. The user that is evaluated, sent and reported merges provider, integration and explicit fields per field, an explicit value winning over the integration and the integration over the provider, user properties being merged one by one, and explicit fields that are null or undefined falling back to the provider's.",
  ['inputs','histories'],'every user object, provider user and integration user, and every interleaving of mutation, setUser, fetch, variant and exposure',
  'Tests check a couple of mutations and one merge.',
  [BR+'experimentClient.ts',BR+'providers/default.ts'],[('copy-in/out','setUser/getUser'),('merge','addContext')], observe=['ExperimentClient.getUser','X-Amp-Exp-User header','exposure callbacks'])
p('C17','Exposures report what the user was shown, once per identity',
  "An exposure is reported for the variant a key actually resolves to: carrying its key (or value), experiment key and metadata for a real variant, without a variant for a default or for a fallback shown in place of a default, and not at all for a fallback without a default or when the variant disables tracking. With an exposure provider each distinct variant of a flag is reported at most once until the user or device id changes or a different variant is exposed, with automatic tracking on variant() and none when it is disabled.",
  ['histories','configurations'],'every history of variant(), exposure(), identity changes, variant changes and provider failures, for every variant source',
  'Tracker tests repeat one key; interactions of source, default, identity change and variant flip are sampled.',
  [BR+'experimentClient.ts',BR+'util/userSessionExposureTracker.ts'],[('exposure building','exposureInternal'),('dedupe','UserSessionExposureTracker.track')], observe=['ExposureTrackingProvider.track'])
p('C18','Integration events are delivered exactly once, in order, and survive reloads',
  "Every exposure accepted for an analytics integration is delivered to it exactly once and in order: events refused while the integration is not ready are kept (newest 512, persisted across reloads) and delivered when it becomes ready, never lost, duplicated or reordered by refusals, exceptions, reentrant exposures or a plugin added late. Within a browser session and for as long as the identity stays the same, an exposure is sent only if its variant differs from the one last sent for its flag, except web-delivered flags, which are always sent.",
  ['schedules','fault_sequences','histories','crash_points'],'every readiness pattern of the integration, including refusing part-way, throwing and reentering, page reloads at any point, and any number of queued events',
  'Tests run one queue through one readiness flip.',
  [BR+'integration/manager.ts'],[('queue','PersistentTrackingQueue'),('dedupe','SessionDedupeCache'),('routing','IntegrationManager.track')], observe=['IntegrationPlugin.track calls','localStorage','sessionStorage'])
p('C19','The analytics bridge delivers every queued event once, in order',
  "Events logged before a receiver is attached are queued up to 512 (later ones are dropped), delivered in order exactly once when a receiver is set, and from then on delivered immediately. A receiver that is replaced gets only later events, and a receiver that throws or logs further events while the queue is delivered neither loses nor repeats the others.",
  ['schedules','histories','fault_sequences'],'every interleaving of logging, attaching, replacing, throwing and reentrant logging',
  'Tests cover one attach and the queue cap.',
  [CON+'eventBridge.ts'],[('queue','EventBridgeImpl')], observe=['receiver calls'])
p('C20','The identity store notifies exactly on real changes and never leaks references',
  "Committing an identity edit or setting an identity calls every registered listener once with the new identity if it differs deeply from the previous one and not at all otherwise; $set adds or overwrites, $unset removes and $clearAll empties user properties, in order. Reading or editing returned identities never changes stored state, and removed listeners are never called.",
  ['histories','inputs'],'every sequence of edits, sets, listener changes and mutations of returned objects, over arbitrary nested property values',
  'Tests check each action once; deep-equality corner cases and histories are unsampled.',
  [CON+'identityStore.ts',CON+'util/equals.ts'],[('edit/commit','IdentityStoreImpl.editIdentity'),('equality','isEqual')], observe=['listener calls','getIdentity'])
p('C21','One client per instance and key; connectors are shared by name',
  "Initializing repeatedly with the same instance name and API key (keys containing no dot) returns the same client and keeps its first configuration, while any different instance name, key or web flavour gives an independent client; connector instances are shared per name in the same way, whatever the name. A client created through the Amplitude analytics integration uses that connector's identity for requests (waiting up to ten seconds for one, and adopting the one analytics has stored in cookies or web storage when given a project key), sends each exposure through its bridge exactly once, and refetches on identity change only when configured to.",
  ['configurations','histories'],'every sequence of initialize calls over keys, names and configurations, and identity changes on the connectors',
  'Tests check two or three calls.',
  [BR+'factory.ts',BR+'integration/amplitude.ts',CON+'analyticsConnector.ts'],[('registry','initialize/initializeWithAmplitudeAnalytics'),('connector registry','AnalyticsConnector.getInstance')], observe=['returned client identity','fetch calls'])
p('C22','The Segment integration forwards exposures only when Segment is ready',
  "The Segment plugin reports itself unable to track until the Segment library is initialized and then forwards each exposure exactly once with its type and properties; setup resolves as soon as the library becomes ready, by callback or by polling, and is absent when skipped, so that fetches do not wait for it. The user it contributes is exactly what Segment has stored, and absent or corrupt storage contributes nothing rather than failing.",
  ['schedules','inputs'],'every readiness order (before, during, after setup, never), instance shape, and stored Segment value',
  'Tests cover three readiness orders with well-formed storage.',
  [SEG+'plugin.ts'],[('readiness','segmentIntegrationPlugin setup/track/getUser')], observe=['analytics.track calls','plugin return values'])
p('C23','Host-page failures never break variant(), exposure() or fetch()',
  "variant(), all(), exposure() and clear() never throw, and fetch() and start() never reject (unless configured to throw), when web storage is unavailable, full, or throws on any access or holds arbitrary data for any of the SDK's keys. In each case the variant returned and, where an integration is ready, the exposure sent are the same as with a working empty storage.",
  ['fault_sequences','crash_points'],'every storage operation failing at any point, persistently or transiently, any stored garbage under any key the SDK reads, and any combination of source and integration',
  'No test injects quota errors or corrupt queue/dedupe entries.',
  [BR+'storage/cache.ts',BR+'integration/manager.ts',BR+'util/state.ts',BR+'experimentClient.ts'],[('storage guards','try/catch around cache load/store'),('session state','integration manager storage access')], observe=['return values and exceptions of the public client API'])

p('C30','Before consent the tag touches no device storage, cookie or network',
  "While a page requires consent and has none (still pending, or refused), loading and initializing the tag and everything that happens meanwhile - events through the plugin, navigation, interaction, messages, time, further initialize calls - reads and writes no cookie, local or session storage, sends no request, shows, hides or adds nothing on the page and creates no client, apart from the erasure a refusal asks for. Once consent is granted the tag starts exactly once, whatever the number and order of consent signals and initialize calls, and events tracked while the start was held back never reach page triggers or behaviors.",
  ['histories','configurations','schedules'],'every sequence of consent values set before, during and after initialization, every existing storage content and every tag configuration',
  'The consent-journey tests import a module that is unavailable here and are not in the stable set; they follow a few scripted journeys.',
  [TAG+'index.ts',TAG+'consent/consent-manager.ts',TAG+'consent/consent-gate.ts',TAG+'experiment.ts'],
  [('gate','initialize / launchClient'),('consent state machine','ConsentManager')], observe=['document.cookie writes','Storage.setItem','fetch'])
p('C31','Consent state only moves by valid decisions and each is acted on once',
  "The consent status starts from the configured value (pending when required and not given or not recognised); a decision made at run time before initialization wins over the configured value, and the status changes only when a recognised different status is set and never back to pending. Every subscriber hears each change that happens while it is subscribed exactly once and in the order they happened, also when a subscriber changes the status again while a change is being announced. When consent is not required the gate is open throughout; unrecognised values change nothing.",
  ['histories'],'every sequence of statuses (valid, repeated, unknown), subscriptions and unsubscriptions, including reentrant changes from a listener',
  'Tests cover single transitions.',
  [TAG+'consent/consent-manager.ts',TAG+'consent/consent-gate.ts'],[('transitions','ConsentManager.setConsentStatus'),('gate queries','consent-gate')], observe=['listener calls','gate state'])
p('C32','Denying consent erases what the tag stored and keeps it erased',
  "When consent is refused (at load, while pending, while the tag starts or when it runs), every entry the tag (or an earlier version of it) ever wrote in local storage, session storage and the visible cookies (for its deployment and in the shared cross-subdomain form) is removed, even when removing one of them fails, and entries of other owners are untouched. Nothing the tag does afterwards on that page, including pending timers, queued writes and page hiding, recreates them, except the marker of the erasure (which lasts for most of a year) and the caches of a browser client that was already running; before it was running nothing is requested either. Another page or host of the site that was holding the same data clears it when it next loads: ids, first-seen times, campaigns and events from before the refusal do not appear in the user, requests or storage of later loads that find the marker and no fresh shared identity; once a fresh shared identity exists it is the one used and kept.",
  ['histories','schedules','configurations'],'every prior storage and cookie content, every point in the life of the tag at which the denial arrives, and later activity',
  'Clear-data tests seed listed keys and call the eraser; they do not compare with what whole visits really wrote, nor run timers, queued writes and sibling hosts after it.',
  [TAG+'consent/clear-data.ts',TAG+'index.ts',TAG+'util/storage.ts'],[('erase','clearConsentData'),('erasure marker','clearIfErasedElsewhere')], observe=['localStorage','sessionStorage','document.cookie'])
p('C33','Gated storage behaves as memory until grant and then persists it',
  "While consent is pending, reads through the tag's storage layer return what was last written through it (falling back to nothing persisted), and nothing reaches the device except the exempt preview and editor keys. Removing an entry while consent is pending forgets its pending write and leaves the device alone. On grant the pending writes are applied exactly once, keeping the identity and first-seen fields the device already holds, and never overwriting what is written after the grant; on denial they are discarded, nothing more is read or written, and no write that was under way lands afterwards.",
  ['histories','schedules'],'every sequence of reads, writes, removals and consent changes over all keys and both storages and cookies',
  'Tests follow single writes through single transitions.',
  [TAG+'util/storage.ts',TAG+'consent/consent-cookie-storage.ts',TAG+'util/grant-flush-merge.ts'],[('pending buffer','getStorageItem/setStorageItem/removeStorageItem'),('cookie buffer','ConsentAwareCookieStorage')], observe=['Storage.setItem/removeItem','document.cookie'])
p('C34','Impressions before consent are buffered, stamped and sent once on grant',
  "Impressions tracked while consent is pending are delivered after grant exactly once, in their original order, each with the time it originally happened, retrying until the tracker accepts them; the newest 512 are kept. After rejection nothing buffered is ever delivered and later impressions are dropped.",
  ['schedules','histories','fault_sequences'],'every interleaving of impressions, consent decisions and tracker acceptance or exceptions',
  'Tests flush one or two impressions.',
  [TAG+'consent/consent-impression-buffer.ts'],[('buffer','createImpressionBuffer / flush')], observe=['wrapped tracker calls'])
p('C35','Sessions rotate exactly after inactivity and are shared across tabs',
  "Activity within thirty minutes of the last activity keeps the session id and start time, activity after a longer gap starts a new session with a new id, and reading the session never extends it. Pages sharing the session cookie agree on the current session; a corrupt or missing cookie starts a fresh session rather than failing.",
  ['schedules','histories'],'every sequence of activity times across any number of pages, clock values and cookie contents',
  'Tests use a single page and a few gaps.',
  [TAG+'behavioral-targeting/session-manager.ts',TAG+'util/cookie.ts'],[('rotation','SessionManager')], observe=['session id/time','document.cookie'])
p('C36','The behavioral event log is bounded, lossless on flush and merge-safe',
  "The event store keeps the newest 500 events in order, makes them visible immediately, persists them within the write delay after tracking pauses and at once on page hide, and after a reload returns exactly what was persisted. Merging events from another source adds each event once (by its id) whatever the overlap, order or repetition, and unreadable stored data or entries are skipped without an error.",
  ['histories','schedules','crash_points'],'every sequence of tracked events, timer ticks, flushes, reloads, merges and storage faults',
  'Tests store a few events.',
  [TAG+'behavioral-targeting/event-storage.ts'],[('append/trim','EventStorageManager.addEvent'),('merge','migration and backfill')], observe=['event store reads','localStorage'])
p('C37','Behavioral rules match exactly the users whose history satisfies them',
  "A behavioral rule set matches if and only if some OR group has all its conditions met, where a condition counts the events of its type, inside its time window and matching its property filters, and compares the count with the given operator and value. After each event every behavior naming its type, and after every page load and relay merge every behavior, has the verdict of evaluating the whole kept history from scratch.",
  ['inputs','histories'],'every rule set, event history, event order and clock',
  'Tests evaluate a few rules on short histories.',
  [TAG+'behavioral-targeting/evaluator.ts',TAG+'behavioral-targeting/behavioral-targeting-manager.ts'],[('rule evaluation','BehavioralTargetingEvaluator'),('incremental','BehavioralTargetingManager')], observe=['evaluator result','matched behaviors'])
p('C38','The cross-domain relay only trusts its own frame and always settles',
  "Messages are accepted only from the relay frame's window and origin and only answer the request they name; every request settles exactly once, by its response or by its timeout, however responses are lost, delayed, duplicated or forged, and destroying the client settles everything outstanding. An event write is retained until the relay acknowledges it and re-sent until then, so a lost acknowledgement never loses the event.",
  ['schedules','fault_sequences','histories'],'every ordering of loss, delay, duplication and forgery of messages, timeouts and teardown',
  'Tests script individual exchanges.',
  [TAG+'behavioral-targeting/relay-client.ts',TAG+'behavioral-targeting/relay-protocol.ts'],[('rpc','RelayClient')], observe=['postMessage calls','promise settlement'])
p('C40','A page is active exactly when its URL conditions and trigger are satisfied',
  "After every navigation, DOM change, user action, timer or analytics event the set of active pages is exactly the pages whose URL conditions match the current URL and whose trigger (URL change, manual, element appeared or visible, click/hover/focus for the configured time, exit intent, time on page, scroll, analytics event) has occurred since the last navigation. Subscribers are told each time the set changes and only then, and a navigation resets trigger state.",
  ['histories','schedules','configurations'],'every configuration of pages and triggers and every history of navigations, DOM and user events and elapsed time',
  'Trigger tests drive one trigger at a time against a mocked client.',
  [TAG+'subscriptions/subscriptions.ts',TAG+'subscriptions/message-bus.ts',TAG+'util/page-object.ts'],[('activation','SubscriptionManager.isPageObjectActive'),('reset','resetTriggerStates')], observe=['active pages','page change subscribers'])
p('C41','Applied variants are exactly those of the active pages and revert cleanly',
  "At any time the mutations and injections in effect are exactly those of the assigned variants whose pages are active, each applied once; when a page becomes inactive, a variant is reverted or a different variant is previewed, exactly its changes are undone and everything else stays.",
  ['histories','schedules'],'every sequence of apply, revert, preview, navigation and page activity over any set of flags, variants and scoped actions',
  'The tests of this module import an unavailable dependency and are outside the stable set.',
  [TAG+'experiment.ts'],[('apply/revert','applyVariants/revertVariants/handleMutate/handleInject')], observe=['DOM mutator calls','injected nodes'])
p('C42','A redirect happens at most once per page, does not loop and is recorded once',
  "When a redirect variant applies, the page is sent to its target once, keeping the query parameters the target does not define, and not at all when the page is already at the target (whatever the order of its parameters, and whatever its hash unless the target names one) or the action is out of scope. A redirect that was led back to its source with nothing of it left, without a user acting, is not repeated in that browser session. The impression of a redirect is recorded once: on the target page when that page can know of it (same origin, or carried by cookie or address as configured), and otherwise on a later page of the session; the address of the target page is left as the redirect named it.",
  ['histories','configurations','schedules'],'every redirect configuration (single, several at once, chained, query- and hash-dependent, over subdomains and sites, by navigation or by a redirect handler) and browsing history, with servers and pages rewriting addresses and navigations committing late',
  'The tests of this module are outside the stable set and cover single redirects.',
  [TAG+'experiment.ts',TAG+'util/url.ts'],[('redirect','handleRedirect'),('stored impressions','fireStoredRedirectImpressions'),('loop detection','reconcileRedirectMarkersOnLoad')], observe=['location.replace','exposure tracking','session storage'])
p('C43','An impression is tracked once per page URL for each flag and variant',
  "On a page, applying variants tracks an impression for each flag whose active variant is shown exactly once per URL, flag and variant, however often variants are re-applied; navigating to another URL or getting another variant tracks it again. Flags that are not shown on the page are never tracked.",
  ['histories'],'every sequence of navigation, re-application and variant change over any set of flags',
  'Outside the stable set; single re-applications only.',
  [TAG+'experiment.ts'],[('dedupe','exposureWithDedupe')], observe=['exposure tracking'])
p('C44','A visitor keeps one web identity across pages, tabs and subdomains',
  "The first page a visitor loads creates a web experiment id that every later page, tab and (through the root-domain cookie) subdomain reuses for evaluation. Ids and the first-seen time already stored, also in older forms, are adopted and never replaced by new ones; once the shared cookie of a site exists, all its pages use the id and first-seen time it holds, also when some of it was missing. Cookies that are blocked, storage that takes no writes, and unreadable or wrongly shaped entries never prevent the tag from starting with an identity.",
  ['histories','configurations','fault_sequences'],'every history of page loads over subdomains, every prior identity content in cookies and storage, and blocked cookies or storage',
  'Outside the stable set; single load journeys.',
  [TAG+'experiment.ts',TAG+'util/cookie.ts'],[('identity resolution','start'),('shared cookie','resolveCrossSubdomainObject')], observe=['document.cookie','localStorage','evaluated user'])
p('C45','Campaign parameters follow their priority and are remembered',
  "The campaign parameters used for targeting are those in the current URL, falling back per parameter to those remembered by the SDK and then to Amplitude's cookie; the merged parameters are remembered, and pages without parameters leave what is remembered unchanged. When a redirect leaves a page, that page's own campaign (parameters, click ids and referrer) is kept in the site-wide original-campaign cookie.",
  ['inputs','histories'],'every URL, remembered value and Amplitude cookie, across successive pages',
  'Tests cover a few combinations.',
  [TAG+'util/campaign.ts'],[('merge','enrichUserWithCampaignData')], observe=['enriched user','stored campaign'])
p('C46','Analytics events reach page triggers and behaviors even when tracked early',
  "Every event forwarded by the analytics plugin before the tag runs is kept (newest 500) and delivered in order exactly once when it does, after which events are delivered at once; one tracked by the page during that delivery comes after those waiting. Events tracked before or while the start is held back for consent are never delivered. Events a plugin obtained from the constructed client forwards are delivered at once. The plugin never throws and hands every event on unchanged.",
  ['schedules','histories'],'every interleaving of plugin creation, events, consent, further initialize calls and the phases of the start (plain, preview, extension, editor, remote flags, waiting integrations)',
  'Tests call the flush with a stub client; no test sends events through the phases of a real start.',
  [TAG+'index.ts'],[('event buffer','createPlugin/flushEventBuffer')], observe=['stored behavior events','behavioral_targeting','active pages'])
p('C47','The shared cookie lands on the widest domain that accepts it',
  "The root domain found for any host is the widest one on which the browser accepts cookies, probing leaves no cookie behind, and a value written to it is read back identically from every subdomain; resolving a shared object keeps each field the cookie holds, else the remembered value, else a generated one, and writes it back at most once and only when something changed; refused or shadowed writes are reported, and browsers refusing cookies fall back to the current host without failing.",
  ['inputs','fault_sequences'],'every host name (public suffixes, IPs, localhost, deep subdomains) and cookie policy',
  'Tests use a mocked cookie jar for a few hosts.',
  [TAG+'util/cookie.ts'],[('probe','getTopLevelDomain'),('json cookie','resolveCrossSubdomainObject')], observe=['document.cookie'])
p('C48','The page is hidden only as long as it has to be',
  "Whenever the tag hides the page to avoid flicker, it becomes visible again at the latest one second later, and earlier once variants have been applied, even if requests fail or hang or an exception occurs (while a redirect is under way it may stay hidden for that second). Where variants that block rendering are fetched, the page stays hidden until they were applied or the second has passed; where no such variant is fetched, the page is not kept hidden for a fetch. A hide that was removed early never shortens a later one, and when the tag has started, the hiding style of the customer's snippet is gone too. Style sheets of the page itself are never removed, reordered or changed.",
  ['schedules','fault_sequences'],'every interleaving of hide, show, timeouts, page styles and failing, hanging or slow requests',
  'Tests check one timeout.',
  [TAG+'util/anti-flicker.ts',TAG+'util/csp-safe-stylesheet.ts',TAG+'experiment.ts',TAG+'index.ts'],[('hide/show','applyAntiFlickerCss/removeAntiFlickerCss'),('start','startClient')], observe=['document.adoptedStyleSheets'])
p('C49','Only Amplitude over https can open the visual editor overlay',
  "A script is loaded into the page only in response to an overlay message whose origin host is a subdomain of amplitude.com, or a stored editor session, and only from an https URL on a subdomain of amplitude.com; at most one overlay is loaded at a time. Any other message, origin or stored session never causes a script to be loaded and never throws.",
  ['inputs','histories'],'every message origin, payload and stored session, including look-alike hosts and malformed data, in any order',
  'Tests check a few origins.',
  [TAG+'util/messenger.ts'],[('validation','WindowMessenger.setup')], observe=['script elements added to the document'])
p('C50','The user and the applied variants follow the behaviors of the visitor',
  "From the time the tag runs, the user that variants are computed for carries exactly the matched behaviors (each as of the last event of its type, page load or relay merge), whether a behavior was gained or lost, before or after a navigation, by an event or by the relay, through which, while it answers, the events of all hosts of the site are shared; and once the page has settled, the changes in effect are exactly those of the variants of that user on the active pages, however many events arrive while variants are being applied.",
  ['histories','schedules'],'every rule set and history of events, navigations, loads, relay answers and overlapping applications of variants',
  'Tests follow single gains through a mocked manager; losses, bursts and navigations between them are not sampled.',
  [TAG+'subscriptions/subscriptions.ts',TAG+'experiment.ts',TAG+'behavioral-targeting/behavioral-targeting-manager.ts'],[('change detection','markBehaviorsAsNotified'),('application','applyVariants'),('user','updateUserWithBehaviors')], observe=['getUser().behavioral_targeting','applied mutations'])
p('C51','The debug state tells the truth about flags, pages and triggers',
  "Reading the debug state changes nothing and tells what is: the current address, every flag with the variant the client returns for it, whether it is active, and each of its page objects with whether its address conditions hold and its trigger has occurred, a page object passing exactly when it is active. A flag's holdout, mutex and prerequisite parents are listed with their variants; one is blamed only if the flag is off and a condition on that parent failed before the segment that decided, and the stated reason names that parent, the audience, or that no variant was assigned. Only while debugging is switched on are events recorded (each navigation and each activation) and subscribers told: after every change of address or active pages, once things have been quiet for 100 ms, with the state of that moment, also when another subscriber throws. The consent part mirrors the consent gate.",
  ['histories','configurations'],'every set of flags with dependencies, page objects of every trigger type and history of navigations, interactions, subscriptions and consent decisions',
  'Tests read the state of a few hand-written flags once after the start; no test follows page objects and subscribers through a history.',
  [TAG+'experiment.ts',TAG+'subscriptions/subscriptions.ts',TAG+'util/debug-recorder.ts'],[('snapshot','buildFlagDebugInfo / getDebugPageObjects'),('blame','buildFlagDependencyInfo / computeInactiveReason'),('notification','scheduleDebugNotification'),('events','DebugRecorder')], observe=['getDebugState()','addDebugStateSubscriber callbacks'])
p('C52','A preview shows the chosen variants and only those, and leaves the site alone',
  "An address with PREVIEW=true starts a preview of the variants its parameters name (and replaces any earlier one); the preview then holds for the rest of the tab session, through documents and navigations, until another such address replaces it. While it holds, each previewed flag shows exactly the changes of the chosen variant on its active pages (nothing for a variant it does not have), whatever the visitor was assigned, and its impressions name the chosen variant and its experiment; every other flag stays with its assigned variant. The parameters naming flags are taken out of the address and everything else in it stays. The latest configurations are asked for, in the zone of the effective configuration (that of the window over the one passed in), once per document and only for a preview or when the browser extension injected the script, and the configurations of the script serve where they cannot be had. Remote flags are not fetched when all of them are previewed. Exactly one notification lists what is previewed until it is dismissed. Damaged session data never keeps the client from starting.",
  ['histories','inputs','faults'],'every session of documents, addresses, remembered choices, answers of the configuration service and navigations',
  'Tests start one document with one previewed flag over mocks; sessions, several flags, other parameters, damaged data and failing services are not sampled.',
  [TAG+'experiment.ts',TAG+'index.ts',TAG+'preview/preview.ts',TAG+'subscriptions/subscriptions.ts'],[('choice','setupPreviewMode'),('application','previewVariants'),('latest configurations','launchClient / SdkPreviewApi'),('notification','PreviewModeModal')], observe=['applied mutations','tracked impressions','the address','#amp-preview-modal','requests for configurations'])
p('C53','In the visual editor the site stays untouched and the active pages are right',
  "A document is being edited if its address says VISUAL_EDITOR=true or the tab holds an editor session. While it is, no variant is applied, injected, redirected to or tracked and no flags are fetched, whatever happens in it; only the VISUAL_EDITOR parameter is taken out of the address. The overlay is loaded once, from the stored session or at the editor's message. Page objects can be replaced any number of times: from then on the active pages, and what page change subscribers are told, follow the new page objects alone, whose triggers start over. Without a usable opener one banner is shown instead and nothing is loaded. In mobile mode the site is put into one frame of the same address (once the document is complete), the address of the frame is mirrored (in place: the history entries and state of the tab stay), triggers of page objects set from then on are looked for in the document of the frame, and that document stays untouched and exposes its mutator. Any other document runs normally.",
  ['histories','configurations','faults'],'every combination of editor parameter, stored session, opener, mobile mode and frame, and every history of page object replacements, navigations, interactions and messages',
  'Tests set the flag on a mocked client; replaced page objects, the mobile shell and the frame are not tested.',
  [TAG+'experiment.ts',TAG+'subscriptions/subscriptions.ts',TAG+'util/shell.ts',TAG+'util/opener-channel.ts',TAG+'util/opener-severed-banner.ts',TAG+'util/messenger.ts'],[('mode','start'),('page objects','setPageObjects'),('shell','buildShell'),('opener','isOpenerChannelBroken')], observe=['applied mutations and injections','tracked events and requests','active pages','the document and its address'])
p('C54','Flags that depend on remote flags wait for them, all others do not',
  "Local flags that depend on no remote flag, and remote flags remembered from an earlier document, are applied as soon as the user is known. Remote flags that are not remembered, and every flag that depends on a remote one directly or through others, are neither applied nor tracked before the answer to the one request for remote flags, or its failure or timeout, whatever navigations, triggers and events occur while it is awaited. From then on every flag on an active page shows the variant that follows from the fetched configurations (after a failure from the remembered ones, else from those of the script), including variants that were already shown and have changed. With a holdout or mutex flag nothing is applied before the integration is ready. No request is made without remote flags.",
  ['schedules','faults','configurations'],'every graph of local and remote flags, every answer, delay and failure of the request, every remembered configuration and every navigation, trigger or event at any time around it',
  'One test looks at the arguments of the first application of variants; nothing happens while the request is pending in any test.',
  [TAG+'experiment.ts',BR+'experimentClient.ts','packages/experiment-core/src/evaluation/topological-sort.ts'],[('promotion','constructor (transitivelyPromotedKeys)'),('phases','start'),('fetch','fetchRemoteFlags / doFlags'),('gate','applyVariants')], observe=['applied mutations','tracked impressions','requests for flags'])

p('C55','What injected code inserts stays where it belongs until its injection ends',
  "An element that injected code hands to utils.insertElement is inserted into the first element matching the parent selector, as its last child or before the parent's first child that matches the sibling selector, as soon as both are in the document, and again whenever it has left the document, however the page adds, removes, moves or renames elements and however many unrelated changes it makes. It is inserted at most ten times within a second, and once that limit has passed it is back without any further change of the page. The callback runs once per insertion and the promise resolves at the first. utils.waitForElement resolves once with a matching element as soon as there is one. After the injection has ended (navigation, revert) nothing is inserted, resolved or called back for it any more. Inserting never leaves the mutations of other experiments paused.",
  ['histories','schedules'],'every history of changes to the document by the page, the injected code and navigations, at every pace',
  'There are no tests of the helpers.',
  [TAG+'util/inject-utils.ts',TAG+'experiment.ts'],[('insert','insertElement'),('wait','waitForElement'),('end','handleInject (state.cancelled)')], observe=['what a mutation observer sees added to the document','callbacks and promises of the helpers','pauses of the mutation observer'])

p('C56','Single-page apps keep working: changed links navigate once, removals do not fail',
  "Clicking a link of a React-routed app whose address an experiment has changed navigates exactly once, to the changed address as shown: within the app without a reload (through the Next.js router if there is one, else by a history entry of which the app's router is notified), or by a page load if it leads to another origin. Clicks with modifier keys or other buttons, links with a target, links no experiment has changed (any more), links that are not routed by the app and clicks outside links have the effect they have without the tag, also with several scripts in the page. Removing a node from an HTML element whose child it is no longer (because an experiment moved or removed it) neither throws nor removes anything; all other removals act as in the DOM.",
  ['histories','inputs'],'every click on every kind of link, every history of variants applied and reverted, and every removal of nodes',
  'There are no tests of the link interceptor or of the removal patch.',
  [TAG+'util/spa-link-interceptor.ts',TAG+'util/patch.ts',TAG+'experiment.ts'],[('click','installSpaLinkInterceptor'),('navigate','navigateSpa'),('removal','patchRemoveChild')], observe=['navigations of every kind','router notifications','results of removeChild'])

p('C57','Failures of storage, network, integration and browser never break the page',
  "While the tag runs, web storage that refuses, throws or is full at any access, cookies that are refused or throw, arbitrary data in any of the tag's stored values and cookies, requests that fail, hang or answer anything, an integration that is slow, rejects its setup, throws from or refuses track or returns empty identities, page change and debug subscribers that throw, events whose properties cannot be stored, arbitrary messages from other windows, odd query parameters, another experiment whose code throws or whose actions, addresses or triggers are invalid, and browsers without newer features (constructable style sheets, idle callbacks, crypto, performance and so on) change nothing of what is shown: the tag starts, every flag that needs no request shows on the active pages what it would show without the failure, pages become active on the same navigations and triggers, the page is not left hidden, the page's own navigations work, and no exception or rejection of the tag reaches the page. Only without working local storage when the tag is loaded, it refuses to initialize and leaves the page alone.",
  ['faults','histories','configurations'],'every failure at any access in every life of a device: page loads, navigations, triggers, events and variants',
  'Tests mock one failing call at a time and look at the return value of one function.',
  [TAG+'experiment.ts',TAG+'util/storage.ts',TAG+'util/cookie.ts',TAG+'util/csp-safe-stylesheet.ts',TAG+'behavioral-targeting/event-storage.ts',TAG+'index.ts'],[('start','DefaultWebExperimentClient.start'),('stored data','getStoredObject, getStorageItem'),('styles','cspSafeStyleSheet')], observe=['mutations and styles in effect','errors, rejections and timer errors of the page','address after navigation'])

p('C24','The SDK works in every JavaScript runtime, whatever browser globals are missing',
  "Loading the SDK, creating a client through any factory, and calling its methods neither throws nor rejects in a browser, on a server, in workers, native shells and Safari versions whose globalThis is null, whichever of window, document, location, navigator, storages, timers, fetch and the like are missing, null (other than window) or incomplete. Variants, exposures and, with a usable transport, the requests made are those of a full browser for everything that does not depend on what is missing; with a null globalThis and an intact window also everything stored.",
  ['configurations','faults','histories'],'every subset of missing, null or incomplete globals, every script of calls, every factory, integration and transport',
  'Tests mock one missing global for one helper each.',
  ['packages/experiment-core/src/util/global.ts','packages/analytics-connector/src/util/global.ts',BR+'factory.ts',BR+'providers/default.ts',BR+'storage/local-storage.ts',BR+'transport/http.ts','packages/experiment-core/src/util/poller.ts'],[('global scope','getGlobalScope'),('connector','safeGlobal'),('context','DefaultUserProvider')], observe=['answers of the client','exposures delivered to integrations','requests','storage contents'])

p('C25','The deprecated analytics provider hears of each shown variant and its loss once',
  "With an analytics provider, an exposure of a variant that has a value and does not come from a fallback calls setUserProperty and then track once, until a different variant of that flag is exposed or the flag has been unset; an exposure without value or from a fallback calls unsetUserProperty once, until a variant of the flag is exposed again. The event carries the flag key, the variant shown, its source, the user and the user property. Nothing is called for variants that disable tracking or without automatic tracking and exposure(). The provider may lack either user property method, and flags may have any key.",
  ['histories','configurations'],'every history of variant(), exposure(), fetches, flags, users and fallbacks, and every shape of provider',
  'Tests expose one flag to a provider with all methods.',
  [BR+'util/sessionAnalyticsProvider.ts',BR+'experimentClient.ts',BR+'types/analytics.ts'],[('dedupe','SessionAnalyticsProvider'),('routing','legacyExposureInternal'),('event','exposureEvent')], observe=['calls of the analytics provider'])

p('C26','The logger hears exactly the messages of the configured level',
  "The SDK logs to the configured logger, or to the console if there is none, exactly the messages whose level is at most the configured one (error when nothing is configured, debug with the debug flag, nothing at level 0), in the same order and by the method of their level; with a configured logger nothing reaches the console. What is logged never changes an answer or an exposure.",
  ['configurations','histories'],'every configuration of logger, level and debug flag over every script of calls',
  'Tests call the wrapper directly with one message per level.',
  [BR+'logger/ampLogger.ts',BR+'logger/consoleLogger.ts',BR+'experimentClient.ts'],[('filter','AmpLogger'),('level','getLogLevel'),('console','ConsoleLogger')], observe=['calls of the logger','console calls'])

p('C58','The browser and visit facts in the user are those of the visitor',
  "A client made by initialize evaluates, sends and reports, without any configuration, what the browser knows when it is asked: the first preferred language, platform Web, browser, version, operating system and device category of the user agent, the referrer, the parameters of the current URL (repeated or comma-separated ones as lists, under any name) and the complete cookies, which are never sent. The landing URL is the first one of the tab's session and first_seen the device's first visit; both survive reloads, in-page URL changes and time. A field of the application's own provider wins over these, an explicit one over both. Failing storage or cookies cost no more than the fields they hold.",
  ['inputs','histories','faults'],'every URL, cookie set, language and referrer, every history of pages, tabs, origins, in-page navigation and deployments, and every moment of a storage or cookie failure',
  'Tests read one fixed page through mocked globals.',
  [BR+'providers/default.ts',BR+'factory.ts',BR+'experimentClient.ts'],[('facts','DefaultUserProvider.getUser'),('visit','getLandingUrl, getFirstSeen'),('merge','addContext')], observe=['X-Amp-Exp-User header','reported users','probe flags'])

if __name__ == '__main__':
    with open(OUT, 'w') as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
    print(len(P))
