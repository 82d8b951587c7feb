CORE="pkg/core/"; CX="pkg/cortexdb/"; GR="pkg/graph/"; HS="pkg/hindsight/"; IX="pkg/index/"; SR="pkg/semantic-router/"

p("C01","Acknowledged writes read back exactly; refused writes change nothing",
  "After any sequence of inserts, overwrites and deletions of embeddings, every read (by id, by document, listings, counts) returns exactly the content of the latest acknowledged write: the same vector, text, document, metadata, collection and access list. An operation that reports an error leaves everything readable unchanged.",
  ["histories","inputs"],"every sequence of single-item and bulk writes and deletes over every id, document, collection and metadata value, valid or invalid",
  "Tests write one or two items and read them back; none interleaves overwrites that move an item between documents or collections with deletes and failing calls.",
  [CORE+"store_crud.go",CORE+"store_query.go"],[("insert-or-replace and delete statements","pkg/core/store_crud.go"),("row readers","pkg/core/store_query.go")],
  [("rows","id -> (vector, content, doc, metadata, collection, acl)")],["GetByID","GetByDocID","ListDocuments","Stats","UpsertBatch"])
p("C02","Acknowledged writes survive reopen and process kill",
  "Every write acknowledged before the store is closed, or before its process is killed at any moment, is present with its exact content when the database file is opened again, and every acknowledged deletion stays deleted. A write that was still in flight at the kill is present either completely or not at all, and the reopened store serves searches over exactly what it contains, whatever index configuration it is reopened with.",
  ["crash_points","histories","configurations"],"every crash instant, every history of embeddings, chat, graph and memory writes before it, every index type before and after",
  "No test kills a process; the few reopen tests use one configuration and a clean close.",
  [CORE+"store_init.go",CORE+"store_index.go",CORE+"store_close.go"],[("WAL mode and index rebuild on open","pkg/core/store_init.go"),("index snapshots","pkg/core/store_index.go")],
  [("database file","tables plus persisted index snapshots")],["Init","Search","GetByID"])
p("C03","Bulk operations are all-or-nothing",
  "A bulk insert or bulk delete that reports an error, whatever the position of the offending item or the moment storage starts failing, leaves the stored data and every search result exactly as before; one that reports success has applied every item. This includes the bulk graph writes that report overall failure.",
  ["fault_sequences","inputs"],"every batch, every position of an invalid item, every storage fault at any row, and a cancelled context",
  "Tests use one bad item in one position and never inject a storage fault.",
  [CORE+"store_crud.go",GR+"graph_batch.go"],[("transaction around the batch","pkg/core/store_crud.go"),("graph batch transactions","pkg/graph/graph_batch.go")],
  [("rows","id -> row"),("index","ids served by search")],["UpsertBatch","DeleteBatch","DeleteByFilter","UpsertNodesBatch","ExecuteBatch"])
p("C04","Deleted items never come back on any retrieval path",
  "Once an item has been deleted (directly, in bulk, by filter, by document, by clearing, or with its collection), no retrieval operation returns it again: reads, vector search, keyword search, hybrid, range, streaming, filtered, faceted or aggregated results, until it is written again. Re-writing a deleted id makes it retrievable again with its new content only.",
  ["histories","configurations"],"every history of writes, deletions and re-writes, for every index configuration and deletion route",
  "Tests delete once and check one retrieval path; deletion routes crossed with retrieval paths and index types are not covered.",
  [CORE+"store_crud.go",CORE+"store_index.go",CORE+"collections.go",IX+"hnsw.go",IX+"ivf.go"],[("index maintenance on delete","pkg/core/store_crud.go"),("candidate re-reading","pkg/core/store_search.go")],
  [("rows","id -> row")],["Search","HybridSearch","RangeSearch","StreamSearch"])
p("C05","Exact vector search returns the true top-k",
  "A search without an approximate index returns exactly the k best-matching stored items under the configured similarity, in non-increasing score order, each once, with the score equal to the true similarity of the query and the stored vector, and never an item below the requested threshold. Range search returns exactly the items within the radius, nearest first, with their true distance.",
  ["inputs","histories","configurations"],"all stored sets, queries (any sign, zero vector, ties), k, thresholds, radii and similarity functions",
  "Tests use a handful of vectors with an obvious winner; order, ties, negative similarities, thresholds and k boundaries are sampled at one point.",
  [CORE+"store_search.go",CORE+"similarity.go",CORE+"aggregations.go",CORE+"advanced_search.go"],[("linear scan, scoring and truncation","pkg/core/store_search.go"),("range search","pkg/core/advanced_search.go")],
  [("rows","id -> vector")],["Search","RangeSearch"])
p("C06","Indexed search stays coherent with the stored rows",
  "With an approximate index enabled, every search result is a currently stored item scored against its current vector and ordered by score, whatever the history of inserts, overwrites, deletions, clears, rebuilds, reopenings and retraining. For collections small enough that the index need not approximate, the result equals the exact search, so no stored item that belongs in the answer is missing.",
  ["histories","configurations"],"every history of writes/deletes/reopens under graph-based and cluster-based index configurations, and every query",
  "Tests build an index once and query it; overwrite, delete-then-reinsert, reopen and snapshot reload sequences are not explored.",
  [CORE+"store_index.go",CORE+"store_search.go",CORE+"store_crud.go",IX+"hnsw.go",IX+"ivf.go"],[("index insert/delete hooks","pkg/core/store_crud.go"),("index rebuild and snapshot load","pkg/core/store_index.go")],
  [("rows","id -> vector"),("index","ids and vectors known to the index")],["Search with HNSW/IVF"])
p("C07","Collections are isolated from one another",
  "An operation addressed to one collection only ever returns, counts, changes or removes items of that collection; an item lives in exactly one collection, the one named by its latest write, and the statistics of a collection (count, size, whether and when something was inserted) describe its own items. Creating an existing collection, and writing to or reading the description of a collection that does not exist, are refused without effect.",
  ["histories","inputs"],"every history of collection creation/deletion and scoped operations on every retrieval and deletion path",
  "Tests use two collections and one search; the many scoped entry points are not crossed with items that move.",
  [CORE+"collections.go",CORE+"store_search.go",CORE+"store_crud.go"],[("collection filter in each query","pkg/core/store_search.go"),("collection CRUD","pkg/core/collections.go")],
  [("collections","name -> dimension"),("rows","id -> row with its collection")],["Search","HybridSearch","DeleteByFilter","GetCollectionStats"])
p("C08","Metadata filters select exactly the matching items",
  "Every filtered operation (search with filters, advanced boolean filters, pre- or post-filtered search, delete by filter, filtered aggregation and dump) acts on exactly the items whose metadata satisfies the filter under its boolean meaning, including negation, nesting, lists, ranges and missing keys. A filter never lets through, nor deletes, a non-matching item.",
  ["inputs","histories"],"every filter expression over and/or/not/equality/comparison/in/between/pattern/existence and every metadata assignment",
  "Tests try one expression per operator; combinations (negation inside or, filter with collection, missing keys) are unbounded.",
  [CORE+"advanced_filter.go",CORE+"advanced_search.go",CORE+"store_search.go",CORE+"store_crud.go"],[("filter to SQL translation","pkg/core/advanced_filter.go"),("in-memory evaluation","pkg/core/advanced_filter.go")],
  [("rows","id -> metadata")],["SearchWithAdvancedFilter","SearchWithFilter","DeleteByFilter","Aggregate"])
p("C09","Access-controlled search never crosses the access list",
  "An access-controlled search returns only items that are public or whose access list contains the caller or one of the caller's groups; an item without its own list takes its document's list. Every accessible item that matches is eligible and the best k of them are returned, however the caller's identities are spelled and whatever collection is searched.",
  ["inputs","histories"],"every assignment of access lists to items and documents, every set of caller identities, every collection scope",
  "Tests check one user and two documents; identity spellings (prefixes, quotes, wildcards), inheritance and collection scope are not explored.",
  [CORE+"store_search.go",CORE+"document.go"],[("access predicate","pkg/core/advanced_search.go")],
  [("rows.acl","allowed identities per item"),("docs.acl","allowed identities per document")],["SearchWithACL"])
p("C10","Removing a parent removes exactly its dependents",
  "Deleting a document, collection or graph node removes all of its dependents (chunks, items, incident edges) and nothing else, no matter which pooled connection serves the call or how many calls are in flight. No dependent is ever left, or created, without its parent.",
  ["histories","schedules"],"every history of parent/child creation and deletion, under any number of simultaneously busy connections",
  "Tests run one call at a time and so only ever see the first pooled connection.",
  [CORE+"store_init.go",CORE+"document.go",CORE+"collections.go",CORE+"chat.go",GR+"graph.go"],[("foreign keys with cascade","pkg/core/store_init.go")],
  [("parents","documents, collections, sessions, nodes"),("children","rows, messages, edges")],["DeleteDocument","DeleteCollection","DeleteNode","AddMessage"])
p("C11","Keyword search reflects exactly the current text",
  "A keyword search returns only stored items whose current text matches the query and finds every one of them (up to the requested count), after any sequence of inserts, overwrites, moves and deletions, and after reopening. Text that was overwritten or deleted is no longer findable and punctuation or quotes in the query never make the call fail.",
  ["histories","inputs"],"every history of text writes/overwrites/deletes and every query string",
  "Tests insert a few texts once; stale entries appear only after overwrite and delete sequences.",
  [CORE+"store_init.go",CORE+"advanced_search.go",CX+"cortexdb.go"],[("full-text triggers","pkg/core/store_init.go"),("query building","pkg/core/advanced_search.go")],
  [("rows.content","current text"),("text index","entries per item")],["HybridSearch","SearchTextOnly"])
p("C12","Hybrid search fuses only in-scope results",
  "A hybrid (vector plus keyword) search returns distinct stored items that belong to the requested collection and satisfy the requested filter, at most k of them, ordered by fused score. An item ranked at least as well in both legs is never placed behind one ranked worse in both, and an item absent from both legs never appears.",
  ["inputs","histories"],"every stored set, query text/vector pair, scope and k",
  "Tests use one dataset with no scope restriction.",
  [CORE+"advanced_search.go",CX+"cortexdb.go"],[("reciprocal rank fusion","pkg/core/advanced_search.go")],
  [("rows","id -> vector, content, collection, metadata")],["HybridSearch"])
p("C13","Dump, load and backup preserve the data",
  "Loading a dump into an empty store reproduces every dumped item (id, vector, text, document, metadata, collection, access list) and nothing else, and a filtered dump holds exactly the items its filter selects. Loading malformed input ends with an error instead of hanging, and a dump never changes the source.",
  ["inputs","histories"],"every stored set, every dump format and filter, every truncation or corruption of the dump",
  "Tests round-trip a tiny set; formats, filters, odd metadata and malformed files are not covered.",
  [CORE+"io.go"],[("dump writer and loader","pkg/core/io.go")],[("rows","id -> row")],["Dump","Load","Backup"])
p("C14","Aggregations and facets equal a recount of the rows",
  "Every aggregation (count, sum, average, minimum, maximum, grouped, filtered, having, ordered, limited) and every facet or faceted search equals the value recomputed from the stored items in scope, after any history. Items outside the requested collection or filter, or lacking the field, never influence it.",
  ["inputs","histories"],"every stored set, field, grouping, filter and scope",
  "Tests use a single fixed dataset.",
  [CORE+"aggregations.go",CORE+"faceted_search.go"],[("SQL aggregates","pkg/core/aggregations.go"),("facet predicates","pkg/core/faceted_search.go")],
  [("rows.metadata","fields")],["Aggregate","FacetedSearch"])
p("C15","Dimension policy is enforced uniformly",
  "Once a store has a dimension, every stored vector has it: a vector of another length is either refused without effect or adapted exactly as the configured policy says, identically for single and bulk writes. Vectors that contain non-finite numbers are always refused, and queries follow the same rules.",
  ["inputs","configurations","histories"],"every vector length, policy, auto-detection order, write route",
  "Tests check one policy with one single write; bulk routes and detection after deletes are not.",
  [CORE+"dimension.go",CORE+"store_crud.go",CORE+"collections.go"],[("dimension adapter","pkg/core/dimension.go"),("validation","internal/encoding")],
  [("dim","store dimension, 0 until detected"),("rows","id -> vector")],["Upsert","UpsertBatch","Search"])
p("C16","Concurrent use is linearizable and never deadlocks",
  "Any number of concurrent callers behave as if their operations ran one at a time in an order consistent with real time: reads return the latest completed or an overlapping write, searches contain everything stored throughout the call and nothing deleted before it. No call blocks forever, panics, or fails with an error the same call could not produce alone.",
  ["schedules"],"every interleaving of concurrent reads, writes, bulk operations, searches, maintenance and close",
  "The race-free single-goroutine tests sample one schedule.",
  [CORE+"store.go",CORE+"store_crud.go",CORE+"store_search.go",CORE+"store_init.go",GR+"graph.go"],[("read/write lock","pkg/core/store.go"),("busy timeout","pkg/core/store_init.go")],
  [("rows","id -> row")],["all exported operations"])
p("C17","A closed store refuses work, and closing is safe",
  "After close returns, every operation fails with an error and changes nothing; closing again, or closing a store that was never opened, is harmless. Data written before the close is intact when the file is opened again.",
  ["histories","schedules"],"every operation after close and every order of open/close, including close during running calls",
  "Tests check two operations after close.",
  [CORE+"store_close.go",CORE+"store.go",CX+"cortexdb.go"],[("closed flag","pkg/core/store.go")],[("closed","whether close has completed")],["Close","every operation"])
p("C18","Chat history is complete, ordered and session-scoped",
  "A session's history is exactly the messages acknowledged for that session, oldest first, the last n when limited, each with its role, text, metadata and vector; messages of other sessions never appear. Vector search over a session returns only that session's messages, best first; keyword and vector search over a user's messages return only messages of that user's sessions, leaving out the excluded session.",
  ["histories","inputs"],"every interleaving of sessions, messages, limits, deletions and searches",
  "Tests use one session with a few messages.",
  [CORE+"chat.go"],[("chat queries","pkg/core/chat.go")],[("sessions","id -> user, title"),("messages","session -> sequence")],["AddMessage","GetSessionHistory","SearchChatHistory"])
p("C19","Streaming search delivers the same answer as search",
  "A streaming search delivers each item of its scope that satisfies the threshold exactly once, with its true score, and then ends its stream; the best k collected from it equal a plain search. Stopping early (cancellation, early termination) ends the stream and leaves the store usable, and updates accepted by the incremental index are searchable at once and stored when it is closed.",
  ["inputs","histories","schedules"],"every stored set, batch size, k, threshold, filter and consumer behaviour",
  "Tests consume one stream of a few items.",
  [CORE+"streaming.go"],[("streaming loop","pkg/core/streaming.go")],[("rows","id -> vector")],["StreamSearch"])
p("C20","Re-ranking and diversification never invent or duplicate results",
  "Re-ranked, diversified, negative-example and boosted searches return distinct stored items of the requested scope, at most k of them, chosen from the candidates of the underlying search. Their order follows the documented rule of each method, and with neutral parameters they agree with the plain search.",
  ["inputs","histories"],"every stored set, query, negative set, diversity weight and k",
  "Tests check a single example per method.",
  [CORE+"advanced_search.go",CORE+"reranker.go"],[("MMR and re-rankers","pkg/core/reranker.go")],[("rows","id -> vector, content")],["SearchWithDiversity","SearchWithReranker","SearchWithNegatives"])
p("C21","Multi-vector entities aggregate exactly their own vectors",
  "A multi-vector entity, once stored, is retrieved with exactly its latest fields and deleted as a whole; a multi-vector search returns each entity at most once with the score the chosen aggregation gives over that entity's own vectors, best first, at most k and none below the threshold.",
  ["inputs","histories"],"every set of entities and fields, weights and aggregation choice",
  "Tests store one entity.",
  [CORE+"multi_vector.go"],[("entity rows","pkg/core/multi_vector.go")],[("entities","entity -> field -> vector")],["UpsertMultiVector","SearchMultiVector"])
p("C22","Every index structure behaves as a set of identified vectors",
  "After any sequence of insertions, re-insertions and deletions, an index reports exactly the current number of ids and a search returns only current ids, each once, nearest first, with the distance of its latest vector. The brute-force index returns exactly the k nearest and approximate ones do so when they hold few enough vectors to scan all of them.",
  ["histories","inputs"],"every sequence of add/delete/search for the flat, graph, cluster, hash and combined indexes",
  "Tests insert distinct ids and delete one; re-insertion and deletes that shift positions are not explored.",
  [IX+"flat.go",IX+"hnsw.go",IX+"ivf.go",IX+"lsh.go",IX+"multi_index.go"],[("per-index maps","pkg/index/*.go")],[("vectors","id -> vector")],["Insert","Delete","Search"])
p("C23","Saved indexes load back equivalent, bad snapshots are refused",
  "An index written out and read back answers every query with the same ids and distances as before, stays correct under further inserts and deletes, and reports the same size. A truncated snapshot is refused with an error and leaves the index as it was; no damaged snapshot crashes the reader.",
  ["inputs","histories","fault_sequences"],"every index content (including after deletions), every truncation or corruption point",
  "Tests save one clean index and load it once.",
  [IX+"hnsw.go",IX+"ivf.go",IX+"multi_index.go"],[("serialisation","pkg/index/hnsw.go")],[("vectors","id -> vector")],["Save","Load"])
p("C24","Graph nodes and edges read back exactly and stay consistent",
  "Graph reads return exactly the latest acknowledged nodes and edges (content, type, vector, properties, weight, direction); an edge is refused unless both ends exist, and removing a node removes its incident edges and nothing else. Failed operations change nothing and filters by type return exactly the matching elements.",
  ["histories","inputs"],"every sequence of node/edge upserts, deletes and reads, valid or not",
  "Tests build one fixed graph.",
  [GR+"graph.go"],[("graph tables and cascades","pkg/graph/graph.go")],[("nodes","id -> node"),("edges","id -> edge")],["UpsertNode","GetEdges","DeleteNode"])
p("C25","Graph traversal matches the edges",
  "Neighbour, shortest-path, connectivity and subgraph queries return exactly what the stored edges imply for the requested direction, depth, edge and node types and limit: every reachable node within the depth once, a path of minimal length made of real edges, and no path when none exists. Cycles, self-loops and parallel edges never cause loops or duplicates.",
  ["inputs","histories"],"every directed typed multigraph, start, direction, depth, type filter and limit",
  "Tests use one fixed acyclic graph.",
  [GR+"graph_traversal.go"],[("breadth-first search","pkg/graph/graph_traversal.go")],[("edges","id -> (from,to,type)")],["Neighbors","ShortestPath","Connected","SubGraph"])
p("C26","Bulk graph operations equal the sequence of single operations",
  "A bulk graph operation has the effect of its single operations one after another, reports how many succeeded and failed truthfully, and refuses or reports each bad element as its single form would. Reads and similarity searches afterwards see exactly the same graph as after the single calls.",
  ["inputs","histories"],"every batch mixing valid and invalid creates, updates and deletes",
  "Tests use all-valid batches.",
  [GR+"graph_batch.go"],[("batch transactions","pkg/graph/graph_batch.go")],[("nodes","id -> node"),("edges","id -> edge")],["UpsertNodesBatch","DeleteNodesBatch","ExecuteBatch"])
p("C27","Graph similarity and hybrid search are sound and current",
  "Similarity search over a graph returns only existing nodes, each once, scored against their current vectors, best first and at most k, with or without the graph's vector index and after any history of updates and deletions; hybrid search combines that similarity with graph distance as weighted. A filtered search returns only nodes of the requested types and threshold.",
  ["histories","inputs","configurations"],"every history of node updates/deletes, with the index enabled before, during or after, every query and weight",
  "Tests enable the index on a static graph.",
  [GR+"graph_hnsw.go",GR+"graph_hybrid.go",GR+"graph.go"],[("graph vector index maintenance","pkg/graph/graph_hnsw.go")],[("nodes","id -> vector")],["HNSWSearch","HybridSearch","GraphVectorSearch"])
p("C28","Graph export and import preserve the graph",
  "Exporting a graph in any supported format and importing it into an empty store reproduces every node and edge with its ids, types, weights and properties; malformed input is refused with an error. Export never changes the source graph.",
  ["inputs","histories"],"every graph, including empty, special characters, self-loops and parallel edges, in every format",
  "Tests round-trip one tiny graph.",
  [GR+"graph_export.go"],[("writers and readers","pkg/graph/graph_export.go")],[("nodes","id -> node"),("edges","id -> edge")],["Export","Import"])
p("C29","Graph analytics agree with the stored graph",
  "Statistics, connected components, communities, ranking and edge prediction are functions of the current graph: counts, average degree and density equal a recount, components are exactly the classes of undirected reachability, communities partition the nodes without joining unconnected ones or leaving a node tied more strongly to another community, ranks cover every node once, highest first, and satisfy the ranking equation for the given damping, and predictions never propose an existing link or the node itself.",
  ["inputs","histories"],"every graph, with isolated nodes, dangling nodes, cycles, self-loops and parallel edges",
  "Tests use one graph and check for non-emptiness.",
  [GR+"graph_algorithms.go"],[("algorithms","pkg/graph/graph_algorithms.go")],[("nodes","ids"),("edges","adjacency")],["PageRank","CommunityDetection","GetGraphStatistics","PredictEdges"])
p("C30","Memories never leak between scopes",
  "A memory is visible to searches of exactly its own scope, user, session and namespace and of no other, whatever characters those identifiers contain. Re-saving an existing memory in another scope moves it, so it is never visible in two.",
  ["inputs","histories"],"every combination of scope, user, session and namespace identifiers, including separator characters, and every history of saves",
  "Tests use one user per scope and plain identifiers.",
  [CX+"memory_api.go",CX+"knowledge_memory_helpers.go"],[("bucket derivation","pkg/cortexdb/memory_api.go")],[("memories","id -> scope, user, session, namespace, content")],["SaveMemory","SearchMemory"])
p("C31","Memory lifecycle: latest content, importance, expiry",
  "Saving, updating, getting, searching and deleting memories always reflect the latest acknowledged state of each memory; a deleted memory is gone and deleting or updating a missing one is an error. A memory whose lifetime has ended is never returned by a search, never displaces a live one, and unexpired ones are always found.",
  ["histories","inputs"],"every history of saves, updates, deletes, lifetimes and searches with and without vectors",
  "Tests save a handful of memories and never mix expired and live ones.",
  [CX+"memory_api.go"],[("expiry filter","pkg/cortexdb/memory_api.go")],[("memories","id -> content, importance, expiry")],["SaveMemory","UpdateMemory","SearchMemory","DeleteMemory"])
p("C32","Knowledge documents are replaced and removed as a whole",
  "After saving, updating or deleting a knowledge document, exactly the latest version's chunks, entities and relations of that document are retrievable and no remnant of an earlier or deleted version is; other documents are unaffected. A save or update that is refused, fails or is abandoned by its caller (cancelled or timed out) takes effect as a whole or leaves the previous version intact.",
  ["histories","inputs","fault_sequences"],"every history of saves, shrinking and growing updates, moves between collections, deletions and failures",
  "Tests save and delete a single document.",
  [CX+"knowledge_api.go",CX+"graphrag.go"],[("document and chunk rewrite","pkg/cortexdb/knowledge_api.go")],[("knowledge","id -> title, chunks, collection")],["SaveKnowledge","UpdateKnowledge","DeleteKnowledge","SearchKnowledge"])
p("C33","Graph-augmented retrieval stays in scope and within budget",
  "Graph-augmented retrieval returns distinct chunks of the requested collection only, at most the requested number per stage, with entities and relations actually connected to them within the requested hops. The assembled context never exceeds its stated limits on chunks and characters and contains only retrieved text, except that one chunk is always returned, however long. Text search over chunks finds exactly the matching ones, and entity search and graph expansion exactly what is within the requested hops.",
  ["inputs","histories"],"every corpus, entity sharing between collections, hop and budget setting",
  "Tests use one collection and generous budgets.",
  [CX+"graphrag.go",CX+"graphrag_tools.go"],[("seed and expand","pkg/cortexdb/graphrag.go")],[("chunks","id -> doc, collection, entities")],["SearchGraphRAG","BuildContext"])
p("C34","Tool calls are equivalent to the direct API",
  "Invoking a tool by name with a JSON payload has exactly the effect and result of the corresponding direct call; unknown tools, malformed payloads and missing required fields are refused without effect. Every advertised tool can be invoked.",
  ["inputs","histories"],"every advertised tool, every payload, interleaved with direct calls",
  "Tests call some tools once.",
  [CX+"graphrag_tools.go",CX+"knowledge_memory_tooldefs.go",CX+"mcp.go"],[("dispatch","pkg/cortexdb/graphrag_tools.go")],[("store","all data")],["Tools.Call"])
p("C35","Memory banks are isolated and recall answers what was asked",
  "Recall from a memory bank returns only memories retained in that bank, each once, exactly as retained (text, vector, type, entities, confidence, metadata, time) whatever user metadata was attached and whatever ids other banks use; retaining in one bank never changes another. Each recall strategy (semantic, keyword, entity, time range) chooses from the whole bank what satisfies it, best first, up to its limit; combined strategies return members of the individual answers, a memory that is better under every strategy first, at most k in all; a reranker sees all candidates and decides the order unless it fails or returns nothing. Reflection and observation use exactly the recalled memories: the context stays within its token budget and whole characters, observations of the requested kinds name their sources and have the confidence their number and the bank's scepticism give, and those confident enough are kept and listed with all their fields. Facts extracted from text are retained, skipped and counted one by one. Banks and their settings, memories and observations survive reopening, and deleting a bank removes it without affecting others.",
  ["histories","inputs"],"every history of banks, retained memories of every type, recall, reflection and observation requests, extraction and reopenings",
  "Tests use one bank and a handful of memories.",
  [HS+"hindsight.go",HS+"bank.go",HS+"hooks.go"],[("bank filters","pkg/hindsight/hindsight.go")],[("banks","id -> settings"),("memories","bank, id -> text, vector, type, entities, confidence, time, metadata")],["Retain","Recall","Reflect","Observe","AddObservation","GetObservations","RetainFromText","CreateBank","DeleteBank"])
p("C36","Automatic retention triggers exactly when configured",
  "With automatic retention on, the extractor runs exactly once for every n-th qualifying message (counted over all sessions since it was enabled), sees the latest messages of the session of that message, oldest first and at most the configured window, and what it extracts is retained in the bank given with that message, also when messages arrive concurrently or the system is closed right away. Messages that do not qualify, or are refused, never trigger it, and extractor failures never lose a message.",
  ["histories","schedules"],"every interleaving of messages over sessions, banks and roles, every trigger, role and window setting, failing extractors",
  "Tests send a fixed number of messages in one session.",
  [HS+"chat.go",HS+"hooks.go"],[("trigger counter","pkg/hindsight/chat.go")],[("counter","qualifying messages seen"),("sessions","id -> messages in order")],["AddMessage","SetAutoRetain","SetFactExtractor","Close"])
p("C37","Semantic routing picks the best route and respects thresholds",
  "Routing returns the route with the highest similarity to any of its utterances and matches only at or above its threshold; removed routes are never returned, added ones are immediately, names are unique, and a batch routes each query as a single call would. A refused or failed change leaves the routes as they were, and persisted routes are the same after reload. A result carries the handler of the route it names, and function routing calls exactly the function registered for the matched route, with the parameters found in the text.",
  ["inputs","histories"],"every set of routes and utterances, thresholds, add/remove history, query",
  "Tests use two routes and an obvious query.",
  [SR+"router.go",SR+"hybrid.go",SR+"sparse.go",SR+"schema.go"],[("route scoring","pkg/semantic-router/router.go")],[("routes","name -> utterances")],["Add","Remove","Route","RouteBatch"])
p("C38","Geographic queries return exactly the points in the region",
  "Radius, nearest-neighbour, bounding-box and polygon queries return exactly the currently indexed points that lie in the region, each once, with true great-circle distance and nearest first where ordered, anywhere on the globe. Moved points are found only at their latest position and deleted ones not at all.",
  ["inputs","histories"],"every set of coordinates (poles, date line, grid boundaries), regions and insert/move/delete histories",
  "Tests use a few cities.",
  ["pkg/geo/geospatial.go"],[("grid index","pkg/geo/geospatial.go")],[("points","id -> coordinate")],["SearchRadius","SearchKNN","SearchBoundingBox"])
p("C39","Vector compression round trips within its stated error",
  "Scalar quantization decodes every encoded vector to within one quantization step of the original (clamped to the trained range); binary quantization keeps, per dimension, on which side of the training mean the component lies; product quantization chooses the nearest centroid in every subspace. Encoding and decoding are deterministic. Distances (Hamming, and Euclidean between a query and product codes) are those of the vectors the codes stand for, and a search over codes returns the closest ones in order. Untrained use, wrongly sized vectors or codes and malformed serialised data are refused as a whole, leaving the quantizer as it was, and a saved and reloaded quantizer encodes and decodes identically.",
  ["inputs","configurations"],"every training set, bit width, number of subspaces and vector",
  "Tests encode a few vectors.",
  ["pkg/quantization/scalar_quantization.go","pkg/quantization/product_quantization.go"],[("codebooks","pkg/quantization")],[("codebook","trained ranges and centroids")],["Encode","Decode"])
