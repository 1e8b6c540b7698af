p("C01", "A thread pool runs every accepted task exactly once and drains on stop",
  "Every task the pool accepts runs exactly once and its future delivers that task's return value or exception. join() and destruction return only after every accepted task has finished, and they always return. A task never stays queued while a worker is idle, so tasks which wait for each other make progress if there are enough workers. A task submitted once the pool has been stopped is refused with an exception and never runs.",
  ["schedules", "inputs", "histories"],
  "every pool of at least one thread, every set of concurrent submitters and stoppers, every task duration and failure, every interleaving of workers, submitters and join/destructor",
  "No test drives the pool itself; the scheme tests use it under whatever schedule the OS happens to pick, which almost never reaches a stop racing an enqueue or a wake-up lost between two workers.",
  [I+"utils/thread_pool.hpp"],
  [("queue lock, condition variable and stop flag; workers leave only when stopped and empty", I+"utils/thread_pool.hpp: ThreadPool::ThreadPool"),
   ("refusal after stop", I+"utils/thread_pool.hpp: ThreadPool::enqueue"),
   ("stop, notify_all, join every worker", I+"utils/thread_pool.hpp: ThreadPool::join, ~ThreadPool")],
  [("tasks", "accepted tasks no worker has taken yet", I+"utils/thread_pool.hpp")],
  ["futures returned by enqueue", "side effects of the tasks", "return of join() and of the destructor"])

p("C02", "Every accepted asynchronous I/O completes exactly once, and waiting ends",
  "For every asynchronous I/O scheduler, each accepted read or write calls its callback exactly once, with the caller's data pointer and the result (byte count or error) of that very request, and a request that was refused never calls back. Waiting for completions, or destroying the scheduler, returns only once the callback of every accepted request has run, and always returns once the device has answered. This holds when the queue of in-flight requests is full, when the kernel accepts only part of a batch, and when requests complete in any order or fail.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of submitting threads with the completion machinery, every completion order, partial batch submission, full submission queue, interrupted wait, short or failed I/O",
  "The awonvm_vector tests submit a few requests on a real disk that completes everything at once and in order: no full queue, no interrupted wait, no failure, one schedule.",
  ["lib/abstractio/linux_aio_scheduler.cpp", "lib/abstractio/linux_aio_scheduler.hpp", "lib/abstractio/thread_pool_aio_scheduler.cpp", "lib/abstractio/thread_pool_aio_scheduler.hpp", "lib/abstractio/scheduler.cpp", I+"abstractio/scheduler.hpp"],
  [("completion thread reaping events and calling back", "lib/abstractio/linux_aio_scheduler.cpp: notify_loop"),
   ("resubmission after a partial batch; waiting for room when the queue is full", "lib/abstractio/linux_aio_scheduler.cpp: submit_iocbs"),
   ("running-request counter and condition variable", "lib/abstractio/thread_pool_aio_scheduler.cpp: wait_completions, submit_pread, submit_pwrite")],
  [("submitted/completed/failed counts", "requests handed over, answered, refused by the kernel", "lib/abstractio/linux_aio_scheduler.hpp")],
  ["callbacks", "return values of submit_pread/submit_preads/submit_pwrite", "return of wait_completions and of the destructor"])

p("C03", "A committed vector holds exactly what was appended, and is write-once",
  "After a persistent append-only vector is committed, and after any later reopening of its file, its size is the number of appended elements and the element at each index is exactly the one whose append returned that index, for any number of concurrent appenders and whatever the order in which writes complete. Each append returns a different index. Once the vector is committed, appends are refused and change neither its contents nor its size.",
  ["schedules", "histories", "inputs"],
  "every element size, count, mix of synchronous and asynchronous appends, completion order, interleaving of appending threads, and sequence of commit, move, reopen and change of access mode",
  "The tests append a fixed set of values sequentially from one thread on a disk that completes writes in order.",
  [I+"abstractio/awonvm_vector.hpp", "lib/abstractio/scheduler.cpp", "lib/abstractio/linux_aio_scheduler.cpp"],
  [("index reservation and positioned write", I+"abstractio/awonvm_vector.hpp: push_back, async_push_back"),
   ("waiting for all writes before reads are allowed", I+"abstractio/awonvm_vector.hpp: commit"),
   ("size recovered from the file", I+"abstractio/awonvm_vector.hpp: constructors")],
  [("committed flag and size", "write-once state", I+"abstractio/awonvm_vector.hpp")],
  ["size()", "get()", "is_committed()", "bytes of the file"])

p("C04", "Asynchronous vector reads answer once, with the right element or with nothing",
  "Every accepted asynchronous read of a committed vector calls its callback exactly once, with exactly the stored element, or with a null result if and only if the underlying read failed or was short. Reads outside the vector are refused with an exception and never call back. Buffers in use by an outstanding read are never released or reused, whatever fails around them.",
  ["schedules", "fault_sequences", "inputs"],
  "every batch of indices, interleaving of concurrent readers, completion order, failed or short read and partially accepted batch",
  "Tests read back small vectors without a failing, short or reordered read, and never with a partly refused batch.",
  [I+"abstractio/awonvm_vector.hpp", "lib/abstractio/linux_aio_scheduler.cpp", "lib/abstractio/thread_pool_aio_scheduler.cpp"],
  [("length check deciding between element and null", I+"abstractio/awonvm_vector.hpp: async_get, async_gets"),
   ("ownership of the read buffer passed to the callback", I+"abstractio/awonvm_vector.hpp: async_get, async_gets")],
  (), ["callbacks of async_get/async_gets", "exceptions"])

p("C05", "Committed vector data survives power loss; failed writes are not committed",
  "When commit of a persistent vector returns and the vector says it is committed, every appended element can be read back after an immediate power loss and restart. If any append could not be written completely, the vector never reports itself committed and never returns anything for that element other than an error; a failed synchronous append is reported to its caller.",
  ["crash_points", "fault_sequences", "histories"],
  "every power-loss point after commit, every subset of unsynced pages lost, every failing, short or out-of-space write, synchronous or asynchronous",
  "Tests cannot cut the power or make the disk fail; they read back through the page cache of a healthy disk.",
  [I+"abstractio/awonvm_vector.hpp"],
  [("waiting for writes and syncing the file", I+"abstractio/awonvm_vector.hpp: commit"),
   ("write result check", I+"abstractio/awonvm_vector.hpp: push_back, async_push_back")],
  (), ["is_committed()", "get() after restart", "exceptions"])

p("C06", "Keyword counters follow a simple map and never fall back or repeat",
  "Reading, setting, incrementing and removing persistent keyword counters behaves like a sequential map from keyword to integer, including across closing and reopening and across a crash of the process, where every acknowledged update is still there and an update in progress is either there or not; updates made before a blocking flush also survive a power loss. When storage fails an operation reports failure or is abandoned; it never lets a counter silently restart from its initial value. Operations on one keyword from several threads take effect one at a time: concurrent get-and-increment calls all return different values.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "every sequence of counter operations from any number of threads, crash point, and read or write error of the store",
  "The tests run a few single-threaded operations on a healthy store and never crash, fail or race them.",
  ["lib/utils/rocksdb_wrapper.cpp", I+"utils/rocksdb_wrapper.hpp"],
  [("read-modify-write on the store", "lib/utils/rocksdb_wrapper.cpp: RocksDBCounter::get_and_increment, increment"),
   ("store opened with a write-ahead log", "lib/utils/rocksdb_wrapper.cpp: RocksDBCounter::RocksDBCounter")],
  (), ["return values", "get()", "state after reopening"])

p("C07", "Encrypted-database and list stores keep every acknowledged write",
  "The persistent key-value and list stores behave like a map: a read returns exactly the last acknowledged value of that key or says there is none, across closing, reopening and process crashes at any point, and a flushed store keeps all earlier acknowledged writes across power loss. A write that failed is reported as failed, and leaves either the old or the new value, never anything else.",
  ["crash_points", "fault_sequences", "histories"],
  "every sequence of put, get, remove, flush and reopen, every crash or power-loss point, every failing or torn write",
  "The tests put and get a handful of entries on a healthy disk, with an orderly close.",
  [I+"utils/rocksdb_wrapper.hpp", "lib/utils/rocksdb_wrapper.cpp"],
  [("store options, write-ahead log and flush", I+"utils/rocksdb_wrapper.hpp: RockDBWrapper"),
   ("list (de)serialisation", I+"utils/rocksdb_wrapper.hpp: RockDBListStore")],
  (), ["put/get/remove/flush return values", "contents after restart"])

p("C08", "Parallel and sequential max-flow agree, and every flow is a maximum flow",
  "For every graph and every schedule of the worker threads, the parallel computation terminates and gives a flow of the same value as the sequential one. The resulting flow respects every edge capacity, is conserved at every inner vertex, and is maximum (it equals the capacity of some cut). Building is refused once a flow has been computed, and flow queries are refused before.",
  ["schedules", "inputs"],
  "every graph (vertices, edges, capacities, source and sink edges, parallel edges, components), every number of worker threads and every interleaving of them",
  "Tests compare a few hand-made or random graphs under the schedules the OS happens to choose.",
  ["lib/tethys/tethys_graph.cpp", I+"tethys/details/tethys_graph.hpp"],
  [("one task per connected component on a thread pool", "lib/tethys/tethys_graph.cpp: parallel_compute_residual_maxflow"),
   ("augmenting paths on the residual graph", "lib/tethys/tethys_graph.cpp: find_source_sink_path, compute_residual_maxflow"),
   ("states Building / ResidualComputed / MaxFlowComputed", "lib/tethys/tethys_graph.cpp")],
  (), ["get_flow", "get_edge_flow", "edge flows"])

p("C09", "Directory and file helpers act only inside their target and report failures",
  "Removing a directory removes everything below it and nothing outside it or on another file system, whatever links it contains, and reports success only if the directory is gone. Creating directories, removing files, probing for existence and opening files report success only when the requested state holds, and report failure (and leave other files alone) when a system call fails or the process races another one changing the same tree.",
  ["fault_sequences", "inputs", "schedules"],
  "every directory tree with files, nested directories, symbolic links and unreadable entries, every failing system call and every concurrent change of the tree",
  "The tests create and remove one small healthy tree.",
  ["lib/utils/utils.cpp", I+"utils/utils.hpp"],
  [("tree walk that does not follow links", "lib/utils/utils.cpp: remove_directory"),
   ("create_directory, remove_file, is_file, is_directory, exists, open_fd, file_size", "lib/utils/utils.cpp")],
  (), ["return values", "file tree afterwards"])

p("C10", "A Tethys store returns every stored list intact, synchronously or not",
  "For any collection of lists a Tethys store was built from, looking up any key through the client decoding yields exactly the stored list: through the synchronous and the asynchronous lookup, for any number of concurrent lookups and any completion order. When reading a bucket fails the lookup reports an error or no result: it never crashes, never answers twice, and never delivers a wrong list. Elements which fit in no bucket are found in the stash file. A build that fails or is interrupted, by a crash of the process or of the machine, leaves nothing that opens as a store, or a complete one; once it succeeded, the store survives a power failure.",
  ["schedules", "fault_sequences", "inputs"],
  "every set of lists, sizes and overflow, completion order of bucket writes and reads, interleaving of concurrent lookups, failed or short bucket reads",
  "The tests build a few random stores on a healthy disk and do not exercise a failing read or adversarial completion order; two completions racing in one lookup is up to luck.",
  [I+"tethys/tethys_store.hpp", I+"tethys/tethys_store_builder.hpp", I+"tethys/encoders/encode_separate.hpp", I+"tethys/encoders/encode_encrypt.hpp", I+"tethys/tethys_client.hpp", "lib/tethys/tethys_allocator.cpp", I+"abstractio/kv_serializer.hpp"],
  [("pairing of the two bucket reads of a lookup", I+"tethys/tethys_store.hpp: async_get_list, async_get_lists"),
   ("assignment of list elements to buckets and stash", "lib/tethys/tethys_allocator.cpp: TethysAllocator::allocate"),
   ("bucket encoding and decoding", I+"tethys/encoders/")],
  (), ["lists decoded by the client", "callbacks"])

p("C11", "A cuckoo table returns every inserted value through every lookup path",
  "Every key-value pair inserted before a successful commit of an Oceanus cuckoo table is returned by lookups, synchronous or asynchronous, for any completion order and any number of concurrent lookups, and looking up any other key is reported as absent. No committed table silently lacks an inserted pair. When a read fails the lookup reports an error: it never delivers another key's value, never answers twice and never crashes.",
  ["schedules", "fault_sequences", "inputs"],
  "every set of keys (including those colliding in both tables), load, completion order of writes and reads, interleaving of lookups and failing read",
  "Tests insert random keys at moderate load on a healthy disk and read them one after the other.",
  [I+"oceanus/cuckoo.hpp", I+"oceanus/details/cuckoo.hpp", I+"oceanus/oceanus.hpp"],
  [("placement with bounded eviction", I+"oceanus/details/cuckoo.hpp: CuckooAllocator::insert"),
   ("table construction from the value file", I+"oceanus/cuckoo.hpp: CuckooBuilder"),
   ("pairing of the two reads of an asynchronous lookup", I+"oceanus/cuckoo.hpp: CuckooHashTable::async_get")],
  (), ["get/async_get results", "exceptions"])

p("C12", "A Pluto database returns exactly the list of each keyword, even split in blocks",
  "For any database, a Pluto search for a keyword, decoded by the client, yields exactly the documents inserted for that keyword, whether its list is shorter than, equal to or many times a block, and nothing for an unknown keyword. This holds with the cuckoo and the RocksDB block stores, after the building process is gone and the files are reopened, and an I/O error is reported and not turned into a shorter list. A build that fails or is interrupted leaves nothing that can be opened, or the complete database. The number of cells of the cuckoo table in use depends on the announced number of entries only, not on how they are distributed over keywords.",
  ["inputs", "crash_points", "fault_sequences", "schedules"],
  "every database, list length around block boundaries, order of insertion, reopening and failing read",
  "Tests build one small database of each kind on a healthy disk.",
  [I+"pluto/pluto_builder.hpp", I+"pluto/pluto_server.hpp", I+"pluto/pluto_client.hpp", I+"pluto/rocksdb_store.hpp", "lib/pluto/rocksdb_store.cpp"],
  [("full blocks in the block store, remainder in Tethys", I+"pluto/pluto_builder.hpp"),
   ("search loop until the first missing block", I+"pluto/pluto_server.hpp")],
  (), ["lists decoded by the client"])

p("C13", "Every Sophos search variant returns exactly the inserted documents",
  "For any history of insertions and searches over any number of keywords, every search entry point of the Sophos server (sequential, parallel, light parallel, with callbacks, with any number of threads from one) returns for a keyword exactly the multiset of documents inserted for it so far, each exactly once, in whatever order, and nothing for a keyword never inserted. Searching never changes what later searches return. This survives closing, reopening and process crashes of client and server between operations.",
  ["schedules", "histories", "crash_points"],
  "every insertion/search history, thread count, interleaving of the search workers, and process crash between operations",
  "Tests cannot build here and, upstream, run each variant once on one list under the schedule of the day.",
  ["lib/sophos/sophos_server.cpp", "lib/sophos/sophos_client.cpp", I+"sophos/sophos_server.hpp", I+"sophos/sophos_client.hpp"],
  [("token chain walk and lookup", "lib/sophos/sophos_server.cpp: search*"),
   ("counter and trapdoor permutation per keyword", "lib/sophos/sophos_client.cpp: insertion_request, search_request")],
  (), ["results of search*", "callbacks"])

p("C14", "Every Diana search variant returns exactly the documents still stored",
  "For any history of single and bulk insertions, searches and keyword removals, every search entry point of the Diana server (list or vector results, callbacks, sequential or parallel with any number of threads) returns exactly the documents inserted for the keyword and not since deleted, each exactly once. A search that deletes what it returns makes later searches return nothing of it, and a search that does not delete changes nothing. This survives closing, reopening and process crashes between operations.",
  ["schedules", "histories", "crash_points"],
  "every history, thread count, interleaving of the search workers, result sizes around powers of two, and process crash between operations",
  "Tests cannot build here and, upstream, sample single fixed lists.",
  [I+"diana/diana_server.hpp", I+"diana/diana_client.hpp", "lib/diana/diana_common.cpp"],
  [("constrained key covering [0, n)", I+"diana/diana_client.hpp: search_request"),
   ("leaf evaluation split over worker threads", I+"diana/diana_server.hpp: search_parallel*")],
  (), ["results of search*"])

p("C15", "Janus searches reflect all insertions and deletions, through every history",
  "For any history of insertions, deletions and searches, a Janus search (sequential or parallel) returns exactly the documents inserted for the keyword and not deleted since, each once (a document is not inserted again before the next search of the keyword once it has been deleted: the scheme's punctures do not allow it); searching twice without updates in between gives the same answer. The server's cache of earlier results never resurrects a deleted document nor loses one. This survives closing and reopening client and server between operations.",
  ["histories", "schedules", "crash_points"],
  "every interleaving of insert, delete and search over any number of keywords, thread counts and worker schedules, reopening between operations",
  "Tests cannot build here and, upstream, run one scripted sequence.",
  ["lib/janus/janus_server.cpp", "lib/janus/janus_client.cpp", I+"janus/janus_server.hpp", I+"janus/janus_client.hpp"],
  [("search epochs", "lib/janus/janus_client.cpp: search_request"),
   ("cached results and punctured keys", "lib/janus/janus_server.cpp: search, search_parallel")],
  (), ["results of search"])

p("C16", "A Sophos deployment keeps acknowledged insertions across faults and restarts",
  "Through the Sophos client and server programs, an insertion acknowledged to the application is returned by every later successful search of its keyword, and no search ever returns a document nobody inserted for that keyword. This holds under concurrent client threads, message delays, failed calls, and crashes and restarts of the server, for synchronous and asynchronous searches and for bulk loading. The server refuses every operation before setup, refuses a message whose tokens do not have the right size (which then changes nothing), and a failed call is reported to the caller rather than passed off as success. Of any number of setups one succeeds at most, one that fails leaves nothing set up, and one that succeeds survives restarts, while a key file of the wrong length is refused.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "every interleaving of client threads with server handlers, every lost request, lost reply, broken stream, and server crash or restart",
  "The runner tests need gRPC, do not build here, and use a healthy loopback connection without crash or failure.",
  ["lib/sophos/sophos_server_runner.cpp", "lib/sophos/sophos_client_runner.cpp"],
  [("setup preconditions", "lib/sophos/sophos_server_runner.cpp: setup"),
   ("update mutex and acknowledgement after the write", "lib/sophos/sophos_server_runner.cpp: insert, bulk_insert")],
  (), ["status codes", "search results"])

p("C17", "A Diana deployment keeps acknowledged insertions across faults and restarts",
  "Through the Diana client and server programs, an insertion acknowledged to the application, single or in a bulk session that was ended, is returned by every later successful search of its keyword, and no search ever returns a document nobody inserted for that keyword. This holds under concurrent client threads, message delays, failed calls, and crashes and restarts of the server, and for ended sessions also when the server's machine loses power. The server refuses every operation before setup, refuses a message whose tokens do not have the right size (which then changes nothing), and a failed call is reported to the caller rather than passed off as success. Of any number of setups one succeeds at most, one that fails leaves nothing set up, and one that succeeds survives restarts, while a key file of the wrong length is refused.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "every interleaving of client threads with server handlers, every lost request, lost reply, broken stream, and server crash or restart",
  "The runner tests need gRPC, do not build here, and use a healthy loopback connection without crash or failure.",
  ["lib/diana/server_runner.cpp", "lib/diana/client_runner.cpp"],
  [("setup preconditions", "lib/diana/server_runner.cpp: setup"),
   ("update mutex, flush at the end of a bulk session", "lib/diana/server_runner.cpp: insert, bulk_insert")],
  (), ["status codes", "search results"])

p("C18", "Update tokens of forward-private schemes are never reused",
  "A Sophos, Diana or Janus client never issues the same update token twice, and an update token issued after a search never equals one the server could derive from that search's token, over any history of insertions, removals and searches, reopening or crash of the client, and (Sophos and Diana) concurrent requests and failures of its counter storage.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "every history of insertions and searches from any number of threads, every client crash point and counter-store failure",
  "Tests never look at tokens, and never crash, race or fail the client.",
  ["lib/sophos/sophos_client.cpp", I+"diana/diana_client.hpp", "lib/janus/janus_client.cpp", "lib/utils/rocksdb_wrapper.cpp"],
  [("counter incremented before the token is derived", "lib/sophos/sophos_client.cpp: insertion_request"),
   ("counter incremented before the token is derived", I+"diana/diana_client.hpp: insertion_request, bulk_insertion_request")],
  (), ["update requests returned by the client"])

p("C19", "A Tethys allocation places every element and overfills no bucket",
  "For every multiset of lists, the Tethys allocator assigns each element of each list to exactly one of its two candidate buckets or to the stash, no bucket receives more than its capacity, and the stash is as small as any assignment can make it.",
  ["inputs"],
  "every set of list lengths and bucket choices",
  "Unit tests sample a few random allocations.",
  ["lib/tethys/tethys_allocator.cpp", I+"tethys/details/tethys_allocator.hpp"],
  [("source/sink edges, max flow, truncation", "lib/tethys/tethys_allocator.cpp: allocate")],
  (), ["edge flows and stashed edges"])

p("C20", "Concatenated iteration and key-value encoding round-trip",
  "Iterating over several concatenated ranges visits every element of each, in order, exactly once, and a sequence of key-value pairs written with the serialiser reads back as the same sequence.",
  ["inputs"],
  "every sequence of ranges and every sequence of pairs",
  "Unit tests sample a few ranges and pairs.",
  [I+"utils/concat_iterator.hpp", I+"abstractio/kv_serializer.hpp"],
  [("concat_iterator", I+"utils/concat_iterator.hpp"), ("KVSerializer, deserialize", I+"abstractio/kv_serializer.hpp")],
  (), ["sequences observed by the caller"])

p("C21", "The database generator delivers every document, in groups of the right size",
  "For any number of documents and any number of hardware threads, known or not, the generator of random databases delivers exactly that many documents before it returns: each once under a keyword of each of its families, under the fixed-percentage keywords its index determines. A group keyword never gets more documents than its name says, nor the same document twice in a random group, and each thread leaves at most its last group of each size incomplete.",
  ["schedules", "inputs"],
  "every number of documents and of hardware threads, every interleaving of the generating threads and of the callbacks they run concurrently",
  "The test generates one database on the machine it runs on and does not check the random groups.",
  ["lib/utils/db_generator.cpp", I+"utils/db_generator.hpp"],
  [("documents shared out between threads, group counters", "lib/utils/db_generator.cpp: generation_job"),
   ("threads started and joined", "lib/utils/db_generator.cpp: gen_db")],
  (), ["calls of the callback"])

p("C22", "The command-line programs do what they are told, or say that they did not",
  "A client program of Sophos or Diana which ends with status 0 has inserted every pair of every file it was given and every entry of the database it was to generate: later client programs find them. Each search prints exactly the documents stored for its keyword, each once. A client program which could not do what it was asked for does not end with status 0. A server program stopped by a signal, whenever it comes, returns, and everything acknowledged is there when it is started again.",
  ["schedules", "fault_sequences", "histories", "crash_points"],
  "every sequence of client programs over several lives of the server, every interleaving of generating threads and handlers, every network or disk fault, every time of a signal or kill",
  "No test runs the programs.",
  ["src/sophos_client.cpp", "src/sophos_server.cpp", "src/diana_client.cpp", "src/diana_server.cpp"],
  [("options, files, generated database and its buffers, searches, exit status", "src/diana_client.cpp: main; src/sophos_client.cpp: main"),
   ("signal handlers and waiting", "src/diana_server.cpp: exit_handler, main; src/sophos_server.cpp: exit_handler, main")],
  (), ["exit status", "standard output", "results of later programs"])

p("C23", "Each log message and each measurement is recorded once, where and as it was",
  "Any number of threads may log, for the first time as well, while the logger and its level are replaced: each message reaches exactly one logger, one that was in use while it was logged, or none if that one did not want it; the null logger can be set any number of times. Each measurement (Benchmark) that ends puts exactly one line into the file of measurements in use, however many end at once, with its own text and number of items, and the time from its creation to its first stop (to its end, if it was not stopped), also divided by the number of items. A file of measurements that cannot be opened is reported and leaves the previous one in use.",
  ["schedules", "fault_sequences"],
  "every interleaving of logging threads, the writing thread and changes of logger, level and file, every moment of creation, stop and end",
  "The tests log from one thread and do not look at what is recorded.",
  ["lib/utils/logger.cpp", I+"utils/logger.hpp"],
  [("shared logger and its replacement", "lib/utils/logger.cpp: logger, set_logger"),
   ("measurements", "lib/utils/logger.cpp: Benchmark::stop, Benchmark::~Benchmark, SearchBenchmark"),
   ("file of measurements", "lib/utils/logger.cpp: Benchmark::set_benchmark_file")],
  (), ["loggers given by the application", "file of measurements"])
