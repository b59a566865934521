"""Writes ../properties.jsonl (kept as a script so the list stays readable)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
G="src/arti/graphs/__init__.py"; EX="src/arti/executors/__init__.py"; EL="src/arti/executors/local.py"; PR="src/arti/producers/__init__.py"
BE="src/arti/backends/__init__.py"; BM="src/arti/backends/memory.py"; ST="src/arti/storage/__init__.py"; SI="src/arti/storage/_internal.py"
SL="src/arti/storage/local.py"; SG="src/arti/storage/google/cloud/storage.py"; SS="src/arti/storage/literal.py"; IO="src/arti/io/__init__.py"
U="src/arti/internal/utils.py"; M="src/arti/internal/models.py"; V="src/arti/versions/__init__.py"; PT="src/arti/partitions/__init__.py"
MP="src/arti/internal/mappings.py"; D="src/arti/internal/dispatch.py"; VI="src/arti/views/__init__.py"; FP="src/arti/fingerprints/__init__.py"; AR="src/arti/artifacts/__init__.py"
IOS=["src/arti/io/json_localfile_python.py","src/arti/io/pickle_localfile_python.py","src/arti/io/json_gcsfile_python.py","src/arti/io/pickle_gcsfile_python.py","src/arti/io/json_stringliteral_python.py"]

p("C01","Build results reflect exactly the snapshotted inputs",
 "When a graph build returns, reading any produced artifact through that snapshot yields exactly what the graph's producers, at their current versions, compute from the raw contents the snapshot captured, partition by partition. This holds whatever raw edits, rebuilds, redeployed producers, restarts and failed builds came before: nothing computed from other inputs, from other partitions, from swapped arguments or by an older producer version is ever returned. An artifact (or partition) with no such result reads as missing data, never as some other data.",
 ["histories","inputs","programs","fault_sequences"],
 "all graphs (DAG shapes, multi-output and partition-mapping producers, JSON/pickle, file/literal storage), all histories of raw edits, builds, version changes, restarts and failed builds, all raw values including equal, swapped and reverted ones",
 "Tests build two or three fixed graphs once or twice with hand-picked distinct values; staleness needs particular histories (revert, swap, equal contents, a failed build before a good one).",
 [PR,EX,EL,G,BM,ST],[("Producer input fingerprints over version and input contents",PR),("output partitions addressed by input fingerprint",ST),("lookup of existing output partitions filtered to this snapshot's input fingerprints",EX)],
 [("storage partitions","all known partitions per storage, shared by snapshots",BM),("snapshot partitions","partitions linked to one snapshot",BM)],["Graph.build","GraphSnapshot.build","GraphSnapshot.read","Graph.read"])
p("C02","Unchanged work is reused and changed work is redone",
 "A build runs a producer for an output partition only if that exact work (same producer, same version, same contents of the partitions it depends on) is not already complete: completed work is not run again by later builds, including after unrelated inputs change, after a change is reverted, after a version change the version scheme declares compatible, or after a restart that keeps the stored files. Any other change to the producer's version or to the contents of a partition it depends on makes exactly the affected partitions run again. Downstream producers do not run again when a re-run intermediate result comes out unchanged.",
 ["histories","inputs","programs"],
 "all histories of edits, reverts, version changes, restarts and builds over all graph shapes and partition mappings, counting every producer execution",
 "Tests count executions for one add graph and one partitioned pipeline; they cannot cover which of many past states a partition's work may be reused from.",
 [PR,EX,EL,BM,V],[("input fingerprint",PR),("skip partitions already built",EX),("discovery of files from earlier processes",SL)],
 [("storage partitions","completed work known to the backend",BM)],["producer build executions per partition during Graph.build"])
p("C03","Interrupted or failed builds recover without adopting partial results",
 "If a build is stopped at any point by a process crash, an interrupt or an I/O error, no later build or read treats an incompletely written or incompletely produced result as complete. Once faults stop, the next build of the same inputs finishes and yields exactly the results an uninterrupted build would have given. Work that had completed before the interruption is still usable.",
 ["crash_points","fault_sequences","histories"],
 "every crash or interrupt point (each I/O operation and each line of library code), every sequence of storage and backend errors (ENOSPC, EIO, EACCES, EMFILE, short and torn writes, backend failures), repeated interruptions, restarts with only files and external backend state surviving",
 "No test interrupts a build; unit tests never see a half written file, a multi-output producer with one output written, or a backend write that was lost after the file write.",
 [U,EX,G,BM]+IOS[:2],[("new files appear only once complete",U),("a partition counts as built only if all outputs exist",EX),("file write precedes metadata write",G)],
 [("storage partitions","metadata of written partitions",BM)],["Graph.build after the fault","files under the storage root","GraphSnapshot.read"])
p("C04","Outputs that fail validation are never published",
 "When a producer's output validation fails, the build raises the validation message and nothing that invocation produced becomes readable through any snapshot, appears in storage, or reaches a downstream producer, in this or any later build. A later build runs and validates that work again. Partitions whose validation passed are unaffected.",
 ["histories","inputs","programs","fault_sequences"],
 "all graphs, partition sets and multi-output producers, validation verdicts that vary by value and over time, mixed with I/O faults, restarts and version changes",
 "Tests check one failing and one passing validation on a single unpartitioned producer with no later builds.",
 [EX,PR],[("validate before any write",EX)],[],["Graph.build error","files under the storage root","later Graph.build / read"])
p("C05","A build that returns is complete; failures are raised, never skipped",
 "If a build returns, every output partition that the producers' mapping calls for, for every produced artifact in the graph, exists and is readable in that snapshot. Any failure (a producer or mapping raising, wrong number of outputs, missing, vanished or unreadable inputs, storage or backend errors) reaches the caller as an error rather than being skipped. A producer never runs before all producers upstream of it have completed, nor on inputs that failed to build.",
 ["programs","fault_sequences","histories","inputs"],
 "all DAG shapes and partition mappings (including empty ones), every fault at every storage and backend operation, producers that raise at arbitrary invocations, raw data missing or removed at any time",
 "Tests exercise success paths and a handful of definition errors; no storage or backend call ever fails in them.",
 [EL,EX,G,IO,SI],[("topological execution",EL),("arity check",EX),("errors propagate",EL),("raw artifacts without data are rejected",G)],
 [],["Graph.build return or error","order of producer invocations","GraphSnapshot.read"])
p("C06","Snapshot identity equals graph definition plus raw contents",
 "Two snapshots have the same id exactly when the graphs are defined alike (name, keys, artifacts, producers with their versions and how they are connected) and the raw artifacts have the same partitions with the same contents. The id and every fingerprint are the same in every process, independent of hash randomisation, storage listing order, definition order, and of copying, pickling or earlier access; a modified copy gets the fingerprint of its new contents. Changing any one of these, or the content of any raw partition, changes the id, and restoring it restores the id.",
 ["configurations","programs","inputs","histories"],
 "all graph definitions and single-aspect mutations of them, all raw contents, all listing orders, hash seeds and processes, all copy/pickle/access sequences",
 "Tests compare a few ids inside one process with one hash seed and one listing order.",
 [G,M,FP,V,AR,SL],[("fingerprint of the serialised model",M),("snapshot id combines graph, nodes and raw partitions",G)],
 [],["GraphSnapshot.id","Model.fingerprint"])
p("C07","Snapshots are isolated from later changes",
 "A snapshot stands for the raw contents at the time it was taken: building or reading through it later, after raw data was edited, added or removed and other snapshots were taken and built, either gives results of the captured contents or raises an error, never results of later or mixed contents. Results already built in a snapshot stay readable through it unchanged. A snapshot never shows partitions that were not part of it, such as partitions of other snapshots.",
 ["histories","schedules","inputs"],
 "all histories interleaving snapshots, delayed builds and reads, raw edits/additions/removals (also between any two I/O operations of a build), several snapshots sharing a backend",
 "The code itself notes the race between snapshotting and reading; tests only change data between complete builds.",
 [G,IO,BM,EX],[("read verifies the snapshotted content fingerprint",IO),("partitions linked per snapshot",BM)],
 [("snapshot partitions","partitions linked to a snapshot",BM)],["GraphSnapshot.build","GraphSnapshot.read"])
p("C08","Tags name exactly one snapshot until overwritten",
 "Looking up a tag returns exactly the snapshot most recently tagged successfully with that tag under that graph name, regardless of later snapshots, builds, raw edits or backend restarts, and results read through it are that snapshot's. Tagging an existing tag without overwrite raises and changes nothing; an unknown tag raises; tags of differently named graphs never interfere. A tag operation that fails leaves the tag at the old or the new snapshot.",
 ["histories","fault_sequences","configurations"],
 "all histories of tag, overwrite, lookup, build, edit and restart over several graphs and tags, with backend failures before or after the tag write",
 "One test tags twice on one graph without failures, restarts or other graphs.",
 [G,BM],[("tag table per graph name",BM)],[("snapshot tags","name -> tag -> snapshot",BM)],["GraphSnapshot.tag","GraphSnapshot.from_tag"])
p("C09","Partition discovery finds exactly the stored partitions",
 "Discovering a storage's partitions returns exactly the partitions present for its path template: every one with its correct key, input fingerprint and content fingerprint, none twice, and nothing for files that do not belong; with an input fingerprint filter, exactly the matching ones. The result does not depend on listing order, paging, unrelated or leftover files, or special characters in paths. If storage cannot be listed or read, discovery raises rather than reporting partitions as absent.",
 ["inputs","configurations","fault_sequences"],
 "all key types and values, path templates (components, hard-coded parts, format specs, tags, glob characters), file populations with debris, listing orders/page sizes, fingerprint filters, and list/stat/read errors, on local files and simulated GCS",
 "Tests discover a handful of fixed dates in sorted listings without debris or errors.",
 [SI,SL,SG,SS,PT,ST],[("template to wildcard and parser",SI),("listing errors are raised",SI),("key components round trip",PT)],
 [],["Storage.discover_partitions","Graph.snapshot"])
p("C10","Acknowledged writes read back; failed writes do no damage",
 "When a write returns, reading that artifact partition gives back the written value and the returned content fingerprint matches what is stored. When a write raises or is cut off by a crash, the partition still holds its old content, or if it had none, nothing that reads or is discovered as data, unless the new value was stored completely; other partitions are never touched. Rewriting equal content is harmless; values and annotations that do not fit the artifact are refused. Reading data that is absent, truncated or altered since it was recorded raises instead of returning wrong values.",
 ["inputs","fault_sequences","crash_points","configurations"],
 "all values per type, formats JSON/pickle x storages local file/GCS/literal, partitioned or not, new or overwritten targets, every I/O error, short/torn write, lost response and crash point of the write",
 "Round trip tests write one value per type once with perfect I/O.",
 IOS+[IO,U,SL,SG,SS],[("serialise before touching storage",U),("atomic appearance of new files",U),("checksum verified uploads",IOS[3]),("content fingerprint after write",IO)],
 [],["Graph.write","Graph.read","io.read / io.write"])
p("C11","Producer versions identify exactly what they declare",
 "Semantic versions compare by major only from 1 on and by every component below that; string versions compare by value; commit versions identify the commit checked out when created, and creation raises if that cannot be determined; timestamp versions capture the timezone aware current time once, at creation. A version's fingerprint never changes afterwards with time, clock jumps, repository changes, copying, pickling or process. Versions that differ in what they declare have different fingerprints, and producers with such versions rebuild while those with equal ones do not.",
 ["inputs","histories","configurations","fault_sequences"],
 "all version values and kinds, clocks that jump, go backwards or sit in any timezone, git outcomes (any sha, failure, missing binary, empty or partial output), access/copy/pickle orders",
 "Tests check a few literal versions with the real clock and the real git.",
 [V,M,PR],[("SemVer fingerprint fields",V),("default factories",V)],[],["Version.fingerprint","producer re-execution in Graph.build"])
p("C12","Graph definition context is per thread and always released",
 "Defining a graph in one thread never captures artifacts of, blocks, or is visible to graph definitions in other threads. Leaving the definition block, normally, by any error raised inside it or because the graph is cyclic, always releases the context and seals the graph, so another graph can be defined at once; nesting definitions raises and leaves the outer one intact. A sealed graph rejects further assignment, an open one rejects build, snapshot, read and write, and a re-opened graph reflects its current artifacts everywhere.",
 ["schedules","programs","histories","fault_sequences"],
 "all interleavings of threads defining and using graphs, all points at which a definition raises or is interrupted, all re-open sequences",
 "Tests define graphs in a single thread and check two nesting errors.",
 [G,"src/arti/__init__.py",MP],[("thread local context",  "src/arti/__init__.py"),("open/closed status of graph and box",G)],
 [("context.graph","the graph being defined in this thread","src/arti/__init__.py")],["with Graph(...)","Graph.artifacts","Graph.build"])
p("C13","Concurrent builders and writers never corrupt results",
 "Any number of concurrent builds, reads and raw data updates over shared storage, in threads or separate processes, with or without a shared backend, interleaved at any point: each build that returns gives the results of its own snapshot, and otherwise raises. No reader or builder ever takes in a partially written or foreign result as data, and a crashing participant does not prevent others from finishing. After activity stops, one more build succeeds and all participants agree.",
 ["schedules","crash_points","fault_sequences","histories"],
 "all interleavings at I/O, backend and code-line granularity of 2-4 participants, with crashes, slow participants and an out-of-band raw writer",
 "Tests are single threaded and run one build at a time.",
 [U,EX,G,BM,IO],[("atomic file appearance",U),("content verification on read",IO),("paths unique per input fingerprint",ST)],
 [("storage files","shared between participants",SL)],["Graph.build in each participant","GraphSnapshot.read","files under the root"])
p("C14","Lazy plugin discovery is safe on concurrent first use",
 "The first uses of readers, writers, views and type lookups from any number of threads in a fresh process give each thread the same outcome it would have had alone: the right implementation is found and no spurious missing-implementation, duplicate registration or import error occurs. No interleaving deadlocks. Discovery is complete for every later use even when an earlier one failed or was interrupted. Readers, writers, views and type adapters which threads register while others look them up are accepted or refused as if registered one after another, and the most specific (or highest priority) one is used from then on.",
 ["schedules","fault_sequences","configurations"],
 "all interleavings (at code-line granularity, including import locks) of concurrent first uses of different readers/writers/views, with failing or interrupted imports",
 "Discovery happens once per process, in whichever test comes first, in one thread.",
 [IO,D,U,VI],[("locked submodule import",U),("discovery on dispatch miss",D)],
 [("_submodules","whether readers/writers were discovered",IO)],["io.read / io.write","View.get_class_for"])
p("C15","Backend connections and files are used and released correctly",
 "Every backend connection and file an operation opens is closed by the time the operation returns or raises, under any fault or interrupt. A connection passed explicitly is the one used for that operation's metadata and is left open for the caller. Snapshotting, building, reading, writing and tagging never leave handles behind however often they fail.",
 ["fault_sequences","crash_points","histories"],
 "all operations, with errors injected at every I/O and backend call including connect and close",
 "Tests use an in-memory backend whose connections are no-ops and never inspect handles.",
 [G,BE,EL,U]+IOS[:2],[("with-scoped connections",G),("with-scoped files",U)],[],["Backend.connect enter/exit counts","open file handles"])
p("C16","Type conversion round trips between type systems",
 "Converting a type to the Python, numpy, pandas, pyarrow or BigQuery type systems and back yields an equivalent type, or raises where the system cannot express it. Equivalent hints map to one type.",
 ["inputs"],"all types and hints","Tests sample a table of types per system.",
 ["src/arti/types/__init__.py","src/arti/types/python.py","src/arti/types/pyarrow.py","src/arti/types/bigquery.py"],[("type adapters","src/arti/types/__init__.py")],(),["TypeSystem.to_artigraph / to_system"])
p("C17","Malformed producers and graphs are rejected at definition",
 "A producer whose build, map or validate_outputs signature does not fit its fields, outputs and partitioning, or that is wired to incompatible artifacts, is rejected when defined, with an error naming the problem. Well formed ones are accepted.",
 ["programs"],"all producer class definitions","Tests enumerate dozens of malformed definitions by hand.",
 [PR,VI],[("signature validation at class creation",PR)],(),["class creation","Producer(...)"])
p("C18","Models and mappings behave as immutable values",
 "Frozen models, frozen dictionaries and typed boxes compare, hash, copy, merge and reject mutation as plain immutable values would.",
 ["inputs"],"all operation sequences on the mappings and models","Tests sample each operation.",
 [MP,M],[("frozendict / TypedBox",MP)],(),["frozendict, TypedBox, Model"])
out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(x)+"\n" for x in P))
