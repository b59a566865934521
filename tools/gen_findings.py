import json, subprocess
log = dict(l.split(" ",1)[::-1] for l in subprocess.check_output(["git","-C","/repo","log","--format=%h %s"],text=True).splitlines())
F = [
("C01","fix: distinguish swapped and matching input contents in Producer input fingerprints","swapped contents of two inputs (or equal contents, which cancelled out by XOR) gave the input fingerprint of other work, so a build returned results computed from other inputs"),
("C03","fix: only treat a Producer partition as built when all outputs exist","after a crash between the writes of two outputs, later builds treated the producer as complete and never produced the missing output"),
("C07","fix: don't link unrelated partitions when a Producer maps to no partitions","a producer mapping to no partitions showed all known partitions (of other snapshots) as its results"),
("C10","fix: don't leave partial local files behind when a write fails or is interrupted","a failed or interrupted first write left a partial file that was later discovered and read as data"),
("C10","fix: don't commit partial GCS objects when serialization fails","a value failing to serialise was committed as a truncated GCS object"),
("C05","fix: write each Producer output to its own Artifact when only some are in the Graph","with only some outputs of a producer in the graph, values were written to the wrong artifact"),
("C05","fix: reject Producer builds returning the wrong number of outputs","a build returning too few or many outputs passed silently"),
("C07","fix: detect data changing between being snapshotted and read","raw data edited after the snapshot was read and built as if it were the snapshotted contents"),
("C15","fix: use the passed connection when Graph.read takes a snapshot","Graph.read(connection=...) opened another connection for the implicit snapshot"),
("C06","fix: include partitions shared by multiple raw Artifacts in the GraphSnapshot id","raw partitions referenced by two artifacts cancelled out of the snapshot id, so content changes did not change it"),
("C03","fix: replace stale partition metadata when a partition is rewritten","the memory backend kept stale metadata of a rewritten partition next to the new, so builds failed or read twice"),
("C09","fix: support format specs (eg: the DateField defaults) when discovering partitions","discovering date partitioned storage with default path specs raised TypeError"),
("C09","fix: discover partitions when the path includes glob special characters","partitions under paths with glob special characters were never discovered"),
("C06","fix: fingerprint Enum types consistently across processes","Enum type fingerprints depended on the hash seed of the process"),
("C06","fix: don't carry cached fingerprints over to updated model copies","model_copy(update=...) kept the fingerprint of the original"),
("C12","fix: recompute Graph dependencies and fingerprint after further definition","a re-opened graph kept the dependencies and fingerprint cached before"),
("C09","fix: don't ignore existing partitions when listing a directory fails","errors listing a directory made its partitions silently absent"),
("C06","fix: include how Producer outputs are assigned in the Graph fingerprint","graphs with swapped producer output assignment had the same snapshot id"),
("C02","fix: discover existing partitions for inputs not seen since startup","after a restart, results of inputs not current at first use were not found and were built again"),
("C09","fix: parse each partition field with its own type","discovering partitions keyed by fields of different types raised or parsed fields with another field's type"),
("C06","fix: recognize unpickled Graphs as sealed","unpickled graphs reported being open and could not be built"),
("C01","fix: keep GraphSnapshot partitions readable in unpickled MemoryBackends","results built before pickling a graph read as missing from the unpickled graph"),
("C07","fix: detect data being restored while it is read","data changed when read but restored right after passed as the snapshotted contents"),
("C13","fix: keep MemoryBackend metadata consistent across threads and interrupts","metadata of a partition was lost when its update was interrupted or raced with another thread"),
 ("C09","fix: don't use cached GCS listings","gcsfs served cached listings, so GCS content fingerprints were stale, reads truncated, deleted partitions discovered and new ones missed"),
 ("C14","fix: raise transient errors listing plugin directories rather than skipping them","plugins in a directory that could not be listed during discovery (eg: too many open files) stayed missing for the life of the process"),
 ("C14","fix: allow importing a module of Views again after its import failed","after the import of a module of Views failed or was interrupted part way, all later view lookups raised that the View is already registered"),
 ("C14","fix: synchronize registering and looking up dispatch handlers","registering readers or writers in one thread while another registered or looked up raised RuntimeError (dictionary changed size during iteration)"),
 ("C09","fix: raise errors checking for a GCS object rather than treating it as missing","an error while checking for an unpartitioned GCS object was taken as it being absent"),
 ("C06","fix: identify an Artifact with multiple keys independently of the definition order","with an artifact assigned to multiple keys, the snapshot id depended on the definition order"),
 ("C06","fix: include where Producer inputs are from in the Graph fingerprint","graphs whose producers had equal inputs from different artifacts had the same snapshot id (and returned each other's results)"),
 ("C05","fix: build every Artifact that a Producer output is assigned to","when an output of a producer was assigned to several keys (or by equal producers), only one was built"),
 ("C06","fix: compare restored MemoryBackends without recursing endlessly","comparing a graph with its unpickled copy raised RecursionError once its backend held metadata"),
 ("C10","fix: restore the keys of maps read from JSON","values of Map types with keys other than strings read back from JSON with different keys (text) than were written"),
 ("C10","fix: refuse None keys of text maps in JSON and keep 'null' ones","maps of nullable text keys: the key 'null' read back as None, and of a None and a 'null' key only one was stored"),
 ("C10","fix: keep braces in literal values","literal values were treated as path templates: text such as 'a {name}' read back with the placeholders replaced, other braces raised"),
 ("C09","fix: never discover temporary files as partitions of hidden paths","with paths of hidden files without extension (eg: '.{k.value}'), the temporary file left by an interrupted write made discovery raise"),
 ("C13","fix: represent models while other threads cache their properties","of two threads building one graph, one failed with 'dictionary changed size during iteration' if the other cached a fingerprint while it wrote its log message"),
 ("C14","fix: register classes defined by several threads one after another","two threads defining views (or adapters) of equal priority for one type were both accepted, and the one replaced the other; a lower priority could replace a higher one"),
]
miss=[s for s in log if s.startswith("fix:") and s not in {f[1] for f in F}]
assert not miss, miss
json.dump({"findings": json.load(open("/verif/known_findings.json"))["findings"] or [
 {"id":"K1","property":"C10","what":"a write replacing an existing local file happens in place, so a fault or crash during it can leave the file torn or empty (input: LocalFile partition with existing, different contents; fault at the open, write or close of that rewrite). The existing test suite requires the file to keep its identity (test pins the inode), so atomic replacement is not possible."}],
 "fixed":[f"fixed: property={p} {log[s]} {w}" for p,s,w in F]}, open("/verif/known_findings.json","w"), indent=1)
