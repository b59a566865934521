From cb25270c74c7adbf71d66fd4dc1e79571f5421ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 01/39] fix: distinguish swapped and matching input contents in
 Producer input fingerprints

---
 src/arti/producers/__init__.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/arti/producers/__init__.py b/src/arti/producers/__init__.py
index 9ce0bb7..7f9701a 100644
--- a/src/arti/producers/__init__.py
+++ b/src/arti/producers/__init__.py
@@ -2,8 +2,10 @@ from __future__ import annotations
 
 __path__ = __import__("pkgutil").extend_path(__path__, __name__)
 
+import json
 from collections.abc import Callable, Iterator
 from inspect import Parameter, Signature, getattr_static
+from itertools import chain
 from typing import (
     TYPE_CHECKING,
     Annotated,
@@ -334,15 +336,20 @@ class Producer(Model):
             )
         # We only care if the *code* or *input partition contents* changed, not if the input file
         # paths changed (but have the same content as a prior run).
-        return Fingerprint.from_string(self._arti_type_key_).combine(
-            self.version.fingerprint,
-            *(
-                # TODO: Include the artifact name here? Do we care if you rename an arg (without
-                # changing the version)?
-                snapshot.content_fingerprint
-                for name, partition_snapshots in dependency_partitions.items()
-                for snapshot in partition_snapshots
-            ),
+        content_fingerprints = {
+            name: sorted(snapshot.content_fingerprint for snapshot in partition_snapshots)
+            for name, partition_snapshots in dependency_partitions.items()
+        }
+        fingerprint = Fingerprint.from_string(self._arti_type_key_).combine(
+            self.version.fingerprint
+        )
+        if len(content_fingerprints) == 1 and len(next(iter(content_fingerprints.values()))) <= 1:
+            return fingerprint.combine(*chain.from_iterable(content_fingerprints.values()))
+        # With multiple inputs and/or partitions, we can't simply combine the content fingerprints:
+        # XOR is commutative and self-inverse, so swapping the contents of two inputs would go
+        # unnoticed and inputs with matching contents would cancel out.
+        return fingerprint.combine(
+            Fingerprint.from_string(json.dumps(content_fingerprints, sort_keys=True))
         )
 
     def compute_dependencies(
-- 
2.43.0


From f60f8bde38da33b7cd60f3e2447caccdb2e1f708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 02/39] fix: only treat a Producer partition as built when all
 outputs exist

---
 src/arti/executors/__init__.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/arti/executors/__init__.py b/src/arti/executors/__init__.py
index dc0e537..f31bc1e 100644
--- a/src/arti/executors/__init__.py
+++ b/src/arti/executors/__init__.py
@@ -4,7 +4,6 @@ __path__ = __import__("pkgutil").extend_path(__path__, __name__)
 
 import abc
 import logging
-from itertools import chain
 
 from arti.backends import BackendConnection
 from arti.fingerprints import Fingerprint
@@ -48,16 +47,26 @@ class Executor(Model):
             output: connection.read_artifact_partitions(output, partition_input_fingerprints)
             for output in snapshot.graph.producer_outputs[producer]
         }
+        # A prior build may have been interrupted after only writing some of the outputs, so only
+        # consider (and link) the partitions that have been built for *all* outputs.
+        existing_partition_keys = set[PartitionKey].intersection(
+            *(
+                {partition_snapshot.partition_key for partition_snapshot in partition_snapshots}
+                for partition_snapshots in output_partition_snapshots.values()
+            )
+        )
         for artifact, partition_snapshots in output_partition_snapshots.items():
             connection.write_snapshot_partitions(
-                snapshot, snapshot.graph.artifact_to_key[artifact], artifact, partition_snapshots
+                snapshot,
+                snapshot.graph.artifact_to_key[artifact],
+                artifact,
+                tuple(
+                    partition_snapshot
+                    for partition_snapshot in partition_snapshots
+                    if partition_snapshot.partition_key in existing_partition_keys
+                ),
             )
-        # TODO: Guarantee all outputs have the same set of identified partitions. Currently, this
-        # pretends a partition is built for all outputs if _any_ are built for that partition.
-        return {
-            snapshot.partition_key
-            for snapshot in chain.from_iterable(output_partition_snapshots.values())
-        }
+        return existing_partition_keys
 
     def build_producer_partition(
         self,
-- 
2.43.0


From b1506a15da2b0438c2be3a7abbfe6ee27cc73237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 03/39] fix: don't link unrelated partitions when a Producer
 maps to no partitions

---
 src/arti/executors/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arti/executors/__init__.py b/src/arti/executors/__init__.py
index f31bc1e..7a877ab 100644
--- a/src/arti/executors/__init__.py
+++ b/src/arti/executors/__init__.py
@@ -38,6 +38,10 @@ class Executor(Model):
         *,
         partition_input_fingerprints: InputFingerprints,
     ) -> set[PartitionKey]:
+        # Without any expected output partitions, there's nothing to look up (and an empty filter would
+        # match *all* known partitions, including ones from other GraphSnapshots).
+        if not partition_input_fingerprints:
+            return set()
         # NOTE: The output partitions may be built, but not yet associated with this GraphSnapshot
         # (eg: raw input data changed, but no changes trickled into this specific Producer). Hence
         # we'll fetch all StoragePartitions for each Storage, filtered to the PKs and
-- 
2.43.0


From 7b57bb6f144ede79ca18f124f69f7665caad6996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 04/39] fix: don't leave partial local files behind when a
 write fails or is interrupted

---
 src/arti/internal/utils.py             | 26 ++++++++++++++++++++++++++
 src/arti/io/json_localfile_python.py   |  7 ++-----
 src/arti/io/pickle_localfile_python.py |  7 ++-----
 3 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/arti/internal/utils.py b/src/arti/internal/utils.py
index f366f79..bffaeb7 100644
--- a/src/arti/internal/utils.py
+++ b/src/arti/internal/utils.py
@@ -4,6 +4,7 @@ import importlib
 import inspect
 import pkgutil
 import threading
+import uuid
 from collections.abc import Callable, Generator, Iterable
 from contextlib import contextmanager
 from pathlib import Path
@@ -203,6 +204,31 @@ class uint64(_int):
         return super().__new__(cls, i)
 
 
+def write_file(path: str | Path, data: bytes) -> None:
+    """Write `data` to `path`, creating any parent directories.
+
+    A new file only appears once complete, so a failed or interrupted write cannot leave partial
+    contents behind. An existing file is updated in place (preserving links, permissions, and open
+    handles), but left untouched if the contents already match.
+    """
+    path = Path(path)
+    path.parent.mkdir(exist_ok=True, parents=True)
+    if path.exists():
+        if path.read_bytes() != data:
+            path.write_bytes(data)
+        return
+    # NOTE: The temporary file must be in the same directory to ensure the move is atomic, but is
+    # hidden so that any leftovers won't match the globs used to discover partitions.
+    tmp_path = path.with_name(f".{uuid.uuid4().hex}.tmp")
+    try:
+        with tmp_path.open("xb") as file:
+            file.write(data)
+        tmp_path.replace(path)
+    except BaseException:
+        tmp_path.unlink(missing_ok=True)
+        raise
+
+
 @contextmanager
 def named_temporary_file(mode: str = "w+b") -> Generator[IO[Any], None, None]:
     """Minimal alternative to tempfile.NamedTemporaryFile that can be re-opened on Windows."""
diff --git a/src/arti/io/json_localfile_python.py b/src/arti/io/json_localfile_python.py
index 403e064..aa8e672 100644
--- a/src/arti/io/json_localfile_python.py
+++ b/src/arti/io/json_localfile_python.py
@@ -3,10 +3,10 @@ from __future__ import annotations
 import json
 from collections.abc import Sequence
 from itertools import chain
-from pathlib import Path
 from typing import Any
 
 from arti.formats.json import JSON
+from arti.internal.utils import write_file
 from arti.io import register_reader, register_writer
 from arti.storage.local import LocalFilePartition
 from arti.types import Type, is_partitioned
@@ -42,7 +42,4 @@ def _read_json_localfile_python(
 def _write_json_localfile_python(
     data: Any, type_: Type, format: JSON, storage_partition: LocalFilePartition, view: PythonBuiltin
 ) -> None:
-    path = Path(storage_partition.path)
-    path.parent.mkdir(exist_ok=True, parents=True)
-    with path.open("w") as file:
-        json.dump(data, file)
+    write_file(storage_partition.path, json.dumps(data).encode())
diff --git a/src/arti/io/pickle_localfile_python.py b/src/arti/io/pickle_localfile_python.py
index 3c7bd18..c97b46b 100644
--- a/src/arti/io/pickle_localfile_python.py
+++ b/src/arti/io/pickle_localfile_python.py
@@ -3,10 +3,10 @@ from __future__ import annotations
 import pickle
 from collections.abc import Sequence
 from itertools import chain
-from pathlib import Path
 from typing import Any
 
 from arti.formats.pickle import Pickle
+from arti.internal.utils import write_file
 from arti.io import register_reader, register_writer
 from arti.storage.local import LocalFilePartition
 from arti.types import Type, is_partitioned
@@ -44,7 +44,4 @@ def _write_pickle_localfile_python(
     storage_partition: LocalFilePartition,
     view: PythonBuiltin,
 ) -> None:
-    path = Path(storage_partition.path)
-    path.parent.mkdir(exist_ok=True, parents=True)
-    with path.open("wb") as file:
-        pickle.dump(data, file)
+    write_file(storage_partition.path, pickle.dumps(data))
-- 
2.43.0


From 118559ffa57ab0954a5c60d2b59e44f1ccc3439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 05/39] fix: don't commit partial GCS objects when
 serialization fails

---
 src/arti/io/json_gcsfile_python.py   | 6 ++++--
 src/arti/io/pickle_gcsfile_python.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/arti/io/json_gcsfile_python.py b/src/arti/io/json_gcsfile_python.py
index 5d8ff72..b63e35c 100644
--- a/src/arti/io/json_gcsfile_python.py
+++ b/src/arti/io/json_gcsfile_python.py
@@ -45,5 +45,7 @@ def _read_json_gcsfile_python(
 def _write_json_gcsfile_python(
     data: Any, type_: Type, format: JSON, storage_partition: GCSFilePartition, view: PythonBuiltin
 ) -> None:
-    with GCSFileSystem().open(storage_partition.qualified_path, "w") as file:
-        json.dump(data, file)
+    # Upload in one shot - closing a `.open`ed file (even due to an error) commits what was written.
+    GCSFileSystem().pipe_file(
+        storage_partition.qualified_path, json.dumps(data).encode(), consistency="md5"
+    )
diff --git a/src/arti/io/pickle_gcsfile_python.py b/src/arti/io/pickle_gcsfile_python.py
index 5c24bed..5ebe2d7 100644
--- a/src/arti/io/pickle_gcsfile_python.py
+++ b/src/arti/io/pickle_gcsfile_python.py
@@ -45,5 +45,7 @@ def _read_pickle_gcsfile_python(
 def _write_pickle_gcsfile_python(
     data: Any, type_: Type, format: Pickle, storage_partition: GCSFilePartition, view: PythonBuiltin
 ) -> None:
-    with GCSFileSystem().open(storage_partition.qualified_path, "wb") as file:
-        pickle.dump(data, file)
+    # Upload in one shot - closing a `.open`ed file (even due to an error) commits what was written.
+    GCSFileSystem().pipe_file(
+        storage_partition.qualified_path, pickle.dumps(data), consistency="md5"
+    )
-- 
2.43.0


From 5b0babe474e103d622bca7310fd340a3aae5aa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 06/39] fix: write each Producer output to its own Artifact
 when only some are in the Graph

---
 src/arti/executors/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/arti/executors/__init__.py b/src/arti/executors/__init__.py
index 7a877ab..3669b23 100644
--- a/src/arti/executors/__init__.py
+++ b/src/arti/executors/__init__.py
@@ -9,6 +9,7 @@ from arti.backends import BackendConnection
 from arti.fingerprints import Fingerprint
 from arti.graphs import GraphSnapshot
 from arti.internal.models import Model
+from arti.internal.type_hints import assert_not_none
 from arti.partitions import InputFingerprints, PartitionKey
 from arti.producers import InputPartitions, Producer
 
@@ -108,11 +109,13 @@ class Executor(Model):
         validation_passed, validation_message = producer.validate_outputs(*outputs)
         if not validation_passed:
             raise ValueError(validation_message)
-        for i, output in enumerate(outputs):
+        # NOTE: The Graph may only include some of the Producer's outputs.
+        for artifact in snapshot.graph.producer_outputs[producer]:
+            position = assert_not_none(artifact.producer_output).position
             snapshot.write(
-                output,
-                artifact=snapshot.graph.producer_outputs[producer][i],
+                outputs[position],
+                artifact=artifact,
                 input_fingerprint=input_fingerprint,
                 partition_key=partition_key,
-                view=producer._outputs_[i],
+                view=producer._outputs_[position],
             )
-- 
2.43.0


From bfe2f8e6b157c4edbda65b3c3266e8ef4d639b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 07/39] fix: reject Producer builds returning the wrong number
 of outputs

---
 src/arti/executors/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arti/executors/__init__.py b/src/arti/executors/__init__.py
index 3669b23..72687e2 100644
--- a/src/arti/executors/__init__.py
+++ b/src/arti/executors/__init__.py
@@ -106,6 +106,10 @@ class Executor(Model):
         outputs = producer.build(**arguments)
         if len(producer._outputs_) == 1:
             outputs = (outputs,)
+        elif len(outputs) != len(producer._outputs_):
+            raise ValueError(
+                f"{type(producer).__name__}.build - expected {len(producer._outputs_)} outputs, but got: {len(outputs)}"
+            )
         validation_passed, validation_message = producer.validate_outputs(*outputs)
         if not validation_passed:
             raise ValueError(validation_message)
-- 
2.43.0


From ccb14347311bd1e94c17296ef152d27237658ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 08/39] fix: detect data changing between being snapshotted and
 read

---
 src/arti/io/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/arti/io/__init__.py b/src/arti/io/__init__.py
index 4efdfb0..2388251 100644
--- a/src/arti/io/__init__.py
+++ b/src/arti/io/__init__.py
@@ -50,16 +50,20 @@ def read(
         raise ValueError(
             f"Multiple partitions can only be read into a partitioned Collection, not {type_}"
         )
-    # TODO: Verify the content_fingerprints before (and/or after) reading data.
-    #
     # TODO: Check that the returned data matches the Type/View. Likely add a View method that can
     # handle this type + schema checking, filtering to column/row subsets if necessary, etc
-    return _read(
+    data = _read(
         type_,
         format,
         tuple(snapshot.storage_partition for snapshot in storage_partition_snapshots),
         view,
     )
+    # The data may have changed out-of-band after the snapshot (or even while reading).
+    for snapshot in storage_partition_snapshots:
+        storage_partition = snapshot.storage_partition
+        if storage_partition.compute_content_fingerprint() != snapshot.content_fingerprint:
+            raise ValueError(f"Data changed since it was snapshotted: {storage_partition}")
+    return data
 
 
 @multipledispatch("io.write", discovery_func=_discover)
-- 
2.43.0


From b4a38f41a472205b51a13badbc0faaa0df987877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 09/39] fix: use the passed connection when Graph.read takes a
 snapshot

---
 src/arti/graphs/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index be6d6e7..b22388e 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -234,7 +234,7 @@ class Graph(Model):
                 # only want to return the current values.
                 storage_partition_snapshots = artifact.storage.discover_partitions()
             else:
-                snapshot = snapshot or self.snapshot()
+                snapshot = snapshot or self.snapshot(connection=connection)
                 with (connection or self.backend).connect() as conn:
                     storage_partition_snapshots = conn.read_snapshot_partitions(
                         snapshot, key, artifact
-- 
2.43.0


From d7ab94998b55920d057e1681c7aaa88a0139caad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 10/39] fix: include partitions shared by multiple raw
 Artifacts in the GraphSnapshot id

---
 src/arti/graphs/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index b22388e..97b1a8a 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -328,6 +328,9 @@ class GraphSnapshot(Model):
         # Artifact (partitions) won't be fully resolved yet.
         snapshot_id = graph.fingerprint
         known_artifact_partitions = dict[str, StoragePartitionSnapshots]()
+        # Multiple (raw) Artifacts may reference the same partitions. Combining a fingerprint twice
+        # cancels it out, so track the distinct ones.
+        partition_fingerprints = set[Fingerprint]()
         for node, _ in graph.dependencies.items():
             snapshot_id = snapshot_id.combine(node.fingerprint)
             if isinstance(node, Artifact):
@@ -345,10 +348,10 @@ class GraphSnapshot(Model):
                     if not known_artifact_partitions[key]:
                         content_str = "partitions" if is_partitioned(node.type) else "data"
                         raise ValueError(f"No {content_str} found for `{key}`: {node}")
-                    snapshot_id = snapshot_id.combine(
-                        *[partition.fingerprint for partition in known_artifact_partitions[key]]
+                    partition_fingerprints.update(
+                        partition.fingerprint for partition in known_artifact_partitions[key]
                     )
-        snapshot = cls(graph=graph, id=snapshot_id)
+        snapshot = cls(graph=graph, id=snapshot_id.combine(*partition_fingerprints))
         # Write the discovered partitions (if not already known) and link to this new snapshot.
         with (connection or snapshot.backend).connect() as conn:
             conn.write_graph(graph)
-- 
2.43.0


From cf2bb81101ad442d93230dc574c420783a0dc355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 11/39] fix: replace stale partition metadata when a partition
 is rewritten

---
 src/arti/backends/memory.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/arti/backends/memory.py b/src/arti/backends/memory.py
index 63f38bb..1753637 100644
--- a/src/arti/backends/memory.py
+++ b/src/arti/backends/memory.py
@@ -59,6 +59,18 @@ class _NoCopyContainer(NoCopyMixin):
         return isinstance(other, _NoCopyContainer) and vars(self) == vars(other)
 
 
+def _upsert_partitions(
+    existing: set[StoragePartitionSnapshot], partitions: StoragePartitionSnapshots
+) -> None:
+    # A partition only has one set of contents at a time, so replace (rather than add to) any prior
+    # snapshot of the same partition, eg: if rebuilt after a failure.
+    updated = {(partition.partition_key, partition.input_fingerprint) for partition in partitions}
+    existing.difference_update(
+        [p for p in existing if (p.partition_key, p.input_fingerprint) in updated]
+    )
+    existing.update(partitions)
+
+
 class MemoryConnection(BackendConnection):
     def __init__(self, container: _NoCopyContainer) -> None:
         self.container = container
@@ -84,7 +96,7 @@ class MemoryConnection(BackendConnection):
     def write_artifact_partitions(
         self, artifact: Artifact, partitions: StoragePartitionSnapshots
     ) -> None:
-        self.container.storage_partitions[artifact.storage].update(partitions)
+        _upsert_partitions(self.container.storage_partitions[artifact.storage], partitions)
 
     def read_graph(self, name: str, fingerprint: Fingerprint) -> Graph:
         return self.container.graphs[name][fingerprint]
@@ -127,7 +139,9 @@ class MemoryConnection(BackendConnection):
         artifact: Artifact,
         partitions: StoragePartitionSnapshots,
     ) -> None:
-        self.container.snapshot_partitions[snapshot][artifact_key].update(partitions)
+        _upsert_partitions(
+            self.container.snapshot_partitions[snapshot][artifact_key], partitions
+        )
 
 
 class MemoryBackend(Backend[MemoryConnection]):
-- 
2.43.0


From b0bd3d13400774be156999a3cc26c320408ebc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 12/39] fix: support format specs (eg: the DateField defaults)
 when discovering partitions

---
 src/arti/storage/_internal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arti/storage/_internal.py b/src/arti/storage/_internal.py
index 04d2f43..63c3e5f 100644
--- a/src/arti/storage/_internal.py
+++ b/src/arti/storage/_internal.py
@@ -84,6 +84,10 @@ class WildcardPlaceholder(Placeholder):
         self._err_if_no_attribute()
         return "*"
 
+    def __format__(self, spec: str) -> str:
+        # The format spec (eg: padding) applies to the eventual value, not the wildcard.
+        return str(self)
+
 
 # NOTE: We might pre-populate this with the Graph tags so the hard coded templates are already available (rather than
 # being filled in with a WildcardPlaceholder).
-- 
2.43.0


From 6e254e04e2202fdd0a07902376ab1f756b3368a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:15 +0000
Subject: [PATCH 13/39] fix: discover partitions when the path includes glob
 special characters

---
 src/arti/storage/_internal.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/arti/storage/_internal.py b/src/arti/storage/_internal.py
index 63c3e5f..6865d34 100644
--- a/src/arti/storage/_internal.py
+++ b/src/arti/storage/_internal.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import glob
 import string
 from collections import defaultdict
 from collections.abc import Callable, Iterable, Mapping
@@ -115,11 +116,18 @@ def strip_partition_indexes(spec: str) -> str:
     return string.Formatter().vformat(spec, (), FormatDict(StripIndexPlaceholder))
 
 
+class _WildcardFormatter(string.Formatter):
+    def parse(self, format_string: Any) -> Iterable[Any]:
+        # Escape the literal parts so any special characters (eg: `[`) aren't treated as wildcards.
+        for literal_text, *rest in super().parse(format_string):
+            yield glob.escape(literal_text), *rest
+
+
 def spec_to_wildcard(spec: str, key_types: Mapping[str, type[PartitionField]]) -> str:
-    return string.Formatter().vformat(
-        spec.replace("{input_fingerprint}", "*"),
+    return _WildcardFormatter().vformat(
+        spec,
         (),
-        FormatDict(WildcardPlaceholder.with_key_types(key_types)),
+        FormatDict(WildcardPlaceholder.with_key_types(key_types), input_fingerprint="*"),
     )
 
 
-- 
2.43.0


From 69deff2055e08aada6d1ac2c38e48e99124897b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 14/39] fix: fingerprint Enum types consistently across
 processes

---
 src/arti/types/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/arti/types/__init__.py b/src/arti/types/__init__.py
index 8b1512e..b5dc307 100644
--- a/src/arti/types/__init__.py
+++ b/src/arti/types/__init__.py
@@ -7,7 +7,7 @@ from collections.abc import Iterable, Mapping
 from operator import attrgetter
 from typing import Annotated, Any, ClassVar, Literal
 
-from pydantic import PrivateAttr, ValidationInfo, field_validator
+from pydantic import PrivateAttr, ValidationInfo, field_serializer, field_validator
 
 from arti.fingerprints import SkipFingerprint
 from arti.internal.mappings import FrozenMapping, frozendict
@@ -122,6 +122,11 @@ class Enum(_NamedMixin, Type):
             raise ValueError(f"incompatible {arti_type} ({py_type}) item(s): {mismatched_items}")
         return items
 
+    @field_serializer("items", when_used="json")
+    def _serialize_items(self, items: frozenset[Any]) -> list[Any]:
+        # The iteration order varies across processes, but the fingerprint must be consistent.
+        return sorted(items, key=repr)
+
     @property
     def _default_friendly_key(self) -> str:
         return f"{self.type.friendly_key}{self._arti_type_key_}"
-- 
2.43.0


From 21df984ea7453c87d6d668eb351676ab8afc34bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:37 +0000
Subject: [PATCH 15/39] fix: don't carry cached fingerprints over to updated
 model copies

---
 src/arti/internal/models.py   | 14 ++++++++++++++
 src/arti/versions/__init__.py | 12 ++++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/arti/internal/models.py b/src/arti/internal/models.py
index 26993ad..3d82a93 100644
--- a/src/arti/internal/models.py
+++ b/src/arti/internal/models.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from collections.abc import Iterable
 from functools import cached_property
+from inspect import getattr_static
 from typing import (
     TYPE_CHECKING,
     Annotated,
@@ -151,6 +152,19 @@ class Model(BaseModel, metaclass=ModelMeta):
         _set_dump_kwargs_defaults(kwargs)
         return super().model_dump_json(**kwargs)
 
+    def model_copy(self, *, update: dict[str, Any] | None = None, deep: bool = False) -> Self:
+        copy = super().model_copy(update=update, deep=deep)
+        if update:
+            # The copy's __dict__ includes cached values (eg: `fingerprint`), which may be derived
+            # from the original fields.
+            copy._clear_cached_properties()
+        return copy
+
+    def _clear_cached_properties(self) -> None:
+        for name in self.__dict__.keys() - self.model_fields.keys():
+            if isinstance(getattr_static(type(self), name, None), cached_property):
+                del self.__dict__[name]
+
     # Fingerprinting is somewhat expensive, so we'll cache the result. This is safe as long as the
     # model and all fields are immutable (see `model_config.frozen` and `model_post_init` above).
     #
diff --git a/src/arti/versions/__init__.py b/src/arti/versions/__init__.py
index f71f611..b20fa50 100644
--- a/src/arti/versions/__init__.py
+++ b/src/arti/versions/__init__.py
@@ -6,7 +6,7 @@ import inspect
 import subprocess
 from collections.abc import Callable
 from datetime import UTC, datetime
-from typing import Annotated, Any, cast
+from typing import Annotated, Any, Self, cast
 
 from annotated_types import Timezone
 from pydantic import Field, field_validator
@@ -39,9 +39,17 @@ class SemVer(Version):
     minor: int
     patch: int
 
+    def model_copy(self, *, update: dict[str, Any] | None = None, deep: bool = False) -> Self:
+        copy = super().model_copy(update=update, deep=deep)
+        copy._set_fingerprint_fields()
+        return copy
+
     def model_post_init(self, __context: Any) -> None:
         super().model_post_init(__context)
-        fields = self._arti_fingerprint_fields_
+        self._set_fingerprint_fields()
+
+    def _set_fingerprint_fields(self) -> None:
+        fields = type(self)._arti_fingerprint_fields_
         desired = {"_arti_type_", "major", "minor", "patch"}
         if unexpected := set(fields) - desired:
             raise NotImplementedError(
-- 
2.43.0


From d6975c47e8324b4ae38da3fd47c47ee443e63dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 16/39] fix: recompute Graph dependencies and fingerprint after
 further definition

---
 src/arti/graphs/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index 97b1a8a..45775c6 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -136,6 +136,8 @@ class Graph(Model):
         # The Graph object is "frozen", so we must bypass the assignment checks.
         self.artifacts._status.root = status
         self._status = status
+        # The Artifacts may have changed since any prior access.
+        self._clear_cached_properties()
         self._artifact_to_key = frozendict(
             {artifact: key for key, artifact in self.artifacts.walk()}
         )
-- 
2.43.0


From 39d344c5a3fc166a1618c30ab83d76c2335d811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:35 +0000
Subject: [PATCH 17/39] fix: don't ignore existing partitions when listing a
 directory fails

---
 src/arti/storage/_internal.py | 37 +++++++++++++++++++++++++++++++++++
 src/arti/storage/local.py     |  5 ++---
 2 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/arti/storage/_internal.py b/src/arti/storage/_internal.py
index 6865d34..6d849b7 100644
--- a/src/arti/storage/_internal.py
+++ b/src/arti/storage/_internal.py
@@ -1,6 +1,8 @@
 from __future__ import annotations
 
+import fnmatch
 import glob
+import os
 import string
 from collections import defaultdict
 from collections.abc import Callable, Iterable, Mapping
@@ -116,6 +118,41 @@ def strip_partition_indexes(spec: str) -> str:
     return string.Formatter().vformat(spec, (), FormatDict(StripIndexPlaceholder))
 
 
+def _path_exists(path: str) -> bool:
+    try:
+        os.lstat(path)
+    except (FileNotFoundError, NotADirectoryError):
+        return False
+    return True
+
+
+def list_paths(pattern: str) -> set[str]:
+    """Find the local paths matching the (non-recursive) glob pattern.
+
+    Unlike `glob.glob`, any error accessing an existing directory is raised. Otherwise, the contents
+    would silently be skipped and the existing partitions treated as missing.
+    """
+    if not glob.has_magic(pattern):
+        return {pattern} if _path_exists(pattern) else set()
+    dirname, basename = os.path.split(pattern)
+    paths = set[str]()
+    for parent in list_paths(dirname) if dirname else {""}:
+        if not glob.has_magic(basename):
+            if _path_exists(path := os.path.join(parent, basename)):
+                paths.add(path)
+            continue
+        try:
+            names = os.listdir(parent or os.curdir)
+        except (FileNotFoundError, NotADirectoryError):
+            continue
+        paths.update(
+            os.path.join(parent, name)
+            for name in fnmatch.filter(names, basename)
+            if basename.startswith(".") or not name.startswith(".")
+        )
+    return paths
+
+
 class _WildcardFormatter(string.Formatter):
     def parse(self, format_string: Any) -> Iterable[Any]:
         # Escape the literal parts so any special characters (eg: `[`) aren't treated as wildcards.
diff --git a/src/arti/storage/local.py b/src/arti/storage/local.py
index 900d982..46714ac 100644
--- a/src/arti/storage/local.py
+++ b/src/arti/storage/local.py
@@ -2,7 +2,6 @@ from __future__ import annotations
 
 import hashlib
 import tempfile
-from glob import glob
 from pathlib import Path
 from typing import ClassVar
 
@@ -13,7 +12,7 @@ from arti import (
     StoragePartition,
     StoragePartitionSnapshots,
 )
-from arti.storage._internal import parse_spec, spec_to_wildcard
+from arti.storage._internal import list_paths, parse_spec, spec_to_wildcard
 
 
 class LocalFilePartition(StoragePartition):
@@ -46,7 +45,7 @@ class LocalFile(Storage[LocalFilePartition]):
         self, input_fingerprints: InputFingerprints = InputFingerprints()
     ) -> StoragePartitionSnapshots:
         wildcard = spec_to_wildcard(self.path, self.key_types)
-        paths = set(glob(wildcard))
+        paths = list_paths(wildcard)
         path_metadata = parse_spec(
             paths, spec=self.path, key_types=self.key_types, input_fingerprints=input_fingerprints
         )
-- 
2.43.0


From 253124244ccfb3ba41ba64d8528be825f8a0c30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:42 +0000
Subject: [PATCH 18/39] fix: include how Producer outputs are assigned in the
 Graph fingerprint

Graphs only differing in which Producer output was assigned to each key
(eg: swapped) shared the same fingerprint and GraphSnapshot id, despite
building different data.
---
 src/arti/graphs/__init__.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index 45775c6..de3a33c 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 __path__ = __import__("pkgutil").extend_path(__path__, __name__)
 
+import json
 from collections import defaultdict
 from collections.abc import Callable
 from functools import cached_property, wraps
@@ -146,6 +147,21 @@ class Graph(Model):
     def artifact_to_key(self) -> frozendict[Artifact, str]:
         return self._artifact_to_key
 
+    @cached_property
+    def fingerprint(self) -> Fingerprint:
+        # Artifact fingerprints (intentionally) exclude their `producer_output`, so include which
+        # Producer output is assigned to each key. Otherwise, Graphs that only differ in how the same
+        # Artifacts and Producers are connected (eg: swapped outputs) would be indistinguishable.
+        return Model.fingerprint.func(self).combine(
+            *(
+                Fingerprint.from_string(
+                    json.dumps([key, output.producer.fingerprint, output.position])
+                )
+                for key, artifact in self.artifacts.walk()
+                if (output := artifact.producer_output) is not None
+            )
+        )
+
     @requires_sealed
     def build(self, executor: Executor | None = None) -> GraphSnapshot:
         return self.snapshot().build(executor)
-- 
2.43.0


From 79ba22f34dce2ab813c2ecc1b1d385acfdda63ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 19/39] fix: discover existing partitions for inputs not seen
 since startup

The MemoryBackend only looked for existing files the first time each
storage was accessed, and only for the inputs at that time. After a
restart, going back to previously built inputs reran completed work.
---
 src/arti/backends/memory.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/arti/backends/memory.py b/src/arti/backends/memory.py
index 1753637..2104821 100644
--- a/src/arti/backends/memory.py
+++ b/src/arti/backends/memory.py
@@ -79,11 +79,18 @@ class MemoryConnection(BackendConnection):
         self, artifact: Artifact, input_fingerprints: InputFingerprints = InputFingerprints()
     ) -> StoragePartitionSnapshots:
         # The MemoryBackend is (obviously) not persistent, so there may be external data we don't
-        # know about. If we haven't seen this storage before, we'll attempt to "warm" the cache.
-        if artifact.storage not in self.container.storage_partitions:
-            self.write_artifact_partitions(
-                artifact, artifact.storage.discover_partitions(input_fingerprints)
-            )
+        # know about. If we haven't seen this storage or any of the specific partitions before,
+        # we'll attempt to "warm" the cache.
+        seen = artifact.storage in self.container.storage_partitions
+        known = {
+            (snapshot.partition_key, snapshot.input_fingerprint)
+            for snapshot in self.container.storage_partitions.get(artifact.storage, ())
+        }
+        unknown = InputFingerprints(
+            {pk: fp for pk, fp in input_fingerprints.items() if (pk, fp) not in known}
+        )
+        if unknown or not seen:
+            self.write_artifact_partitions(artifact, artifact.storage.discover_partitions(unknown))
         partition_snapshots = self.container.storage_partitions[artifact.storage]
         if input_fingerprints:
             partition_snapshots = {
-- 
2.43.0


From d6282b27ef8b3d0e6c92ba784e2cc26d859e3076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 20/39] fix: parse each partition field with its own type

---
 src/arti/storage/_internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arti/storage/_internal.py b/src/arti/storage/_internal.py
index 6d849b7..d3eea79 100644
--- a/src/arti/storage/_internal.py
+++ b/src/arti/storage/_internal.py
@@ -196,7 +196,7 @@ def extract_placeholders(
 
     partition_key = PartitionKey(
         {
-            field_name: key_types[key].from_components(**components)
+            field_name: key_types[field_name].from_components(**components)
             for field_name, components in field_components.items()
         }
     )
-- 
2.43.0


From 6a74ba52f569399aa45e5f293a27819febb0ff99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 21/39] fix: recognize unpickled Graphs as sealed

---
 src/arti/graphs/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index de3a33c..1100b0c 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -47,7 +47,7 @@ _Return = TypeVar("_Return")
 def requires_sealed(fn: Callable[..., _Return]) -> Callable[..., _Return]:
     @wraps(fn)
     def check_if_sealed(self: Graph, *args: Any, **kwargs: Any) -> _Return:
-        if self._status is not CLOSED:
+        if self._status != CLOSED:
             raise ValueError(f"{fn.__name__} cannot be used while the Graph is still being defined")
         return fn(self, *args, **kwargs)
 
-- 
2.43.0


From d2afc0cdd1fa49eef28f8b7a6cd51083eded60b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 22/39] fix: keep GraphSnapshot partitions readable in
 unpickled MemoryBackends

---
 src/arti/backends/memory.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/arti/backends/memory.py b/src/arti/backends/memory.py
index 2104821..0d5d6de 100644
--- a/src/arti/backends/memory.py
+++ b/src/arti/backends/memory.py
@@ -24,8 +24,8 @@ from arti.internal.utils import NoCopyMixin
 _Graphs = dict[str, dict[Fingerprint, Graph]]
 _GraphSnapshots = dict[str, dict[Fingerprint, GraphSnapshot]]
 _GraphSnapshotPartitions = dict[
-    GraphSnapshot, dict[str, set[StoragePartitionSnapshot]]
-]  # ...[snapshot][artifact_key]
+    Fingerprint, dict[str, set[StoragePartitionSnapshot]]
+]  # ...[snapshot.fingerprint][artifact_key]
 _SnapshotTags = dict[str, dict[str, GraphSnapshot]]  # ...[name][tag]
 _StoragePartitions = dict[Storage, set[StoragePartitionSnapshot]]
 
@@ -49,6 +49,9 @@ class _NoCopyContainer(NoCopyMixin):
         # `container.snapshot_partitions` tracks all the partitions for a *specific* GraphSnapshot.
         # `container.storage_partitions` tracks all partitions, across all snapshots. This
         # separation is important to allow for Literals to be used even after a snapshot change.
+        #
+        # NOTE: The snapshots reference this container (through the Graph's backend), so they cannot
+        # be used as keys: when unpickling, they would be hashed before being fully restored.
         self.snapshot_partitions: _GraphSnapshotPartitions = defaultdict(
             partial(defaultdict, set[StoragePartitionSnapshot])
         )
@@ -137,7 +140,7 @@ class MemoryConnection(BackendConnection):
     def read_snapshot_partitions(
         self, snapshot: GraphSnapshot, artifact_key: str, artifact: Artifact
     ) -> StoragePartitionSnapshots:
-        return tuple(self.container.snapshot_partitions[snapshot][artifact_key])
+        return tuple(self.container.snapshot_partitions[snapshot.fingerprint][artifact_key])
 
     def write_snapshot_partitions(
         self,
@@ -147,7 +150,7 @@ class MemoryConnection(BackendConnection):
         partitions: StoragePartitionSnapshots,
     ) -> None:
         _upsert_partitions(
-            self.container.snapshot_partitions[snapshot][artifact_key], partitions
+            self.container.snapshot_partitions[snapshot.fingerprint][artifact_key], partitions
         )
 
 
-- 
2.43.0


From 9f849fdb6762e9affde96cc46dd3f3053b5e8dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 23/39] fix: detect data being restored while it is read

---
 src/arti/io/__init__.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/arti/io/__init__.py b/src/arti/io/__init__.py
index 2388251..a55f1dc 100644
--- a/src/arti/io/__init__.py
+++ b/src/arti/io/__init__.py
@@ -39,6 +39,13 @@ def _read(
 register_reader = _read.register
 
 
+def _check_unchanged(storage_partition_snapshots: StoragePartitionSnapshots) -> None:
+    for snapshot in storage_partition_snapshots:
+        storage_partition = snapshot.storage_partition
+        if storage_partition.compute_content_fingerprint() != snapshot.content_fingerprint:
+            raise ValueError(f"Data changed since it was snapshotted: {storage_partition}")
+
+
 def read(
     type_: Type, format: Format, storage_partition_snapshots: StoragePartitionSnapshots, view: View
 ) -> Any:
@@ -52,17 +59,17 @@ def read(
         )
     # TODO: Check that the returned data matches the Type/View. Likely add a View method that can
     # handle this type + schema checking, filtering to column/row subsets if necessary, etc
+    #
+    # The data may have changed out-of-band after the snapshot or (to or from what was snapshotted)
+    # even while reading.
+    _check_unchanged(storage_partition_snapshots)
     data = _read(
         type_,
         format,
         tuple(snapshot.storage_partition for snapshot in storage_partition_snapshots),
         view,
     )
-    # The data may have changed out-of-band after the snapshot (or even while reading).
-    for snapshot in storage_partition_snapshots:
-        storage_partition = snapshot.storage_partition
-        if storage_partition.compute_content_fingerprint() != snapshot.content_fingerprint:
-            raise ValueError(f"Data changed since it was snapshotted: {storage_partition}")
+    _check_unchanged(storage_partition_snapshots)
     return data
 
 
-- 
2.43.0


From 83b7d57d647c3a041e87c7aece3acefb9cacfeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 24/39] fix: keep MemoryBackend metadata consistent across
 threads and interrupts

---
 src/arti/backends/memory.py | 63 +++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 23 deletions(-)

diff --git a/src/arti/backends/memory.py b/src/arti/backends/memory.py
index 0d5d6de..2e78aa5 100644
--- a/src/arti/backends/memory.py
+++ b/src/arti/backends/memory.py
@@ -1,7 +1,8 @@
 from __future__ import annotations
 
+import threading
 from collections import defaultdict
-from collections.abc import Iterator
+from collections.abc import Iterable, Iterator
 from contextlib import contextmanager
 from functools import partial
 
@@ -62,16 +63,22 @@ class _NoCopyContainer(NoCopyMixin):
         return isinstance(other, _NoCopyContainer) and vars(self) == vars(other)
 
 
+# The data structures may be shared across threads (or left by an interrupt) at any point, so sets are
+# never changed once stored - only replaced, while holding this lock. Reads don't need to hold it.
+#
+# NOTE: This is not part of the container to keep the latter pickleable and comparable.
+_write_lock = threading.RLock()
+
+
 def _upsert_partitions(
-    existing: set[StoragePartitionSnapshot], partitions: StoragePartitionSnapshots
-) -> None:
+    existing: Iterable[StoragePartitionSnapshot], partitions: StoragePartitionSnapshots
+) -> set[StoragePartitionSnapshot]:
     # A partition only has one set of contents at a time, so replace (rather than add to) any prior
     # snapshot of the same partition, eg: if rebuilt after a failure.
     updated = {(partition.partition_key, partition.input_fingerprint) for partition in partitions}
-    existing.difference_update(
-        [p for p in existing if (p.partition_key, p.input_fingerprint) in updated]
+    return {p for p in existing if (p.partition_key, p.input_fingerprint) not in updated} | set(
+        partitions
     )
-    existing.update(partitions)
 
 
 class MemoryConnection(BackendConnection):
@@ -94,7 +101,7 @@ class MemoryConnection(BackendConnection):
         )
         if unknown or not seen:
             self.write_artifact_partitions(artifact, artifact.storage.discover_partitions(unknown))
-        partition_snapshots = self.container.storage_partitions[artifact.storage]
+        partition_snapshots = self.container.storage_partitions.get(artifact.storage, set())
         if input_fingerprints:
             partition_snapshots = {
                 snapshot
@@ -106,41 +113,49 @@ class MemoryConnection(BackendConnection):
     def write_artifact_partitions(
         self, artifact: Artifact, partitions: StoragePartitionSnapshots
     ) -> None:
-        _upsert_partitions(self.container.storage_partitions[artifact.storage], partitions)
+        with _write_lock:
+            self.container.storage_partitions[artifact.storage] = _upsert_partitions(
+                self.container.storage_partitions.get(artifact.storage, ()), partitions
+            )
 
     def read_graph(self, name: str, fingerprint: Fingerprint) -> Graph:
         return self.container.graphs[name][fingerprint]
 
     def write_graph(self, graph: Graph) -> None:
-        self.container.graphs[graph.name][graph.fingerprint] = graph
+        with _write_lock:
+            self.container.graphs[graph.name][graph.fingerprint] = graph
 
     def read_snapshot(self, name: str, fingerprint: Fingerprint) -> GraphSnapshot:
         return self.container.snapshots[name][fingerprint]
 
     def write_snapshot(self, snapshot: GraphSnapshot) -> None:
-        self.container.snapshots[snapshot.name][snapshot.fingerprint] = snapshot
+        with _write_lock:
+            self.container.snapshots[snapshot.name][snapshot.fingerprint] = snapshot
 
     def read_snapshot_tag(self, name: str, tag: str) -> GraphSnapshot:
-        if tag not in self.container.snapshot_tags[name]:
+        tags = self.container.snapshot_tags.get(name, {})
+        if tag not in tags:
             raise ValueError(f"No known `{tag}` tag for GraphSnapshot `{name}`")
-        return self.container.snapshot_tags[name][tag]
+        return tags[tag]
 
     def write_snapshot_tag(
         self, snapshot: GraphSnapshot, tag: str, overwrite: bool = False
     ) -> None:
         """Read the known Partitions for the named Artifact in a specific GraphSnapshot."""
-        if (
-            existing := self.container.snapshot_tags[snapshot.name].get(tag)
-        ) is not None and not overwrite:
-            raise ValueError(
-                f"Existing `{tag}` tag for Graph `{snapshot.name}` points to {existing}"
-            )
-        self.container.snapshot_tags[snapshot.name][tag] = snapshot
+        with _write_lock:
+            if (
+                existing := self.container.snapshot_tags[snapshot.name].get(tag)
+            ) is not None and not overwrite:
+                raise ValueError(
+                    f"Existing `{tag}` tag for Graph `{snapshot.name}` points to {existing}"
+                )
+            self.container.snapshot_tags[snapshot.name][tag] = snapshot
 
     def read_snapshot_partitions(
         self, snapshot: GraphSnapshot, artifact_key: str, artifact: Artifact
     ) -> StoragePartitionSnapshots:
-        return tuple(self.container.snapshot_partitions[snapshot.fingerprint][artifact_key])
+        snapshot_partitions = self.container.snapshot_partitions.get(snapshot.fingerprint, {})
+        return tuple(snapshot_partitions.get(artifact_key, ()))
 
     def write_snapshot_partitions(
         self,
@@ -149,9 +164,11 @@ class MemoryConnection(BackendConnection):
         artifact: Artifact,
         partitions: StoragePartitionSnapshots,
     ) -> None:
-        _upsert_partitions(
-            self.container.snapshot_partitions[snapshot.fingerprint][artifact_key], partitions
-        )
+        with _write_lock:
+            snapshot_partitions = self.container.snapshot_partitions[snapshot.fingerprint]
+            snapshot_partitions[artifact_key] = _upsert_partitions(
+                snapshot_partitions.get(artifact_key, ()), partitions
+            )
 
 
 class MemoryBackend(Backend[MemoryConnection]):
-- 
2.43.0


From 2eccd96f5412e34b184c0f9a38f22f00af9dee78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:14 +0000
Subject: [PATCH 25/39] fix: don't use cached GCS listings

The cached listings lead to stale content fingerprints, truncated reads and discovery of
deleted (or missing new) partitions whenever the objects are changed by anything else.
---
 src/arti/io/json_gcsfile_python.py       | 4 ++--
 src/arti/io/pickle_gcsfile_python.py     | 4 ++--
 src/arti/storage/google/cloud/storage.py | 5 +++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/arti/io/json_gcsfile_python.py b/src/arti/io/json_gcsfile_python.py
index b63e35c..2e3f8b6 100644
--- a/src/arti/io/json_gcsfile_python.py
+++ b/src/arti/io/json_gcsfile_python.py
@@ -19,7 +19,7 @@ from arti.views.python import PythonBuiltin
 
 def _read_json_file(path: str) -> Any:
     # TODO: GCSFileSystem needs to be injected somehow
-    with GCSFileSystem().open(path, "r") as file:
+    with GCSFileSystem(use_listings_cache=False).open(path, "r") as file:
         return json.load(file)
 
 
@@ -46,6 +46,6 @@ def _write_json_gcsfile_python(
     data: Any, type_: Type, format: JSON, storage_partition: GCSFilePartition, view: PythonBuiltin
 ) -> None:
     # Upload in one shot - closing a `.open`ed file (even due to an error) commits what was written.
-    GCSFileSystem().pipe_file(
+    GCSFileSystem(use_listings_cache=False).pipe_file(
         storage_partition.qualified_path, json.dumps(data).encode(), consistency="md5"
     )
diff --git a/src/arti/io/pickle_gcsfile_python.py b/src/arti/io/pickle_gcsfile_python.py
index 5ebe2d7..7af56a1 100644
--- a/src/arti/io/pickle_gcsfile_python.py
+++ b/src/arti/io/pickle_gcsfile_python.py
@@ -19,7 +19,7 @@ from arti.views.python import PythonBuiltin
 
 def _read_pickle_file(path: str) -> Any:
     # TODO: GCSFileSystem needs to be injected somehow
-    with GCSFileSystem().open(path, "rb") as file:
+    with GCSFileSystem(use_listings_cache=False).open(path, "rb") as file:
         return pickle.load(file)  # noqa: S301 # User opted into pickle, ignore bandit check
 
 
@@ -46,6 +46,6 @@ def _write_pickle_gcsfile_python(
     data: Any, type_: Type, format: Pickle, storage_partition: GCSFilePartition, view: PythonBuiltin
 ) -> None:
     # Upload in one shot - closing a `.open`ed file (even due to an error) commits what was written.
-    GCSFileSystem().pipe_file(
+    GCSFileSystem(use_listings_cache=False).pipe_file(
         storage_partition.qualified_path, pickle.dumps(data), consistency="md5"
     )
diff --git a/src/arti/storage/google/cloud/storage.py b/src/arti/storage/google/cloud/storage.py
index 525fbaf..e40d40d 100644
--- a/src/arti/storage/google/cloud/storage.py
+++ b/src/arti/storage/google/cloud/storage.py
@@ -27,7 +27,8 @@ class _GCSMixin(Model):
 class GCSFilePartition(_GCSMixin, StoragePartition):
     def compute_content_fingerprint(self) -> Fingerprint:
         # TODO: GCSFileSystem needs to be injected somehow
-        info = GCSFileSystem().info(f"{self.bucket}/{self.path}")
+        # NOTE: Listings must not be cached, otherwise we'd get the fingerprint of prior contents.
+        info = GCSFileSystem(use_listings_cache=False).info(f"{self.bucket}/{self.path}")
         # Prefer md5Hash if available
         return Fingerprint.from_string(info["md5Hash"] if "md5Hash" in info else info["crc32c"])
 
@@ -50,7 +51,7 @@ class GCSFile(_GCSMixin, Storage[GCSFilePartition]):
         spec = f"{self.bucket}/{self.path}"
         wildcard = spec_to_wildcard(spec, self.key_types)
         # TODO: GCSFileSystem needs to be injected somehow
-        paths = GCSFileSystem().glob(wildcard)
+        paths = GCSFileSystem(use_listings_cache=False).glob(wildcard)
         path_metadata = parse_spec(
             paths, spec=spec, key_types=self.key_types, input_fingerprints=input_fingerprints
         )
-- 
2.43.0


From c70ce1592ad6640691729b1de4ffab8bd791833a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:18 +0000
Subject: [PATCH 26/39] fix: raise errors checking for a GCS object rather than
 treating it as missing

---
 src/arti/storage/google/cloud/storage.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/arti/storage/google/cloud/storage.py b/src/arti/storage/google/cloud/storage.py
index e40d40d..cc255a2 100644
--- a/src/arti/storage/google/cloud/storage.py
+++ b/src/arti/storage/google/cloud/storage.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from glob import has_magic
 from pathlib import Path
 
 from gcsfs import GCSFileSystem
@@ -51,7 +52,17 @@ class GCSFile(_GCSMixin, Storage[GCSFilePartition]):
         spec = f"{self.bucket}/{self.path}"
         wildcard = spec_to_wildcard(spec, self.key_types)
         # TODO: GCSFileSystem needs to be injected somehow
-        paths = GCSFileSystem(use_listings_cache=False).glob(wildcard)
+        fs = GCSFileSystem(use_listings_cache=False)
+        if has_magic(wildcard):
+            paths = fs.glob(wildcard)
+        else:
+            # NOTE: Without any magic, `glob` treats *all* errors as the path being missing.
+            try:
+                fs.info(wildcard)
+            except FileNotFoundError:
+                paths = []
+            else:
+                paths = [wildcard]
         path_metadata = parse_spec(
             paths, spec=spec, key_types=self.key_types, input_fingerprints=input_fingerprints
         )
-- 
2.43.0


From 0fb39a2c4c8d9f646a30a98d3fc7043abc91a3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:08 +0000
Subject: [PATCH 27/39] fix: raise transient errors listing plugin directories
 rather than skipping them

---
 src/arti/internal/utils.py               | 26 +++++++++++++++++++++---
 src/arti/internal/vendored/setuptools.py | 12 +++++++++--
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/arti/internal/utils.py b/src/arti/internal/utils.py
index bffaeb7..13dd2e8 100644
--- a/src/arti/internal/utils.py
+++ b/src/arti/internal/utils.py
@@ -2,17 +2,18 @@ from __future__ import annotations
 
 import importlib
 import inspect
+import os
 import pkgutil
 import threading
 import uuid
-from collections.abc import Callable, Generator, Iterable
+from collections.abc import Callable, Generator, Iterable, Iterator
 from contextlib import contextmanager
 from pathlib import Path
 from tempfile import TemporaryDirectory
 from types import ModuleType
 from typing import IO, Any, Self, SupportsIndex, cast
 
-from arti.internal.vendored.setuptools import find_namespace_packages
+from arti.internal.vendored.setuptools import find_namespace_packages, raise_unless_unavailable
 
 
 class ClassName:
@@ -48,6 +49,25 @@ def get_module_name(depth: int = 1) -> str | None:
     return cast(str, frame.f_globals.get("__name__"))
 
 
+def _iter_modules(path: str, prefix: str) -> Iterator[str]:
+    if not os.path.isdir(path):  # eg: zip files
+        yield from (module.name for module in pkgutil.iter_modules([path], prefix=prefix))
+        return
+    # pkgutil.iter_modules ignores any error listing a directory (eg: too many open files), which
+    # would silently hide the modules within.
+    try:
+        entries = sorted(os.listdir(path))
+    except OSError as e:
+        raise_unless_unavailable(e)
+        return
+    for entry in entries:
+        name = inspect.getmodulename(entry)
+        if name is None and os.path.isfile(os.path.join(path, entry, "__init__.py")):
+            name = entry
+        if name and name != "__init__" and "." not in name:
+            yield f"{prefix}{name}"
+
+
 def import_submodules(
     path: Iterable[str],  # module.__path__ is a list[str]
     name: str,
@@ -81,7 +101,7 @@ def import_submodules(
         return {
             name: importlib.import_module(name)
             for path, name in path_names.items()
-            for _, name, _ in pkgutil.iter_modules([path], prefix=f"{name}.")
+            for name in _iter_modules(path, prefix=f"{name}.")
         }
 
 
diff --git a/src/arti/internal/vendored/setuptools.py b/src/arti/internal/vendored/setuptools.py
index 36cb540..aede690 100644
--- a/src/arti/internal/vendored/setuptools.py
+++ b/src/arti/internal/vendored/setuptools.py
@@ -3,7 +3,8 @@
 Adding setuptools as a package dependency can be a bit messy, sometimes triggering an
 uninstall/reinstall on the _user_ side or other issues.
 
-Type hints have been added to pass `mypy` strict mode.
+Type hints have been added to pass `mypy` strict mode. Additionally, errors listing a directory are
+raised, unless it is missing or inaccessible.
 
 1: https://github.com/pypa/setuptools/tree/c65e3380b0a18c92a0fc2d2b770b17cfaaec054b
 """
@@ -42,6 +43,11 @@ def convert_path(pathname: str) -> str:  # pragma: no cover
     return os.path.join(*paths)
 
 
+def raise_unless_unavailable(error: OSError) -> None:
+    if not isinstance(error, FileNotFoundError | NotADirectoryError | PermissionError):
+        raise error
+
+
 # From: https://github.com/pypa/setuptools/blob/c65e3380b0a18c92a0fc2d2b770b17cfaaec054b/setuptools/__init__.py#L39-L119
 class PackageFinder:
     """
@@ -81,7 +87,9 @@ class PackageFinder:
         All the packages found in 'where' that pass the 'include' filter, but
         not the 'exclude' filter.
         """
-        for root, dirs, _files in os.walk(where, followlinks=True):
+        for root, dirs, _files in os.walk(
+            where, onerror=raise_unless_unavailable, followlinks=True
+        ):
             # Copy dirs to iterate over it, then empty dirs.
             all_dirs = dirs[:]
             dirs[:] = []
-- 
2.43.0


From 14270358a4b7e5e5b665a8168f518d75568f3fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 28/39] fix: allow importing a module of Views again after its
 import failed

---
 src/arti/internal/utils.py | 16 ++++++++++++++++
 src/arti/views/__init__.py |  3 ++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/arti/internal/utils.py b/src/arti/internal/utils.py
index 13dd2e8..02593a3 100644
--- a/src/arti/internal/utils.py
+++ b/src/arti/internal/utils.py
@@ -4,6 +4,7 @@ import importlib
 import inspect
 import os
 import pkgutil
+import sys
 import threading
 import uuid
 from collections.abc import Callable, Generator, Iterable, Iterator
@@ -291,6 +292,21 @@ def register[K, V](
     return value
 
 
+def unregister_stale[K](registry: dict[K, type[Any]], key: K, new: type[Any]) -> None:
+    """Drop an earlier definition of the `new` class, left over from a failed import of its module."""
+    existing = registry.get(key)
+    if existing is None or (existing.__module__, existing.__qualname__) != (
+        new.__module__,
+        new.__qualname__,
+    ):
+        return
+    # The module is executed anew, so (unlike for duplicates within it) the class isn't defined yet.
+    if "." not in new.__qualname__ and not hasattr(
+        sys.modules.get(new.__module__), new.__qualname__
+    ):
+        del registry[key]
+
+
 class NoCopyMixin:
     """Mixin to bypass (deep)copying.
 
diff --git a/src/arti/views/__init__.py b/src/arti/views/__init__.py
index ce3d17f..4abdaf9 100644
--- a/src/arti/views/__init__.py
+++ b/src/arti/views/__init__.py
@@ -11,7 +11,7 @@ from arti import io
 from arti.artifacts import Artifact
 from arti.internal.models import Model, ModelTypeSerializer, get_field_default
 from arti.internal.type_hints import discard_Annotated, get_item_from_annotated, lenient_issubclass
-from arti.internal.utils import import_submodules, register
+from arti.internal.utils import import_submodules, register, unregister_stale
 from arti.types import Type, TypeSystem
 
 MODE = Literal["READ", "WRITE", "READWRITE"]
@@ -38,6 +38,7 @@ class View(Model):
     def __pydantic_init_subclass__(cls, **kwargs: Any) -> None:
         super().__pydantic_init_subclass__(**kwargs)
         if not cls._abstract_:
+            unregister_stale(cls._by_python_type_, cls.python_type, cls)
             register(cls._by_python_type_, cls.python_type, cls, lambda x: x.priority)
 
     @classmethod
-- 
2.43.0


From 74415175b533673745b7d46820d469dadfcb22be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 29/39] fix: synchronize registering and looking up dispatch
 handlers

---
 src/arti/internal/dispatch.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/arti/internal/dispatch.py b/src/arti/internal/dispatch.py
index e424969..e28bea0 100644
--- a/src/arti/internal/dispatch.py
+++ b/src/arti/internal/dispatch.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import inspect
+import threading
 from collections.abc import Callable
 from typing import Any, TypeVar, cast, overload
 
@@ -11,6 +12,10 @@ from arti.internal.type_hints import lenient_issubclass, tidy_signature
 RETURN = TypeVar("RETURN")
 REGISTERED = TypeVar("REGISTERED", bound=Callable[..., Any])
 
+# multimethod isn't thread-safe: handlers may be registered (by importing a module) while others are
+# being registered or looked up.
+_lock = threading.RLock()
+
 
 # This may be less useful once mypy supports ParamSpecs - after that, we might be able to define
 # multidispatch with a ParamSpec and have mypy check the handlers' arguments are covariant.
@@ -32,9 +37,20 @@ class _multipledispatch(_multimethod.multidispatch[RETURN]):
         self.clean_signature = tidy_signature(func, self.signature)
 
     def __missing__(self, types: tuple[Any, ...]) -> Callable[..., RETURN]:
+        # NOTE: The lock must not be held here: other threads might be importing a module (which this
+        # may need) and be about to register its handlers.
         if self.discovery_func is not None:
             self.discovery_func()
-        return super().__missing__(types)
+        with _lock:
+            return super().__missing__(types)
+
+    def __setitem__(self, types: tuple[Any, ...], func: Callable[..., RETURN]) -> None:
+        with _lock:
+            super().__setitem__(types, func)
+
+    def evaluate(self) -> None:
+        with _lock:
+            super().evaluate()
 
     def lookup(self, *args: type[Any] | None) -> Callable[..., Any]:
         # multimethod wraps Generics (eg: `list[int]`) with an internal helper. We must do the same
-- 
2.43.0


From 1e36e4c293f198c78624c1597954363e1ff85383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 30/39] fix: identify an Artifact with multiple keys
 independently of the definition order

---
 src/arti/graphs/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index 1100b0c..e2805c7 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -139,8 +139,13 @@ class Graph(Model):
         self._status = status
         # The Artifacts may have changed since any prior access.
         self._clear_cached_properties()
-        self._artifact_to_key = frozendict(
-            {artifact: key for key, artifact in self.artifacts.walk()}
+        self._artifact_to_key = self._compute_artifact_to_key()
+
+    def _compute_artifact_to_key(self) -> frozendict[Artifact, str]:
+        # The same Artifact may be assigned to multiple keys - always use the first (by name), no
+        # matter which order they were defined in.
+        return frozendict(
+            {artifact: key for key, artifact in sorted(self.artifacts.walk(), reverse=True)}
         )
 
     @property
-- 
2.43.0


From b5236aa7b94ae8db3c2c3d8cfd58765882bed6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 31/39] fix: include where Producer inputs are from in the
 Graph fingerprint

---
 src/arti/graphs/__init__.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index e2805c7..23d8be2 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -155,12 +155,24 @@ class Graph(Model):
     @cached_property
     def fingerprint(self) -> Fingerprint:
         # Artifact fingerprints (intentionally) exclude their `producer_output`, so include which
-        # Producer output is assigned to each key. Otherwise, Graphs that only differ in how the same
-        # Artifacts and Producers are connected (eg: swapped outputs) would be indistinguishable.
+        # Producer output is assigned to each key and which keys its inputs are from. Otherwise,
+        # Graphs that only differ in how the same Artifacts and Producers are connected (eg: swapped
+        # outputs) would be indistinguishable.
+        artifact_to_key = self._compute_artifact_to_key()
         return Model.fingerprint.func(self).combine(
             *(
                 Fingerprint.from_string(
-                    json.dumps([key, output.producer.fingerprint, output.position])
+                    json.dumps(
+                        [
+                            key,
+                            output.producer.fingerprint,
+                            output.position,
+                            {
+                                name: artifact_to_key.get(input)
+                                for name, input in output.producer.inputs.items()
+                            },
+                        ]
+                    )
                 )
                 for key, artifact in self.artifacts.walk()
                 if (output := artifact.producer_output) is not None
-- 
2.43.0


From 95d46e6afb87216f0362db5d893c04024ff00cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:54 +0000
Subject: [PATCH 32/39] fix: build every Artifact that a Producer output is
 assigned to

---
 src/arti/graphs/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/arti/graphs/__init__.py b/src/arti/graphs/__init__.py
index 23d8be2..7823b5c 100644
--- a/src/arti/graphs/__init__.py
+++ b/src/arti/graphs/__init__.py
@@ -223,15 +223,16 @@ class Graph(Model):
     @cached_property
     @requires_sealed
     def producer_outputs(self) -> frozendict[Producer, tuple[Artifact, ...]]:
-        d = defaultdict[Producer, dict[int, Artifact]](dict)
+        # NOTE: The same Producer output may be assigned to multiple Artifacts.
+        d = defaultdict[Producer, dict[Artifact, int]](dict)
         for _, artifact in self.artifacts.walk():
             if artifact.producer_output is None:
                 continue
             output = artifact.producer_output
-            d[output.producer][output.position] = artifact
+            d[output.producer][artifact] = output.position
         return frozendict(
-            (producer, tuple(artifacts_by_position[i] for i in sorted(artifacts_by_position)))
-            for producer, artifacts_by_position in d.items()
+            (producer, tuple(sorted(position_by_artifact, key=position_by_artifact.__getitem__)))
+            for producer, position_by_artifact in d.items()
         )
 
     # TODO: io.read/write probably need a bit of sanity checking (probably somewhere else), eg: type
-- 
2.43.0


From e5cd00bc6baf0a167ac71d70dd29497a374d1c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 33/39] fix: compare restored MemoryBackends without recursing
 endlessly

---
 src/arti/backends/memory.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/arti/backends/memory.py b/src/arti/backends/memory.py
index 2e78aa5..25003ab 100644
--- a/src/arti/backends/memory.py
+++ b/src/arti/backends/memory.py
@@ -60,7 +60,21 @@ class _NoCopyContainer(NoCopyMixin):
         self.storage_partitions: _StoragePartitions = defaultdict(set[StoragePartitionSnapshot])
 
     def __eq__(self, other: object, /) -> bool:
-        return isinstance(other, _NoCopyContainer) and vars(self) == vars(other)
+        if not isinstance(other, _NoCopyContainer) or self is other:
+            return self is other
+        # The contents may reference this container (through the Graph's backend), so consider the
+        # containers equal while already being compared.
+        pending = vars(_comparing).setdefault("pending", set())
+        if (pair := (id(self), id(other))) in pending:
+            return True
+        pending.add(pair)
+        try:
+            return vars(self) == vars(other)
+        finally:
+            pending.discard(pair)
+
+
+_comparing = threading.local()
 
 
 # The data structures may be shared across threads (or left by an interrupt) at any point, so sets are
-- 
2.43.0


From e13f26fd80b851fcde1c6343d25e2ff5228d0057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 34/39] fix: restore the keys of maps read from JSON

JSON object keys are always strings, so a Map with (eg) integer keys was silently read back with
different keys than were written.
---
 src/arti/formats/json.py                 | 42 ++++++++++++++++++++++++
 src/arti/io/json_gcsfile_python.py       | 10 +++---
 src/arti/io/json_localfile_python.py     | 11 ++++---
 src/arti/io/json_stringliteral_python.py | 11 ++++---
 4 files changed, 59 insertions(+), 15 deletions(-)

diff --git a/src/arti/formats/json.py b/src/arti/formats/json.py
index ce014ec..65f4176 100644
--- a/src/arti/formats/json.py
+++ b/src/arti/formats/json.py
@@ -1,6 +1,10 @@
 from __future__ import annotations
 
+import json
+from typing import Any
+
 from arti.formats import Format
+from arti.types import Boolean, Enum, List, Map, Null, Struct, Type, _Float, _Int
 from arti.types.python import python_type_system
 
 
@@ -9,3 +13,41 @@ class JSON(Format):
     # Perhaps we narrow down a json_type_system with the subset of supported types + a way to hook
     # into json.JSON{De,En}coders.
     type_system = python_type_system
+
+
+def _restore_key(key: str, type_: Type) -> Any:
+    if type_.nullable and key == "null":
+        return None
+    match type_:
+        case Boolean():
+            return {"false": False, "true": True}[key]
+        case Enum():
+            # Literals are encoded as their values.
+            return {next(iter(json.loads(json.dumps({v: v})))): v for v in type_.items}[key]
+        case _Float():
+            return float(key)
+        case _Int():
+            return int(key)
+        case Null():
+            return {"null": None}[key]
+        case _:
+            return key
+
+
+def restore_keys(data: Any, type_: Type) -> Any:
+    """Convert the keys of JSON objects, which are always strings, back to the type of the Map."""
+    match type_:
+        case Map() if isinstance(data, dict):
+            return {
+                _restore_key(key, type_.key): restore_keys(value, type_.value)
+                for key, value in data.items()
+            }
+        case List() if isinstance(data, list):
+            return [restore_keys(value, type_.element) for value in data]
+        case Struct() if isinstance(data, dict):
+            return {
+                key: restore_keys(value, type_.fields[key]) if key in type_.fields else value
+                for key, value in data.items()
+            }
+        case _:
+            return data
diff --git a/src/arti/io/json_gcsfile_python.py b/src/arti/io/json_gcsfile_python.py
index 2e3f8b6..da78dc8 100644
--- a/src/arti/io/json_gcsfile_python.py
+++ b/src/arti/io/json_gcsfile_python.py
@@ -7,7 +7,7 @@ from typing import Any
 
 from gcsfs import GCSFileSystem
 
-from arti.formats.json import JSON
+from arti.formats.json import JSON, restore_keys
 from arti.io import register_reader, register_writer
 from arti.storage.google.cloud.storage import GCSFilePartition
 from arti.types import Type, is_partitioned
@@ -17,10 +17,10 @@ from arti.views.python import PythonBuiltin
 # Maybe a View option?
 
 
-def _read_json_file(path: str) -> Any:
+def _read_json_file(path: str, type_: Type) -> Any:
     # TODO: GCSFileSystem needs to be injected somehow
     with GCSFileSystem(use_listings_cache=False).open(path, "r") as file:
-        return json.load(file)
+        return restore_keys(json.load(file), type_)
 
 
 @register_reader
@@ -33,12 +33,12 @@ def _read_json_gcsfile_python(
     if is_partitioned(type_):
         return list(
             chain.from_iterable(
-                _read_json_file(storage_partition.qualified_path)
+                _read_json_file(storage_partition.qualified_path, type_)
                 for storage_partition in storage_partitions
             )
         )
     assert len(storage_partitions) == 1  # Better error handled in base read
-    return _read_json_file(storage_partitions[0].qualified_path)
+    return _read_json_file(storage_partitions[0].qualified_path, type_)
 
 
 @register_writer
diff --git a/src/arti/io/json_localfile_python.py b/src/arti/io/json_localfile_python.py
index aa8e672..2b5a3d1 100644
--- a/src/arti/io/json_localfile_python.py
+++ b/src/arti/io/json_localfile_python.py
@@ -5,7 +5,7 @@ from collections.abc import Sequence
 from itertools import chain
 from typing import Any
 
-from arti.formats.json import JSON
+from arti.formats.json import JSON, restore_keys
 from arti.internal.utils import write_file
 from arti.io import register_reader, register_writer
 from arti.storage.local import LocalFilePartition
@@ -16,9 +16,9 @@ from arti.views.python import PythonBuiltin
 # Maybe a View option?
 
 
-def _read_json_file(path: str) -> Any:
+def _read_json_file(path: str, type_: Type) -> Any:
     with open(path) as file:
-        return json.load(file)
+        return restore_keys(json.load(file), type_)
 
 
 @register_reader
@@ -31,11 +31,12 @@ def _read_json_localfile_python(
     if is_partitioned(type_):
         return list(
             chain.from_iterable(
-                _read_json_file(storage_partition.path) for storage_partition in storage_partitions
+                _read_json_file(storage_partition.path, type_)
+                for storage_partition in storage_partitions
             )
         )
     assert len(storage_partitions) == 1  # Better error handled in base read
-    return _read_json_file(storage_partitions[0].path)
+    return _read_json_file(storage_partitions[0].path, type_)
 
 
 @register_writer
diff --git a/src/arti/io/json_stringliteral_python.py b/src/arti/io/json_stringliteral_python.py
index d22129d..c9e10d0 100644
--- a/src/arti/io/json_stringliteral_python.py
+++ b/src/arti/io/json_stringliteral_python.py
@@ -5,19 +5,19 @@ from collections.abc import Sequence
 from itertools import chain
 from typing import Any
 
-from arti.formats.json import JSON
+from arti.formats.json import JSON, restore_keys
 from arti.io import register_reader, register_writer
 from arti.storage.literal import StringLiteralPartition
 from arti.types import Type, is_partitioned
 from arti.views.python import PythonBuiltin
 
 
-def _read_json_literal(partition: StringLiteralPartition) -> Any:
+def _read_json_literal(partition: StringLiteralPartition, type_: Type) -> Any:
     # Though we take in a Partition (which has `value` as optional), we should be operating within a
     # Snapshot, which will ensure the `value` is set as part of
     # StringLiteralPartition.compute_content_fingerprint.
     assert partition.value is not None
-    return json.loads(partition.value)
+    return restore_keys(json.loads(partition.value), type_)
 
 
 @register_reader
@@ -30,11 +30,12 @@ def _read_json_stringliteral_python(
     if is_partitioned(type_):
         return list(
             chain.from_iterable(
-                _read_json_literal(storage_partition) for storage_partition in storage_partitions
+                _read_json_literal(storage_partition, type_)
+                for storage_partition in storage_partitions
             )
         )
     assert len(storage_partitions) == 1  # Better error handled in base read
-    return _read_json_literal(storage_partitions[0])
+    return _read_json_literal(storage_partitions[0], type_)
 
 
 @register_writer
-- 
2.43.0


From e75c6886dd6f3a31587f102962d622f45bfad581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 35/39] fix: register classes defined by several threads one
 after another

---
 src/arti/internal/utils.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/arti/internal/utils.py b/src/arti/internal/utils.py
index 02593a3..e74c39f 100644
--- a/src/arti/internal/utils.py
+++ b/src/arti/internal/utils.py
@@ -274,21 +274,26 @@ def ordinal(n: int) -> str:
     return str(n) + suffix
 
 
+# Modules may be imported (and hence their classes registered) by several threads at once.
+_registry_lock = threading.RLock()
+
+
 def register[K, V](
     registry: dict[K, V], key: K, value: V, get_priority: Callable[[V], int] | None = None
 ) -> V:
-    if key in registry:
-        existing = registry[key]
-        if get_priority is None:
-            raise ValueError(f"{key} is already registered with: {existing}!")
-        existing_priority, new_priority = get_priority(existing), get_priority(value)
-        if existing_priority > new_priority:
-            return value
-        if existing_priority == new_priority:
-            raise ValueError(
-                f"{key} with matching priority ({existing_priority}) is already registered with: {existing}!"
-            )
-    registry[key] = value
+    with _registry_lock:
+        if key in registry:
+            existing = registry[key]
+            if get_priority is None:
+                raise ValueError(f"{key} is already registered with: {existing}!")
+            existing_priority, new_priority = get_priority(existing), get_priority(value)
+            if existing_priority > new_priority:
+                return value
+            if existing_priority == new_priority:
+                raise ValueError(
+                    f"{key} with matching priority ({existing_priority}) is already registered with: {existing}!"
+                )
+        registry[key] = value
     return value
 
 
-- 
2.43.0


From 477b359ea8c36a527b40921590fd43d06639b008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:22 +0000
Subject: [PATCH 36/39] fix: refuse None keys of text maps in JSON and keep
 'null' ones

---
 src/arti/formats/json.py                 | 25 ++++++++++++++++++++++--
 src/arti/io/json_gcsfile_python.py       |  4 ++--
 src/arti/io/json_localfile_python.py     |  4 ++--
 src/arti/io/json_stringliteral_python.py |  4 ++--
 4 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/arti/formats/json.py b/src/arti/formats/json.py
index 65f4176..6f1c45d 100644
--- a/src/arti/formats/json.py
+++ b/src/arti/formats/json.py
@@ -4,7 +4,7 @@ import json
 from typing import Any
 
 from arti.formats import Format
-from arti.types import Boolean, Enum, List, Map, Null, Struct, Type, _Float, _Int
+from arti.types import Boolean, Enum, List, Map, Null, String, Struct, Type, _Float, _Int
 from arti.types.python import python_type_system
 
 
@@ -16,7 +16,7 @@ class JSON(Format):
 
 
 def _restore_key(key: str, type_: Type) -> Any:
-    if type_.nullable and key == "null":
+    if type_.nullable and key == "null" and not isinstance(type_, String):
         return None
     match type_:
         case Boolean():
@@ -34,6 +34,27 @@ def _restore_key(key: str, type_: Type) -> Any:
             return key
 
 
+def encode(data: Any, type_: Type) -> bytes:
+    """Encode the data such that `restore_keys` can restore it, or raise if that isn't possible."""
+    _check_keys(data, type_)
+    return json.dumps(data).encode()
+
+
+def _check_keys(data: Any, type_: Type) -> None:
+    match type_:
+        case Map() if isinstance(data, dict):
+            if isinstance(type_.key, String) and None in data:
+                raise ValueError("JSON cannot tell a `None` key from a 'null' one")
+            for value in data.values():
+                _check_keys(value, type_.value)
+        case List() if isinstance(data, list | tuple):
+            for value in data:
+                _check_keys(value, type_.element)
+        case Struct() if isinstance(data, dict):
+            for key in data.keys() & type_.fields.keys():
+                _check_keys(data[key], type_.fields[key])
+
+
 def restore_keys(data: Any, type_: Type) -> Any:
     """Convert the keys of JSON objects, which are always strings, back to the type of the Map."""
     match type_:
diff --git a/src/arti/io/json_gcsfile_python.py b/src/arti/io/json_gcsfile_python.py
index da78dc8..e6f199b 100644
--- a/src/arti/io/json_gcsfile_python.py
+++ b/src/arti/io/json_gcsfile_python.py
@@ -7,7 +7,7 @@ from typing import Any
 
 from gcsfs import GCSFileSystem
 
-from arti.formats.json import JSON, restore_keys
+from arti.formats.json import JSON, encode, restore_keys
 from arti.io import register_reader, register_writer
 from arti.storage.google.cloud.storage import GCSFilePartition
 from arti.types import Type, is_partitioned
@@ -47,5 +47,5 @@ def _write_json_gcsfile_python(
 ) -> None:
     # Upload in one shot - closing a `.open`ed file (even due to an error) commits what was written.
     GCSFileSystem(use_listings_cache=False).pipe_file(
-        storage_partition.qualified_path, json.dumps(data).encode(), consistency="md5"
+        storage_partition.qualified_path, encode(data, type_), consistency="md5"
     )
diff --git a/src/arti/io/json_localfile_python.py b/src/arti/io/json_localfile_python.py
index 2b5a3d1..aa8853e 100644
--- a/src/arti/io/json_localfile_python.py
+++ b/src/arti/io/json_localfile_python.py
@@ -5,7 +5,7 @@ from collections.abc import Sequence
 from itertools import chain
 from typing import Any
 
-from arti.formats.json import JSON, restore_keys
+from arti.formats.json import JSON, encode, restore_keys
 from arti.internal.utils import write_file
 from arti.io import register_reader, register_writer
 from arti.storage.local import LocalFilePartition
@@ -43,4 +43,4 @@ def _read_json_localfile_python(
 def _write_json_localfile_python(
     data: Any, type_: Type, format: JSON, storage_partition: LocalFilePartition, view: PythonBuiltin
 ) -> None:
-    write_file(storage_partition.path, json.dumps(data).encode())
+    write_file(storage_partition.path, encode(data, type_))
diff --git a/src/arti/io/json_stringliteral_python.py b/src/arti/io/json_stringliteral_python.py
index c9e10d0..92b22ba 100644
--- a/src/arti/io/json_stringliteral_python.py
+++ b/src/arti/io/json_stringliteral_python.py
@@ -5,7 +5,7 @@ from collections.abc import Sequence
 from itertools import chain
 from typing import Any
 
-from arti.formats.json import JSON, restore_keys
+from arti.formats.json import JSON, encode, restore_keys
 from arti.io import register_reader, register_writer
 from arti.storage.literal import StringLiteralPartition
 from arti.types import Type, is_partitioned
@@ -50,4 +50,4 @@ def _write_json_stringliteral_python(
         # We can't overwrite the original value stored in LiteralStorage - on subsequent
         # `.discover_partitions`, a partition with the original value will still be used.
         raise ValueError("Literals with a value already set cannot be written")
-    return storage_partition.model_copy(update={"value": json.dumps(data)})
+    return storage_partition.model_copy(update={"value": encode(data, type_).decode()})
-- 
2.43.0


From 037983fa8af5fc28fc7402a5829f2d895e451449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:15 +0000
Subject: [PATCH 37/39] fix: keep braces in literal values

---
 src/arti/storage/__init__.py | 7 ++++---
 src/arti/storage/literal.py  | 8 ++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/arti/storage/__init__.py b/src/arti/storage/__init__.py
index ad0bace..32518cb 100644
--- a/src/arti/storage/__init__.py
+++ b/src/arti/storage/__init__.py
@@ -205,11 +205,12 @@ class Storage[SP: StoragePartition](Model):
             if not self.includes_input_fingerprint_template:
                 raise ValueError(f"{self} does not specify a {{input_fingerprint}} template")
             format_kwargs["input_fingerprint"] = str(input_fingerprint)
+        format_fields = self._format_fields
         field_values = {
             name: (
-                strip_partition_indexes(original).format(**format_kwargs)
-                if lenient_issubclass(type(original := getattr(self, name)), str)
-                else original
+                strip_partition_indexes(format_fields[name]).format(**format_kwargs)
+                if name in format_fields
+                else getattr(self, name)
             )
             for name in self.model_fields
             if name in self.storage_partition_type.model_fields
diff --git a/src/arti/storage/literal.py b/src/arti/storage/literal.py
index c949ad0..3d07633 100644
--- a/src/arti/storage/literal.py
+++ b/src/arti/storage/literal.py
@@ -8,6 +8,7 @@ from arti import (
     StoragePartition,
     StoragePartitionSnapshots,
 )
+from arti.internal.mappings import frozendict
 
 _not_written_err = FileNotFoundError("Literal has not been written yet")
 
@@ -28,6 +29,13 @@ class StringLiteral(Storage[StringLiteralPartition]):
     id: str = "{graph_name}/{path_tags}/{names}/{partition_key_spec}/{input_fingerprint}/{name}{extension}"
     value: str | None = None
 
+    @property
+    def _format_fields(self) -> frozendict[str, str]:
+        # The value is data, so any braces or placeholders in it must be left alone.
+        return frozendict(
+            {name: spec for name, spec in super()._format_fields.items() if name != "value"}
+        )
+
     def discover_partitions(
         self, input_fingerprints: InputFingerprints = InputFingerprints()
     ) -> StoragePartitionSnapshots:
-- 
2.43.0


From e61abe291d826c033a702a6e0b988729bba6ddeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:40 +0000
Subject: [PATCH 38/39] fix: never discover temporary files as partitions of
 hidden paths

---
 src/arti/internal/utils.py    | 9 ++++++++-
 src/arti/storage/_internal.py | 4 +++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/arti/internal/utils.py b/src/arti/internal/utils.py
index e74c39f..dd322b4 100644
--- a/src/arti/internal/utils.py
+++ b/src/arti/internal/utils.py
@@ -4,6 +4,7 @@ import importlib
 import inspect
 import os
 import pkgutil
+import re
 import sys
 import threading
 import uuid
@@ -239,7 +240,8 @@ def write_file(path: str | Path, data: bytes) -> None:
             path.write_bytes(data)
         return
     # NOTE: The temporary file must be in the same directory to ensure the move is atomic, but is
-    # hidden so that any leftovers won't match the globs used to discover partitions.
+    # hidden so that any leftovers won't match the globs used to discover partitions (even those for
+    # hidden files, see `is_temporary_file`).
     tmp_path = path.with_name(f".{uuid.uuid4().hex}.tmp")
     try:
         with tmp_path.open("xb") as file:
@@ -250,6 +252,11 @@ def write_file(path: str | Path, data: bytes) -> None:
         raise
 
 
+def is_temporary_file(name: str) -> bool:
+    """Check whether the file name is one used by `write_file` for data that isn't complete (yet)."""
+    return re.fullmatch(r"\.[0-9a-f]{32}\.tmp", name) is not None
+
+
 @contextmanager
 def named_temporary_file(mode: str = "w+b") -> Generator[IO[Any], None, None]:
     """Minimal alternative to tempfile.NamedTemporaryFile that can be re-opened on Windows."""
diff --git a/src/arti/storage/_internal.py b/src/arti/storage/_internal.py
index d3eea79..4d4ff6e 100644
--- a/src/arti/storage/_internal.py
+++ b/src/arti/storage/_internal.py
@@ -12,6 +12,7 @@ from typing import Any
 import parse
 
 from arti.fingerprints import Fingerprint
+from arti.internal.utils import is_temporary_file
 from arti.partitions import InputFingerprints, PartitionField, PartitionKey, PartitionKeyTypes
 
 
@@ -148,7 +149,8 @@ def list_paths(pattern: str) -> set[str]:
         paths.update(
             os.path.join(parent, name)
             for name in fnmatch.filter(names, basename)
-            if basename.startswith(".") or not name.startswith(".")
+            if not is_temporary_file(name)
+            and (basename.startswith(".") or not name.startswith("."))
         )
     return paths
 
-- 
2.43.0


From 99b90da58488c55b8e18bbbe3a7018b480fe07ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:02 +0000
Subject: [PATCH 39/39] fix: represent models while other threads cache their
 properties

---
 src/arti/internal/models.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/arti/internal/models.py b/src/arti/internal/models.py
index 3d82a93..c7142d6 100644
--- a/src/arti/internal/models.py
+++ b/src/arti/internal/models.py
@@ -182,7 +182,12 @@ class Model(BaseModel, metaclass=ModelMeta):
         return fingerprint
 
     def __repr_args__(self) -> Iterable[tuple[str | None, Any]]:
-        return [(k, v) for k, v in super().__repr_args__() if k in self.model_fields_set]
+        # Other threads may be caching properties (eg: `fingerprint`) in __dict__, so iterate a copy.
+        return [
+            (k, v)
+            for k, v in self.__dict__.copy().items()
+            if k in self.model_fields_set and k in self.model_fields and self.model_fields[k].repr
+        ]
 
     def __str__(self) -> str:
         return repr(self)
-- 
2.43.0

