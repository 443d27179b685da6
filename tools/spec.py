"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step.

    /opt/venv/bin/python tools/spec.py
"""

import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
S = "src/valori/"


def P(id, title, statement, over, text, tests, files, mechanism, technique, note, observe=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests,
                files=files, mechanism=mechanism, technique=technique, note=note,
                observe=list(observe))


ST = ["storage/memory.py", "storage/disk.py", "storage/hybrid.py"]
IX = ["indices/flat.py", "indices/hnsw.py", "indices/ivf.py", "indices/lsh.py",
      "indices/annoy.py"]
QZ = ["quantization/scalar.py", "quantization/product.py", "quantization/saq.py"]
PE = ["persistence/tensor.py", "persistence/incremental.py"]
PR = ["parsers/text_parser.py", "parsers/pdf_parser.py", "parsers/office_parser.py",
      "parsers/docling_parser.py"]

PROPERTIES = [
    P("S01", "A storage backend is a map from ids to records",
      "After any sequence of storing, overwriting, updating, deleting, reading, listing and "
      "counting on memory, disk or hybrid storage, every answer is the one a map from ids to "
      "(vector, metadata) would give: the vector comes back bit for bit with its dtype and shape, "
      "the metadata equal, listings hold exactly the live ids (at most the limit), counts agree, and "
      "operations on absent ids report failure. Distinct ids never share a record, whatever "
      "characters they contain.",
      ["histories", "inputs"], "all operation sequences, ids, dtypes, shapes and metadata the backend accepts, on all three backends",
      "The tests store a handful of records with plain ids and read them back once; overwriting, odd ids, dtypes and long mixed histories are not reached.",
      ST, [("record store", "storage/*.py store/retrieve/update/delete/list_ids/count"), ("id to file name coding", "storage/disk.py")],
      "model-based monitor: every answer compared with a dictionary over random histories",
      "Random exploration; a deviation that needs a history longer than 120 operations or an id outside the generated families is not reached.",
      ["return values of the storage interface"]),
    P("S02", "What is stored is a private copy, and so is what is handed out",
      "Changing an array, a metadata dictionary or anything nested in one after passing it to a storage backend, an index or a client, or after getting it back from a read or a search, never changes what is stored or what later reads and searches return.",
      ["histories", "inputs"], "all histories of operations interleaved with in-place changes by the caller to every object passed in or handed out",
      "The tests never alter an object after handing it over; aliasing shows only under a later change by the caller.",
      ST + IX, [("copies on the way in and out", "storage/memory.py, storage/hybrid.py, indices/*.py search results")],
      "aliasing monitor: caller-side scribbling with deep-copied reference contents",
      "Random exploration over all backends and all five indexes.",
      ["return values after the caller scribbled over its objects"]),
    P("S03", "What disk and hybrid storage acknowledged is there after a restart",
      "After any sequence of operations on disk or hybrid storage (directly or through a client), opening the same directory again, whether the old object was closed, abandoned or its process was killed after the last acknowledged operation, shows exactly the acknowledged records, listing and count. When the system refuses an access to the directory while it is opened or asked, the call raises or answers truly; it never shows fewer records as if they were all.",
      ["histories", "crash_points"], "all histories with restarts of three kinds after any acknowledged operation",
      "The tests reopen a directory at most once, after an orderly close, with one or two plain records.",
      ["storage/disk.py", "storage/hybrid.py"], [("write-through to disk", "storage/hybrid.py store_vector/update_vector/delete_vector"), ("index of records rebuilt at initialization", "storage/disk.py initialize")],
      "restart monitor: acknowledged operations compared with the reopened directory",
      "A crash is the death of the process; loss of data the operating system accepted (power loss) is out of scope.",
      ["contents of a fresh storage object on the same directory"]),
    P("S04", "A write that fails or is cut short harms no acknowledged record",
      "When a store, update or delete on disk or hybrid storage fails with an I/O error or the process dies at any point within it, every other record is unharmed, the record concerned afterwards is entirely its old or entirely its new version (the old one if the call raised or reported an error before acknowledging and nothing was replaced, never a mixture or an unreadable one), and the directory opens and works again.",
      ["fault_sequences", "crash_points"], "every file operation of an operation as the point of an injected error or of process death, and writes cut short at any size",
      "The tests inject no fault and kill no process; a torn write needs a fault between two particular file operations.",
      ["storage/disk.py", "storage/hybrid.py"], [("write to a temporary file, then replace", "storage/disk.py")],
      "fault-injection monitor: error and death at each file operation, then recovery compared with the acknowledged records",
      "Every Python-level file operation of the operation is a point; writes are also cut by file-size limits. Power loss and reordering below the process are out of scope.",
      ["contents after reopening the directory"]),
    P("S05", "Concurrent storage operations behave as if one ran at a time",
      "When several threads use one memory or hybrid storage, every answer, listing and count and the final contents are explained by some order of the operations that respects their real-time order, and no record mixes the vector of one write with the metadata of another.",
      ["schedules"], "all interleavings of operations on shared ids by up to 6 threads",
      "The tests are single-threaded.",
      ["storage/memory.py", "storage/hybrid.py"], [("lock around each operation", "storage/memory.py, storage/hybrid.py")],
      "linearizability checking of recorded concurrent histories with injected delays",
      "Interleavings come from forced thread switches and delays at random lines of the package, not from enumeration.",
      ["invocation and response events of each operation"]),
    P("S06", "Hybrid storage respects its memory limit and never contradicts itself",
      "Hybrid storage never keeps more records in memory than its memory limit (zero included), every record is readable whether or not it is in memory, and what memory serves is always what is on disk.",
      ["histories", "configurations"], "all operation sequences and memory limits",
      "The tests use one limit and a few inserts; eviction and promotion after updates and deletes are not reached.",
      ["storage/hybrid.py"], [("eviction and promotion", "storage/hybrid.py")],
      "state monitor after every operation: memory part, a fresh disk view and a dictionary compared",
      "Random exploration of histories with limits 0 to 6.",
      ["hybrid storage contents, its memory part, and a second disk view of the directory"]),
    P("I01", "The flat index returns exactly the k nearest vectors",
      "For any sequence of inserts, updates and deletes and any query, the flat index returns min(k, n) live vectors that are the nearest by the configured metric (cosine or euclidean), in order of increasing distance, each with its true distance and its current metadata.",
      ["histories", "inputs"], "all histories, vectors (dtypes, magnitudes, duplicates, zeros), queries and k over every storage backend",
      "The tests compare a few well-separated vectors; ties, zero vectors, dtypes and histories with deletes and updates are not reached.",
      ["indices/flat.py"], [("distance scan and selection of the k smallest", "indices/flat.py search")],
      "differential monitor: each search compared with a float64 brute-force oracle",
      "Distances are judged within float32 tolerance; ties may come in any order.",
      ["search results"]),
    P("I02", "An index returns only live vectors, once, with true distance, in order",
      "Whatever the index (flat, HNSW, IVF, LSH, Annoy), its configuration and history, a search returns at most k results, each a stored and not removed vector, none twice, each with the true distance or similarity of its current vector and its current metadata, ordered from best to worst. The id of a removed vector stays unknown and is not given to another one until the index is cleared or closed.",
      ["histories", "configurations", "inputs"], "all histories and configurations of the five indexes",
      "The tests check that searches return something plausible; they do not recompute distances after updates and deletes or vary configurations.",
      IX, [("result assembly", "indices/*.py search"), ("removal and update", "indices/*.py delete/update")],
      "online trace monitor: every search answer judged against a model of the live vectors",
      "Random exploration; which vectors an approximate index finds is judged in I03, I04, I07 and I08.",
      ["search results"]),
    P("I03", "HNSW keeps every vector reachable through any history",
      "After any sequence of inserts, updates and deletes, an HNSW search whose search width is at least the number of stored vectors returns exactly the k nearest, a search with a smaller width still returns min(k, n) true results, and recall on larger sets stays high.",
      ["histories", "configurations"], "all histories (delete-heavy ones included) and link counts from 1 up",
      "The tests insert once and search; a graph that falls apart needs deletes and updates of particular nodes.",
      ["indices/hnsw.py"], [("graph search", "indices/hnsw.py"), ("reconnection after deletion", "indices/hnsw.py delete")],
      "differential monitor: wide searches compared with a float64 brute-force oracle over random histories",
      "Random exploration; recall is judged statistically on seeded sets with a wide margin.",
      ["search results"]),
    P("I04", "IVF loses no vector and is exact when all clusters are probed",
      "Before training, and after it when as many clusters are probed as exist, an IVF search returns exactly the k nearest live vectors; every vector is in exactly one cluster through training, inserts, updates and deletes, a query equal to a stored vector finds a vector at distance zero even with one probe, and probing more clusters never makes results worse.",
      ["histories", "configurations"], "all histories around and after training, cluster counts and probe counts",
      "The tests train once on random vectors; vectors that move between clusters on update and histories that cross the training threshold are not reached.",
      ["indices/ivf.py"], [("cluster assignment", "indices/ivf.py insert/update/delete"), ("training", "indices/ivf.py")],
      "differential monitor: exhaustive-probe searches compared with a float64 oracle, and conservation of cluster sizes",
      "Random exploration.",
      ["search results, index statistics"]),
    P("I05", "An index opened on a filled storage serves exactly what it holds",
      "A flat, HNSW or IVF index initialized (for the first time or again) on a storage that already holds records answers searches for exactly those records, keeps no vector the storage no longer holds, and accepts further operations.",
      ["histories"], "all storage contents and ways of filling or changing the storage before the index is opened",
      "The tests open indexes on empty storage only.",
      ["indices/flat.py", "indices/hnsw.py", "indices/ivf.py", "client.py"], [("rebuild from storage", "indices/*.py initialize")],
      "differential monitor: answers after opening compared with an exact oracle over the storage contents",
      "Random exploration.",
      ["search results after initialize"]),
    P("I06", "A refused or failed index operation changes nothing",
      "When an insert, update, delete or search is given unusable input (wrong dimension or rank, NaN or infinity, non-numeric values, unknown ids, a bad k) or the storage below fails at any call, the operation raises the package's error or reports failure, and afterwards contents, counts and answers are what they were before.",
      ["fault_sequences", "inputs"], "every kind of bad input and every storage call as failure point",
      "The tests try one or two bad inputs and do not look at the state left behind; storage failures are not injected.",
      IX, [("validation before change", "indices/*.py insert/update"), ("undo of a failed insert", "indices/flat.py, indices/hnsw.py, indices/ivf.py")],
      "fault-injection monitor: answers, counts and storage compared before and after each refused or failed operation",
      "Every storage call of an operation is enumerated as failure point for the storage-backed indexes.",
      ["errors raised; search results, counts and storage contents before and after"]),
    P("I07", "LSH answers depend only on what is stored, and find every twin",
      "An LSH index that went through any history answers like a fresh one with the same settings holding only the surviving vectors; a query equal to a stored vector finds it, a similarity threshold keeps exactly the results that reach it, more tables or a larger k never lose a result, and a neighbour at a small angle is found nearly always even when its hash differs.",
      ["histories", "configurations"], "all histories, table counts, hash sizes, thresholds",
      "The tests insert and search once; stale table entries show only after updates and deletes.",
      ["indices/lsh.py"], [("hash tables kept in step", "indices/lsh.py insert/update/delete")],
      "differential monitor: index with a history compared with a fresh one",
      "Random exploration.", ["search results"]),
    P("I08", "Annoy answers for exactly what it holds through build, change, save, load",
      "A built Annoy index searched with full effort returns the k best of the vectors it holds for its metric, with their similarity and metadata; after any inserts, updates, deletes, rebuilds, clearing, and saving and loading, removed vectors never appear, updated ones count with their new vector once built, and searches that cannot be answered are refused.",
      ["histories", "configurations"], "all histories of build, change, save and load, in memory and on disk, four metrics",
      "The tests build once and search; change after build and load into another object are not reached.",
      ["indices/annoy.py"], [("item numbering and rebuild", "indices/annoy.py"), ("save and load", "indices/annoy.py save/load")],
      "differential monitor: full-effort searches compared with an oracle through build, change, save and load",
      "Random exploration. The Annoy library itself is trusted.", ["search results, errors"]),
    P("I09", "A client shared by threads behaves as if one operation ran at a time",
      "When several threads insert, update, delete, search, ask for statistics and close through one client, every answer and the final contents are explained by some order of the operations that respects their real-time order; no operation fails or damages the index because of another, and one that comes after the close is refused whole.",
      ["schedules"], "all interleavings of client operations by up to 5 threads, on each index kind",
      "The tests are single-threaded.",
      ["client.py"], [("client lock", "client.py")],
      "linearizability checking of recorded concurrent histories with injected delays",
      "Interleavings come from forced thread switches and delays at random lines of the package.",
      ["invocation and response events, final contents"]),
    P("Q01", "Scalar quantization errs by at most half a step",
      "For every bit width from 1 to 64, a value inside the trained range is reconstructed to within half a quantization step (up to float rounding) and one outside is clamped to the range; codes stay in range and keep the order of values, do not depend on the rest of the batch, and distances agree with the reconstructed vectors.",
      ["inputs", "configurations"], "all training sets, dtypes, vectors and bit widths",
      "The tests use 8 bits on random normal data with a loose bound.",
      ["quantization/scalar.py"], [("scale, offset, rounding and clamping", "quantization/scalar.py")],
      "differential monitor: codes, reconstructions and distances against a float64 oracle",
      "Random exploration, every bit width hit in each run.", ["codes, reconstructions, distances, statistics"]),
    P("Q02", "Product quantization encodes each part by its nearest codeword",
      "Each part of a vector is encoded by a codeword that is nearest to it among those of that part, decoding gives that codeword, encoding does not depend on the rest of the batch, distances agree with the decoded vectors, and a training set with no more distinct parts than codewords is reproduced exactly.",
      ["inputs", "configurations"], "all training sets, dtypes, numbers of parts and codewords (above 256 included)",
      "The tests encode random vectors and look at shapes.",
      ["quantization/product.py"], [("nearest-codeword encoding", "quantization/product.py quantize"), ("code width", "quantization/product.py")],
      "differential monitor: every encoded part compared with all codewords in float64",
      "Random exploration.", ["codes, decoded vectors, distances"]),
    P("Q03", "Segmented quantization spends its bits on nearest codewords",
      "The segments partition all dimensions, their bits add up to the configured budget with at least one bit each, every segment of a vector is encoded by its nearest codeword, and distances agree with the decoded vectors, whatever the budget, number of segments and adjustment rounds.",
      ["inputs", "configurations"], "all training sets, bit budgets, segment counts and adjustment rounds, retraining included",
      "The tests train on one random set per configuration and look at shapes and rough errors.",
      ["quantization/saq.py"], [("segmentation and bit allocation", "quantization/saq.py"), ("encoding", "quantization/saq.py quantize")],
      "differential monitor: codes compared with the codewords read back by decoding; partition and budget checked on reported statistics",
      "Random exploration; codewords not used by the training set are not visible to the oracle.", ["codes, decoded vectors, statistics"]),
    P("Q04", "Rescored search is exact; failed training leaves nothing half-done",
      "A quantized search with rescoring returns its results ordered by true distance and equals exact search when its candidate list covers the whole set; a training that fails leaves a quantizer either as it was trained before or untrained, and an untrained, re-initialized or closed quantizer refuses to encode, decode and compare.",
      ["inputs", "histories"], "all data sets, candidate list sizes, and histories of successful and failing trainings",
      "The tests train once, successfully, and check shapes of search results.",
      QZ, [("rescoring", "quantization/saq.py search"), ("training state", "quantization/*.py train/initialize/close")],
      "differential and state monitor: rescored answers against float64 distances, a probe's codes before and after failed training",
      "Random exploration.", ["search results; codes of a fixed probe; errors"]),
    P("P01", "What is saved is what is loaded",
      "For any name and any state, vector array or index data, loading returns exactly what was last saved under that name (values, dtypes, shapes, nesting), also after reopening, after the caller changed its copy, and after other names were saved; loading a name never saved reports absence.",
      ["inputs", "histories"], "all names, nested states and arrays, histories of saves, loads and reopenings, with both persistence managers",
      "The tests save one small state with a plain name and load it back.",
      PE, [("file naming and serialization", "persistence/tensor.py, persistence/incremental.py")],
      "model-based monitor: every load compared bit for bit with the last save of that name",
      "Names whose files would collide by the documented suffix scheme are excluded.", ["loaded values, statistics"]),
    P("P02", "A save that fails or is cut short leaves the previous one loadable",
      "When saving a state, vectors or an index fails with an error or the process dies at any point within it, everything saved before remains loadable, and the name concerned loads as its old or its new version, in the same process and after a restart.",
      ["fault_sequences", "crash_points"], "every file operation of a save as the point of an error or of process death, and writes cut at any size",
      "The tests inject no faults.",
      PE, [("write to a temporary file, then replace", "persistence/tensor.py, persistence/incremental.py")],
      "fault-injection monitor: error and death at each file operation of a save, then everything loaded again",
      "Every Python-level file operation is a point. Power loss is out of scope.", ["loaded values after the fault"]),
    P("P03", "Incremental persistence recovers the latest acknowledged state",
      "After any sequence of saves with any checkpoint interval, cut by restarts, errors or process death, the state loaded is the last one acknowledged, or the one whose save was cut short.",
      ["histories", "crash_points"], "all histories, checkpoint intervals and cut points",
      "The tests make a few saves and load once without a restart between checkpoints.",
      ["persistence/incremental.py"], [("checkpoints and log", "persistence/incremental.py")],
      "crash-recovery monitor: the state loaded after each cut compared with the acknowledged saves",
      "A crash is the death of the process.", ["loaded state after restart"]),
    P("P04", "The operation log has every acknowledged save once, in order",
      "With incremental persistence the log holds every acknowledged operation exactly once, in order and with strictly increasing numbers, across restarts, failed writes, process death and half-written lines; a cut operation leaves at most one entry, and the statistics agree with the log.",
      ["histories", "crash_points", "fault_sequences"], "all histories of saves cut at any file operation",
      "The tests check that a log file appears.",
      ["persistence/incremental.py"], [("log append and numbering", "persistence/incremental.py")],
      "offline log checker: exactly-once, order and numbering over recorded operations with injected faults",
      "A crash is the death of the process.", ["the log file, statistics"]),
    P("P05", "Damaged files are refused, and harm nothing but what they hold",
      "When a file written by disk or hybrid storage, a persistence manager, the vector file helpers or an Annoy index is cut at any length, emptied, overwritten or exchanged, or the system refuses an access to it, reading what it held gives exactly what was written or the error of the component, never anything else; everything held in other files reads as before, also after a restart, and writing anew (or deleting) makes it whole.",
      ["inputs", "fault_sequences"], "all files, points of damage and later histories",
      "The tests damage no file.",
      ["storage/disk.py", "storage/hybrid.py", "indices/annoy.py", "utils/helpers.py"] + PE, [("reading", "retrieve_vector, load_*, load")],
      "fault injection into stored files with a constructive oracle of their content",
      "Damage that leaves a well-formed file of other content is not made; there are no checksums.", ["values read, errors"]),
    P("D01", "Chunks are true spans of the text and together leave nothing out",
      "For every text, strategy (fixed, semantic, sliding window), size and overlap, each chunk is the text between its recorded positions (up to trimmed blanks), chunks come in order, are numbered in order, overlap as configured, and every non-blank character of the text is in at least one chunk.",
      ["inputs", "configurations"], "all texts and settings",
      "The tests chunk one or two English texts and count chunks.",
      ["processors/chunking.py"], [("chunk boundaries", "processors/chunking.py")],
      "coverage oracle: every chunk compared with the text at its position, every character marked",
      "Random exploration over eight styles of text.", ["chunks returned"]),
    P("D02", "Chunks keep to their sizes and break where they should; chunking ends",
      "No chunk is longer than the configured size, merged or dropped chunks follow the configured minimum, boundaries fall on separators where the strategy promises it, impossible settings are refused when the processor is set up, and chunking always ends in time proportionate to the text.",
      ["inputs", "configurations"], "all texts and settings, extreme ones included",
      "The tests use default-like sizes; size 1, overlap near the size and separator-free texts are not reached.",
      ["processors/chunking.py"], [("size bounds and break search", "processors/chunking.py"), ("settings checked", "processors/chunking.py initialize")],
      "bounds oracle: sizes, break positions and termination judged independently; refused settings enumerated",
      "Random exploration; a case that uses 90 s of CPU counts as not ending.", ["chunks returned, errors"]),
    P("D03", "Cleaning changes what it is told to change, and nothing else",
      "For every combination of cleaning options, the cleaned text is the input with exactly the configured changes (tags and entities, blanks, case, special characters, accents, stop words, length), chunks are cleaned in the same way, statistics tell the true lengths, and the caller's document is not altered.",
      ["inputs", "configurations"], "all texts and all combinations of options",
      "The tests try a few options on one text each.",
      ["processors/cleaning.py"], [("cleaning steps", "processors/cleaning.py")],
      "constructive oracle: texts put together from parts whose cleaned form is known",
      "Exactness is judged on texts composed of known parts; on arbitrary texts weaker invariants are judged.", ["processed documents"]),
    P("D04", "Every text gets its own embedding, whatever cache and batches do",
      "With any model library, batch, cache and history, each document and chunk receives the embedding the model gives for its own text (normalized if configured), blank texts get the documented treatment, the cache never changes an answer, and altering a result never alters later ones.",
      ["histories", "configurations"], "all histories of documents and batches, cache settings and model libraries (stand-ins)",
      "The tests mock one model and embed one document.",
      ["processors/embedding.py"], [("cache keyed by text", "processors/embedding.py"), ("batch assembly", "processors/embedding.py")],
      "recording stand-in models: each embedding compared with the model's for that very text",
      "The model libraries are replaced by recording stand-ins; real models are not run.", ["embeddings in processed documents; calls the stand-in saw"]),
    P("D05", "The pipeline is its parser and processors, one after the other",
      "A processed text or file is what the configured parser and processors give when applied one after the other in the configured order; in a batch each document's result is independent of the others, results come in order, and a failing document is reported without harming the rest.",
      ["configurations", "inputs", "fault_sequences"], "all pipelines (any subset of processors, any settings) and batches with good, damaged, missing and unsupported files",
      "The tests run one or two fixed pipelines on good text.",
      ["processors/pipeline.py"], [("composition and batch handling", "processors/pipeline.py")],
      "differential monitor: pipeline results compared field by field with the steps made one by one",
      "Random exploration.", ["processed documents, pipeline information"]),
    P("D06", "A parsed document has the text, metadata and chunks of its file",
      "For each supported format the parsed text is the text of the file in order, metadata tells the file's name, type, size and counts truly, chunks are spans covering the text with the configured size and overlap (ending at sentence, line or paragraph ends where there is one in their second half), and damaged, missing, foreign, unreadable or too large files are refused with the parsing error.",
      ["inputs", "configurations"], "all file contents and encodings of each format, chunk settings",
      "The tests parse one small file of a few formats.",
      PR, [("extraction", "parsers/*.py parse"), ("chunking of the parsed text", "parsers/base.py, parsers/*.py")],
      "constructive oracle: files written with known content, parsed, compared",
      "Docling is a stand-in. Office and PDF files come from writers in the harness; exotic features of the formats are not generated.", ["parsed documents, errors"]),
    P("D07", "The registry finds the highest-ranking parser that can read a file",
      "After any sequence of adding, replacing and removing parsers, asking by file finds the registered parser of the highest rank that supports the file and none otherwise, asking by name finds exactly the named one, and parsing uses that parser.",
      ["histories", "inputs"], "all histories of the registry and all file names",
      "The tests register one parser and ask for it.",
      ["parsers/registry.py", "parsers/base.py"], [("dispatch by rank", "parsers/registry.py")],
      "model-based monitor: every answer compared with a model of the registry",
      "Random exploration.", ["parsers returned, parsed documents"]),
    P("U01", "A batch operation does what the same operations one by one would do",
      "Batch insert, parallel batch insert and batch search give every vector or query to the client exactly once, with its own metadata and in batches of the configured size, return ids or results in the order of the input, report each failed batch (and only those) without harming the others, and keep statistics and progress that match what happened.",
      ["fault_sequences", "inputs", "schedules"], "all batch sizes, worker counts, sets of failing calls and orders of completion",
      "The tests insert one batch with a mock that never fails and finishes in order.",
      ["utils/batch_manager.py"], [("splitting, order of results and failure handling", "utils/batch_manager.py")],
      "recording stand-in client with injected failures and delays: calls, ids, callbacks and statistics compared with the batches worked out independently",
      "Random exploration of batch sizes, workers, failures and delays.", ["calls the client saw, returned ids and results, callbacks, statistics"]),
    P("U02", "Similarity and distance functions compute what their names say",
      "For vectors of any numeric type and magnitude each similarity, distance and normalization function returns the value of its definition (to float rounding), symmetric where the definition is and within its range, the batch forms agree with the pairwise ones, and mismatched shapes or unknown methods are refused.",
      ["inputs"], "all pairs and sets of vectors of all dtypes, zero, parallel, opposite and huge ones included",
      "The tests check one or two float32 pairs per function.",
      ["utils/similarity.py"], [("formulas", "utils/similarity.py")],
      "differential monitor against float64 definitions and between pairwise and batch forms",
      "Random exploration.", ["returned values, errors"]),
    P("U03", "The validators accept exactly what they describe",
      "Each validator returns True for values that fit its constraints, raises the package's ValidationError (nothing else) for values that do not, and leaves its arguments unchanged.",
      ["inputs"], "all values and constraints: dtypes, shapes, special values, keys, types, ranges, ids, metadata",
      "The tests try a few good and bad values per validator.",
      ["utils/validation.py"], [("checks", "utils/validation.py")],
      "constructive oracle: values built together with constraints, so that the right verdict is known",
      "Random exploration; NumPy integers and booleans given as k are left undefined.", ["return values, errors"]),
    P("U04", "Vectors written to a file are read back as they were",
      "Vectors and metadata saved in any format under any file name are loaded with the same shape, values and metadata, overwriting replaces the whole file, other files and the caller's data stay as they were, and unknown formats are refused.",
      ["inputs"], "all sets of vectors (empty ones included), metadata, formats and names",
      "The tests write one small set per format.",
      ["utils/helpers.py"], [("writers and readers", "utils/helpers.py")],
      "round-trip monitor: what is read compared exactly with what was written",
      "Random exploration; JSON does not keep dtypes.", ["loaded vectors and metadata, directory contents"]),
    P("U05", "The set helpers do for sets what the pairwise functions do for pairs",
      "Normalizing a set, its similarity matrix and its duplicate groups agree with the definitions for every dtype and change no input; batch search over queries equals single searches; vectors made from texts or files are those the model gives for each text or file, in order, and unreadable files are reported or skipped without shifting the others.",
      ["inputs", "configurations"], "all sets of vectors, thresholds, metrics, indexes, texts and files",
      "The tests use one small float set per helper.",
      ["utils/helpers.py", "utils/similarity.py"], [("set helpers", "utils/helpers.py")],
      "differential monitor against float64 definitions, single searches and a recording stand-in model",
      "Random exploration; the model library is a stand-in.", ["returned values, calls the stand-in saw"]),
    P("F01", "Every ready-made configuration and factory gives a database that works",
      "Each listed configuration, template and recommendation is accepted by the component it is for and gives a database in which inserted vectors are found with their metadata and removed ones are not; factories heed the settings they are given; changing a returned configuration changes nothing for later callers; unknown names are refused.",
      ["configurations", "histories"], "all listed configurations, templates, recommendation inputs and factory settings",
      "The tests check that a few factories return a client; they do not use every configuration.",
      ["configs.py", "factory.py", "utils/helpers.py"], [("ready-made configurations", "configs.py"), ("factories and templates", "factory.py")],
      "model-based monitor over databases made from each configuration, with aliasing checks on the configurations",
      "All listed names are hit in each run; settings are random. Model libraries are stand-ins.", ["search results, configurations, errors"]),
    P("U06", "Measuring and inspecting changes nothing, and reports what is there",
      "A function under the timing, memory or debugging decorator or the profiler runs exactly once per call, with the same arguments, and gives the same result or error; profiles, vector and query analyses, index inspections and performance reports state true counts and statistics, for zero, single and odd vectors too, and leave vectors, results and indexes as they were.",
      ["inputs", "histories"], "all functions, results and errors under any nest of decorators; all vectors, query results and index histories",
      "The tests do not use the debugging helpers.",
      ["utils/debugging.py", "utils/helpers.py", "utils/batch_manager.py"], [("decorators", "utils/helpers.py, utils/debugging.py debug_function"), ("analyses", "utils/debugging.py")],
      "recording monitor on the decorated functions, and float64 definitions for what is reported",
      "Random exploration; measured times and memory are judged for consistency only.", ["calls, results and errors of decorated functions; reports"]),
    P("U07", "What is logged is written once, to every destination set up",
      "A message logged through a logger of the package or one of its log functions appears exactly once, in order and with its values, on the console and in the log file when its level is at or above the level last set up (INFO if none was), and nowhere otherwise, however often and in whatever order loggers are obtained and logging is set up; rotation keeps the latest messages whole within the given number and size of files.",
      ["histories"], "all histories of setting up logging, obtaining loggers and logging",
      "The tests never look at what is logged.",
      ["utils/logging.py", "utils/debugging.py"], [("log functions and set-up", "utils/logging.py"), ("set-up for the package", "utils/debugging.py setup_logging")],
      "offline checker over the captured output and the log files: exactly once, in order, at its level, by a unique token in every message",
      "Random exploration in one process and thread.", ["messages and what arrived of them; rotated files"]),
    P("L01", "A component works only between its initialization and its end",
      "Every storage, index, quantizer, persistence manager, parser, registry, processor, pipeline and client performs its operations when it is initialized, and when it is not yet, no longer or not successfully initialized refuses them with its own error and changes nothing; closing is harmless at any time, closing a client closes its parts, and a component can be initialized again after a close or a failed start.",
      ["histories"], "all sequences of initializing (successfully or not), operating and closing, for every component",
      "The tests ask a few components once before initialization; lives with failures, repeated closes and restarts are not reached.",
      ["client.py", "storage/disk.py", "storage/hybrid.py", "storage/memory.py"] + IX + QZ + PE + ["processors/pipeline.py", "parsers/registry.py"],
      [("guards", "*/*.py, if not self._initialized"), ("close", "client.py close")],
      "life-cycle monitor: a two-state model of every component decides whether an operation has to work or to be refused",
      "Random exploration. LSH and Annoy indexes, whose re-initialization keeps vectors, are cleared by the harness; an uninitialized embedding processor reports dimension 0 by design.",
      ["results, errors, files"]),
    P("L02", "Statistics tell the truth, and asking for them changes nothing",
      "At any point of any history, the numbers a storage, index, quantizer, persistence manager or client reports (vectors, bytes, files, saves, loads, buckets, clusters, settings) are those of its true state, the client reports exactly its parts, and asking changes neither contents nor answers nor later statistics.",
      ["histories", "configurations"], "all histories and configurations of all components that report statistics",
      "The tests look at a few fields after one insert.",
      ["client.py"] + ST + IX + QZ + PE, [("bookkeeping", "*/*.py get_stats")],
      "model-based monitor: reported numbers compared with a model and with the files on disk",
      "Random exploration; memory use is judged by bounds.", ["statistics, search results, files"]),
    P("L03", "Processors tell the truth about their work",
      "At any point of any history of documents, batches, refused input, closing and reinitializing, the numbers a cleaning, chunking or embedding processor reports, directly or through a pipeline (documents, characters before and after, chunks and their average size, texts and embeddings computed, cache hits and their rate, settings), are those of what it has done, each document, text and chunk counted once and refused work not at all, and asking changes nothing.",
      ["histories", "configurations"], "all histories and configurations of the processors and of pipelines of them",
      "No test looks at these numbers.",
      ["processors/cleaning.py", "processors/chunking.py", "processors/embedding.py", "processors/pipeline.py"], [("counting", "processors/*.py process, batch_process, get_stats")],
      "model-based monitor: reported numbers compared with counts kept from inputs and results",
      "Embedding libraries are stand-ins. Blank texts in batches, which the model may or may not be given, are left out.", ["statistics, results"]),
]


def main():
    rows, checks = [], []
    for p in PROPERTIES:
        rows.append({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["tests"],
            "anchors": {
                "files": [S + f for f in p["files"]],
                "mechanism": [{"name": n, "where": S + w} for n, w in p["mechanism"]],
                "observe_at": p["observe"],
                "hook_needed": None,
            },
        })
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        module = importlib.import_module(f"vmon.checks.{p['id'].lower()}")
        command = f"/opt/venv/bin/python check.py {p['id']}"
        checks.append({
            "property": p["id"], "quick_cmd": command, "thorough_cmd": command + " --tier thorough",
            "technique": "runtime monitoring: " + p["technique"], "level": module.LEVEL,
            "level_note": p["note"] + " Trusts Python, NumPy and the harness's oracle.",
        })
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for row in rows:
            f.write(json.dumps(row, ensure_ascii=False) + "\n")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump({
            "version": 1,
            "setup_cmd": "/opt/venv/bin/python -c \"import numpy, annoy, sklearn; import vmon.core\"",
            "checks": checks, "not_applicable": [],
            "notes": "Checks import the package from /repo/src; nothing is built. No hooks were added to /repo.",
        }, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
