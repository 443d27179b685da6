"""Writes KNOWN_FINDINGS.txt: the repairs made in /repo, and the findings that are listed instead.

    /opt/venv/bin/python tools/fixed.py
"""

import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FIXED = """
S02|memory storage keeps its own copy|memory storage shared vectors and nested metadata with the caller, and kept half of a record whose metadata could not be copied
S01|disk storage maps distinct ids|ids that differ only in replaced characters shared one file on disk, and listings gave the altered ids
S04|disk storage replaces a record only|an update cut short on disk lost the old record or mixed old vector and new metadata
I06|flat, HNSW and IVF refuse unsearchable|NaN, infinite or non-numeric vectors were stored and spoiled later searches; a failed insert left its vectors behind
I03|HNSW search no longer loses|HNSW search dropped candidates between levels, returned fewer than k and repeated results
I03|HNSW deletions no longer cut|deleting a node of an HNSW graph left others unreachable
I05|initializing an index again drops|an index initialized again kept vectors of its earlier life
I06|LSH refuses bad input before|LSH changed its tables before refusing bad input, and deleting or updating an unknown id reported success
I06|LSH rejects a hash size|an LSH hash size above the number of projections was accepted and every insert then failed
I08|Annoy hides removed vectors|Annoy returned removed vectors, and mixed up ids after updates and late inserts
I08|a loaded Annoy index answers|a loaded Annoy index lost metadata and ids, or could not be searched
P02|persistence keeps the previous file|a save cut short destroyed the previous file; vectors saved without .npz were not found again
P03|incremental persistence recovers its operation count|after a restart the operation count began again, so the newest checkpoint was not the one recovered
Q01|scalar quantization codes no longer overflow|codes overflowed at 31 bits and from 63 bits
Q03|SAQ leaves every segment|segments were given no bits at all
Q04|a failed or undone training|a failed training left a quantizer that said it was trained, with mixed state
D01|fixed-size chunking ends with the text|fixed-size chunking repeated the tail of the text in extra chunks
D01|semantic chunks are spans|semantic chunks had positions that did not match the text
D02|text of a chunk above the maximum|text in chunks above the maximum size was dropped
D06|parser chunks end with the text|parsers repeated the tail of the text in extra chunks
D06|PDF chunks name the page|PDF chunks named a wrong page
D03|stopword removal falls back|stop word removal failed without nltk data
D03|removing special characters|removing special characters cut accented words
D05|the pipeline hands its parsers|the parser configuration of a pipeline was ignored
D05|initializing the pipeline again|initializing a pipeline twice ran its processors twice
D04|empty text embeds|empty text was embedded as NaN or in the wrong dimension, and callers could alter the cache
D06|Docling chunks name the element|Docling chunks named no or a wrong start element
I02|HNSW, IVF and LSH measure integer|distances of integer vectors wrapped around
I09|a client used from several threads|concurrent client operations lost vectors and damaged indexes
U01|parallel batch insert returns|parallel batch insert returned ids in order of completion
U01|batch statistics describe|batch statistics mixed all runs
U01|a progress tracker over nothing|a progress tracker with a total of zero divided by zero
S06|hybrid storage with a memory limit|a memory limit of zero kept records in memory
F01|HNSW heeds the number of links|the "M" of ready-made configurations was ignored
F01|get_recommended_config finds|recommended configurations could not be found
F01|changing a configuration that get_config|changing a returned configuration changed the template
F01|create_vector_db works without|create_vector_db without an expected size failed
F01|a search database over an Annoy|a search database over Annoy could not be searched
U03|validating a vector of text|validating text or objects raised the wrong error
U02|similarity functions measure integer|similarity of integer vectors wrapped around
U04|vector files read back|vector files lost the shape of empty arrays, and pickle suffixes were not treated alike
S04|disk storage notices when a small vector|a small vector that could not be written for lack of space was acknowledged
I08|Annoy searches a loaded index|a loaded Annoy index was searched with too little effort
Q01|scalar quantization takes the range of integer|the trained range of integer vectors wrapped around
Q03|SAQ trained again on more dimensions|SAQ trained again on more dimensions used too few segments
P04|incremental persistence leaves no part|a failed log write left half a line that swallowed the next entry
D01|sliding windows over nothing|a text of blanks gave sliding-window chunks without text
U05|similarity matrices and normalization|similarity matrices and normalization of integer vectors wrapped around
U05|normalizing half-precision zero|normalizing a half-precision zero vector gave NaN
F01|create_document_db heeds the index|create_document_db ignored the index configuration it was given
F01|a database made from a template|a database made from a template shared its settings with the template
I04|IVF puts trained vectors|cosine-trained vectors were not found by a search with one probe
L02|LSH statistics give sizes|bucket sizes in LSH statistics were computed from vector numbers
U06|measuring memory does not run|the memory decorator ran a function twice when it raised ImportError
U06|validate_index_performance works|validate_index_performance failed for flat, HNSW and IVF indexes
U06|IndexInspector inspects HNSW|IndexInspector failed on HNSW indexes and counted removed vectors
U06|VectorAnalyzer handles single|VectorAnalyzer failed on single vectors, gave NaN for zero vectors and reported density as sparsity
S04|a replaced record on disk never|death or an error between the two renames left the old vector with the new metadata
S04|hybrid storage reads a record|after a failed write hybrid storage went on serving from memory what the disk no longer held
I07|a cleared LSH index takes vectors|a cleared or reopened LSH index refused vectors of another dimension and kept the projections of the old ones
I07|LSH and Annoy indexes initialized again|initializing an LSH index again lost every vector to searches; Annoy building on disk left a temporary file
I08|an Annoy index that fails to load|loading damaged files left the index half replaced and raised foreign errors; saving an empty built index silently wrote nothing
L01|an index that cannot read its storage|an index whose initialization failed worked on, empty, as if it had succeeded
U03|configuration ranges cover NaN|validate_config took NaN and NumPy numbers outside the range; validate_metadata let a RecursionError out
D06|spreadsheets with chart sheets|a spreadsheet with a chart sheet could not be parsed
U06|the query history keeps|changing a returned analysis changed the recorded query history
I09|a client is not closed, nor|closing a client, or asking for its statistics, in the middle of another thread's insert left or showed half of it
S05|hybrid storage lists and counts|statistics of a hybrid storage taken while another thread worked failed or contradicted themselves
S04|after a failed write disk storage|after an error between the two renames, or in a deletion, listing and count contradicted what could be read
S01|memory storage keeps metadata that cannot|metadata whose text cannot be made was stored and reported as failed, and every later write failed too
U06|print_analysis says that there|printing the analysis of no vectors failed with a KeyError
D06|PDF metadata follows references|PDF metadata held file references where the file keeps a value elsewhere, and no page ever had images
U07|logging.py keeps the line endings|the repair of the log messages had changed every line ending of the file
L03|the average chunk size reported|the average chunk size was the characters read by the number of chunks, overlaps and dropped chunks notwithstanding, and characters of refused work were counted
L03|embedding statistics count every text once|texts embedded in batches by OpenAI or HuggingFace models were counted twice, and hit rates went above 1
P05|an Annoy index file that was cut|an Annoy tree file cut between two nodes was loaded, and its searches found the wrong vectors or too few
U07|log messages are written once|loggers obtained before logging was set up, and set up repeatedly, wrote every message two or more times and ignored the level
D06|text with its first letter beyond ASCII far|a long file whose first letter beyond ASCII came late was taken for ASCII, and could not be read or lost its letters
L02|a deletion that fails midway leaves|after a deletion the storage refused midway, flat and IVF indices went on counting the vectors already deleted
P01|ids that an array would change are loaded|numeric, null-ended or mixed ids came back changed, and vectors that cannot be read back were saved
P05|an Annoy index file that was overwritten|an Annoy index file overwritten in place was loaded, and searches crashed or answered at random
L01|a pipeline that fails to initialize again|a pipeline whose later initialization failed stayed open with only some of its processors
Q04|a failed training leaves nothing half-done in product|a product or segmented quantizer trained again on complex, zero-column or 1e200-sized vectors raised but stayed "trained", with settings of both trainings mixed
I06|an index follows a storage that did|a deletion or update that the storage carried out before it failed (a deletion interrupted after the vector file, say) left the index with a vector that is gone, making every search that met it fail, or with the old vector
L03|count the characters of a document only|the characters of a document whose cleaning failed half way were counted, the document was not
S03|tell that a disk storage|a disk storage whose directory could not be read (an I/O error at the access of one of its folders) opened as an empty storage and listed or counted no records
P03|tell that the checkpoints cannot|a checkpoint manager whose directory could not be read listed no checkpoints, so a resume started over and numbered new checkpoints from the first
"""

KNOWN = """
"""


def main():
    log = subprocess.run(
        ["git", "-C", "/repo", "log", "--format=%h %s"], check=True, capture_output=True, text=True
    ).stdout.splitlines()
    fixes = {line.split(" fix: ", 1)[1]: line.split()[0] for line in log if " fix: " in line}
    used = set()
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt"), "w") as f:
        for line in FIXED.strip().splitlines():
            prop, start, what = line.split("|")
            found = [s for s in fixes if s.startswith(start)]
            assert len(found) == 1, (start, found)
            used.add(found[0])
            f.write(f"fixed: property={prop} {fixes[found[0]]} {what}\n")
        for line in KNOWN.strip().splitlines():
            f.write(f"KNOWN {line}\n")
    print("not recorded:", [s for s in fixes if s not in used])


if __name__ == "__main__":
    main()
