#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one place so ids, titles and statements stay in step)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))

p("C01", "A finished file's cross-reference section locates every object",
  "Whatever order a document's objects, chunks and settings are produced and merged in, the finished file is a PDF header, closed indirect objects, a cross-reference section and an end marker, with nothing else between them. Every in-use cross-reference entry gives the exact byte offset at which that object's own header starts, every object that was written and merged has such an entry, no other number is marked in use, and the final startxref gives the offset of the section itself.",
  ["histories", "schedules", "fault_sequences"],
  "every interleaving of writers building chunks, every order/nesting/loss of merges, writers abandoned or unwound at any point, both layouts, any starting capacity",
  "Unit tests check four tiny documents byte for byte with objects written in ascending order and no merge, so offset bookkeeping across merges, out-of-order ids and abandoned writers is never read back.",
  ["src/lib.rs", "src/chunk.rs", "src/object.rs"],
  [("Chunk::indirect / Chunk::extend offset registration", "src/chunk.rs"), ("write_offsets", "src/lib.rs"), ("Drop of Array/Dict/Stream", "src/object.rs")],
  [("offsets", "(id, byte offset) of every started object", "Chunk")], ["bytes returned by Pdf::finish*"])

p("C02", "Every written value reads back as the same value in the same place",
  "A reader that tokenises the output by the PDF grammar recovers, for every object, exactly the tree the caller wrote: the same booleans, numbers (numerically equal in single precision), byte strings, text, names, nulls, references, rectangles and dates, in the same order, keys and nesting. This holds for both layouts, at every nesting depth and for every mixture of neighbouring values, however the writers were scheduled.",
  ["inputs", "programs", "schedules"],
  "all value trees, all neighbour pairs of value kinds, both layouts, all writer interleavings; finite reals only",
  "Tests sample a few dozen literals one at a time; token separation and escaping depend on every pair of neighbours, every byte value and every depth.",
  ["src/object.rs", "src/buf.rs"],
  [("Primitive::write implementations", "src/object.rs"), ("Obj::primitive padding rule", "src/object.rs"), ("push_float/push_decimal", "src/buf.rs")],
  (), ["Chunk::as_bytes", "Pdf::finish"])

p("C03", "Writers that end early or unwind still leave a closed, readable object",
  "Wherever a writer is dropped, finished early, or unwound by a panic raised in caller code (including inside an iterator the library is pulling from), every array, dictionary and stream that was open is closed, innermost first, and the object reads back with exactly the entries completed up to that point. A parent writer that survives the panic can go on being used and its later entries read back too.",
  ["crash_points", "programs", "fault_sequences"],
  "a panic or early drop at any step of any writer nest, including in the middle of a caller-supplied iterator, caught at any enclosing level",
  "No test unwinds through an open writer or stops feeding one in the middle; tests only take the normal drop path.",
  ["src/object.rs", "src/chunk.rs"],
  [("Drop for Array, Dict, Stream", "src/object.rs"), ("ManuallyDrop dictionary inside Stream", "src/object.rs")],
  (), ["Chunk::as_bytes", "Pdf::finish"])

p("C04", "A lost object never damages any other object",
  "If a writer is leaked, or memory allocation fails while one object is being written or one chunk is being merged, then at most what was in flight (that object, or that merged chunk's objects in the receiver) is unreadable. Every other object of the document, written before or after and in whatever chunk, is still located by the finished file's cross-reference section and reads back exactly as written.",
  ["fault_sequences", "crash_points", "histories"],
  "a leaked writer at any nesting, or one failing allocation at any allocation point of any build, merge or renumbering step, followed by any further work",
  "No test leaks a writer or makes an allocation fail.",
  ["src/chunk.rs", "src/object.rs", "src/buf.rs", "src/renumber.rs"],
  [("object start is registered before its bytes and independent of its neighbours", "src/chunk.rs Chunk::indirect"), ("Chunk::extend appends bytes before offsets", "src/chunk.rs")],
  (), ["Pdf::finish"])

p("C05", "Merging chunks equals having written their objects in place",
  "Merging any number of chunks, in any order and nesting, yields a chunk whose objects, listed ids and limits are exactly those of the receiving chunk followed by those of the merged one, in order, with every object still readable at its recorded position. Merging leaves the source unchanged, so it can be merged again elsewhere, and merging an empty chunk changes nothing.",
  ["histories", "schedules", "programs"],
  "all merge trees over any number of chunks of any settings, all delivery orders, delays, losses and redeliveries of chunks",
  "One test merges one chunk once into one document.",
  ["src/chunk.rs", "src/buf.rs"],
  [("Chunk::extend", "src/chunk.rs"), ("Buf::extend_buf", "src/buf.rs")],
  (), ["Chunk::refs", "Chunk::as_bytes", "Chunk::limits", "Pdf::finish"])

p("C06", "Renumbering rewrites object ids and references and nothing else",
  "Renumbering a chunk yields the same objects in the same order with every object id and every indirect reference replaced by the mapping's answer for it, and everything else unchanged: strings, names, numbers, streams and text that merely look like references keep their value. The mapping is asked exactly once for each object and each occurrence of a reference, and for nothing else. Renumbering composes (mapping by f then g equals mapping by g after f) and commutes with merging.",
  ["inputs", "programs", "histories"],
  "all chunks the library can write (any values, any interruption of their writers, either layout, merged or not) and all id mappings, applied once or repeatedly",
  "One test renumbers one three-object chunk with one mapping.",
  ["src/renumber.rs", "src/chunk.rs"],
  [("patch_object / validate_ref / validate_stream", "src/renumber.rs"), ("extract_object", "src/renumber.rs")],
  (), ["Chunk::renumber", "Chunk::renumber_into"])

p("C07", "An interrupted renumbering leaves source and earlier output intact",
  "If the id mapping panics or an allocation fails during a renumbering, the source chunk is unchanged, everything the target held before is unchanged, and every object whose renumbering completed reads back correctly in the target. Only the object in progress can be incomplete, and repeating the renumbering into a fresh target gives the result an undisturbed run gives.",
  ["crash_points", "fault_sequences"],
  "a panic at any call of the mapping, or one failing allocation at any point, of any renumbering, followed by any further use of source and target",
  "The one renumbering test never fails in the middle.",
  ["src/renumber.rs", "src/chunk.rs"],
  [("source is borrowed immutably; target objects are appended one by one", "src/renumber.rs renumber")],
  (), ["Chunk::as_bytes", "Chunk::refs", "Pdf::finish"])

p("C08", "Finishing rejects exactly the documents that reuse an object id",
  "Finishing a document panics with a message naming the reused id if any two of its objects (including the cross-reference stream itself, the catalog and the document info) carry the same id, wherever they came from, and succeeds otherwise. No file with two objects under one id is ever produced.",
  ["histories", "schedules", "fault_sequences"],
  "all multisets of ids over all merge histories, including redelivered chunks, retried workers and a cross-reference stream id that collides",
  "No test triggers the rejection at all.",
  ["src/lib.rs", "src/chunk.rs"],
  [("sorted scan with 'written' counter", "src/lib.rs write_offsets")],
  (), ["panic or result of Pdf::finish / finish_with_xref_stream*"])

p("C09", "Unused ids form one well-formed free list",
  "In every finished file each id below the declared size that has no object is marked free, and following the next-free links from entry zero visits every free id exactly once, in ascending order, and returns to zero. Entry zero has generation 65535 and every other free entry generation zero, in both cross-reference forms.",
  ["histories", "inputs", "fault_sequences"],
  "all sets of used ids, including those arising from lost chunks, gaps of any length and ids in any order of writing",
  "Two tests pin two fixed gap patterns.",
  ["src/lib.rs"], [("free-list fill", "src/lib.rs write_offsets")], (),
  ["cross-reference table and stream of the finished file"])

p("C10", "The cross-reference stream says what the plain table would say",
  "For every document, finishing with a cross-reference stream, filtered or not, yields the same objects as finishing with a plain table, and its decoded entries equal the table's entries plus one for the stream itself, for every offset and every id however large. The stream's dictionary declares its type, size, field widths, length and exactly the filters the caller reported, and no field is ever too narrow for its value.",
  ["histories", "inputs", "configurations"],
  "all documents, all offsets and id ranges across each field-width boundary, all filter results (none, single, multiple; any bytes)",
  "Two tests check tiny files where every field fits one byte.",
  ["src/lib.rs"],
  [("determine_field_width", "src/lib.rs"), ("XRefStreamWriter", "src/lib.rs"), ("finish_with_xref_stream_inner", "src/lib.rs")],
  (), ["bytes of finish, finish_with_xref_stream, finish_with_xref_stream_and_filter"])

p("C11", "Header and trailer always state the latest document-level settings",
  "The finished file's version, binary marker, file identifier, root and info entries are those of the last call that set each of them, whenever in the build that call was made and whatever was written or merged around it, and are absent or default if none was made. The declared size is always one more than the highest object id, and setting any of them never alters an object.",
  ["histories", "schedules"],
  "all positions of all document-level calls in any build and merge history, repeated any number of times, both cross-reference forms",
  "Tests set version, marker and id once, at fixed points of one-object documents.",
  ["src/lib.rs"],
  [("set_version / set_binary_marker patch the header in place", "src/lib.rs"), ("TrailerData::write_into_dict", "src/lib.rs")],
  [("trailer_data", "catalog, info and file ids", "Pdf")], ["finished file"])

p("C12", "Reported limits are the true maxima of everything written",
  "A chunk's or content stream's reported limits are never smaller than any integer magnitude, real magnitude, name length, encoded string length, array length or dictionary size actually present in its bytes, and never larger than the largest such quantity written into it or merged into it. This holds across merges, renumbering, caller-supplied limits, interrupted writers and both layouts.",
  ["inputs", "histories", "fault_sequences"],
  "all values at all nestings (including the most negative integer and non-ASCII text), all merge/renumber trees, writers interrupted at any point",
  "Two tests compare the limits of two small hand-written buffers.",
  ["src/buf.rs", "src/object.rs", "src/renumber.rs", "src/chunk.rs"],
  [("Limits::register_* and Limits::merge", "src/buf.rs"), ("registration in Drop of Array/Dict/Stream", "src/object.rs")],
  [("limits", "running maxima", "Buf")], ["Chunk::limits", "Buf::limits"])

p("C13", "Compact and pretty layouts mean the same document",
  "Running the same sequence of calls with pretty printing on and with it off produces files and content streams that tokenise to the same objects, values, operators and limits. The compact form is never longer, and neither layout ever lets two neighbouring tokens run together or splits one.",
  ["programs", "configurations", "inputs"],
  "all call sequences, all neighbour pairs of tokens, all depths, including interrupted writers, merged mixed-layout chunks and renumbering",
  "Five tests compare the compact form of short fixed arrays, dictionaries and operators.",
  ["src/object.rs", "src/content.rs"],
  [("needs_padding and STARTS_WITH_DELIMITER", "src/object.rs"), ("Operation::obj / Drop", "src/content.rs")],
  (), ["Chunk::as_bytes", "Content::finish", "Pdf::finish"])

p("C14", "A content stream is exactly the sequence of operations issued",
  "The bytes of a content stream tokenise to the operations the caller issued, in order, each with its documented operator and exactly its operands, for any values, both layouts and any amount issued before. An operation abandoned part-way still ends with its operator and never affects its neighbours, and the reported graphics-state nesting depth is the number of saves not yet restored.",
  ["programs", "inputs", "crash_points"],
  "all sequences of content operations (paths, state, colour, text, marked content, objects, shadings, raw operators) with any operands, with iterators that panic part-way and nested writers dropped at any point",
  "Fewer than ten tests write one or two operators with fixed operands.",
  ["src/content.rs", "src/object.rs"],
  [("Operation::obj padding and Drop", "src/content.rs"), ("q_depth counter", "src/content.rs"), ("Content::finish trailing newline", "src/content.rs")],
  [("q_depth", "unbalanced saves", "Content")], ["Content::finish", "Content::as_bytes", "Content::state_nesting_depth"])

p("C15", "A Unicode character map holds every mapping once, in legal blocks",
  "However many glyph-to-text mappings are added, the finished map is a program that runs and defines one character map of the given name, system information, writing mode and code space, and it contains each completed mapping exactly once, in order, with the glyph code in the map's code width and the text in big-endian UTF-16, and each block declares exactly the number of mappings it holds, at most one hundred. A mapping interrupted by a panicking caller iterator leaves all mappings before and after it intact.",
  ["inputs", "histories", "crash_points"],
  "any number of mappings around every multiple of the block size, any glyphs and code points including those outside the basic plane and empty or long sequences, iterators that panic at any point, both code widths",
  "One test maps a handful of glyphs; the block boundary is never crossed in combination with multi-character mappings or a failure.",
  ["src/font.rs"],
  [("pair_with_multiple / flush_range", "src/font.rs")],
  [("count", "mappings in the open block", "UnicodeCmap")], ["UnicodeCmap::finish"])

p("C16", "Output depends only on the calls made, not on when or where they ran",
  "A chunk, content stream, character map or document is a function of the sequence of calls made on it: building it alone, interleaved with any other builders on any threads, after other builders failed, with any initial capacity or reservation, or from inside another builder's callback yields the same bytes, ids and limits. Two builders never affect each other.",
  ["schedules", "configurations", "histories"],
  "all interleavings of any number of builders over threads and re-entrant callbacks, any capacity/reserve calls, any earlier failures in the process",
  "All tests build one thing at a time on one thread with default capacity.",
  ["src/chunk.rs", "src/buf.rs", "src/content.rs", "src/font.rs", "src/lib.rs"],
  [("no shared or ambient state; exclusive borrow of one buffer per builder", "src/buf.rs, src/object.rs")],
  (), ["bytes, refs and limits of every builder"])

p("C17", "Stream data survives byte for byte with its exact declared length",
  "For any payload bytes, including ones that look like PDF syntax, references or stream and object keywords, a stream object's declared length is the exact number of payload bytes and reading that many bytes after the stream keyword yields the payload unchanged. This holds through any merges and renumberings, whatever entries surround it, and however its writer ended.",
  ["inputs", "histories", "crash_points"],
  "all payloads (empty, binary, adversarial, up to megabytes), all stream kinds, all merge/renumber histories, writers interrupted at any point",
  "Tests write two short readable payloads.",
  ["src/object.rs", "src/renumber.rs", "src/chunk.rs"],
  [("Stream::start length entry and Drop", "src/object.rs"), ("patch_object bails out at the stream keyword", "src/renumber.rs")],
  (), ["Pdf::finish", "Chunk::renumber"])

p("C18", "A call that rejects its arguments leaves no trace in the output",
  "Every call documented to reject out-of-contract arguments panics for each such argument and accepts every other, and a caller that catches the panic and continues obtains a well-formed document in which no part of the rejected value appears and all other entries read back. For calls on an open writer the output is byte-identical to one in which the rejected call was never made.",
  ["fault_sequences", "inputs", "programs"],
  "every documented rejection, with arguments on both sides of each bound, at any position in any build, any number of times",
  "No test makes a rejected call, so neither the bounds nor the state after a rejection is reached.",
  ["src/content.rs", "src/color.rs", "src/object.rs", "src/structure.rs", "src/functions.rs"],
  [("assertions placed before the first write of each call", "src/content.rs, src/color.rs, src/object.rs, src/structure.rs")],
  (), ["panic and bytes after it"])

p("C19", "Building only appends, and counters report what has been written",
  "Bytes already emitted by a builder never change or shrink while building continues, except the fixed-size header fields that document-level settings overwrite. The reported byte length, listed ids and the element counts of open arrays and dictionaries always equal what has been written so far, including after interrupted or abandoned calls.",
  ["programs", "histories", "crash_points"],
  "every observation point between any two calls of any build, with interrupted iterators, early drops and document-level settings at any time",
  "No test observes a builder mid-way, apart from fixed final lengths.",
  ["src/chunk.rs", "src/object.rs", "src/content.rs", "src/lib.rs"],
  [("len fields incremented with each entry", "src/object.rs Array/Dict"), ("Chunk::len/as_bytes/refs", "src/chunk.rs")],
  [("len", "entries written", "Array, Dict")], ["Chunk::as_bytes/len/refs", "Array::len", "Dict::len", "Content::as_bytes/len"])

TYPED_WHY = "Tests exercise a few dozen of the several hundred typed calls, each alone, in one order and with one argument; most keys and enumeration names are never read back, and no combination, interruption or early end is."
p("C20", "Document structure writers write exactly the entries they document",
  "Every call on a writer for the catalog, information dictionary, pages, outlines, destinations, names, viewer preferences, page labels, structure elements, their attributes, role maps or namespaces adds to its own object exactly the entries its documentation names, with the standard's key, type and value for the given arguments, and a finished writer holds its required fixed entries. This holds for every combination and order of calls and nested writers, and calls that did complete stay when the caller panics, stops early or interleaves other work. Structure roles convert between PDF 1.7 and 2.0 consistently: a role both versions share maps to itself both ways.",
  ["programs", "inputs", "crash_points", "schedules"],
  "all call sequences on the document structure writers, all arguments and enumeration values, any nesting, any interruption, any interleaving with other writers",
  TYPED_WHY,
  ["src/structure.rs", "src/attributes.rs", "src/chunk.rs", "src/lib.rs"],
  [("typed writers over Dict/Array and their to_name tables", "src/structure.rs, src/attributes.rs"), ("StructRole::into_pdf_2_0 / StructRole2::compatibility_1_7", "src/structure.rs")],
  (), ["Chunk::as_bytes", "Pdf::finish", "StructRole conversions"])

p("C21", "Resource writers write exactly the entries they document",
  "Every call on a writer for fonts, encodings, character map streams, images, form objects, groups, colour spaces, patterns, shadings, functions, graphics states, soft masks, property lists, name and number trees or filter parameters adds to its own object exactly the entries its documentation names, with the standard's key, type and value for the given arguments, and a finished writer holds its required fixed entries. This holds for every combination and order of calls and nested writers, and calls that did complete stay when the caller panics, stops early or interleaves other work. A PostScript calculator program encodes to exactly its operators and operands with matching braces.",
  ["programs", "inputs", "crash_points", "schedules"],
  "all call sequences on the resource writers, all arguments and enumeration values, any nesting, any interruption, any interleaving with other writers; all calculator programs",
  TYPED_WHY,
  ["src/font.rs", "src/xobject.rs", "src/color.rs", "src/functions.rs", "src/content.rs", "src/object.rs"],
  [("typed writers over Dict/Array/Stream and their to_name tables", "src/font.rs, src/xobject.rs, src/color.rs, src/functions.rs, src/content.rs"), ("NameTree/NumberTree", "src/object.rs"), ("PostScriptOp::encode", "src/functions.rs")],
  (), ["Chunk::as_bytes", "Pdf::finish", "PostScriptOp::encode"])

p("C22", "Interactive feature writers write exactly the entries they document",
  "Every call on a writer for annotations, their appearances and borders, actions, form fields, signatures and their seed values, file specifications, embedded files, media renditions or page transitions adds to its own object exactly the entries its documentation names, with the standard's key, type and value for the given arguments, and a finished writer holds its required fixed entries. This holds for every combination and order of calls and nested writers, and calls that did complete stay when the caller panics, stops early or interleaves other work.",
  ["programs", "inputs", "crash_points", "schedules"],
  "all call sequences on the interactive feature writers, all arguments, flags and enumeration values, any nesting, any interruption, any interleaving with other writers",
  TYPED_WHY,
  ["src/annotations.rs", "src/actions.rs", "src/forms.rs", "src/files.rs", "src/renditions.rs", "src/transitions.rs"],
  [("typed writers over Dict/Array and their to_name tables", "src/annotations.rs, src/actions.rs, src/forms.rs, src/files.rs, src/renditions.rs, src/transitions.rs")],
  (), ["Chunk::as_bytes", "Pdf::finish"])

p("C23", "Everything outside stream data is plain visible text",
  "Whatever values are written, every byte a document holds outside stream data and the four bytes of its binary marker is a visible ASCII character, a space, a tab or a line break; the same is true of content streams, and of character maps outside their comment lines. Control characters and bytes above 126 only ever appear escaped or in hexadecimal, in strings, names, text, keys and every typed entry, in both layouts and after any interruption.",
  ["inputs", "programs", "crash_points"],
  "all values of all primitives and typed writers at all positions, content streams and character maps, both layouts, both cross-reference forms, writers interrupted at any point",
  "Tests check a few fixed strings and names with one or two unusual bytes.",
  ["src/object.rs", "src/buf.rs", "src/content.rs", "src/font.rs", "src/lib.rs"],
  [("Str/TextStr/Name encoders", "src/object.rs"), ("push_hex/push_octal", "src/buf.rs")],
  (), ["Pdf::finish*", "Content::finish", "UnicodeCmap::finish"])

p("C24", "Memory requested stays in proportion to what is written",
  "However many calls a history makes, the memory requested from the allocator while building, merging, renumbering and finishing stays within a constant factor of the bytes written, plus a constant per builder and per call and whatever capacity the caller reserved. No single entry, object, merge, renumbering, operation or mapping ever copies or reallocates everything written before it, so histories of many small steps cost no more per byte than few large ones.",
  ["histories", "schedules", "fault_sequences"],
  "all histories of any length over objects, entries, merges, renumberings, content operations, character maps and finished documents, any capacities, with interrupted calls",
  "Tests write at most a few objects, where a cost that grows with every call cannot be told from a constant one.",
  ["src/buf.rs", "src/chunk.rs", "src/renumber.rs", "src/lib.rs", "src/content.rs", "src/font.rs"],
  [("amortised growth of the one buffer per builder", "src/buf.rs"), ("Chunk::extend", "src/chunk.rs"), ("one buffer borrowed by all nested writers", "src/object.rs")],
  (), ["allocator requests", "Chunk::len", "Content::len", "finished buffers"])

p("C25", "Every call within its contract returns",
  "A call whose arguments respect its documentation returns normally whatever the values, sizes, nesting depth, emptiness, capacity and earlier history, and however other builders are interleaved with it: it never panics, aborts, overflows an integer, exhausts the stack or fails to end. Only the documented rejections and reused ids panic, and a panic raised by the caller's own code passes through unchanged.",
  ["inputs", "programs", "histories", "schedules"],
  "all in-contract call histories over all builders and writers, including nestings of thousands of levels, hundreds of thousands of entries, the highest ids, empty everything, and earlier interrupted calls",
  "Tests stay far from every boundary of depth, size, id and emptiness, and never reach a call through an unusual history.",
  ["src/lib.rs", "src/chunk.rs", "src/object.rs", "src/buf.rs", "src/renumber.rs", "src/content.rs", "src/font.rs", "src/functions.rs", "src/structure.rs"],
  [("saturating indentation and depth counters", "src/object.rs, src/content.rs"), ("write_offsets", "src/lib.rs"), ("slice arithmetic of renumbering", "src/renumber.rs")],
  (), ["every public call"])

os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
with open("properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
