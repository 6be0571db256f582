SH, SB, SJ, SP = "basicsys/src/sys_strhelper.cpp", "basicsys/src/sys_buffer.cpp", "basicsys/src/sys_json.cpp", "basicsys/src/sys_path.cpp"
SM = "Bounded: see DESIGN.md. "
prop("S02", "Splitting, replacing, comparing, formatting and naming texts follow their rules",
 "For every text: split cuts it at every non-overlapping occurrence of the tag, leftmost first, giving one element more than there are tags (none for an empty text, the text itself for an empty tag); replace(text, new, old) replaces every occurrence of old from left to right once, also when new contains old, and nothing when old is empty; trim_left removes exactly the leading run of the character; upper, lower and equal treat ASCII letters only. levenshtein_distance is the least total cost of inserting, replacing and deleting characters that changes the first word into the second, for any costs from zero up to the tens of thousands, words of any lengths (empty included) and with the case ignored when asked. sys_strcombine writes integers of every width in decimal, a char as itself, flags as true or false, vectors, maps and texts in order. sys_path splits a path with / or \\ separators into its directory, file name, title and lower-case extension (which starts at the last dot of the file name).",
 ["inputs"], "All texts of up to 8 bytes (any byte values), tags and values of up to 3; edit distance: all words of up to 5 x 3 and 4 x 4 bytes with 7 cost sets, and words of up to 73 characters with symbolic ends.", "Overlapping tags, growing replacements and unusual costs are particular inputs; the tests split four texts by one character.", [SH, "basicsys/src/sys_strcombine.cpp", SP], [("splitting", SH + " split"), ("replacing", SH + " replace"), ("distance", SH + " levenshtein_distance"), ("names", SP + " get_file_name, get_file_title, get_file_extend_name, get_dir_path")], "Integers of 16 bits and more are formatted at their boundary values only; floating point and wide-character conversion are not covered. get_dir_path of a path without a separator is not specified. " + SM)
prop("S03", "Buffers in memory and files read back what was written at every position",
 "For each of the four pairs of writer and reader (bytes or text, in memory or in a file) and every sequence of writes, seeks and reads: a write puts the value's bytes (in text buffers its decimal or literal text) at the position, overwriting or extending what is there, and position() moves behind it; seek goes to an offset from the begin, the position or the end, with the same meaning in all four; a reader's values, texts (zero bytes included), lines (up to and without the newline), single characters and numbers are those written at its position, and size, remain_size and is_eof agree. Reading beyond the end reads nothing, moves nothing and reports Eof; a missing file reports a file error; otherwise the status stays OK. A file writer truncates its file or, opened for appending, keeps it and starts at its end. A buffer closes the file it opened (or was given to close) exactly once, and no other.",
 ["inputs", "histories"], "All values (symbolic bytes) of each type, all sequences of up to three writes and seeks and up to three reads over buffers of a few bytes, in the listed combinations.", "The four classes repeat the same contract; mistakes show only for particular sequences of seeks and reads. The test of the class is empty.", [SB, "basicsys/include/sys_buffer.h"], [("memory", SB + " sys_byte_buffer_writer, sys_byte_buffer_reader, sys_string_buffer_writer, sys_string_buffer_reader"), ("files", SB + " sys_byte_file_buffer_writer, sys_byte_file_buffer_reader, sys_string_file_buffer_writer, sys_string_file_buffer_reader")], "stdio files are modelled (binary modes, no I/O errors other than a missing file) and replayed on real files; seeking beyond the end is not covered. " + SM)
prop("S01", "Documents written as text or bytes, in memory or in files, read back the same",
 "For every document the json writer writes in the text or the binary format, into memory or into a file, the reader finds what was written: every entry of every map by its key, every element of every sequence by its index and in order by iteration (forwards and backwards, as often as there are elements), with the same kind (map, sequence, value), the same number of elements and the same value. Integers of 8 to 64 bits, floating-point numbers and flags read as the type written are equal to the bit; texts (empty ones included), vectors of texts, numbers and maps, nested vectors up to three deep and maps of texts and vectors come back element for element, also into variables that held something before, and repeatedly. A key is found exactly if it was written in that map. Reading gives the same wherever the buffer's position stands. A mat saved to a writer or a file loads with its dimensions, sizes, depth, channels and every element, also when it was a view (transposed, flipped, a part). All files are closed.",
 ["inputs"], "All values of every type in the binary format, boundary values in the text format; all texts of up to 3 bytes and keys of 1 or 2; all containers of up to 3 elements, 2 levels of documents; mats of up to 4 dimensions and all depths.", "Empty texts first, last or alone, nested empty containers, large unsigned numbers and small fractions each take another route through the two formats, and the tests write one document.", ["basicsys/src/sys_json.cpp", "basicsys/include/sys_json.h", "basicmath/src/mt_mat_helper.cpp", SB], [("writing", "basicsys/src/sys_json.cpp sys_json_writer"), ("reading", "basicsys/src/sys_json.cpp sys_json_reader, sys_json_reader_iteartor"), ("containers", "basicsys/include/sys_json.h operator << and >>"), ("mats", "basicmath/src/mt_mat_helper.cpp save, load")], "The text format reserves newline, tab, the brackets and (in keys) the colon, so texts do not hold them; a value is read with the type (signedness included) it was written with; a text document that is itself a sequence of plain texts is not covered, nor not-a-number. " + SM)
prop("S04", "Listing, creating, deleting, copying and moving files do that and no more",
 "On every directory tree: get_file_name and get_file_path list exactly the files (links included) of a directory whose names end with the given suffix, get_dir_path exactly its directories, each once and in the directory's order, replacing what the vector held, and nothing for a missing directory; every directory opened is closed. create_multi_dir creates every missing directory of a path of any length and nothing else, and tells whether the directory is there. delete_file, delete_sub_dir and delete_dir delete the file, everything below the directory, and with it the directory itself (only if it is empty unless forced), and nothing else: links are deleted, not followed. copy_file and move_file give the target the source's content whatever characters the names hold, replace an existing target unless asked to fail then, tell whether they did, and touch nothing else; is_exist tells whether a file or directory is there.",
 ["inputs", "fault_sequences"], "All names of up to 2 bytes (any but 0 and the separator), trees of up to 3 entries of every kind on 3 levels below, paths of up to 3 directories with every prefix existing or blocked by a file, every failing mkdir.", "The functions have no tests, as they act on the disk; what they must not touch shows only next to particular names, links and trees.", [SP, "basicsys/include/sys_path.h"], [("listing", SP + " get_file_name, get_file_path, get_dir_path"), ("creating", SP + " create_multi_dir"), ("deleting", SP + " delete_dir, delete_sub_dir, delete_file"), ("copying", SP + " copy_file, move_file, is_exist")], "The libc calls (opendir, mkdir, remove, rename, access, system with cp) are stand-ins over a tree in memory, in the symbolic run and the replay alike; the POSIX side of the sources is checked, not the Windows side. Directory paths end with a separator. " + SM)
