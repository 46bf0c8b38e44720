"""The properties, with what the manifest needs to say about their checks (see mkmeta.py)."""
PBT = "property-based testing (Hypothesis generators, sanitised in-process jsonstroll, %s)"
LIB = "property-based testing (Hypothesis generators, sanitised library worker, %s)"
TRUST = (" Random search, not proof: bounds are the generator's sizes. Trusts Python's json/re/float, the reference model of the check, "
         "ncurses' screen buffer where a screen is read, and ASan for memory errors.")
NOT_APPLICABLE = {}
PARSE = "src/streamConsumer.cpp"
NOTESTS = "The shipped tests parse a handful of fixed files and read fields of the tree; "
NOTUI = "No shipped test draws a screen or sends a key; "


def P(id, title, statement, quant, why, files, mech, observe, technique, note, over=("inputs",)):
    return dict(id=id, title=title, statement=statement, over=list(over), quant=quant, why=why, files=files, mech=mech, observe=observe,
                technique=technique, note=note + TRUST)


OUT = ["stdout of jsonstroll"]
SCR = ["screen contents (characters and attributes)"]
PROPS = [
    P("C01", "Printing shows exactly the document that was read",
      "For every valid JSON document (duplicate-free keys, numbers within double range, nesting within the limit), read from standard input, a file or the command line after --, "
      "the non-interactive output is a JSON document with the same structure, the same values of the same types and the same strings. Nothing is dropped, added, altered or reordered "
      "inside arrays, and no message is printed.",
      "all valid JSON documents, all spellings (white space, escapes), all three input sources", NOTESTS + "none looks at what the program prints.",
      [PARSE, "src/simpleOutput.cpp", "src/main.cpp"],
      [("recursive descent reader", PARSE), ("recursive writer", "src/simpleOutput.cpp")], OUT, PBT % "round-trip against Python's json", "Round trip of random documents."),
    P("C02", "--compress prints the same document without optional characters",
      "With --compress, every valid document is printed as the same document (same values, same entry order as without the option) with no white space outside strings and no trailing new line. "
      "The compressed and the prettified form differ only by white space between tokens.",
      "all valid documents, with or without --keep-order", NOTESTS + "--compress is never exercised.",
      ["src/simpleOutput.cpp", "src/params.cpp"], [("compressed writer", "src/simpleOutput.cpp")], OUT,
      PBT % "differential pretty/compact and round-trip", "Compact output compared token by token with the prettified one and with the document."),
    P("C03", "Object keys are sorted, unless --keep-order keeps their source order",
      "Without --keep-order, the entries of every object, at every depth, are printed in increasing byte order of the text of their keys as shown, whatever their order in the source, so that two documents that differ only by "
      "entry order print identically. With --keep-order the entries of every object are printed in source order.",
      "all valid documents and all permutations of their entries", NOTESTS + "one small object is checked for order.",
      ["src/jsonObject.cpp", "src/params.cpp", PARSE], [("sorted insertion", "src/jsonObject.cpp")], OUT,
      PBT % "metamorphic: entry permutations", "Permuted documents print alike; order compared with the reference order."),
    P("C04", "The prettified layout is canonical and stable",
      "The prettified output has exactly one value, key heading a container, or bracket per line, indented by four spaces per level, with commas leading the lines, for every document; it depends only on the document, not on "
      "the spelling of the input. Prettifying a prettified (or compressed) output prints it again unchanged.",
      "all valid documents and spellings", NOTESTS + "layout is never checked.",
      ["src/simpleOutput.cpp"], [("indentation", "src/simpleOutput.cpp")], OUT, PBT % "reference layout, idempotence", "Exact line-by-line layout and idempotence."),
    P("C05", "Malformed documents are rejected with a message and print nothing",
      "When the input has no complete, well-formed value first - missing or stray punctuation, missing value, key that is not a string, misspelt literal, invalid number, escape or surrogate, repeated key, truncation at any "
      "byte, nesting beyond the limit - nothing is printed on standard output for it and a message appears on standard error. When a complete value comes first, that value is printed.",
      "all token sequences and all truncations of valid documents, in strict mode",
      NOTESTS + "two malformed strings are tried.", [PARSE, "src/main.cpp"], [("token-level checks", PARSE)], ["stdout and stderr of jsonstroll"],
      PBT % "reference recogniser over mutated token sequences", "Reference recogniser decides accept/reject for mutated token sequences; every truncation point is reachable."),
    P("C06", "Any input and any options: no crash, no hang, no memory error",
      "Whatever bytes are read (also binary, very long lines, very deep nesting), with whatever combination of options, the program ends by itself with a normal exit status: no signal, no uncaught exception, no out-of-bounds or "
      "use-after-free access, no endless loop. Every run either prints a document or a message.",
      "all byte sequences x all option combinations", "A fixed set of inputs cannot show the absence of a crash over all byte strings.",
      [PARSE, "src/main.cpp", "src/params.cpp", "src/jsonException.cpp", "include/wrappedBuffer.hpp"],
      [("nesting limit", PARSE), ("exceptions turned into messages", "src/main.cpp")], ["exit status, sanitizer reports"],
      PBT % "sanitizer and totality oracle over mutated bytes", "Memory errors found by ASan only where the input reaches them; leaks are not judged."),
    P("C07", "-W accepts exactly the documented non-blocking defects, with one warning each",
      "With -W, repeated keys (the last one wins), literals written in another letter case and unknown escape sequences (kept as they are) are accepted, and one warning naming the input, line and column is printed on standard "
      "error for each of them. All other malformed inputs stay rejected, and well-formed documents print the same with or without -W, with no warning.",
      "all documents with any number of such defects, with and without -W", NOTESTS + "warnings are never looked at.",
      [PARSE, "src/warning.cpp", "src/main.cpp", "src/jsonObject.cpp"], [("strict checks", PARSE), ("warning list", "src/warning.cpp")], ["stdout and stderr"],
      PBT % "defect injection with expected repair and warning list", "Expected document and warning positions are computed from the injected defects."),
    P("C08", "Error messages name the right input, line, column and excerpt",
      "For a malformed document, the message names the input, the 1-based line (LF, CR and CRLF each end one line) and the column of the last character read, and shows the end of that line up to that character, with the "
      "marker line under it ending below that last character. The position is that of the offending character or token wherever it stands, whatever precedes it on its line and on the lines before.",
      "all positions of a defect in all documents, all line-end conventions, long lines", NOTESTS + "positions are never checked after a batch read.",
      ["src/linearHistory.cpp", "include/wrappedBuffer.hpp", "src/main.cpp", PARSE], [("history ring buffer", "src/linearHistory.cpp")], ["stderr"],
      PBT % "reference position of an injected defect", "Position recomputed from the raw text and the offset of the injected defect."),
    P("C09", "Escapes and --ascii: strings keep their characters",
      "By default every \\uXXXX escape, in any hexadecimal case and including surrogate pairs, stands for its character and is printed as UTF-8 (control characters and backslash stay escaped); with --ascii such escapes are "
      "kept verbatim. In both modes the printed string denotes the same text as the source string, and raw UTF-8 bytes are kept.",
      "all Unicode strings, every way to spell each character, with and without --ascii", "The shipped tests decode a few fixed escapes.",
      [PARSE, "src/unicode.cpp", "src/simpleOutput.cpp"], [("escape decoder", PARSE)], OUT, PBT % "round-trip through reference decoder",
      "Every BMP and supplementary code point is reachable; all 65536 escapes are enumerated by the thorough tier."),
    P("C10", "Numbers keep their value, whatever their spelling and the locale",
      "Every integer within 64 bits is printed exactly, and every other number within the range of doubles is printed so that it reads back as the same double (sign of zero included) and still as a non-integer. The printed text does not depend on the "
      "locale of the user, and numbers beyond the range are rejected instead of altered.",
      "all JSON numbers (any digits, fraction, exponent) in C and comma-decimal locales", "Three fixed numbers are tested.",
      [PARSE, "src/jsonPrimitive.cpp"], [("number reader", PARSE), ("shortest round-trip", "src/jsonPrimitive.cpp")], OUT,
      PBT % "differential with exact arithmetic, two locales", "Compared with Python's correctly rounded conversions in the C locale and in fr_FR.", over=("inputs", "configurations")),
    P("C11", "Several inputs are printed in order, each on its own",
      "Given several files, the program prints them in command-line order, each exactly as it would be printed alone, and the messages about each of them name that file. At the first malformed one it reports it, prints nothing for "
      "it nor for the following ones, and keeps what was printed before. When the output cannot be written, or not all of it, a message says so and the exit status is 1.",
      "all lists of files, with any of them malformed", "The shipped tests never give two inputs to the program.",
      ["src/main.cpp", "src/params.cpp", "include/fifoMap.hpp"], [("input list", "include/fifoMap.hpp")], ["stdout and stderr"],
      PBT % "metamorphic: concatenation of single runs", "Output must equal the concatenation of the single-file runs.", over=("inputs", "histories")),
    P("C12", "Command lines: options mean the same anywhere, wrong ones are refused",
      "Options may come in any order and position before --, and the result only depends on their set and on the order of the files. After --, all remaining arguments joined by single spaces are the document, even when they look "
      "like options; unknown options, missing files, repeated files and invalid option values end with exit status 1, a message and nothing read.",
      "all option combinations, orders and positions, valid and not", "The shipped tests use a fixed parameter object, never a command line.",
      ["src/params.cpp", "src/main.cpp"], [("option loop", "src/params.cpp")], ["stdout, stderr, exit status"],
      PBT % "reference command-line model", "Reference model of the command line decides outcome and expected output.", over=("configurations",)),
    P("C13", "--diff-cmd hands every input, prettified, to the command and cleans up",
      "The command receives its own arguments unchanged with each {} replaced by the paths of one distinct existing file per input, in order, each holding exactly what the program prints for that input, and it runs exactly once. After it ends, normally, by "
      "a signal or because it cannot be run, no temporary file remains; when an input is malformed, or a temporary file cannot be created or written, the command does not run and a message says why. The messages about the inputs are those of printing them.",
      "all commands, argument lists, numbers of {} and inputs, ways for the command to end", "Never exercised by the shipped tests.",
      ["src/main.cpp", "src/diffCmd.cpp"], [("temporary files", "src/main.cpp"), ("argument substitution", "src/diffCmd.cpp")],
      ["argv and files seen by the command, files left in the temporary directory"], PBT % "recorder command as oracle",
      "A recorder script logs its argv and file contents; the real binary runs in a scratch directory.", over=("inputs", "configurations", "fault_sequences")),
    P("C14", "A search pattern finds exactly what its syntax means",
      "A pattern is the text up to an unescaped slash, followed by flags: i ignores letter case, w wants space-delimited words, f the whole text, e a regular expression, and b, n, s, o restrict to booleans, numbers, strings and keys. "
      "Exactly the items whose shown text matches are found; an invalid regular expression finds nothing, and no pattern ends the program.",
      "all patterns and flag combinations x all documents", "Never exercised by the shipped tests.",
      ["src/searchPattern.cpp", "src/curseOutput.cpp", "src/curseSimpleOutput.cpp"], [("pattern parser and matcher", "src/searchPattern.cpp")], SCR,
      PBT % "reference matcher", "Set of items found by repeated 'next' compared with a reference matcher."),
    P("C15", "Search visits every match in document order, wraps, and shows it",
      "After a search, the selection is the first match after the selected item in document order, and each 'next' moves on to the following one; after the last one it restarts from the first with the message saying so, and without a match the message "
      "says so and the selection stays. The selected match is always on screen, even when it was inside collapsed containers, and other inputs or earlier searches never leak into it.",
      "all documents, selections, collapsed states and sequences of searches", NOTUI + "search is not covered at all.",
      ["src/curseSimpleOutput.cpp", "src/curseOutput.cpp"], [("jumpToNextSearch", "src/curseSimpleOutput.cpp")], SCR,
      PBT % "model-based key sequences", "Selection followed through the reverse-video rows, messages through the bottom line.", over=("inputs", "histories")),
    P("C16", "The viewer shows a contiguous window of the document with the selection in it",
      "After any sequence of keys, the screen below the title is a contiguous part of the rendering of the document (one line per bracket, value or entry, long ones continuing on the next rows), and the selected item is on screen, "
      "highlighted, and the only one highlighted. The title row shows the name of the input.",
      "all documents x screen sizes x key sequences", NOTUI + "drawing is not covered at all.",
      ["src/curseSimpleOutput.cpp", "src/curseOutput.cpp"], [("redraw and scrolling", "src/curseSimpleOutput.cpp")], SCR,
      PBT % "reference renderer, model-based key sequences", "Every screen compared with all windows of a reference rendering.", over=("inputs", "histories", "configurations")),
    P("C17", "Navigation keys move the selection to the right item",
      "Down and Up move to the next and previous visible item in document order (Down may first scroll to bring more of the document to the screen), Page Up and Page Down to the previous sibling (or parent) and next sibling (or that of an ancestor), and keys without effect at the ends of the document change nothing. From "
      "anywhere, repeated Down reaches the last item and repeated Up the first, without skipping one, and j, k and the arrow keys are equivalent.",
      "all documents x screen sizes x key sequences", NOTUI + "navigation is not covered at all.",
      ["src/curseSimpleOutput.cpp", "src/curseOutput.cpp", "src/jsonElement.cpp"], [("select_up/select_down", "src/curseSimpleOutput.cpp"), ("findPrev/findNext", "src/jsonElement.cpp")], SCR,
      PBT % "model-based key sequences", "Model of the visible items predicts the selection after every key.", over=("inputs", "histories")),
    P("C18", "Collapsing hides exactly the children, expanding restores them",
      "Left collapses the selected container to one line with an ellipsis and hides exactly its content; Right on a collapsed container shows it again with the inner collapsed state as it was. On a value, empty or collapsed container Left goes to the enclosing "
      "item, and on an expanded container Right goes to its first child; nothing else changes on the screen.",
      "all documents x collapse/expand histories", NOTUI + "collapsing is not covered at all.",
      ["src/curseSimpleOutput.cpp", "src/curseOutput.cpp"], [("collapsed set", "src/curseOutput.cpp")], SCR,
      PBT % "model-based key sequences", "Screen compared with the reference rendering of the model's collapsed set.", over=("inputs", "histories")),
    P("C19", "Resizing the terminal redraws for the new size and keeps the selection",
      "After a resize to any size at any moment, including while a search is typed, the screen shows what a viewer of that size shows, with the same selection, collapsed items and search results as before. No sequence of resizes and keys ends the "
      "program or corrupts memory.",
      "all sequences of resizes and keys, all sizes", NOTUI + "signals are not covered at all.",
      ["src/curseOutput.cpp", "src/curseSimpleOutput.cpp", "src/curseSplitOutput.cpp"], [("SIGWINCH handler", "src/curseOutput.cpp")], SCR,
      PBT % "metamorphic: resized against the reference rendering", "Screens after a resize judged as in C16, at the new size.", over=("histories", "schedules", "configurations")),
    P("C20", "The viewer ends on q or a signal, goes on to the next file, and restores state",
      "At any moment of a session, q, SIGINT and SIGTERM end the view of the current input without any further key; the next input then opens with nothing left of the previous one (scroll position, collapsed items, "
      "search results), and after the last one the program ends normally. Unknown keys, timeouts and other key sequences never end it.",
      "all key and signal sequences over lists of inputs", NOTUI + "the main loop is not covered at all.",
      ["src/curseOutput.cpp", "src/main.cpp", "src/inputSequence.cpp"], [("breakLoop", "src/curseOutput.cpp")], ["screens, exit status"],
      PBT % "model-based key and signal sequences", "Number of keys consumed and screens shown are compared with the model.", over=("histories", "schedules")),
    P("C21", "Comparing a document with itself shows no difference",
      "With --diff, two inputs holding the same document, whatever their spelling, white space and (without --keep-order) entry order, are shown side by side without any difference mark, and every item is paired with its counterpart.",
      "all documents and pairs of spellings", "The shipped tests compare a few fixed pairs of files.",
      ["src/levenshtein.cpp", "include/levenshteinMatrice.hpp", "src/curseSplitOutput.cpp"], [("distance matrix", "include/levenshteinMatrice.hpp")], SCR,
      PBT % "metamorphic: respelt copies", "No mark may appear anywhere on either side."),
    P("C22", "Differences are marked, and only they are",
      "In a comparison, an item is marked unchanged only if its counterpart holds the same content (key, type and value, recursively), and an item present on both sides that differs is never shown as unchanged. Every item that exists on one side only is marked as added or removed, "
      "so two inputs without any mark hold the same document. One value or entry inserted, removed or replaced among clearly different ones leaves every item that does not contain it unchanged.",
      "all pairs of documents, in particular a document and an edited copy", "The shipped tests compare a few fixed pairs of files.",
      ["src/levenshtein.cpp", "include/levenshteinMatrice.hpp"], [("edit path", "include/levenshteinMatrice.hpp")], ["operation and pairing reported for every item"],
      LIB % "validity predicate over the reported diff", "Soundness and completeness of marks checked over every item of both documents."),
    P("C23", "Diff pairing is one-to-one, symmetric, order-preserving and within parents",
      "In a comparison every item has at most one counterpart, which has it as its own counterpart; counterparts belong to containers that are counterparts, and pairs of siblings appear in the same order on both sides. Comparing in the other direction reports the same "
      "distance.",
      "all pairs of documents", "The shipped tests check a few fixed pairs.",
      ["src/levenshtein.cpp", "include/levenshteinMatrice.hpp"], [("equivalences", "include/levenshteinMatrice.hpp")], ["operation and pairing reported for every item"],
      LIB % "structural invariants of the pairing", "Invariants evaluated on the reported pairing of random document pairs."),
    P("C24", "Text distance is the edit distance",
      "The distance between two texts is the least number of character insertions, deletions and substitutions turning one into the other, for any lengths and bytes, and the similarity ratio is one minus that distance divided by the longer length (1 for two empty texts).",
      "all pairs of byte strings", "The shipped tests check a dozen fixed pairs.",
      ["src/levenshtein.cpp"], [("levenshtein", "src/levenshtein.cpp")], ["distance and ratio"], LIB % "reference dynamic programme and metric laws",
      "Compared with an independent implementation; metric laws on triples."),
    P("C25", "The split viewer shows both documents completely, aligned and marked",
      "With --diff, each half of the screen shows its own document's rendering with its file name as title, and nothing else than that; counterparts stand on the same row, scrolled or not, and rows of items without counterpart face an empty marked row. "
      "Marks stand exactly on the rows of items that differ.",
      "all pairs of documents x screen sizes", NOTUI + "drawing is not covered at all.",
      ["src/curseSplitOutput.cpp"], [("parallel walk of both trees", "src/curseSplitOutput.cpp")], SCR, PBT % "reference renderer and alignment predicate",
      "Content of each half compared with a reference rendering of the document; alignment checked by predicate, on screens the documents fit on and smaller ones.", over=("inputs", "configurations")),
    P("C26", "The history buffer always holds the last characters put in it",
      "After any sequence of single or batch insertions, removals and resets, the bounded buffer reports the total number of items, and its text is exactly the most recent ones still in it, oldest first, at most its capacity. The line history restarts at each line end and counts the lines.",
      "all operation sequences, all capacities tried", "The shipped tests run a dozen fixed sequences.",
      ["include/wrappedBuffer.hpp", "src/linearHistory.cpp"], [("ring indices", "include/wrappedBuffer.hpp")], ["toString, size, totalSize, currentLine"],
      LIB % "stateful model-based sequences", "Model list compared after every operation.", over=("histories",)),
    P("C27", "The document tree is consistent: parents, levels, siblings and lookup agree",
      "In the tree of any document read, every item's parent contains it, its level is its number of ancestors, its previous sibling is the one printed before it, and the next one is the one printed after it or, for the last one, that of the closest enclosing item having one. "
      "Looking a key up in an object returns exactly its entry's value, or nothing for an absent key; first child, size and text agree with the content.",
      "all documents", NOTESTS + "parents and siblings of a few fixed files only.",
      ["src/jsonElement.cpp", "src/jsonObject.cpp", "src/jsonObjectEntry.cpp", "src/jsonArray.cpp", "src/jsonContainer.cpp"], [("parent pointers", "src/jsonElement.cpp")],
      ["tree accessors"], LIB % "structural invariants and reference document", "Invariants evaluated on every node of random documents."),
    P("C28", "Colours tell the type of each item, and --color=never removes them",
      "In the viewer, keys and strings, numbers, booleans and nulls are each drawn in the colour of their type, whatever surrounds them, selected or not; found search results and the search prompt are drawn in the search colour, messages in the error colour. With --color=never nothing is drawn in a type colour, "
      "and the characters shown are the same as with colours.",
      "all documents x colour options", NOTUI + "colours are not covered at all.",
      ["src/curseSimpleOutput.cpp", "src/curseOutput.cpp", "src/outputFlag.cpp"], [("getFlag", "src/curseSimpleOutput.cpp")], SCR,
      PBT % "reference colour of every character cell", "Colour of every drawn cell compared with the reference rendering.", over=("inputs", "configurations")),
    P("C29", "The split viewer's keys move and collapse both sides together",
      "In a comparison, selecting an item selects its counterpart on the other side (nothing when it has none), collapsing or expanding it collapses or expands its counterpart, ^W switches sides and keeps what is selected there, and search finds items of the selected side only. The selected item is "
      "always on screen and highlighted, and no key sequence ends the program.",
      "all pairs of documents x key sequences", NOTUI + "the split viewer is not covered at all.",
      ["src/curseSplitOutput.cpp", "src/curseOutput.cpp"], [("setSelection, equivalences", "src/curseSplitOutput.cpp")], SCR,
      PBT % "model-based key sequences on both halves", "Selection of both halves followed through highlighted rows.", over=("inputs", "histories")),
    P("C30", "On a real terminal: viewer or print, signals at any moment, terminal given back",
      "The viewer opens for --diff, and otherwise when standard output is a terminal and neither --compress nor --diff-cmd is given, also when the document comes from a pipe (keys are then read from the terminal); in all other cases the document is printed. "
      "Signals, resizes and stops (^Z, resumed on a terminal of another size) may arrive at any moment, also in the middle of drawing, without harm: once they are over, the screen is the right one for the size of the terminal. "
      "However the session ends (q, ^C, SIGTERM, malformed input), the terminal gets its modes and its normal screen back and messages about the inputs can be read there; when no usable terminal can be opened, a message says so and the program ends with an exit status other than 0.",
      "all streams and terminal types x all schedules of keys, signals and resizes", NOTUI + "nothing is run on a terminal; signals that arrive while drawing cannot be placed by a unit test.",
      ["src/main.cpp", "src/curseOutput.cpp", "src/curseSimpleOutput.cpp", "src/curseSplitOutput.cpp"], [("init, shutdown and signal handlers", "src/curseOutput.cpp"), ("choice of the output", "src/main.cpp")],
      ["pseudo terminal: bytes shown, modes, exit status"],
      PBT % "random streams, schedules of keys, signals, stops and resizes on a pseudo terminal; model of the viewer as oracle", "Real program (sanitised) on a pseudo terminal with an emulator; schedules are random, not enumerated.", over=("configurations", "schedules", "histories")),
]
