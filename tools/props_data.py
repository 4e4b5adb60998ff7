MON = "runtime monitoring: "
TRUST = "Exploration: every generated execution of the real code is judged by an independent oracle; panics, aborts and runaway CPU are monitored in every case. It shows no violation on what ran, not absence of violations. Trusts the reference model in the harness and the Rust toolchain; overflow checks and debug assertions are on."

prop("C01", "Any text is handled without a crash",
 "Parsing, saving, tokenizing, linting, analysing, comparing and updating any text ends without a panic, abort or endless loop, and parsing always gives a script over exactly that text. Two parses of one text agree, issues name lines of the text, and input beyond the documented size limit is reported instead of processed.",
 ["inputs"], "every text up to and beyond the size limit", "Tests parse a few hundred hand-written scripts; a slice inside a character or an overflow needs an unusual one.",
 [C+"parser", C+"tokenizer", C+"analysis"],
 [("section dispatch and error recovery", C+"parser/main"), ("size limit", C+"utils/errors/resource.rs")], ["Script::parse and everything reachable from a Script"], MON+"panic/abort/CPU monitors over generated, damaged and repeated-construct scripts", TRUST)
prop("C02", "Parsing reports exactly what the text says",
 "Every section, style, event, script-info field, font and graphic that a script spells out appears in the parsed script once, in order, with each column's value as written, whatever the order of the columns. Lines that cannot be read are reported and do not disturb the others.",
 ["inputs"], "every well-formed script over all column orders, spacings, line endings, comments and section orders", "Tests use the usual column order and a handful of scripts.",
 [C+"parser/sections", C+"parser/ast", C+"parser/binary_data"],
 [("format-driven column mapping", C+"parser/sections"), ("embedded data", C+"parser/binary_data")], ["Script::sections", "Script::issues"], MON+"differential monitor: generator records what it wrote, parsed script is compared value by value", TRUST)
prop("C03", "Positions point at what they describe",
 "Each parsed element carries the line, column and byte range where it stands in the text, section extents contain their elements, and lookups by offset agree with them. Issues name the line where the problem is.",
 ["inputs"], "every script, including blank lines, comments, CRLF and multi-byte text before the element", "Tests check positions on short ASCII scripts.",
 [C+"parser/main", C+"parser/ast", C+"utils/spans.rs"], [("line counting while skipping", C+"parser/main/helpers.rs"), ("spans", C+"utils/spans.rs")], ["span fields, Script::section_range, section_at_offset, Spans"], MON+"position monitor against an independent line/offset count", TRUST)
prop("C04", "Saving a script and reading it back keeps everything",
 "The text a script saves to parses to the same sections, styles, events, fields, fonts and graphics, and saving that again gives the same text. Values are written under their own columns for every column order.",
 ["inputs"], "every parsed script and every element built by hand", "Tests save a few scripts in default column order.",
 [C+"parser/script/serialize.rs", C+"parser/ast"], [("serialization by format", C+"parser/ast")], ["Script::to_ass_string, to_ass_string of elements"], MON+"round-trip monitor over generated scripts", TRUST)
prop("C05", "Times, colours and numbers are read and written exactly",
 "A timestamp, colour or numeric field is accepted exactly when it is well formed and then has the value it spells; what cannot be represented is an error, never a wrapped value. Writing a time and reading it back gives the same time.",
 ["inputs"], "every string given as time, colour or number, and every representable time", "Tests sample common spellings and never the ends of the range.",
 [C+"utils/time.rs", C+"utils/color.rs", C+"utils/fields.rs", C+"utils/math.rs"], [("time parsing", C+"utils/time.rs"), ("colour parsing", C+"utils/color.rs")], ["parse_ass_time, format_ass_time, parse_bgr_color, parse_numeric"], MON+"differential monitor against arithmetic on the spelled digits", TRUST)
prop("C06", "Embedded files survive encoding and decoding",
 "Data embedded in a script decodes to the bytes that were encoded, for every length and content, wherever the lines break. Malformed data is an error or decodes by the stated rules, never a crash.",
 ["inputs"], "all byte strings and all encoded texts", "Tests encode a few short strings.",
 [C+"utils/uu.rs", C+"parser/binary_data"], [("decoder", C+"utils/uu.rs")], ["decode_uu_data, Font/Graphic decode_data"], MON+"round-trip monitor with an independent encoder and decoder", TRUST+" The encoding is the classic uuencoding, with length characters.")
prop("C07", "Bytes are recognised as the encoding they are",
 "Byte order marks, UTF-8 validity and the position of the first invalid byte are reported as they are, whether or not vectorised code is used. Recovery keeps every valid character.",
 ["inputs", "configurations"], "all byte strings, with and without SIMD", "Tests sample short inputs below the vector width.",
 [C+"utils/utf8", C+"utils/errors/encoding", C+"tokenizer/simd"], [("BOM table", C+"utils/utf8/bom.rs"), ("batched validation", C+"tokenizer/simd/utf8.rs")], ["detect_bom, strip_bom, validate/recover functions, simd::validate_utf8_batch"], MON+"differential monitor against std's UTF-8 validation", TRUST)
prop("C08", "Tokens cover the text in order, with or without SIMD",
 "Tokens come in text order, do not overlap, name the place they stand at and together keep every significant character. The vectorised scanners agree with the scalar ones on every input.",
 ["inputs", "configurations"], "all texts and scan offsets", "Tests use short lines; vector paths need more than 16 bytes before a delimiter.",
 [C+"tokenizer"], [("scanner", C+"tokenizer/scanner"), ("SIMD search", C+"tokenizer/simd")], ["AssTokenizer::next_token, simd functions"], MON+"trace monitor over token streams, scalar/SIMD differential", TRUST)
prop("C09", "Dialogue text is split into words and override tags as written",
 "The plain text, the override tags with their arguments and places, the line breaks and the reported mistakes of a dialogue line are those its characters spell. Complexity figures follow from them and stay in range.",
 ["inputs"], "all dialogue texts, nested and unclosed blocks and drawing mode included", "Tests contain single well-formed tags.",
 [C+"analysis/events"], [("text reader", C+"analysis/events/text_analysis"), ("tag reader", C+"analysis/events/tags")], ["TextAnalysis::analyze, DialogueInfo::analyze, TextWithLineBreaks"], MON+"differential monitor against a reference reader", TRUST)
prop("C10", "Event timing answers follow from the start and end times",
 "Overlaps, durations, activity at a time, relations and sortings of events are those of their start and end times, for every number of events. Events that last no time overlap nothing, and unreadable times are errors.",
 ["inputs"], "all lists of events, ties and extreme times included", "Tests compare two or three events.",
 [C+"analysis/events/overlap", C+"analysis/events/utils"], [("sweep-line detection", C+"analysis/events/overlap"), ("durations and sorting", C+"analysis/events/utils")], ["find_overlapping_*, count_*, DialogueInfo relations, sort helpers"], MON+"differential monitor against all-pairs comparison", TRUST)
prop("C11", "Styles resolve to the values their lines and parents give",
 "Every style that can be resolved has the values its own line gives, what it leaves out comes from its parent, and scaling to the layout resolution is applied once. Cycles, missing parents and unusable values are reported, and resolution does not depend on the order of the lines.",
 ["inputs"], "all sets of styles and inheritance graphs, resolutions included", "Tests resolve one or two levels in file order.",
 [C+"analysis/styles"], [("dependency order", C+"analysis/styles/analyzer"), ("resolution", C+"analysis/styles/resolved_style")], ["StyleAnalyzer, ResolvedStyle"], MON+"differential monitor against a reference resolver", TRUST)
prop("C12", "Linting reports exactly what each rule describes",
 "Each rule reports the places it describes and no others, with its own severity and category, and a configuration selects from the full list. The whole-script summary counts what the script contains and scores it by the stated thresholds.",
 ["inputs", "configurations"], "all scripts and linting configurations", "Tests trigger each rule once.",
 [C+"analysis/linting", C+"analysis/queries.rs"], [("rules", C+"analysis/linting/rules"), ("summary", C+"analysis/queries.rs")], ["lint_script, ScriptAnalysis"], MON+"differential monitor: independent counting of every rule's findings", TRUST)
prop("C13", "Edits to a script do what they say and nothing else",
 "Updating a line, adding or removing elements, and batches change exactly what was asked, atomic batches all or nothing. The change log, lookups and the saved file show the state after every step.",
 ["histories"], "all sequences of edits, refused ones included", "Tests make one edit at a time.",
 [C+"parser/script"], [("line update", C+"parser/script/update.rs"), ("batches", C+"parser/script/batch.rs"), ("tracking", C+"parser/script/tracking.rs")], ["Script mutation methods, changes()"], MON+"history monitor: model of the script stepped beside the real one", TRUST)
prop("C14", "Incremental and streaming parsing equal parsing the whole text",
 "After any chain of text changes the incrementally parsed script equals a fresh parse of the new text, and the delta names the sections that changed. Feeding a text in chunks cut anywhere gives what feeding it whole gives.",
 ["inputs", "histories", "schedules"], "all chains of changes and all ways to cut a stream", "Tests make one ASCII change and cut at line ends.",
 [C+"parser/incremental", C+"parser/streaming", C+"parser/script/incremental.rs", C+"parser/script/partial.rs"], [("range arithmetic", C+"parser/incremental"), ("stream state machine", C+"parser/streaming")], ["parse_incremental, parse_partial, adjust_range_for_change, StreamingParser"], MON+"differential monitor against a full parse", TRUST)
prop("C15", "Registered handlers are asked for exactly what is theirs",
 "A registry hands each tag or section to the handler registered for it, in order and once, refuses duplicates, and forgets what is removed. Sections and tags no handler takes are treated as if there were no registry.",
 ["histories", "inputs"], "all histories of registration and all scripts", "Tests register a couple of mock handlers.",
 [C+"plugin", C+"parser/main/registry.rs", C+"analysis/events/tags"], [("registry", C+"plugin/registry.rs"), ("dispatch while parsing", C+"parser/main/registry.rs")], ["ExtensionRegistry, Script::builder().with_registry, DialogueInfo::analyze_with_registry"], MON+"event-log monitor on recording handlers", TRUST)
prop("C16", "Built-in tag handlers accept exactly the valid arguments",
 "Each built-in tag handler accepts an argument exactly when the tag allows it, and the same answer comes from validation and from processing. The Aegisub sections are accepted in the form the program writes them.",
 ["inputs"], "all tag arguments", "Tests try a few values per tag.",
 [C+"plugin/tags", C+"plugin/sections"], [("handlers", C+"plugin/tags")], ["TagHandler::process/validate"], MON+"differential monitor against a table of argument grammars", TRUST)
prop("C17", "Work grows in proportion to the input",
 "Parsing, saving, tokenizing, analysing, updating and comparing a script that repeats any construct takes time in proportion to its size. Doubling a script does not quadruple the time it needs.",
 ["inputs"], "every construct repeated tens of thousands of times, at every stage", "Tests and benches use realistic scripts; a rescan per line only shows on degenerate ones.",
 [C+"parser", C+"tokenizer", C+"analysis"], [("line scanning", C+"parser/main/helpers.rs"), ("style ordering", C+"analysis/styles/analyzer")], ["CPU time of the calling thread"], MON+"CPU-time growth monitor over repeated constructs", TRUST+" Output that is quadratic by nature (all pairs of overlapping events) is left out.")

prop("E01", "A document holds exactly the text its edits make",
 "Inserting, deleting, replacing, batching and fluent editing leave exactly the text they describe, on every path, incremental ones included. Offsets outside the text or inside a character are refused and change nothing. The changes announced on the event channel, applied to the old text, give the new text.",
 ["inputs", "histories"], "all texts and sequences of edits, refused ones included", "Tests make a few ASCII edits on one path each.",
 [E+"core/document", E+"core/incremental", E+"commands", E+"core/fluent"], [("rope edits", E+"core/document"), ("incremental parser", E+"core/incremental")], ["EditorDocument edits, events, IncrementalParser"], MON+"history monitor: string model stepped beside the document, replay of the event channel", TRUST)
prop("E02", "Undo and redo walk the history of the text exactly",
 "Undoing returns to the text before the last command and redoing to the text after it, whatever mix of edits made the history and however often it is walked. One command is one entry, a failed command changes nothing, a new edit clears what could be redone, and the limits of the history hold.",
 ["histories"], "all histories of edits, commands, undos and redos and all limits", "Tests undo one or two edits of one kind.",
 [E+"core/history", E+"core/document"], [("operations and deltas", E+"core/history"), ("undo of a document", E+"core/document")], ["EditorDocument::undo/redo, UndoManager"], MON+"history monitor: snapshots of the text at every point of the history", TRUST)
prop("E03", "Event commands change only the events they are asked to",
 "Splitting, merging, shifting, scaling, toggling, deleting and changing fields or effects of events changes exactly the events and columns named, whatever the format line says and wherever the events stand. All other text stays as it is, and a value that does not fit in its column is refused.",
 ["inputs", "histories"], "all scripts, column orders and sequences of event commands", "Tests run one command on a two-event script in the default column order.",
 [E+"commands/event_commands", E+"core/document", E+"core/fluent"], [("event lines", E+"core/document/event_lines.rs"), ("commands", E+"commands/event_commands")], ["event commands, events() fluent API, edit_event_by_index, edit_event_with_builder"], MON+"history monitor: line-and-column model stepped beside the document", TRUST+" An effect that contains a comma ends a history: existing tests make the commands keep it whole while the parser splits it.")
prop("E04", "Style and script info commands change only what they name",
 "Creating, editing, deleting, cloning and applying styles and setting script info fields change exactly the style or field of that exact name, in the section and column order the document has. All other text stays as it is, a name or value that would not read back is refused, and a missing section is written where it belongs.",
 ["inputs", "histories"], "all scripts, column orders, names and sequences of style and info commands", "Tests edit one style whose name is no part of another.",
 [E+"commands/style_commands", E+"core/document", E+"core/fluent", E+"core/builders"], [("style lines", E+"core/document/style_lines.rs"), ("section text", E+"core/document/section_text.rs"), ("commands", E+"commands/style_commands")], ["style commands, styles() and info() fluent APIs, StyleBuilder"], MON+"history monitor: line-and-column model stepped beside the document", TRUST)
prop("E05", "Tag and karaoke commands touch only the tags and times they name",
 "Inserting, removing, replacing, wrapping and parsing tags, and generating, splitting, adjusting and applying karaoke, change exactly the tags, durations or syllables asked for, at their offsets. Visible text, comments, braces that are not closed and every other tag stay as written, and what gives no tag or duration is refused.",
 ["inputs", "histories"], "all texts, blocks, tags, patterns, ranges and sequences of tag and karaoke commands", "Tests run one command on one or two plain ASCII blocks.",
 [E+"commands/tag_commands", E+"commands/karaoke_commands", E+"commands/override_blocks.rs", E+"core/fluent"], [("blocks and patterns", E+"commands/override_blocks.rs"), ("karaoke", E+"commands/karaoke_commands")], ["tag and karaoke commands, tags() and karaoke() fluent APIs"], MON+"differential monitor against an independent scan of blocks and tags", TRUST+" Where syllables are cut inside a word is not fixed.")
prop("E06", "Event queries return exactly the matching events",
 "Filters, sortings, limits and lookups of events return the events that match, in the stated order and with their place in the document, and deleting by a query deletes those. Events that match equally keep the order of the document.",
 ["inputs"], "all scripts, filters, patterns and orders", "Tests filter three events by one criterion.",
 [E+"core/fluent"], [("event query", E+"core/fluent")], ["EventQuery, events() accessors"], MON+"differential monitor against filtering the generated events", TRUST)
prop("E07", "Searching finds exactly the matches, replacing changes only them",
 "A search returns, in order and with line, column and context, the leftmost matches of the pattern that do not overlap and lie in the scope, honouring case, whole words and the limit, with or without an index and after any edits. Replacing changes these matches and nothing else, as one edit that undo takes back.",
 ["inputs", "histories"], "all texts, patterns, scopes, options and edits between index and search", "Tests look up one word in a script of a few lines.",
 [E+"utils/search", E+"utils/indexing"], [("scan", E+"utils/search/scan.rs"), ("indexes", E+"utils/indexing")], ["DocumentSearchImpl, DocumentSearch, LinearSearchIndex, FstSearchIndex"], MON+"differential and history monitor against an independent scan of the text", TRUST+" Case is ignored character by character; regular expressions beyond alternatives and digit runs are judged by order, place and description of their matches only.")
prop("E08", "Every event reaches exactly the handlers that ask for it",
 "A dispatched event is given once to each registered handler whose filter accepts it, by falling priority, whatever other handlers answer and on whatever thread. Queued events are delivered once and in order, the history keeps the last events up to its limit, and counters tell what happened.",
 ["histories", "schedules"], "all sequences of registrations, events, failures and queue operations, on one or several threads", "Tests dispatch one event to one handler that succeeds.",
 [E+"events"], [("channel", E+"events"), ("filters", E+"events")], ["EventChannel, EventFilter, DocumentEvent"], MON+"history monitor: model of the channel and recording handlers stepped beside the real one; threads", TRUST+" Processing time figures are not judged.")
prop("E09", "Sessions and shared documents keep every edit exactly once",
 "Sessions are created, found, switched and removed under exactly their name, up to their limit. A session in use is neither replaced nor dropped, closing one touches no other, and an edit made through any handle, lock, pool or thread is there exactly once, in a whole order, for every later reader.",
 ["histories", "schedules"], "all histories of session, lock and pool operations on one or several threads", "Tests create two sessions and switch once, on one thread.",
 [E+"sessions", E+"core/thread_safety"], [("manager", E+"sessions"), ("shared documents", E+"core/thread_safety")], ["EditorSessionManager, SyncDocument, AsyncDocument, DocumentPool, ScopedDocumentLock"], MON+"history monitor against a model; exactly-once and order monitor over texts that threads wrote", TRUST+" Memory figures are not judged; SyncDocument is not Send and is driven on one thread.")
prop("E10", "Subtitle formats keep cues, times, styles and text",
 "Importing SRT or WebVTT yields one event for each well-formed cue, with its times, lines, italics, bold, underline and strike-out; exporting writes each dialogue line as a cue, in order. What is written is read back the same, a file holds what was exported, and malformed cues neither panic nor take others with them.",
 ["inputs"], "all cue files, scripts, options and files", "Tests convert one or two plain cues.",
 [E+"formats", E+"utils/formats"], [("cues", E+"formats"), ("converter", E+"utils/formats")], ["SrtFormat, WebVttFormat, AssFormat, FormatRegistry, FormatConverter, import_from_file, export_to_file"], MON+"differential monitor: generated cues and events, known by construction, against what is imported and exported", TRUST+" Voices, STYLE blocks and escapes of WebVTT are left open. The byte order of font colours is a known finding.")
prop("E11", "Extensions run as asked, and highlight and complete the current text",
 "The manager calls a loaded extension exactly when asked, one call at a time, never deadlocks with one that uses it meanwhile, and keeps settings, data, commands, messages and events as a sequential manager would. Highlighting gives ordered ranges of the current text; completion offers what fits at any position.",
 ["histories", "schedules", "inputs"], "all sequences of loading, calling and unloading, on one or several threads; all texts, edits and positions", "Tests call extensions that never use their manager, and highlight one text once.",
 [E+"extensions"], [("calls of extensions", E+"extensions/manager.rs"), ("context", E+"extensions/context.rs"), ("token cache", E+"extensions/builtin/syntax_highlight")], ["ExtensionManager, ExtensionContext, SyntaxHighlightExtension, AutoCompleteExtension"], MON+"history monitor: model of the manager and recording extensions stepped beside the real one; threads and deadlock watch; trace checker of tokens", TRUST+" The state of an extension that refused to shut down is left open.")
prop("E12", "Embedded fonts and graphics keep their bytes",
 "Files added to a document from bytes or lines come back byte for byte from the parsed script, in order; list, count and exists agree with it; removing or clearing takes exactly the named or all files; a file that would break out of its section is refused. No other line changes, and undo and redo restore texts.",
 ["histories", "inputs"], "all sequences of adding, removing, clearing, undoing and redoing on any script and any bytes", "Tests add one small file and look for its name in the text.",
 [E+"commands/fonts_graphics_commands", E+"core/fluent"], [("section editing", E+"commands/fonts_graphics_commands/embedded.rs"), ("uuencoding", E+"commands/fonts_graphics_commands/encoding.rs")], ["AddFontCommand, RemoveFontCommand, ClearFontsCommand, ListFontsCommand and their graphics peers", "EditorDocument::fonts, graphics"], MON+"history monitor against a list of files and an independent encoder", TRUST+" Files of equal name are removed together.")
prop("E13", "Positions, lines and ranges convert exactly",
 "Offset to line and column and back is the identity on every character boundary of every text, line starts and ends exclude exactly the line break, and what lies outside the text is an error. Ranges and selections follow set arithmetic on offsets.",
 ["inputs"], "all texts, line break characters, offsets and ranges", "Tests use ASCII lines ended by LF.",
 [E+"core/position", E+"core/document"], [("position builder", E+"core/position/builder.rs"), ("ranges", E+"core/position")], ["PositionBuilder, position_to_line_column, Range, Selection"], MON+"differential monitor against a scan of the characters", TRUST)
prop("E14", "A validation result describes the current text",
 "A result, fresh or kept, lists exactly the analysis' and structural issues of the current text at or above the threshold, and under a limit the most severe. Counts, validity, summary and selection by severity are those of its issues. No edit, undo, failing command or new configuration leaves an outdated result.",
 ["histories", "inputs"], "all texts, configurations and sequences of edits, undo, redo, commands and validations", "Tests validate one text with one configuration.",
 [E+"utils/validator", E+"core/document"], [("validation cache", E+"utils/validator/api.rs"), ("limit and threshold", E+"utils/validator/core_validation.rs"), ("cache dropped by edits", E+"core/document/editing_raw.rs")], ["LazyValidator", "EditorDocument::validate_comprehensive, force_validate, validation_result"], MON+"history monitor: every result compared with the core analysis of the text at hand", TRUST+" The core analysis is judged by checks of its own.")
prop("E15", "A script delta changes the sections it names and no other text",
 "Applying a delta to a document replaces and removes the sections it names, by their place in the script, and appends those it adds. All other text stays byte for byte. The delta that partial parsing or the incremental parser reports for an edit, applied to the old text, gives a document whose sections say what those of the edited text say. Undo and redo restore both texts, and a delta that changes nothing leaves no history.",
 ["inputs", "histories"], "all texts, deltas and edits; for carried edits, texts in which each kind of section occurs once", "Tests apply deltas to two-section scripts.",
 [E+"core/document", E+"core/incremental", C+"parser/script"], [("applying deltas", E+"core/document/delta_apply.rs"), ("incremental parser", E+"core/incremental/reparse.rs"), ("partial parsing", C+"parser/script/partial.rs")], ["EditorDocument::apply_script_delta, parse_with_delta_tracking", "IncrementalParser", "Script::parse_partial"], MON+"model monitor: sections said before and after, and differential monitor against a full parse of the edited text", TRUST+" What a section says is read by the core parser, judged by checks of its own.")
prop("E16", "Builders write lines that read back as what was set",
 "The line an event or style builder writes, put under the columns it was written for, parses into exactly the values set, and the documented default of each column not set, for every script version and any list of columns. Values that cannot stand in their column, unknown columns and column lists without a meaning are refused, not written into a line that says something else.",
 ["inputs"], "all values and column lists", "Tests look for substrings of lines built from tame values.",
 [E+"core/builders"], [("event builder", E+"core/builders/event.rs"), ("style builder", E+"core/builders/style.rs")], ["EventBuilder, StyleBuilder: build, build_with_version, build_with_format"], MON+"round-trip monitor: builder, line, core parser", TRUST+" Whether commas inside the parentheses of an effect fit is left to the builder; what it writes must read back.")
prop("E17", "A document answers questions about itself from its current text",
 "Counts of events, styles and sections, script info fields and what they hold, and the event texts that contain a piece of text are those of the current text, after any edits. Fields are set by their names, and the section they need is there afterwards. The short ways to ask and to edit - accessors of one event, named queries, places, selections, characters before and after a place - give what the long ways give and touch nothing else. Handlers registered with a document are asked when it is parsed with them, once and with the whole section, and the script read is the same script.",
 ["inputs", "histories"], "all scripts, sequences of edits, indices, places, patterns and registered handlers", "Tests call each helper on one small script, some of them without looking at the answer.",
 [E+"core/document", E+"core/fluent", E+"extensions/registry_integration"], [("script questions", E+"core/document/ass_api.rs"), ("event accessors", E+"core/fluent/event_accessor.rs"), ("script info", E+"core/fluent/script_info.rs"), ("handlers", E+"core/document/plugins.rs")], ["EditorDocument: events_count, script_info_fields, find_event_text, edit_event_text, set_script_info_field, info, events, at_pos, select, parse_with_extensions"], MON+"model monitor: the generator's content of the script, stepped beside the edits", TRUST+" Fields asked for by a name of their own are those of the first script info section.")

prop("R01", "Any script can be rendered without a crash",
 "Rendering any parsed script at any time and size, as a frame, incrementally or as a bitmap list, ends with a picture of the requested size and time, or with an error. It never panics, overflows or runs without end, whatever the tags, times, colours, numbers and shapes of the script say.",
 ["inputs"], "all scripts, times and frame sizes, hostile tag values included", "Tests render well-formed lines in mid-screen.",
 [R+"pipeline", R+"backends/software", R+"renderer"], [("tag values", R+"pipeline/text_segmenter/apply.rs"), ("layer drawing", R+"backends/software")], ["Renderer::render_frame, render_frame_incremental, render_frame_bitmaps"], MON+"panic/overflow/CPU monitors over hostile scripts", TRUST+" Fonts are those in the harness's own font folder; tiny-skia is built without its debug assertions.")
prop("R02", "A frame depends only on script, time and size",
 "A renderer that has drawn other scripts, times and sizes before draws exactly the frame that a new renderer draws. Every frame is a premultiplied picture of the requested size, stamped with its time, and drawing the same again changes nothing. Fonts a script embeds are used to measure and paint its text and no other script's.",
 ["histories"], "all sequences of scripts, times, resizes and rendering calls on one renderer", "Tests draw one or two frames with a new renderer each.",
 [R+"renderer", R+"pipeline/build", R+"backends/software/cache"], [("caches keyed by content", R+"backends/software/cache"), ("time index", R+"renderer/time_index.rs"), ("prepare_script", R+"pipeline/build/run.rs")], ["Renderer::render_frame and set_context"], MON+"history monitor: used renderer against a fresh one, byte for byte", TRUST+" Blurred pixels are a known finding and are only probed.")
prop("R03", "Exactly the events on screen at a time are selected",
 "At a time the active events are the dialogue lines whose start is not later and whose end is later, in the order of the file, with comments only if they are asked for. The times at which a selection changes, and the events a changed region concerns, follow from the start and end times.",
 ["inputs", "histories"], "all sets of events, times and query sequences", "Tests select among two or three events.",
 [R+"renderer/event_selector.rs", R+"renderer/time_index.rs"], [("time index", R+"renderer/time_index.rs"), ("selection", R+"renderer/event_selector.rs")], ["EventSelector"], MON+"differential monitor against scanning all events", TRUST)
prop("R04", "A bitmap list painted in order gives the frame",
 "Each bitmap of a list holds as many pixels as its size says, and painting the list in order onto an empty picture gives the frame drawn at the same time, up to rounding. Nothing of a layer is cut off or missing at any place, also where it stands partly off screen.",
 ["inputs"], "all scripts, times and frame sizes", "Tests paint one plain line.",
 [R+"backends/software", R+"backends/coverage"], [("bitmap emission", R+"backends/software/mod.rs"), ("crop to painted pixels", R+"backends/software/dirty.rs"), ("coverage tiles", R+"backends/coverage")], ["Renderer::render_frame_bitmaps, composite_bitmap"], MON+"differential monitor: list painted against the frame", TRUST)
prop("R05", "A clip shows exactly the part of a picture it names",
 "Under a rectangular clip the frame is the unclipped frame inside the rectangle and empty outside it, and an inverse clip the other way round. A frame's buffer, accessors and copies hold exactly the pixels it was made from.",
 ["inputs"], "all texts, drawings and rectangles", "Tests count covered pixels of one clipped line.",
 [R+"backends/software/text/mod.rs", R+"backends/software/vector.rs", R+"renderer/frame.rs"], [("clip of text", R+"backends/software/text/mod.rs"), ("frame buffer", R+"renderer/frame.rs")], ["Renderer::render_frame, Frame"], MON+"metamorphic monitor: clipped against unclipped picture, pixel by pixel", TRUST)
prop("R09", "Incremental rendering gives the frame a full redraw gives",
 "A frame made from the previous one equals the frame drawn from nothing at the same time, for every order of times and for animated, moving, fading and vanishing events.",
 ["histories"], "all sequences of times, scripts and sizes", "Tests draw two neighbouring frames of a static line.",
 [R+"renderer/mod.rs", R+"renderer/event_selector.rs", R+"backends/software"], [("dirty regions", R+"renderer/event_selector.rs"), ("incremental compositing", R+"backends/software/mod.rs")], ["Renderer::render_frame_incremental"], MON+"differential monitor against full redraw, byte for byte", TRUST)
prop("R10", "Renderers on several threads do not disturb each other",
 "Frames drawn at the same time on several threads, with renderers of their own and with one that is handed from thread to thread, are the frames one thread draws alone.",
 ["schedules"], "all interleavings of renderers and scripts on several threads", "Tests render on one thread.",
 [R+"backends/software/cache", R+"pipeline/shaping"], [("thread-local caches", R+"backends/software/cache"), ("shape cache", R+"pipeline/shaping/shape.rs")], ["Renderer across threads"], MON+"differential monitor under thread stress", TRUST)
prop("R06", "Animations, fades and karaoke have the value of the moment",
 "At every time a transform, fade, move or karaoke syllable shows the value that lies between its ends as time lies between its times. Before its start nothing has happened, after its end the picture is that of the static text with the final values.",
 ["inputs"], "all animated events and all times from start to end", "Tests compute a progress at two or three times.",
 [R+"pipeline/transform", R+"pipeline/animation.rs", R+"pipeline/build/animation.rs", R+"pipeline/build/text"], [("transforms", R+"pipeline/build/animation.rs"), ("fades and colours", R+"pipeline/build/text/colors.rs")], ["SoftwarePipeline::process_events, Renderer::render_frame, TransformAnimation"], MON+"differential monitor: the generator's model evaluated at the time against the layers; frozen twin of each animated event", TRUST+" A plain tag after an animation of the same attribute, and what a transform animates beyond numbers, colours and the overall alpha, are left open.")
prop("R07", "Simultaneous events do not cover each other",
 "Events without a position that are on screen together on one layer are stacked away from their edge of the frame, in the order of drawing, so that their boxes do not overlap while there is room. An event moves as a whole and only if something is in its way, and a positioned event never moves.",
 ["inputs"], "all sets of simultaneous events, layers, alignments and sizes", "Tests place two boxes.",
 [R+"collision", R+"pipeline/build/position.rs", R+"pipeline/build/run.rs"], [("boxes", R+"pipeline/build/position.rs"), ("resolver", R+"collision")], ["SoftwarePipeline::process_events, CollisionResolver, SmartCollisionResolver"], MON+"monitor over the placed layers: each event alone against the same event among others", TRUST)
prop("R11", "Text has the look its style and override tags give it",
 "Each stretch of text is drawn with the font, size, colours, alpha, flags, border, shadow, blur, rotation, shear, scale, spacing and clip that the tags before it and the style beneath them give, each tag at its place, whatever spelling of it is used. A reset goes back to the style it names. Under a layout resolution the lengths of styles are converted, each along its own axis.",
 ["inputs"], "all combinations of styles, tags, places and spellings", "Tests set one tag on one line.",
 [R+"pipeline/text_segmenter", R+"pipeline/tag_processor", R+"pipeline/build"], [("tags", R+"pipeline/text_segmenter/apply.rs"), ("style values", R+"pipeline/build/text/defaults.rs"), ("effects", R+"pipeline/build/text/effects.rs")], ["SoftwarePipeline::process_events"], MON+"differential monitor: the generator's model of every run against the layers, and spellings against each other", TRUST)
prop("R12", "Lines are broken, aligned and placed as the script says",
 "Text breaks at its hard breaks and, where the wrap style allows, at spaces, so that a line fits between the margins if it can; smart wrapping makes the lines as even as it can. Each line is aligned as a whole, the lines stand evenly below each other, and the block stands at its position or margins. An alignment written the way old scripts write it stands where the same alignment stands in a new script. What is painted is where the layout put it, and moves with it.",
 ["inputs"], "all texts, wrap styles, alignments, margins, positions and scales", "Tests look at one short line.",
 [R+"pipeline/build", R+"pipeline/shaping", R+"backends/software/text"], [("wrapping", R+"pipeline/build/wrap.rs"), ("placement", R+"pipeline/build/text/position.rs"), ("drawing", R+"backends/software/text/prepare.rs")], ["SoftwarePipeline::process_events, Renderer::render_frame"], MON+"monitor that measures the layers with the renderer's shaping and the painted pixels, against independent layout arithmetic", TRUST+" Widths are those of the renderer's own shaping.")

prop("R08", "Drawings are painted as the shapes their commands name",
 "A drawing's commands, however they are spaced, repeated or capitalised, give exactly the segments they name, splines being uniform cubic B-splines. It is painted where its scale, level, alignment and position put it: every pixel inside by the non-zero winding rule has its colour, a border of the named width surrounds it in the border's colour, and nothing beyond is painted.",
 ["inputs"], "all drawings of lines, curves and splines, scales, levels, alignments and borders", "Tests draw one square.",
 [R+"pipeline/drawing", R+"pipeline/build/drawing.rs", R+"backends/software/vector.rs", R+"backends/geometry.rs"], [("commands", R+"pipeline/drawing"), ("placement", R+"pipeline/build/drawing.rs"), ("painting", R+"backends/software/vector.rs")], ["process_drawing_commands, Renderer::render_frame"], MON+"monitor that judges every painted pixel by winding number and distance from independently placed polygons", TRUST+" Pixels within about one pixel of an edge are not judged.")
prop("R13", "What is painted is blended exactly",
 "The coverage of a path is the area it covers of each pixel. A bitmap composited anywhere, wholly or partly outside the frame included, gives source-over of every pixel and changes no other. A frame is its events painted over each other, by layer, then start, then order.",
 ["inputs"], "all paths, bitmaps, places, colours and overlapping events", "Tests blend a few pixels.",
 [R+"backends/coverage", R+"backends/software"], [("coverage", R+"backends/coverage"), ("order", R+"renderer")], ["CoverageTile::rasterize, composite, composite_bitmap, Renderer::render_frame"], MON+"monitor that compares pixels with real arithmetic: exact areas, source-over, and single-event frames", TRUST+" Two levels of rounding; curves are judged near their edge only roughly.")
prop("R14", "Effects are painted as named",
 "A shadow is the text and its outline moved by the offset, behind it, in its colour; an outline surrounds the text by its widths; a blur spreads the paint without adding or losing any; underlines and strike-outs are whole bars along the text; sung and unsung text have their colours, parted by the sweep; rotations and mirrorings turn the picture about the origin.",
 ["inputs"], "all texts, fonts, sizes, alignments, effect values and times", "Tests count changed pixels of a few effects.",
 [R+"backends/software", R+"backends/geometry.rs", R+"backends/blur.rs"], [("decorations", R+"backends/software/text/decorations.rs"), ("cached tiles", R+"backends/software/cache/mod.rs"), ("karaoke", R+"backends/software/text/fills.rs")], ["Renderer::render_frame"], MON+"metamorphic monitor: pictures with an effect against those of the same text without", TRUST+" Pictures cut by the frame are not judged; thin stems are as wide as whole quarter pixels.")
prop("R15", "Layout, animation and helper computations give what they name",
 "An animation track has the value that lies between its keys as the time does, changes only the property it names, and of tracks for one property the last counts. Positions, alignments of old and new scripts and scaling between resolutions agree with plain arithmetic. Of repeated override tags the last counts, and text without tags keeps its breaks. Matrices, transforms, colour and region helpers are the linear maps and set operations they are named for. Regions handed out by an atlas lie inside it, do not overlap, and hold what was written. Caches keep what fits. Limits of the configuration are enforced exactly. A free position lies within its bounds and overlaps nothing. Plugins get the parameters set for them.",
 ["inputs", "histories"], "all keys, times, tags, alignments, sizes, transforms, sequences of atlas and cache requests and configurations", "Tests evaluate one or two values of each.",
 [R+"animation", R+"layout", R+"utils", R+"plugin", R+"collision", R+"pipeline/tag_processor"], [("tracks", R+"animation"), ("positions", R+"layout"), ("processed tags", R+"pipeline/tag_processor"), ("free positions", R+"collision")], ["AnimationController, AnimationTrack, PositionCalculator, process_event_tags, RenderLimits, atlas and cache types"], MON+"differential monitor: independent arithmetic beside every helper", TRUST+" Rounding up to the named precision is allowed.")

NA = []
NOTES = "All checks use the public API of the crates in /repo's working tree; there are no hooks. See DESIGN.md."
