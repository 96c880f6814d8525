T = "TLA+ (TLC): exhaustive model + trace validation of the real code"
NA = {}
NOTES = {
 "C01": (T, "TreeTrace: the incremental tree after every edit equals the tree that Lexing.tla (generated languages, bounded lookahead) or a recorded from-scratch lexer run (bundled languages) gives; random histories, not exhaustive"),
 "C02": (T, "MCBuilder: all interleavings of a few edits with the steps of a build (safety and liveness); TreeTrace judges real builds with changes injected at stages, in event handlers and while lexing"),
 "C03": (T, "MCLexing: lexer transition system for generated languages and all short texts; LexTrace: events of the real lexer equal the meaning that Lexing.tla gives to thousands of random language definitions"),
 "C04": (T, "TreeTrace evaluates well-formedness, parents, groups and copies on every recorded tree"),
 "C05": (T, "MCLexing checks termination (liveness); LexTrace for wild languages, StreamTrace for all bundled lexicons as root under a CPU limit"),
 "C06": (T, "MCDoc explores all histories within small constants; DocTrace judges recorded real histories (random and exhaustive small batches); bounded, not a proof"),
 "C07": (T, "as C06, for undo/redo/modified"),
 "C08": (T, "as C06, for cursors"),
 "C10": (T, "DocTrace derives the notifications and the mirror; TreeTrace checks the reported updated range"),
 "C13": (T, "TransformTrace: calls of transform methods recorded from transform_tree and transform_text equal the calls that Transforms.tla derives (generated languages over two classes, bundled languages with random methods)"),
 "C11": (T, "MCWorker: all interleavings of main and background thread within small constants, safety and liveness; WorkerTrace judges recorded requests, callbacks and events of real workers/documents, gated, free running and reentrant"),
 "C12": (T, "MCWorker and WorkerTrace as C11, for the transformed result (Transforms.tla gives the expected structure)"),
 "C18": (T, "MCEvents: all histories of nested emissions within small constants; EventTrace judges logs of a real Observable with functions, weak methods, once/priority/prepend_self, nested emissions and contexts"),
 "C14": (T, "MCNav: laws of the navigation operators on all small trees; NavTrace: answers of real trees to random questions equal Nav.tla"),
 "C15": (T, "MCQueries: laws of selecting, inverting and deleting on all trees up to 5-6 nodes; QueryTrace: results of random query chains, and of deleting, equal Queries.tla on the recorded tree"),
 "C09": (T, "MCBlocks: laws of the line operators on all short texts; BlockTrace: answers of real documents, blocks and cursors equal Blocks.tla"),
 "C16": ("TLA+ (TLC): trace validation of the real code", "FormatTrace: pieces that real formatters yield for whole documents and ranges equal Formats.tla on the recorded tree, for single and multi themes"),
 "C20": ("TLA+ (TLC): trace validation of the real code", "WordTrace: matches of generated expressions on many subject strings equal Words.tla"),
 "C24": ("TLA+ (TLC): trace validation of the real code", "ItemTrace: pre-evaluated, late evaluated and written-out rules, and the variations, equal the meaning that Lexing.tla gives to the rule items"),
 "C25": (T, "MCActions: all orders of creation of a few actions; ActionTrace: answers of real actions equal Actions.tla"),
 "C28": (T, "MCDoc; DocTrace judges recorded histories with search and replace operations against DocSearch.tla"),
 "C21": (T, "MCRegistry: all small histories of adding, inheriting, copying and connecting; RegistryTrace: every step of random histories on connected registries (add, inherit, copy, fallback, find, suggest) and lookups of all bundled names, patterns and types equal Registry.tla"),
 "C22": (T, "MCDocIO: all short texts saved and loaded in all encodings; DocIOTrace: text, encoding, modified state and bytes of real documents that are created, edited, saved and loaded equal DocIO.tla"),
 "C26": (T, "MCCss: cascade of growing sheets; CssTrace: properties the real code selects for elements and theme actions, and format arithmetic, equal Css.tla for random sheets over several files"),
 "C23": (T, "MCIndent: laws on all small documents; IndentTrace: texts after every operation of real indenters (abstract; css, lilypond, html, derived and added) equal Indent.tla"),
 "C17": (T, "MCHtml: the reader inverts an escaping writer; HtmlTrace reads the HTML of real formatters piece by piece: well-formed, exactly the text, every character in the format of Formats.tla"),
 "C19": (T, "MCUnique: all interleavings of looking up, locking, making and publishing within small constants; UniqueTrace judges real threads that are switched at every line of parce code and at random combinations of lines"),
 "C27": ("TLA+ (TLC): trace validation of the real code", "DataTrace: values of random valid JSON, CSV and INI texts and numerals, transformed by text and by tree, equal the meaning DataLangs.tla gives to the text"),
 "C29": ("TLA+ (TLC): trace validation of the real code", "HelperTrace: calls of dispatchers in random class hierarchies, switches and results of range helpers equal Helpers.tla"),
 "C30": (T, "MCValidate: all languages of 2-3 lexicons with default targets, from all stacks: what is accepted stays bounded; ValidateTrace judges validation and inspection of thousands of random right and wrong languages with inheritance"),
}
