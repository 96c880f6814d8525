import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":m,"where":files[0]} for m in mech]}
    if state: a["state"]=[{"name":x,"where":files[0]} for x in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","An incrementally updated tree equals a from-scratch parse of the text",
 "After any sequence of text edits and root-lexicon changes, the tree kept by a tree builder or document has exactly the same contexts (including lexicon arguments), tokens, positions, actions and token groups as a tree built from scratch from the current text, and it reports the same list of lexicons left open at the end of the text. The root context object stays the same object. This holds for every language whose patterns do not look behind the start of a match, look only a bounded distance ahead (a handful of tokens), and whose token groups start where the match starts.",
 ["inputs","histories"],"for every language, initial text and sequence of edits (any start, removed and added length, any batch, any root lexicon change)",
 "tests edit a few texts in a few places; whether old tokens in front of and behind the change may be reused depends on the whole combination of text, edit and lexicon nesting",
 ["parce/treebuilder.py","parce/treebuilderutil.py","parce/tree.py","parce/work.py"],
 ["TreeBuilder.build_new_tree, replace_tree","get_prepared_lexer, events_with_tokens"],["TreeBuilder.root","TreeBuilder.lexicons"],["TreeBuilder.rebuild","Document.get_root"])
p("C02","Changes that arrive while a tree is being built are never lost",
 "When the text or the root lexicon is changed while a tree build is running (at any point between its stages or while it is tokenizing), then after the process has finished the tree and the open lexicons are those of the last text and root lexicon, exactly as if that text had been parsed from scratch. No change is dropped or applied twice, and the finished event is only emitted when all changes known at that moment are processed. Combining several queued changes yields one change that covers them all.",
 ["schedules","histories"],"for every sequence of changes and every point in a running build at which each of them arrives",
 "tests run builds to completion before the next change",
 ["parce/treebuilder.py","parce/treebuilderutil.py"],["TreeBuilder.process, get_changes, build_new_tree restart","Changes.add"],["TreeBuilder.changes","TreeBuilder.busy"],["TreeBuilder.rebuild","TreeBuilder.process"])
p("C03","The lexer produces exactly the events the language's rules define",
 "For every language definition and every text, lexing yields the events the rules prescribe: at each point the leftmost match of the current lexicon wins and at equal positions the first rule, unmatched text gets the default action, follows the default target or is skipped, and targets pop and push lexicons (never the root) before or after the token, depending on whether the target lexicon wants to consume it. Actions per subgroup, delegated to another lexicon, selected on the matched text, group or lexicon argument, or skipped, yield the lexemes the rule says, in order, never empty, each with its own position and text. Each event's target describes exactly how the stack of lexicons changed since the previous event.",
 ["inputs"],"for every language definition (rules, patterns, default actions/targets, targets, derived lexicons) and every text",
 "tests compare a few texts in a few languages with stored output",
 ["parce/lexer.py","parce/lexicon.py","parce/target.py","parce/ruleitem.py","parce/rule.py"],["Lexer.events","Lexicon.parse variants","TargetFactory"],["Lexer.lexicons"],["parce.events","Lexer.events"])
p("C04","A tree is well-formed and contains exactly the lexed tokens",
 "Every tree, fresh or updated after any edits, is well-formed: the tokens in document order have non-empty text equal to the document's text at their position, do not overlap and ascend; each child knows its parent and every context except possibly the root has at least one token. Flattening the tree in order gives exactly the lexemes of the event stream, nested in the contexts that the targets entered and left, with lexemes of one event forming one token group. Copying a tree gives an equal, independent tree.",
 ["inputs","histories"],"for every language, text and edit history",
 "tests check fixed trees of a few texts",
 ["parce/treebuilder.py","parce/tree.py"],["build_tree","make_tokens","Context.append/extend","Node.copy"],["Context.parent","Token.pos/text/group"],["parce.root","TreeBuilder.root"])
p("C05","Lexing terminates for every text and leaves the lexer at the end",
 "For every text, lexing with any lexicon of any bundled language as root terminates, raises no exception, and yields lexemes that ascend in the text without overlap and are equal to the text at their position. The same holds for every language definition, including ones with circular or dead-ending default targets and with patterns that match the empty string, as long as targets do not push lexicons endlessly. Tokenizing two texts one after another, or the same text twice, gives the same result as tokenizing each alone.",
 ["inputs"],"for every text over every bundled root lexicon, and every generated language without run-away pushes",
 "non-termination and crashes show only for particular texts and lexicon cycles",
 ["parce/lexer.py","parce/lexicon.py","parce/lang/"],["Lexer.events circular detection","Lexicon.parse"],None,["parce.events"])
p("C06","Edits behave like edits of a plain string and batches are atomic",
 "A mutable string or document behaves like a Python string under every indexing, slicing, assignment, deletion, insertion and append operation. Changes made inside an edit context refer to the original text, become visible all at once when the outermost context exits (changes at the same position are joined in the order they were made), and are all discarded when an exception leaves the context. Overlapping changes and calls that are not allowed in a context raise an error, and leave text and document unchanged and usable.",
 ["inputs","histories","fault_sequences"],"for every text, every sequence of edit calls, nesting of edit contexts and failure point",
 "tests use a handful of edits without failures or nesting",
 ["parce/mutablestring.py","parce/document.py"],["AbstractMutableString.__setitem__, _get_changes, _apply_changes, __exit__"],["pending changes","edit context depth"],["Document.__setitem__","Document.text"])
p("C07","Undo and redo restore text, modified state and availability exactly",
 "Undo brings back exactly the text before the last edit (a whole batch being one step) and redo the text before the last undo, through any interleaving of edits, batches, undo and redo; a new edit discards what could be redone. The document reports unmodified exactly when it is in the state that was last marked as unmodified, including when that state is reached through undo or redo. The can-undo/can-redo queries and the change notifications for modified, undo and redo availability always agree with this, each being emitted exactly when the value changes.",
 ["histories"],"for every history of edits, batches, undo, redo, clearing of the history and setting of the modified flag",
 "tests undo one or two edits",
 ["parce/document.py"],["Document._store_undo, _reverse_changes, _apply_undo_redo, modified setter"],["undo stack","redo stack","modified"],["Document.undo","Document.redo"])
p("C08","Cursors follow the text through every edit",
 "Every live cursor keeps denoting the same place after any edit, batch of edits, undo or redo: its start stays before text inserted exactly there, its end moves behind text inserted exactly there, both shift with changes before them, stay put for changes behind them, and a start (end) inside a replaced range moves to the beginning (end of the replacement). Start and end always remain ordered and within the text; an end denoting the end of the document stays that way. In a batch, the result is the same as applying the non-overlapping changes one by one from the last to the first.",
 ["inputs","histories"],"for every set of cursors and every history of edits, batches, undo and redo",
 "tests check single edits with a single cursor",
 ["parce/document.py"],["AbstractDocument._update_cursors"],["Cursor.pos","Cursor.end"],["Cursor.pos","Cursor.end"])
p("C09","Blocks partition the text in lines and navigation agrees with it",
 "For every text, the blocks of a document partition the text at the separators: iterating all blocks (forward or backward, from any position, or within a range), finding a block by position or by (negative) number, block counts, block numbers, first/last flags and the start/end of a block all agree with splitting the text. Cursor operations that move to, or select to, block boundaries, strip whitespace or iterate over blocks yield the positions that the same operations give on the plain string. This holds for every separator that does not overlap itself and every position that is not negative; a position behind the end denotes the end, and numbers that do not exist give no block.",
 ["inputs"],"for every text, position, range and block number",
 "tests use one text",
 ["parce/document.py"],["find_block, find_block_by_number, blocks, Block.next_block/previous_block","Cursor select/move/strip methods"],None,["Document.blocks","Block"])
p("C10","Change notifications let an observer mirror the text and the tree",
 "For every edit, batch, undo or redo exactly one text change notification is sent per effective change, after the text has been updated, and an observer that replaces the reported number of removed characters at the reported position with the reported number of new characters always has exactly the document's text; calls without effect send none. For every tree update the reported range is such that all tokens before its start are unchanged and all tokens at or behind its end are the old tokens, shifted by the change in length, so that refreshing only that range keeps a view correct. A preview tree handed out while a build goes on is an independent copy of a part of the tree that build leads to, reaching at least as far as was asked. The revision number increases by one with every change.",
 ["histories"],"for every history of edits, batches, undo and redo and every language",
 "tests look at single edits",
 ["parce/mutablestring.py","parce/document.py","parce/treebuilder.py","parce/work.py","parce/__init__.py"],["_apply_changes","Document.text_changed","TreeBuilder.process start/end"],None,["text_change event","tree_updated event"])
p("C11","A worker always delivers the tree of the latest text, under any schedule",
 "Whatever the interleaving of updates, root lexicon changes, requests and the background thread, requesting the tree and waiting returns the tree of the text as of the latest update made before the request, and never deadlocks; with a background worker the same holds from the main thread at any time. A callback given with a request that cannot be honoured immediately is called exactly once, with the arguments given, when the tree is up-to-date, and otherwise not at all. The started, tree-updated and finished events are emitted in this order for every run of the process, and after the last one the worker is idle and its result is up-to-date.",
 ["schedules","histories"],"for every interleaving of the calling thread and the background process, and every stage of the process at which a call arrives",
 "tests run one schedule",
 ["parce/work.py","parce/treebuilder.py"],["Worker.update, process, get_root, wait_build","BackgroundWorker"],["tree state","transform state"],["Document.get_root"])
p("C12","The transformed result always corresponds to the current tree",
 "After any sequence of edits, root lexicon changes and transformer changes, in any schedule, the transformed result a worker or document delivers equals the result of transforming a from-scratch parse of the current text with the current transformer, for every transform that depends on its items only. Cached results of contexts are reused only where the context and everything in it is unchanged. Asking for the result never raises, and yields nothing when there is no transformer.",
 ["histories","schedules"],"for every history of edits and settings and every stage of the process at which they arrive",
 "a stale cached result of one context shows only after specific edits",
 ["parce/transform.py","parce/work.py"],["Transformer.build, invalidate_node, process, interrupt","Worker.slot_invalidate/slot_replace"],["transformer cache"],["Document.get_transform"])
p("C13","Transforming a text stream or its tree gives the same bottom-up result",
 "Transforming a text directly while lexing gives exactly the same result as building the tree and transforming that, for every language, transform and text. Every transform method is called once per context, after those of the nested contexts, with the items in document order: tokens and groups as tokens, nested contexts as the results of their own methods with the right name; contexts without transform method are left out unless untransformed items are asked for. Methods are looked up by lexicon name in the transform that belongs to the language the lexicon is defined in.",
 ["inputs"],"for every language, transform and text",
 "tests transform a few texts in a few languages",
 ["parce/transform.py"],["Transformer.transform_text","Transformer.transform_tree, build","Items"],None,["transform_text","transform_tree"])
p("C14","Tree navigation, search and ranges agree with the document order",
 "For every tree, every navigation and search operation agrees with the plain list of nodes in document order: siblings, ancestors, forward/backward iteration (with and without the node itself, with upto), descendants, finding the token at, before, after or left of a position (also with the trail of indices), common ancestors, depth, indices, first/last checks, and iterating contexts or tokens with various filters. A range contains exactly the tokens that overlap its start and end, also when requested from a subtree. A token equals its text and itself, a context its lexicon and itself. Deleting a node removes it with the ancestors that would become empty (but never the root), and nothing else. No position raises an error.",
 ["inputs"],"for every tree, node and position",
 "tests check single nodes of one tree",
 ["parce/tree.py"],["Node, Token, Context methods","Range"],None,["Context.find_token*","Range.tokens"])
p("C15","Queries select exactly the nodes their description says, in tree order",
 "A query selects exactly those nodes that a node-by-node evaluation of its description selects, for every chain of navigation, selection, filter and inversion steps on any tree, without side effects and independent of how the result is consumed (iterating, counting, picking, ranges, existence or deletion). Each step keeps the order of the underlying traversal. Deleting selected nodes removes exactly those nodes (and contexts that become empty) and keeps the rest of the tree intact.",
 ["inputs"],"for every tree and every chain of query steps",
 "tests run some single-step queries on one tree",
 ["parce/query.py"],["Query generator methods"],None,["Query.__iter__"])
p("C16","Formatting covers the text exactly once with the right token's format",
 "Formatting any range of a document yields pieces that ascend, do not overlap, together cover exactly the formattable parts of the requested range, and give every character the format the theme(s) define for the token at that character in its language context; text without token gets no format or the default format. Formatting a sub-range gives the same format to each character as formatting everything. Pieces handed out are cut at the range boundaries.",
 ["inputs"],"for every tree, theme set, range",
 "tests check one range",
 ["parce/formatter.py","parce/theme.py","parce/util.py"],["Formatter.format_ranges","ThemeFormatter","merge_adjacent"],None,["Formatter.format_ranges","format_text"])
p("C17","HTML output shows exactly the text, whatever characters it contains",
 "For every language, theme and text, the HTML output is well-formed, and when tags are removed and entities decoded its text content is exactly the text that was formatted, including quotes, ampersands, angle brackets, white space and empty lines. Every character is inside exactly the element that its token's format prescribes: style attributes with the properties of the theme's text format, or the class names of the token's action. Ranges and themes for embedded languages are honoured in the same way.",
 ["inputs"],"for every text, theme, language and output option",
 "tests check that output is produced",
 ["parce/out/html.py"],["HtmlFormatter","escape, attrs"],None,["HtmlFormatter.html","full_html"])
p("C18","Events reach every connected handler once, in order, under reentrancy",
 "Emitting an event calls every handler connected to it exactly once with the emitted arguments, in order of priority and then of connection, also when handlers connect, disconnect or emit while being called: a handler disconnected before its turn is not called, a one-time handler is called at most once ever. Connecting the same handler again does not call it twice, prepend-self and self-argument options are honoured, and disconnect-all and has-connections agree with what an emission would call. Context manager results of handlers are entered and exited in nested order when requested.",
 ["histories"],"for every history of connect, disconnect and emit calls, including nested ones",
 "tests connect one handler",
 ["parce/util.py"],["Observable.connect/disconnect/emit"],None,["Observable.emit"])
p("C19","Cached and unique objects stay unique and consistent, also under threads",
 "Lexicons, derived lexicons, standard actions, symbols and other objects that are created on demand are the same object for the same definition and argument, however often and from however many threads they are requested at the same time, and are fully usable as soon as they are visible to any thread. Cached properties and methods compute their value once per object and argument and always return that value; a lock per object keeps at most one thread inside at any time. Derived lexicons compare equal to, but are distinct from, the lexicon they are derived from.",
 ["schedules","inputs"],"for every interleaving of requesting threads",
 "tests are single threaded",
 ["parce/util.py","parce/lexicon.py","parce/standardaction.py","parce/language.py"],["caching_dict, cached_method, cached_property, object_locker, Symbol","Lexicon.__call__, __getattr__"],None,["identity of results"])
p("C20","Generated regular expressions match exactly the intended strings",
 "The expression built from a list of words matches every word of the list and no other string, and when searching finds the longest word that is possible at a position, whatever special characters, common prefixes or suffixes the words have. A character class built from characters matches exactly those (or when negated exactly not those) characters. When an expression is recognised as matching one fixed string only, it is exactly that string.",
 ["inputs"],"for every set of words or characters and every subject string",
 "tests use a few word lists",
 ["parce/regex.py","parce/rule.py"],["words2regexp, make_charclass, to_string"],None,["words2regexp"])
p("C21","The registry finds languages by name, file name, type and contents",
 "Looking up a registered language by any of its names or aliases, case-insensitively, gives that language; guessing from a file name, mime type and contents gives the entries in descending order of the added-up weights of the matching file name patterns and types, with the contents only deciding between equals or when nothing else matches, and nothing that does not match. Registering, inheriting or removing entries affects only those entries; copies are independent, a fallback registry is asked when an entry is not found, and every registered bundled root lexicon can be loaded. A document that is loaded without a given language gets the language found for its file name, type and contents in the same way. Finding never raises for unknown input but returns nothing.",
 ["inputs","histories"],"for every registry content and every query",
 "tests look up a couple of names",
 ["parce/registry.py"],["Registry.find, suggest, register"],None,["Registry.find","parce.find"])
p("C22","Loading and saving keeps text and encoding intact",
 "A text saved and loaded again is the same text, for every supported encoding, newline style and byte-order mark, and for any text the encoding can represent. The encoding used when loading is that of a byte-order mark, else one mentioned in the text, else the one requested, else the language's default, else UTF-8; when saving, the document's encoding is used and a mark is written when needed. A mark never ends up in the text and is kept for a document that was loaded with one, and a mention of the encoding in the text is honoured. Loading or saving does not change the document otherwise; a save that fails leaves the file and the document as they were.",
 ["inputs"],"for every text (without carriage returns unless newlines are kept as they are), encoding, newline style and mark",
 "tests read one file",
 ["parce/docio.py","parce/util.py"],["DocumentIOMixin.load, save, encode/decode helpers"],None,["Document.load","Document.save"])
p("C23","Auto-indenting changes only leading whitespace and nothing else",
 "Indenting any range of lines of any document, in any language that supports it, changes only the whitespace at the start of the lines in the range, leaves lines untouched that lie outside the range or for which the indenter says they must not be indented, and gives every other line the indent that the indenting, dedenting and aligning tokens on the lines before it (and dedenting tokens at its own start) prescribe; auto-indenting one line gives it that same indent. Increasing and then decreasing the indent restores the text. Indenting an already indented range again changes nothing.",
 ["inputs"],"for every text, range and indent settings",
 "tests indent one snippet",
 ["parce/indent.py"],["Indenter.indent, auto_indent, increase/decrease"],None,["Indenter.auto_indent"])
p("C24","Rule items evaluate to the same result whenever they are evaluated",
 "A rule containing dynamic items (selecting, calling, choosing targets, or building patterns from the matched text, the match groups or the lexicon argument) yields the same pattern, actions and targets whether it is evaluated in advance as far as possible or only when it matches. A lexicon derived with an argument behaves exactly as a lexicon written out with that argument filled in. The enumeration of a rule's possible variations contains every outcome that can occur.",
 ["inputs"],"for every nesting of rule items, argument, and match",
 "tests evaluate a few items",
 ["parce/ruleitem.py","parce/rule.py","parce/lexicon.py"],["pre_evaluate, evaluate, variations"],None,["Lexicon.rules","ruleitem.variations"])
p("C25","Standard actions form a consistent hierarchy of unique objects",
 "Accessing an attribute of a standard action always yields the same child action; names, parents, iteration, containment and comparisons agree with the path of names, for every order of creation. Copying (also deeply) an action gives that same action, and actions combined with others by & and | are found by containment. Being in an action (containment) is exactly being that action or a descendant of it.",
 ["histories","inputs"],"for every set of names and order of creation",
 "tests check a few actions",
 ["parce/standardaction.py"],["StandardAction"],None,["StandardAction"])
p("C26","Style sheets select and cascade the properties CSS prescribes",
 "For every style sheet and every element or action, the rules that are selected are exactly those whose selector matches it (type, class, id, attribute, pseudo and combinators), and the resulting properties are those of the winning declarations by importance, specificity (a rule counting as its most specific selector) and order. Filtering (the top level) for a media type or another condition, and importing other sheets by relative name, also in cycles, keeps exactly the rules that apply. The format of a theme for an action is determined by the most specific rule, properties adding up from the base format; text formats can be added and subtracted property by property, and written as CSS properties and read back.",
 ["inputs"],"for every style sheet and element",
 "tests check a few selectors",
 ["parce/css.py","parce/theme.py"],["Query, Rules.select_*, combine_properties, calculate_specificity"],None,["css queries","Theme.textformat"])
p("C27","The bundled data languages transform to the value the text stands for",
 "Transforming a valid JSON text gives the Python value it denotes (all kinds of values, every escape including surrogate pairs, integers of any size exactly, the last of duplicate keys); a CSV text (RFC 4180) gives its records and fields, with None for an empty field and the unescaped contents of a quoted one; an INI text gives per section the keys and values, stripped and unescaped, None for an absent value; a sequence of English, Dutch, German or French numerals gives the list of their values. Transforming the text and transforming its tree give the same value.",
 ["inputs"],"for every valid text of the data languages",
 "tests transform a few numerals and one calculation",
 ["parce/lang/json.py","parce/lang/csv.py","parce/lang/ini.py","parce/lang/numbers.py"],["JsonTransform, CsvTransform, IniTransform, NumbersTransform"],None,["transform_text","transform_tree"])
p("C28","Search and replace edits the same text as on a plain string",
 "Replacing, regular-expression substitution, translating and trimming in a document (or a region of it, with an optional maximum number of replacements) gives exactly the text that the same operation on the plain region of the string gives, and leaves the rest unchanged. Each such operation is one step in the undo history and one change notification, and one without effect changes nothing and adds no step. Cursors and other text outside the replaced places are kept.",
 ["inputs"],"for every text, region, pattern and count",
 "tests run one call each",
 ["parce/document.py"],["AbstractDocument.replace, re_sub, translate, trim"],None,["Document.replace","Document.re_sub"])
p("C29","Dispatchers, switches and range helpers work in every hierarchy and order",
 "A dispatcher calls, with the given arguments and on the right instance, the method that the most derived dispatcher of that name in the class hierarchy registers for the key, as overridden in the most derived class; a key without method goes to the default of the dispatcher, if any, with the key prepended; the methods can also be asked for. A switch is on exactly while at least one of its contexts is entered, per instance when it is a class attribute. Clipping a stream of ranges adjusts only the first and last range to the boundaries, merging joins exactly the adjacent ranges with the same value, splitting and unrolling of lists keeps all items in order.",
 ["inputs","histories"],"for every class hierarchy, key, nesting and stream",
 "not tested",
 ["parce/util.py"],["Dispatcher, Switch, fix_boundaries, merge_adjacent, split_list, unroll"],None,["util.Dispatcher","util.Switch","util.merge_adjacent"])
p("C30","Validation accepts exactly the sound languages, inspection lists all in them",
 "Validating a lexicon or language fails exactly when a lexicon (as the language itself defines, inherits or overrides it) has something that is not a rule, an invalid regular expression, a target that is neither a number nor a lexicon (in any outcome of a rule item), more than one default action or default target or both, or a default target that is no number or lexicon, does not change the context, or keeps entering new contexts forever without leaving the one it started in; it warns exactly for skipped or repeated patterns, patterns that match the empty string, and default targets that come back in an earlier context. It never raises an exception or hangs, whatever the definition, and is repeatable. Languages that are accepted (with no pattern matching the empty string and no default target that both leaves and enters contexts) are lexed to the end for every text. Inspecting a language returns all its lexicons, standard actions and other languages referred to, including those inside rule items, and nothing else; a transform is found complete exactly when it has an attribute for every lexicon.",
 ["inputs"],"for every language definition, right or wrong",
 "not tested",
 ["parce/validate.py","parce/introspect.py"],["LexiconValidator, validate_language, validate_transform","lexicons, rule_items, standardactions, languages"],None,["LexiconValidator.validate","introspect.lexicons"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))

import sys
