#!/usr/bin/env python3
"""Writes properties.jsonl (single source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": state or [], "mechanism": mech,
                    "observe_at": observe or [], "hook_needed": hook},
    })
IT = "aftermath-core/input_tree/src/"
CA = "aftermath-core/caret/src/"
PA = "aftermath-core/parser/src/"
SE = "aftermath-core/serialization/src/lib.rs"

prop("C01", "Rolling back edits restores the exact document",
 "Whenever any prefix of a sequence of valid edits (inserting or deleting content in a row, or rows or columns in a table) has been applied, applying the inverses of those edits in reverse order restores exactly the document that was there before, and re-applying the edits brings back exactly the later document. This holds at every point of every undo/redo walk over the history, including when applying a batch was interrupted part-way and the application was restarted from its saved state.",
 ["histories", "crash_points", "inputs"],
 "every document, every sequence of valid row and table edits, every interruption point inside a batch, every undo/redo walk",
 "The tests invert one row edit on one fixed document; they never delete or invert a table edit and never stop part-way through a batch.",
 [IT+"input_tree.rs", IT+"editing/basic_edit.rs", IT+"editing/invertible.rs"],
 [{"name": "inverse of an edit swaps insertion and deletion", "where": IT+"editing/basic_edit.rs"},
  {"name": "apply_edit of row and grid edits", "where": IT+"input_tree.rs"}],
 [{"name": "document tree", "meaning": "rows of symbols and containers (grids of rows)", "where": IT+"input_tree.rs"}],
 ["InputTree.root after each applied or inverted edit"])

prop("C02", "All copies that apply the same edits hold exactly the described document",
 "Applying an edit changes exactly the row or table it addresses, in exactly the described way, and nothing else; so every replica that has applied the same prefix of an edit log holds the same document, whatever the batching, delay, reordering and duplication of delivery and whatever crashes and restarts from saved state happened. Edits built for removing, inserting or replacing content at a position or selection (in either direction) describe exactly that change, and report the place where the caret or replaced range ends up.",
 ["histories", "schedules", "crash_points", "fault_sequences"],
 "every edit log over every document, every delivery schedule to several replicas, every crash and restart point",
 "The tests apply single edits to fixed documents of one nesting level and never replay a log on a second copy.",
 [IT+"input_tree.rs", IT+"editing/basic_edit.rs", IT+"editing/editable.rs", IT+"grid.rs", IT+"node.rs"],
 [{"name": "path walk and splice", "where": IT+"input_tree.rs"},
  {"name": "edit builders remove_range, insert_at_position, replace_range", "where": IT+"editing/basic_edit.rs"}],
 [{"name": "edit log", "meaning": "ordered row and grid edits", "where": IT+"editing/basic_edit.rs"}],
 ["InputTree.root of every replica at every log index"])

prop("C03", "Stored positions and selections follow their surroundings through edits",
 "A stored caret position or selection that is carried through any sequence of edits of rows and tables stays attached to the content around it: edits elsewhere leave it alone or only shift it along, content inserted exactly at a caret ends up to its right, content inserted at an edge of a selection (also of an empty one) ends up inside the selection, and when the content around it or the container it is in is deleted it moves to the place where that content was. A selection keeps its direction as long as it is not empty. The result does not depend on when or in which batches the edits were applied, nor on saving and reloading the position in between.",
 ["histories", "schedules", "crash_points"],
 "every position and selection (forwards, backwards, collapsed, nested), every edit sequence, every batching and every save/reload point",
 "Two tests move one range through one insertion and one deletion in the root row.",
 [IT+"focus/row_range.rs", IT+"focus/row_position.rs", IT+"editing/row_indices_edit.rs"],
 [{"name": "MinimalInputRowRange::apply_edit", "where": IT+"focus/row_range.rs"},
  {"name": "MinimalInputRowPosition::apply_edit", "where": IT+"focus/row_position.rs"}],
 [{"name": "minimal position/range", "meaning": "row path plus offsets", "where": IT+"focus/row_range.rs"}],
 ["the stored position or range after each delivered batch of edits"])

prop("C04", "Carried positions stay valid and keep their document order",
 "A position or selection that has been carried through the same row edits as a document always addresses an existing place in that document, and two positions that were in document order before stay in that order or become equal. The selection spanned by two positions lies in the innermost row that contains both, contains both positions and nothing it does not need, runs forwards exactly when the first position is not after the second, and claims to contain exactly the positions that lie inside it in document order.",
 ["histories", "schedules", "inputs"],
 "every pair and triple of positions carried by independently scheduled observers through every edit history",
 "The position tests compare a handful of fixed positions in three fixed documents; none of them has been carried through edits.",
 [IT+"focus/row_range.rs", IT+"focus/row_position.rs", IT+"row.rs", IT+"input_tree.rs", IT+"focus.rs"],
 [{"name": "cmp_indices_and_offset", "where": IT+"row.rs"},
  {"name": "range_from_positions", "where": IT+"input_tree.rs"},
  {"name": "InputRowRange::contains", "where": IT+"focus/row_range.rs"}],
 [{"name": "focus", "meaning": "borrowed path into the tree", "where": IT+"focus.rs"}],
 ["positions resolved against the replica's document at the same log index"])

prop("C05", "An edit that does not fit is refused and leaves the document untouched",
 "An edit that arrives when it does not fit the document (a stale, duplicated or damaged edit that addresses a missing row, element, offset, range or table row or column, or something that is not a table, or whose content does not have the table's size) is refused as a whole: the document is exactly as it was before. Later valid edits then work as if the refused edit had never arrived.",
 ["fault_sequences", "schedules", "inputs"],
 "every document and every ill-fitting edit, delivered at every point of a session by a duplicating, reordering or corrupting channel",
 "No test applies an edit that does not fit.",
 [IT+"input_tree.rs", IT+"editing/basic_edit.rs", IT+"grid.rs", IT+"node.rs"],
 [{"name": "asserts and bounds checks of apply_edit", "where": IT+"input_tree.rs"},
  {"name": "GridVec::from_one_dimensional size checks", "where": IT+"grid.rs"}],
 [{"name": "document tree", "meaning": "must be unchanged by a refused edit", "where": IT+"input_tree.rs"}],
 ["InputTree.root after a caught refusal"])

prop("C06", "A saved document loads back exactly or is rejected, whatever storage does",
 "Saving a document, position or selection and loading it back yields exactly the same value, across crashes and through short, interrupted and failing reads and writes, and the saved form is the one that the front end and earlier saves use. A truncated save is never accepted. A damaged save is either rejected or loads as a well-formed document that can be printed, navigated and edited without failing.",
 ["fault_sequences", "crash_points", "inputs"],
 "every document and position, every crash point, every truncation point, every bit flip, short read, interrupted read, failing or torn write",
 "No test serialises or deserialises anything.",
 [IT+"node.rs", IT+"row.rs", IT+"grid.rs", IT+"focus/row_position.rs", IT+"focus/row_range.rs", SE],
 [{"name": "serde Serialize/Deserialize of nodes, rows, grids, positions", "where": IT+"node.rs"},
  {"name": "GridVec invariants on load", "where": IT+"grid.rs"},
  {"name": "versioned JSON envelope", "where": SE}],
 [{"name": "saved bytes", "meaning": "JSON form on the simulated disk", "where": SE}],
 ["value loaded after restart"])

prop("C07", "A printed document is complete and unambiguous, or the failure is reported",
 "Printing a document to a sink produces a text from which the document can be reconstructed exactly, whatever characters its symbols contain and however deeply it is nested. If the sink fails at any point, printing reports the failure, and what was written until then is a prefix of the full text.",
 ["fault_sequences", "inputs"],
 "every document, every failing write of the sink",
 "Three tests print fixed documents without quotes or backslashes into a String, which never fails.",
 [IT+"node.rs", IT+"row.rs", IT+"grid.rs", IT+"print_helpers.rs"],
 [{"name": "Display implementations with escaping", "where": IT+"print_helpers.rs"}],
 [], ["bytes that reached the simulated sink and the returned result"])

prop("C08", "Undo and redo walk the exact history of an editing session",
 "In any session mixing typing, deletion, caret movement, selection, pasting, autocompletion, autocorrection and splices by the host page, undo restores exactly the document and caret from before the last undoable change, and redo brings back exactly the document and caret from after it. An accepted completion, an autocorrection, a cut and a host-page splice are each one such change; moving and selecting are none. A new change after an undo discards exactly the undone changes; undoing everything arrives at the initial document.",
 ["histories", "schedules"],
 "every interleaving of user, deferred-input, clipboard and host-page events with undo and redo",
 "No test of the editor runs an edit, an undo or a redo.",
 [CA+"undo_redo_manager.rs", CA+"editor_action_builder.rs", CA+"primitive/caret_edit.rs", CA+"math_editor.rs"],
 [{"name": "undo/redo stacks", "where": CA+"undo_redo_manager.rs"},
  {"name": "inverse of a caret edit", "where": CA+"primitive/caret_edit.rs"}],
 [{"name": "undo and redo stack", "meaning": "caret edits", "where": CA+"undo_redo_manager.rs"}],
 ["document and caret after each undo and redo"])

prop("C09", "The caret is always valid and no sequence of events crashes the editor",
 "Whatever sequence of key presses, text input, pointer positions inside the document, clipboard contents, autocomplete actions, undo and redo and host-page splices reaches an editor, in whatever order they are interleaved, the editor never fails, and the caret and selection it reports always address existing places in its current document. A selection always lies in the innermost row (or table) that contains both of its ends.",
 ["schedules", "histories", "inputs"],
 "every interleaving of event sources over every session history, for everything that is implemented (not: word/line movement, editing a table-cell selection)",
 "Three tests build a caret on a fixed tree; none sends an event to an editor.",
 [CA+"math_editor.rs", CA+"caret.rs", CA+"primitive/movement.rs", CA+"primitive/primitive_edit.rs", IT+"focus.rs"],
 [{"name": "caret transformed or recomputed with every edit", "where": CA+"math_editor.rs"}],
 [{"name": "caret", "meaning": "two minimal positions", "where": CA+"caret.rs"}],
 ["get_caret, get_input_tree after each event"])

prop("C10", "Typing and deleting change exactly what the user acted on",
 "Typing replaces exactly the selected content with the typed symbols and puts the caret after them; deleting removes exactly the selection, or else the neighbouring symbol, or dissolves the neighbouring or enclosing construct while keeping all of its content, or only moves the caret. A splice by the host page replaces exactly the given range and leaves the caret attached to the content around it. Moving the caret, selecting and copying never change the document, apart from an autocorrection that the movement triggers.",
 ["histories", "schedules", "inputs"],
 "every document, caret and selection reachable by any interleaving of events",
 "No test types or deletes through the editor.",
 [CA+"primitive/primitive_edit.rs", CA+"primitive/movement.rs", CA+"math_editor.rs", CA+"editor_action_builder.rs"],
 [{"name": "insert_at_range, remove_at_caret", "where": CA+"primitive/primitive_edit.rs"},
  {"name": "edits are applied once at the end of an action", "where": CA+"editor_action_builder.rs"}],
 [], ["document before and after each event against a reference editor"])

prop("C11", "Copy and paste reproduce exactly the selected content or change nothing",
 "Pasting what was copied inserts exactly the copied content in place of the selection, in the same or another editor, also when the clipboard was saved and restored around a restart. If the clipboard content is lost, truncated or damaged, or came from elsewhere, paste either reports an error and leaves document, caret and history unchanged, or inserts well-formed content on which the editor keeps working.",
 ["fault_sequences", "schedules", "inputs"],
 "every selection, every clipboard fault (truncation, bit flips, foreign data, overwrite by another editor) and every interleaving of copy and paste",
 "No test copies or pastes.",
 [SE, CA+"math_editor.rs", IT+"node.rs", IT+"grid.rs"],
 [{"name": "serialize_input_nodes, deserialize_input_nodes", "where": SE},
  {"name": "paste deserialises before it edits", "where": CA+"math_editor.rs"}],
 [{"name": "clipboard", "meaning": "versioned JSON text outside the editor", "where": SE}],
 ["document, caret and undo behaviour after each paste"])

prop("C12", "The shown syntax tree always belongs to the current document",
 "The syntax tree an editor hands out is always the parse of its current document: after any change through typing, deleting, pasting, autocorrection, undo, redo or splicing it is never the tree of an earlier document, no matter when and how often it was read in between. Reading it changes nothing.",
 ["schedules", "histories"],
 "every interleaving of edits and renders (syntax tree reads) in every session",
 "No test reads the syntax tree of an editor, let alone after a change.",
 [CA+"math_editor.rs", CA+"editor_action_builder.rs", PA+"parser.rs"],
 [{"name": "cached parse is dropped by every edit", "where": CA+"editor_action_builder.rs"}],
 [{"name": "parsed", "meaning": "cached syntax tree", "where": CA+"math_editor.rs"}],
 ["get_syntax_tree against a fresh parse of get_input_tree"])

prop("C13", "Autocomplete and autocorrect apply exactly the rule that matches",
 "Autocomplete offers exactly the rules of which at least two symbols directly before the caret are a prefix, and accepting one replaces exactly the matched symbols by the rule's result. If the selected offer is a completely typed rule text, and one event (a key press, typing, deletion, paste or pointer action) takes the caret from its end to outside of it, autocorrect replaces that text by the rule's result, provided it is still intact, wherever in the row it stands now; it replaces nothing else, leaves the caret attached to the content around it, and is undone as a single step. In all other cases nothing is replaced.",
 ["histories", "schedules", "inputs"],
 "every document, caret and rule set, every interleaving of typing, movement, deletion, undo and autocomplete actions",
 "The autocomplete tests match fixed inputs against single rules; the editor's use of the matches is untested.",
 [PA+"autocomplete.rs", CA+"autocomplete.rs", CA+"math_editor.rs"],
 [{"name": "AutocompleteRule::matches", "where": PA+"autocomplete.rs"},
  {"name": "start_autocorrect/apply_autocorrect", "where": CA+"math_editor.rs"}],
 [{"name": "autocomplete state", "meaning": "last selected rule", "where": CA+"math_editor.rs"}],
 ["get_autocomplete results and document after each event"])

prop("C14", "Editors that share a parser do not influence each other",
 "Several editors on a page that share one parser behave exactly as if each were alone: the documents, carets, autocomplete offers, undo histories and syntax trees of an editor depend only on the events sent to that editor, however the events of all editors are interleaved and whenever other editors are created or dropped.",
 ["schedules"],
 "every interleaving of the event streams of several editors sharing a parser, including creation and removal of editors",
 "No test creates two editors.",
 [CA+"math_editor.rs", PA+"parser.rs", PA+"autocomplete.rs"],
 [{"name": "parser is shared read-only through Rc", "where": CA+"math_editor.rs"}],
 [{"name": "shared parser", "meaning": "cached parser and rules", "where": PA+"parser.rs"}],
 ["observable state of each editor against a solo run of its own event stream"])

prop("C15", "Arrow keys and deletion always make progress",
 "From every reachable document and caret, pressing Right (or Left) repeatedly visits every caret place after (before) the caret exactly once, in document order, and stops at the end (start) of the document; Up and Down go to the cell above or below in the innermost enclosing construct that has one (out of a superscript upwards, out of a subscript downwards) and stop after a bounded number of presses. Pressing Backspace repeatedly removes everything before the caret, and Delete everything after it, and none of the symbols on the other side, within a number of presses bounded by the size of the document, ending at a place where nothing is left to remove.",
 ["histories", "schedules"],
 "every document and caret reachable by an arbitrary event history, after which input events stop",
 "No test presses a key twice.",
 [CA+"primitive/movement.rs", CA+"primitive/primitive_edit.rs", IT+"focus.rs"],
 [{"name": "move_horizontal_into / move_horizontal_beyond_edge", "where": CA+"primitive/movement.rs"},
  {"name": "remove_at_caret_position", "where": CA+"primitive/primitive_edit.rs"}],
 [], ["caret and document after each press"])

prop("C16", "Every row parses to a syntax tree that covers it without gaps",
 "At every point of every editing session reading the syntax tree succeeds, whatever the document holds (unfinished input, missing operands, unknown symbols, unbalanced brackets, containers of any kind anywhere): the tree's range is the whole row, the children of every node cover their parent's range in order and without gaps or overlaps, a leaf is never empty and carries exactly the symbols of its range, and a container appears as a node of exactly its own element, with the container's width and with one subtree per cell that covers that cell's row in the same way. Every node carries the number of a rule name of the page, and names and numbers lead to each other.",
 ["inputs", "histories", "configurations"], "every document that an editing session passes through, and every set of declared operators",
 "The parser tests compare a few dozen fixed, mostly complete expressions and never check ranges.",
 [PA+"parser/pratt_parser.rs", PA+"math_parser.rs", PA+"syntax_tree/syntax_node.rs", PA+"rule_collection.rs", PA+"rule_collections/built_in_rules.rs", PA+"make_parser.rs"],
 [{"name": "error-recovering pratt parser", "where": PA+"parser/pratt_parser.rs"},
  {"name": "SyntaxNode::new range assertions", "where": PA+"syntax_tree/syntax_node.rs"}],
 [], ["get_syntax_tree against get_input_tree after every event"])
prop("C17", "Operator precedence and associativity follow the declared binding powers",
 "For every set of declared prefix, infix and postfix operators and every row made of what the rules know, the syntax tree groups operands as the declared binding powers and associativities say: an operator takes the operand with the stronger claim, equal powers group to the left for left infix and to the right for right infix operators, later declared rules take priority over earlier ones, brackets, function application, subscripts and superscripts bind as declared, and a missing operand or operator is filled in at its place (a missing operator groups like a left infix operator of power 100). The shipped rules have the usual powers (tuples and comparisons below addition, addition below multiplication, that below signs, factorial and function application; addition, subtraction, multiplication and division group to the left). Spaces between tokens do not change the grouping, and symbols that no rule reads are marked as unknown one by one, without changing how the symbols around them are read.",
 ["inputs", "histories", "configurations"], "every expression that an editing session passes through, and every set of operator rules a page declares",
 "A handful of fixed expressions of the shipped rules is tested; right infix operators are not used by any of them.",
 [PA+"parser/pratt_parser.rs", PA+"parse_module.rs", PA+"math_parser.rs", PA+"rule_collections"],
 [{"name": "binding powers", "where": PA+"parser/pratt_parser.rs"},
  {"name": "order of rules, spaces, subscripts of operators", "where": PA+"math_parser.rs"}],
 [], ["get_syntax_tree after every event"])
prop("C18", "The page shows the document, and pointing at it means the place pointed at",
 "For every document and after every event, the MathML that a <math-editor> shows contains exactly the document: every symbol, fraction, root, script, table and cell, each once, in order and in its place (spaces and placeholders for missing parts aside). The caret is drawn between the two elements it stands between, in their row, and a selection is drawn over exactly the selected elements or cells. Pointing at the left or right part of a symbol puts the caret (or the end of the selection) directly before or after that symbol, and pointing into an empty cell puts it into that cell, however deep the symbol or cell is nested.",
 ["histories", "schedules", "inputs"],
 "every document that typing, corrections, clipboard, undo and formula changes lead to, every caret and selection in it, and every pointer position, in any order of events and timers",
 "No automated test of the renderer, the carets or hit testing exists; the page is only looked at by hand.",
 ["src/mathml/renderer.ts", "src/mathml/renderer/", "src/mathml/render-result.ts", "src/component/math-editor.ts", "src/component/caret/single-caret-element.ts", "aftermath-core/parser/src/make_parser.rs"],
 [{"name": "one rendered element for every syntax node, one text for every symbol", "where": "src/mathml/renderer/rendered-leaf.ts"},
  {"name": "getLayoutPosition: from a point to a place", "where": "src/mathml/render-result.ts"},
  {"name": "getViewportSelection, renderCarets: from a place to the screen", "where": "src/component/math-editor.ts"}])
prop("C19", "Setting a MathML formula replaces the whole document by that formula",
 "Whenever the host page gives an editor a formula (marked for editing in the page, or as its mathml attribute: in markup, before the editor is added to the page, afterwards, or at any point of an editing session), the document is replaced as a whole by one with exactly the symbols and structure of that formula, in order. This holds however the formula is written (spaces, comments, character references, attributes, upper case, superfluous rows), for mi, mn, mo, mtext and ms (quoted), mrow, mstyle, semantics, mfrac, msqrt, mroot, msub, msup, msubsup, munder, mover, munderover and mtable with at least one cell, whose short rows are filled up with empty cells. Elements that are not supported or lack parts spoil nothing around them, an empty or removed attribute empties the document, and markup that is no formula changes nothing.",
 ["histories", "schedules", "inputs"],
 "every formula made of the supported elements and every way to write it, set at every point of every session",
 "Only a few formulas in index.html are tried by hand.",
 ["src/mathml/parsing.ts", "src/utils/dom-utils.ts", "src/component/math-editor.ts", "src/main.ts"],
 [{"name": "fromElement / toMathLayout", "where": "src/mathml/parsing.ts"},
  {"name": "attributeChangedCallback replaces the range of the root", "where": "src/component/math-editor.ts"}])
prop("C20", "Grid rectangles and views address exactly the cells of their rectangle",
 "A rectangle or view in a grid contains exactly the cells between its corners, with the right width and height.",
 ["inputs"], "every grid and rectangle", "Not tested.",
 [IT+"grid/grid_view.rs", IT+"grid/index2d.rs"], [{"name": "GridRectangle, GridView", "where": IT+"grid/grid_view.rs"}])

prop("C21", "A walk through the document by focuses always knows where it is",
 "A focus that was walked through a document by any sequence of moves (down to a child, up to the parent, straight to a saved place, cloned in between) shows exactly the row or element that its reported place addresses, with its right index in its parent; a place that does not exist is refused and leaves the focus where it was, and walking down and back up returns to the same place. Two focuses, positions or selections in a document are equal exactly when they denote the same place. A position, selection or table selection made from a focus shows exactly the content between its ends, in either direction, and saving it and walking back from the root yields it again, also after edits elsewhere and a restart.",
 ["histories", "schedules", "crash_points", "inputs"],
 "every walk of every number of focuses, interleaved in any order with selecting, comparing, saving, edits of the document and restarts",
 "No test walks a focus up again, keeps two focuses at the same time, or looks at what a focus shows below the first container.",
 [IT+"focus.rs", IT+"focus/row_range.rs", IT+"focus/row_position.rs", IT+"focus/grid_range.rs", IT+"row.rs", IT+"grid/index2d.rs"],
 [{"name": "row indices are handed to the child and given back to the grandparent", "where": IT+"focus.rs"},
  {"name": "to_minimal / from_minimal", "where": IT+"focus/row_range.rs"}],
 [{"name": "focus", "meaning": "a row or element, its parents and the path to it", "where": IT+"focus.rs"}],
 ["InputFocusRow::row, row_indices, index_in_parent; InputFocusNode::node, element_indices; values of ranges"])
prop("C22", "Events on the page take effect fully, once, in order, in the editor they went to",
 "Key presses, text input, deletions, copying, cutting, pasting, pointer presses, moves and releases, and formula changes by the host page take effect completely, once each and in the order in which they happened, on the editor they went to (the one last pointed into or focused) and no other, however long the page takes to run what it has deferred: once nothing is deferred any more, document and caret are those of the same events applied directly, and what is copied or cut is exactly what was selected. After every event the page shows the current document of every editor. Moving an editor within the page or taking it out for a while, events without meaning or with a missing or useless clipboard, a second finger, releasing a pointer that was not pressed in the formula, and markup that is no formula change nothing, no event makes the page fail, and no later event is lost.",
 ["histories", "schedules", "inputs", "fault_sequences"],
 "every order of events, deferred tasks and faults on a page with any number of editors",
 "No automated test drives the component; deferring of tasks by the browser depends on load.",
 ["src/component/math-editor.ts", "src/component/input/input-handler-element.ts", "src/core/index.ts", "aftermath-core/web/src/"],
 [{"name": "RenderTaskQueue defers text input", "where": "src/component/math-editor.ts"},
  {"name": "pointer events: start, extend and finish a selection", "where": "src/component/math-editor.ts"},
  {"name": "bindings of the core", "where": "aftermath-core/web/src/math_editor.rs"}])

prop("C23", "The programming interface of the page gives exactly what the core gives",
 "Whatever program uses the page's JavaScript interface, every call on an editor does exactly what the core's operation of that name does with the same arguments and returns the core's answer (whether anything was done, the caret, the document, the syntax tree, the autocomplete offers, the clipboard text); symbols, content or clipboard text that make no sense are refused, change nothing, and the editor works on. A parser that is composed of rule modules knows exactly the built-in rules and those modules' rules, in the order in which they were added, whenever it was composed and whatever else was made of the same modules, and also after the program gave it up; the page's own parser knows all shipped modules. The names of all modules that were made lead to their numbers and back, and the row of any place of the document can be looked up in the syntax tree.",
 ["programs", "inputs", "configurations"],
 "every sequence of calls on any number of editors and parsers of any modules",
 "No test calls the bindings; the TypeScript side has no tests at all.",
 ["aftermath-core/web/src/", "src/core/index.ts", "aftermath-core/parser/src/parse_modules.rs", "aftermath-core/parser/src/parse_module.rs"],
 [{"name": "MathEditorBindings", "where": "aftermath-core/web/src/math_editor.rs"},
  {"name": "ParseModuleCollectionBindings, ParseModulesBindings", "where": "aftermath-core/web/src/math_parser.rs"},
  {"name": "makeMathParserWith, DefaultParser, getNodeWithRowIndices", "where": "src/core/index.ts"}])
prop("C24", "Symbols are shown as what they were read as, and errors where they are",
 "After every event, every symbol of a formula on the page is marked up as what the syntax tree says it was read as: numbers, texts, operators and names each as such, symbols that nothing accepts as errors, and the symbols of one number, text or operator together, apart from their neighbours. A mark that can be seen stands at exactly those places where the parser found that something is missing, and an empty box in exactly the places that the syntax tree calls nothing. Every subscript and superscript hangs on exactly what it was read as belonging to, and brackets are free to grow with what they enclose.",
 ["histories", "schedules", "inputs"],
 "every document, complete or half-typed, that any order of typing, corrections, clipboard, undo, formula changes and timers leads to",
 "No automated test of the renderer exists; which symbols form a token changes with every key press.",
 ["src/mathml/renderer.ts", "src/mathml/renderer/", "src/component/math-editor.ts", "src/component/math-editor-styles.css"],
 [{"name": "one renderer for every name in the syntax tree", "where": "src/mathml/renderer.ts"},
  {"name": "MissingMathMLElement: errors can be seen", "where": "src/mathml/renderer/rendered-missing.ts"}])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
