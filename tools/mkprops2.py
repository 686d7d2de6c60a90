p('P07', 'Statement text is divided into the documented tokens',
  'For every text of a statement, whatever characters it holds and whatever was scanned before it, the scanner divides it into the documented tokens: at each place the longest documented token is taken (names, keywords in any letter case, operators and defined operators, integer, real, BOZ, logical, character literals with their kinds, punctuation), blanks only separate, a real literal is told apart from an integer followed by an operator (1.and.x) and from a following name, a quoted text extends to its matching delimiter, and the state of one line never leaks into the next. Exactly the documented keyword pairs written together (goto, endif, ...) are divided into their two keywords. The scanner\'s position counter advances by exactly the characters each token holds.',
  ['inputs'], 'every statement text over all 255 characters, and every sequence of scanned lines',
  'The tests scan some literals and statements; a literal form, a keyword prefix or a character above 127 that no test contains can be divided wrongly.',
  [S + 'scan_fort.l', S + 'Smash_Hash.hh'],
  [('scanner rules', S + 'scan_fort.l'), ('keyword pairs', S + 'Smash_Hash.hh')])
p('P08', 'Each token records its tag, its text and where it stands',
  'For every logical line, whatever its text, its continuation lines, the comment or blank lines between them, its indentation and its label: each token of the scanner becomes exactly one token object (joined keywords such as GOTO become two), in order, and records its tag, its exact text, the file line and column of its first character, its first and end column and line in the layout, and the number of blanks before and after it; the line records its label. The statements of the line are exactly the non-empty runs of tokens between semicolons, however often they are recomputed, and the lower-case text of a token is that of its present text.',
  ['inputs'], 'every line of any text, divided into tokens at any places, over any continuation layout within the bounds',
  'Places of tokens are what error messages and every edit of a line depend on; the tests check them for a few short lines without comments or joined keywords in odd places.',
  [S + 'Logical_Line.cc', S + 'Line_Accum.cc', S + 'Token_Text.cc', S + 'Token_Text.hh'],
  [('tokenize', S + 'Logical_Line.cc'), ('init_stmts', S + 'Logical_Line.cc'), ('linecolno', S + 'Line_Accum.cc')])
p('P10', 'Program constructs nest exactly as the documented productions say',
  'For every sequence of statements, each program-level construct (program units, specification and execution parts, IF/CASE/WHERE/ASSOCIATE/BLOCK/FORALL/SELECT constructs, interface blocks, derived types, modules and subprograms) is recognised exactly when the statements follow its documented production: every part that may repeat may repeat any number of times, every optional part may be missing, the parts come in the documented order, and the construct node has the documented tag and children.',
  ['inputs', 'programs'], 'every program-level rule and every statement sequence',
  'The tests parse a few small files; a repeatable part accepted only once, or an alternative dropped, shows only for programs with that shape.',
  [S + 'Prgm_Parsers_impl.hh', S + 'Prgm_Parsers.hh', S + 'Prgm_Parsers_utils.hh'],
  [('program-level rules', S + 'Prgm_Parsers_impl.hh')])
p('P11', 'Every statement of a parsed program is in its tree once, in order',
  'However statements are combined into program constructs, a construct that matches takes a gap-free run of statements: each statement of the run is a leaf of the construct tree exactly once and in source order, every node covers exactly the statements below it, and each statement records the tag of the rule that took it. A construct that does not match, wherever it fails, takes no statement, leaves no open DO label and returns no tree; no statement beyond the last is read, and repetitions end. (The one documented exception: a statement that ends several label-DO loops is shared by them; the DO forms, block, action-terminated, inner and outer shared, are told apart as documented.)',
  ['inputs', 'programs', 'histories'], 'every program-level combinator over any sub-parsers, every statement sequence',
  'The program parsers backtrack over statements; a lost or duplicated statement needs a construct that fails after it has taken statements, or an unusual mix of nested label-DO loops.',
  [S + 'Prgm_Parsers_utils.hh', S + 'Prgm_Tree.hh', S + 'Label_Stack.hh', S + 'Safe_List.hh', S + 'Tree.hh'],
  [('program-level combinators', S + 'Prgm_Parsers_utils.hh'), ('DO construct', S + 'Prgm_Parsers_utils.hh'), ('label stack', S + 'Label_Stack.hh')])
p('P09', 'Statement tags, dispatch by tag and cached statement trees agree',
  'For every syntax tag: parse_stmt_dispatch applies the rule of the statement with that tag and returns that rule\'s tree, and applies no rule for a tag that is no statement; is_action_stmt holds exactly for the alternatives of action-stmt. A recognised statement has the tag of the statement recognised (looking through action-stmt). Its cached tree is dropped whenever its text or tag is replaced, is kept when merely looked at, and after it was dropped (drop_stmt_tree) the next stmt_tree() parses the text again by the rule that recognised the statement and leaves the tag as it was, for every statement the program grammar recognises, extension action statements included. stmt_tag(true) of an IF statement is the negated tag of the statement it controls; otherwise stmt_tag is the tag itself.',
  ['inputs', 'histories'], 'every syntax tag; every statement rule of the program grammar',
  'Dispatch, is_action_stmt and action-stmt are three hand-kept tables over 600 tags; the tests dispatch none of them and never drop a tree.',
  [S + 'parse_stmt.cc', S + 'LL_Stmt.cc', S + 'LL_Stmt.hh'],
  [('dispatch', S + 'parse_stmt.cc'), ('rebuilding a dropped tree', S + 'LL_Stmt.cc'), ('cached tree and tag', S + 'LL_Stmt.hh')])
p('P14', 'Editing a token or statement of a line changes what it names, nothing else',
  'For every tokenised Logical_Line (free or fixed form, continued or not, with comments, labels, semicolons and tokens that run over a line end), at every token: replace_fragment replaces the text of the token in its physical line and in the token, and moves the recorded places of the tokens behind it on that line; remove_fragment removes its text, the token, and divides the statements anew; insert_text_before (also at the end) and insert_text_after put the text directly before or behind the token; replace_stmt_substr replaces the text from its first to its last token, keeps all comments, turns emptied lines into comment or blank lines and keeps the line continued exactly when Fortran text follows; the last three then read the tokens again. split_after keeps text, tokens, label and comment up to the token in this line and gives the rest, without label, comment or leading continuation mark and with the margin of the line, to the new one; text joined over a line end stays joined; every token of both lines records its text and place; it reports truthfully whether there is a new line, and otherwise changes nothing. replace_main_text gives each physical line its text, adds lines (indented like the last, without label or comment, marked as continuations of the line before in the way of the form) for further texts and turns lines left over into comment or blank lines, keeping every comment; append_comment puts the text behind a ! at the end of the first line that does not end inside a character literal, behind marks and comments already there. Other physical lines, fields and tokens stay as they were.',
  ['inputs', 'histories'], 'every line of tokens, every token of it, every new text',
  'Source-to-source tools are sequences of these edits; a wrong place corrupts the line only at the next edit, and needs tokens after it on the line, a continued literal, a comment between, or a label.',
  [S + 'Logical_Line.cc', S + 'Logical_Line.hh'],
  [('token edits', S + 'Logical_Line.cc'), ('statement text edits', S + 'Logical_Line.cc'), ('splitting', S + 'Logical_Line.cc')])
p('P16', 'Trees stay linked and cursors follow the links',
  'After any sequence of constructing, grafting (front, back, at a position; by move or by reference), emplacing, erasing, swapping, moving and clearing FLPR::Tree objects and nodes: every value is in exactly the place the operation documents and in order, every node knows its own position and its parent (the root is its own parent), size, num_branches, is_leaf, is_fork and is_root agree with the structure, the returned iterator denotes the node documented, and a donor given by reference or a moved-from tree is empty. A cursor (const or not) on any node answers has_up/prev/next/down, is_root/fork/leaf and num_branches truthfully, up/prev/next/down(k) move exactly k links, try_next/try_down(k) return true exactly when k links exist and otherwise stop at the last node, and a cursor on no tree (default, cleared, or converted from such a cursor) is false.',
  ['inputs', 'histories'], 'every tree shape and every sequence of tree operations',
  'A wrong parent or self link shows only after a particular sequence of grafts and swaps, and only to code that walks upwards later.',
  [S + 'Tree.hh', S + 'Safe_List.hh'],
  [('tree nodes and links', S + 'Tree.hh'), ('cursors', S + 'Tree.hh'), ('grafting', S + 'Tree.hh')])
p('P20', 'Splitting a source line into fields and printing it keeps its text',
  'For every line of text, every open character delimiter carried in, every last-column setting and every literal-block state: File_Line::analyze_free returns fields whose concatenation, and whose printed form (operator<<), is exactly the line given. File_Line::analyze_fixed returns fields that print as the line given up to white space: every non-blank character appears exactly once and in order, nothing is invented except the "! " put in front of text past the last column, tabs are replaced only in the control columns (each by six blanks), and when there is no such tab all text up to the last column stays in its column. Neither function reads or writes outside the text, whatever its length.',
  ['inputs'], 'every line, carried delimiter, last column',
  'Source-to-source tools print what was split; a character lost, doubled or moved shows only for lines with a particular length or arrangement of blanks, labels, continuation marks and comments.',
  [S + 'File_Line.cc', S + 'File_Line.hh'],
  [('free-form split', S + 'File_Line.cc'), ('fixed-form split', S + 'File_Line.cc'), ('printing', S + 'File_Line.cc')])
p('P15', 'Editing a statement of a file leaves every other statement intact',
  'For split_compound_before, isolate_stmt, emplace_ll_stmt, emplace_ll_stmt_after_prefix, replace_stmt_text, replace_stmt_substr, insert_text_after, append_stmt_text and set_stmt_label of Logical_File, at every statement of a file: afterwards each statement of the file is still there, once, in order; refers to the logical line it is on; has exactly the tokens that line records for it (none that were removed, on either side of a split); is numbered from 1 when it shares its line and 0 otherwise; keeps its label, tag, prefix lines and program-unit node unless it is the one edited; and has no cached tree made from tokens it no longer has. Logical lines stay, in order; a new one appears exactly where the documented split or insertion puts it, prefix lines stay with (or are handed over to the new statement before) their statement. A text edit first puts the statement alone on its line, then changes exactly the tokens named by the caller, once; a label is set on a line the statement begins. The result tells whether anything changed, or which statement is new.',
  ['inputs'], 'every file, statement, token and label, whatever the texts',
  'Whether a reference into a line survives depends on where the statement stands among the others on its line, leading or doubled semicolons and continuation lines; a stale reference is used only by a later operation.',
  [S + 'Logical_File.cc', S + 'LL_Stmt.hh', S + 'LL_Stmt_Src.cc', S + 'Logical_Line.cc'],
  [('edits of a file', S + 'Logical_File.cc'), ('statements', S + 'LL_Stmt.hh')])
p('P21', 'Lines of a file are grouped into logical lines and statements, in order',
  'For every sequence of physical lines, free or fixed form: reading analyses each line once, in order, with its number, the literal-block state and the character delimiter and continuation left open by the last line that is neither comment nor blank (a directive leaves none); lines that follow a directive ending in a backslash are part of the directive and are not analysed as Fortran. Each line, unchanged, ends up in exactly one logical line, in file order: a run of comments and blank lines; a literal block; a directive with the lines continuing it; or a complete statement with all its continuation lines and the comments between (fixed form: marked to be reformatted). Each logical line has its category and the file information and is tokenised when complete; directives are noticed, lines counted; a line that cannot be analysed makes reading return false with nothing read. Logical_Line made from several raw lines carries the same state. read_and_scan and scan hand over every line and use the scanner of the file\'s form. Printing a logical line prints each physical line once on its own line, nothing if suppressed. make_stmts yields each statement of each line once, in order, with its tokens, the label on the first of its line, numbers from 1 when it shares the line, and the unsuppressed lines without statements directly before it as its prefix.',
  ['inputs'], 'every sequence of physical lines of every kind',
  'How lines combine (comments inside a continued literal, directives with continuation lines, a file that ends in a continued line) multiplies beyond what tests list; a mistake drops, repeats or merges source lines silently.',
  [S + 'Logical_File.cc', S + 'Logical_Line.cc', S + 'LL_Stmt_Src.cc', S + 'LL_Stmt_Src.hh'],
  [('grouping', S + 'Logical_File.cc'), ('statements of a line', S + 'LL_Stmt_Src.cc'), ('printing', S + 'Logical_Line.cc')])
p('P22', 'Margin, label and continuation edits keep statement and comment text',
  'For every free-form or fixed-form physical line, whatever its text: set_leading_spaces(n) keeps statement text, label, marks and comment. In free form the text then begins after n columns (no nearer than one blank after a label, not before a leading &, a comment line at column n), text joined to the next line stays joined, and a trailing comment keeps its column when there is room; in fixed form continued text and C or * comments are not moved; other kinds of line do not change; the report says truthfully whether anything changed. get_leading_spaces changes nothing and gives the columns before the text. set_label(n) puts, replaces or (n = 0) removes only the label, the text keeping its column when the label fits, and reports truthfully whether there is a change. make_continued and make_uncontinued put or remove only the trailing & (kept apart from the text). make_comment_or_blank keeps the comment and its column, make_blank leaves nothing, make_preprocessor keeps all text once, unspace_main only moves blanks out of the text, and swap exchanges everything.',
  ['inputs'], 'every line: any text, any combination of fields, any width asked for',
  'Indentation and rewriting tools make exactly these edits; a lost comment, a literal broken by a blank before its & or a label merged with the text needs an unusual combination of fields and widths, and the tests try a handful.',
  [S + 'File_Line.cc', S + 'File_Line.hh'],
  [('margin', S + 'File_Line.cc'), ('label', S + 'File_Line.cc'), ('continuation mark', S + 'File_Line.cc')])
p('P23', 'Lines are classified, and trailing text found, by the Fortran rules',
  'For every line, carried delimiter, last column and carried continuation: the line is blank exactly when it holds only blanks (fixed form also: a label or continuation mark with nothing after it), preprocessor exactly when # is in column 1, comment when its first non-blank is ! (fixed form: outside column 6, or C, c or * in column 1, or text only past the last column), an include line only when it begins with the word include in any case and a quote; label is set when the first non-blank is a digit (free form: of a line that is no continuation; fixed form: in columns 1-5), continuation when the first non-blank is & (fixed form: any character but 0 in column 6), and continued exactly when the trailing text begins with & (or for a comment between continued lines). The statement ends, and trailing text begins, at the first ! or, in free form, & outside character context (or past the last column in fixed form), or at an & that ends a free-form line inside character context; characters inside a literal never end it, a doubled delimiter stays inside. open_delim is the delimiter still open at the end of the statement text and 0 otherwise. A free-form line is rejected only when it ends inside character context without &.',
  ['inputs'], 'every line, carried delimiter, last column',
  'A comment or continuation mark recognised inside a literal, or missed outside one, needs a particular sequence of quotes over one or several lines.',
  [S + 'File_Line.cc', S + 'File_Line.hh'],
  [('free-form classification', S + 'File_Line.cc'), ('fixed-form classification', S + 'File_Line.cc'), ('trailing text', S + 'File_Line.cc')])
p('P24', 'Converting fixed form to free form keeps statements, labels and comments',
  'Logical_File::convert_fixed_to_free leaves every logical line, physical line and token in place and converts each logical line that is in fixed form, and no other. Of a converted line: every statement text keeps its column; the label stays, with a blank between it and the statement; a zero and a continuation mark in column 6 go; every physical line but the last with statement text ends in & and is recorded as continued; a line whose text goes on inside a token of the line before begins with & directly before the text and is recorded as a continuation, with no blank put before the & of the line before, whatever comments or blank lines stand between, and no other line begins with one; nothing stands behind the & inside a character literal; trailing comments stay, behind the &; a comment line begins with ! and keeps its text and place; a line without text is blank; directives and include lines stay. No line is recorded as fixed form any more, other flags stay, and the file is recorded as free form and the result true exactly if a line was converted.',
  ['inputs'], 'every sequence of fixed-form physical lines, whatever their text',
  'The converted file must mean the same: a & missing or misplaced shows only for statements split inside a token or literal, with comments between continuation lines, labels up to column 5, text past the last column.',
  [S + 'Logical_File.cc'], [('fixed to free form', S + 'Logical_File.cc')])
p('P17', 'A parsed file is read and built once, linked to its tree, and indented by it',
  'Parsed_File: the constructors and read_file read the named file or stream once with the last column and kind given; the file is good, and read_file true, exactly if it could be read. Statements are made once, and the program is parsed once, over all statements, when first asked for in whatever order prefetch_statements, statements, prefetch_parse_tree and parse_tree are called, and only of a good file; the prefetch functions tell whether there are statements and a tree; the file is no longer good after a parse that failed; a file without statements has an empty tree. Each statement in the tree refers to its own node, stmt_to_node_cursor is at that node, and a statement not in the tree has no cursor. indent gives each statement that begins a line, and the lines before it, the sum of the indents of the constructs around it (select, type and enum constructs indent all but their first and last branch), continuation lines of a statement the continued offset more, and tells whether anything changed. An indent set in an Indent_Table is that of one construct; the indent schemes set those of the bodies and constructs they are for.',
  ['inputs', 'histories'], 'every tree, every sequence of calls, every indent table',
  'Indentation is the visible result of the whole parse; a statement missed or counted twice shows only for certain nestings, shared lines or comment lines before a statement, and laziness only for certain orders of calls.',
  [S + 'Parsed_File.hh', S + 'LL_Stmt.cc', S + 'Logical_Line.cc', S + 'Indent_Table.hh', S + 'Indent_Table.cc'],
  [('parsed file', S + 'Parsed_File.hh'), ('statement margins', S + 'LL_Stmt.cc'), ('indent table', S + 'Indent_Table.hh')])
