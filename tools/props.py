T = "bounded exhaustive enumeration of the real code's executions against a reference model"
IN = ["inputs"]
SRC_ID = ["src/identifier/"]


def define(P):
    P("C01", "Identifiers survive every text form unchanged",
      "Writing any act, article, paragraph, point or subpoint identifier, or a range of them, as text, in compact form, "
      "in the slash and Roman forms where they exist, as JSON or as YAML, and reading it back gives the same identifier. "
      "A text that is not such a form is refused, and different identifiers never share a text. No text makes reading, and no "
      "identifier makes writing, crash.",
      IN, "for every identifier value of every kind, and every short text over the alphabet the forms use",
      "The unit tests name a few dozen identifiers; the value space is 65536 numbers x 34 letters x 256 books, and the refused texts are unbounded.",
      SRC_ID + ["src/util/compact_string.rs"],
      [("Display/FromStr of identifiers", "src/identifier/{numeric,alphabetic,prefixed_alphabetic,article,paragraph,act}.rs"),
       ("compact string and serde forms", "src/identifier/range.rs, src/util/compact_string.rs")],
      T, "All numeric identifiers and Roman numerals are covered completely; books, acts and ranges over boundary values; texts up to a length.",
      "every number 0..65535 x 35 suffixes; 256 books x 12 numbers x 35 suffixes; all letters and letter pairs; acts over boundary years and numbers; all texts of the forms' alphabets to the quick length",
      "as quick, with every value through JSON and YAML, and longer texts")

    P("C02", "Identifier order and succession follow Hungarian legal numbering",
      "Identifiers are totally ordered, consistently with equality, in the order in which an act lists them, acts by year and number. 'May directly follow' "
      "holds exactly between an identifier and its successors in legal numbering (next number, first or next suffix letter, next letter of the "
      "Hungarian alphabet with or without its digraphs, next book), and 'is first' exactly for the identifiers that may open a list.",
      IN, "for every pair of identifiers of a kind, over all letters and over boundary numbers",
      "Unit tests list a few pairs; a wrong answer for any other pair makes the structure parser split or merge elements.",
      SRC_ID, [("is_next_from, is_first", "src/identifier/*.rs"), ("Ord derivations", "src/identifier/*.rs")],
      T, "All pairs of the letter alphabet with all suffix and prefix combinations; numbers at representative and boundary values.",
      "all pairs over boundary numbers x all suffixes, all letters, all prefixed letters, boundary books and articles, acts",
      "same space")

    P("C03", "Only well-formed references can come into existence",
      "Whatever way a reference to a part of an act is made (from data, from compact text, by the builder with any history of calls, or by an operation on other "
      "references), it is a well-formed one: between its outermost and its deepest part no level but the paragraph is left out, and only the deepest "
      "part is a range. Anything else is refused with an error, and everything well-formed is accepted.",
      ["inputs", "histories"], "for every combination of parts and every builder call sequence up to the depth",
      "Tests try about twenty combinations; the constraint is over all combinations of five parts, and over all builder histories.",
      ["src/reference/"], [("ReferenceBuilder checks", "src/reference/builder.rs"), ("unchecked deserialization", "src/reference/unchecked.rs"), ("compact parsing", "src/reference/string.rs")],
      T, "Complete over a label alphabet with neighbours, suffixes, reversed ranges and both kinds of points.",
      "all part combinations over 3 articles, 3 paragraphs, 6 points, 6 subpoints with all ranges; builder histories to depth 6; all operation pairs",
      "all part combinations over the full label alphabet; builder histories to depth 7")

    P("C04", "References survive their compact, JSON and YAML forms and cite correctly",
      "Every well-formed reference written in compact form, as JSON or as YAML and read back is the same reference, and the citation printed for it is the "
      "exact conventional Hungarian one. Different references never have the same compact form, data form or citation.",
      IN, "for every well-formed reference over the label alphabet", "Tests hold some fifty references; forms interact across five parts and ranges.",
      ["src/reference/"], [("compact and citation strings", "src/reference/string.rs"), ("serde", "src/reference/unchecked.rs")],
      T, "Complete over the label alphabet; citation texts compared with an independent rendering.",
      "all well-formed references over 3 acts and the full label alphabet", "same space")

    P("C05", "Containment of references means containment of the elements they denote",
      "A reference contains another exactly when the element or range it denotes includes everything the other denotes; and it is the parent of exactly "
      "those references that denote an element directly or indirectly below it.",
      IN, "for every ordered pair of well-formed references over the label alphabet", "Tests compare some forty pairs.",
      ["src/reference/mod.rs"], [("contains, is_parent_of", "src/reference/mod.rs")],
      T, "All ordered pairs over the label alphabet against an independent model.", "87 million ordered pairs", "188 million ordered pairs")

    P("C06", "Reference arithmetic gives exactly the reference meant",
      "Resolving a relative reference against a base, making a range from its two ends, taking the parent, the first or last element of a range, or dropping the act gives exactly the "
      "reference meant, and is refused exactly when there is no such reference. The operations agree with each other: the ends of a made range are the ones given, and resolving a complete reference changes nothing.",
      IN, "for every ordered pair of well-formed references over the label alphabet", "Tests compare some thirty cases.",
      ["src/reference/mod.rs", "src/reference/parts.rs"], [("relative_to, make_range, parent, first/last_in_range", "src/reference/mod.rs")],
      T, "All ordered pairs over the label alphabet against an independent model.", "87 million ordered pairs", "188 million ordered pairs")

    P("C07", "Cutting and joining lines keeps every character, position and style",
      "Cutting a line at any character or byte position and joining the pieces again gives the same characters at the same positions with the same boldness and justification. "
      "Joining lines into running text puts exactly one space between lines, except after a hyphenated line end. No cut inside the line's range crashes.",
      IN, "for every line up to the length bound, every pair of cut positions, and every pair of lines", "Tests cut two lines at a few places.",
      ["src/util/indentedline.rs"], [("slice, slice_bytes, from_multiple, append_to", "src/util/indentedline.rs")],
      T, "All lines to the bound over 1-, 2- and 3-byte characters, with mixed boldness and spacing.",
      "all lines to 4 characters, all cuts including out-of-range and negative ones, all pairs of short lines; lines to 300 characters", "all lines to 5 characters; the grown families as in quick")

    P("C08", "An act in the conventional layout parses to exactly the act it spells out",
      "Parsing the lines of an act written in the conventional layout gives exactly that act: its preamble, books, parts, titles, chapters, subtitles, articles with their titles, paragraphs, numeric "
      "and alphabetic points, subpoints and quoted blocks, each once, in order, at its level, with its identifier and full text, intro and wrap-up, however the text is broken into lines, and whatever empty lines stand between the elements.",
      IN, "for every act of the generator (kinds, nesting, numbering with suffixes and digraphs, line breaks, titles, gaps) within the deviation bound",
      "Tests hold about a dozen acts; how kinds of elements, numberings, line breaks and empty lines combine is what the parser gets wrong.",
      ["src/parser/structure/"], [("act, article and sub-article parsers", "src/parser/structure/{act,article,sae,subtitle,structural_element,quote}.rs")],
      T, "Complete within the number of departures from the plainest act; list lengths 1 to 60 apart.",
      "every act within 4 departures from the plainest one, and lists of every length to 60; acts grown along one dimension at a time; every suffix letter at every level, bracketed titles, lead-ins and closes, shifted articles", "every act within 5 departures; the other families as in quick")

    P("C09", "The structure parser loses, adds and reorders no text",
      "Whatever lines an act's body or a block amendment consists of, if it is accepted then the resulting structure, read from beginning to end, holds every word of the input exactly once, in the order of the input, and nothing else.",
      IN, "for every sequence of lines over the alphabet of line kinds, up to the length bound, in every surrounding and at every amended position",
      "Tests check well-formed acts; law texts contain every kind of irregular line sequence, and a silently dropped line falsifies the law.",
      ["src/parser/structure/"], [("feed_line / finish of every parser", "src/parser/structure/*.rs"), ("block amendment conversion", "src/parser/structure/block_amendment.rs")],
      T, "Oracle: the flattened output equals the flattened input, whitespace and hyphenation apart.",
      "all sequences of 12 line kinds to 5, 24 to 4, 55 to 3, in 8 surroundings; amendments of 12 kinds to 4, 24 to 3, 43 to 2, at 31 positions; acts grown along one dimension at a time", "one line longer each; the grown families as in quick")

    P("C10", "No text crashes or hangs the structure parser",
      "Parsing the structure of an act and converting its block amendments ends with a result or an error, never with a crash or without end, whatever lines the act consists of and however many.",
      IN, "for every sequence of lines over the alphabet of line kinds, up to the length bound, and long repetitions of every short one",
      "Tests parse well-formed acts; the input comes from PDFs of any quality, and one crash loses the whole issue.",
      ["src/parser/structure/"], [("feed_line / finish of every parser", "src/parser/structure/*.rs"), ("block amendment conversion", "src/parser/structure/block_amendment.rs")],
      T, "Panics, process death and cases over 20 s are violations.",
      "the sequences of C09, and patterns of up to 3 of 24 kinds repeated 30 and 100 times; acts grown along one dimension at a time", "one line longer each; the grown families as in quick")

    P("C11", "Parsed structures are always properly numbered and never empty",
      "Whatever lines are parsed, in the resulting structure every list starts with an identifier that may open it, each further element directly follows the one before it, a list of points or subpoints "
      "has at least two elements, and an article has at least one paragraph, with an unnumbered one only alone. A converted block amendment starts with the first element of the amended position.",
      IN, "for every sequence of lines over the alphabet of line kinds, up to the length bound", "Tests check the numbering of well-formed acts only; users navigate by it.",
      ["src/parser/structure/"], [("identifier checks", "src/parser/structure/sae.rs"), ("article checks", "src/parser/structure/article.rs"), ("amended position", "src/parser/structure/block_amendment.rs")],
      T, "Succession judged by the model of C02, not by the code's own is_next_from.",
      "the sequences of C09; acts grown along one dimension at a time", "one line longer each; the grown families as in quick")

    P("C12", "Quoted text is never taken for structure",
      "Whatever stands between quotation marks, including lines that look like headers of articles, paragraphs, points, chapters, or nested quotations, stays text at the place where it is quoted (a quoted block where it stands in lines of its own), line by line, "
      "and the structure around it is the same as if the quotation were a plain word. An act whose quotation marks do not pair up is refused, not misread.",
      IN, "for every balanced sequence of quoted line kinds up to the length bound, at every place", "Tests quote a few harmless texts; amending acts quote every kind of header.",
      ["src/parser/structure/quote.rs", "src/parser/structure/"], [("QuoteCheck", "src/parser/structure/quote.rs"), ("its use in act, article and sae", "src/parser/structure/{act,article,sae,block_amendment}.rs")],
      T, "17 places in an act (and amended article) x both opening marks.",
      "all balanced sequences of 22 quoted line kinds to 4 lines, and all unbalanced ones to 3, at 17 places; quotations grown along one dimension at a time", "to 5 lines; the grown families as in quick")

    P("C13", "Block amendments are converted to exactly the elements quoted",
      "When a paragraph's semantic information says that it amends, replaces or inserts certain elements, converting its quoted block gives exactly those elements with their titles, numbering, nesting, texts, wrap-ups and the quotes inside them, the rest of the "
      "act unchanged. Converting again changes nothing.",
      IN, "for every amendment of the generator, over 17 kinds of amended position, within the deviation bound", "Tests convert some twenty amendments.",
      ["src/parser/structure/block_amendment.rs"], [("convert_block_amendments", "src/parser/structure/block_amendment.rs")],
      T, "The semantic information is given, as the semantic parser itself cannot be built here.",
      "every amendment within 5 departures from the plainest one; amendments grown along one dimension at a time", "within 6 departures; the grown families as in quick")

    P("C14", "Every act of a gazette issue is found, with exactly its own lines",
      "From the pages of an issue every act is returned once, in order, with its identifier, subject, publication date and exactly the lines of its body: no page header or footer, no line of a neighbouring act, decree or table of contents, and none of its own lines missing, wherever pages break.",
      IN, "for every issue of the generator within the deviation bound, and every sequence of line kinds up to the length bound", "Tests cover a handful of issues.",
      ["src/parser/mk_act_section.rs"], [("parse_mk_pages_into_acts", "src/parser/mk_act_section.rs")],
      T, "Generated issues vary acts, other items, page breaks, gaps, headers and signatures; arbitrary line sequences are judged by what must hold of any result.",
      "every issue within 4 departures; all sequences of 13 line kinds to 5 after 5 starts; issues grown along one dimension at a time", "within 5 departures; sequences to 6; the grown families as in quick")

    P("C15", "Hungarian ordinals, dates and structural headers mean the right number",
      "Every ordinal from nulladik to századik in lower, upper or capitalised spelling is read as its number and written back correctly; no misspelling is read as a number, and numbers beyond the range are refused. Every calendar date of the gazette is read exactly, and impossible "
      "dates are refused. The header of every book, part, title and chapter that has a written form is written correctly and read back as the same element.",
      IN, "for every number 0..65535, every single-character misspelling, every date, every header", "Tests check the ordinals only against themselves, so a wrong table entry passes.",
      ["src/util/hun_str.rs", "src/structure.rs"], [("ordinal tables, month names, date parsing", "src/util/hun_str.rs, build.rs"), ("header_string, parse_identifier", "src/structure.rs")],
      T, "Ordinals compared with ones composed independently.",
      "numbers 0..65535, all one-edit misspellings of 101 ordinals and 12 months, dates of 1867..2120, headers of numbers 0..4200 with 5 suffixes", "dates of years 0..9999")

    P("C16", "Page text is read whole, in reading order, with positions and boldness",
      "Reading a PDF page gives every printed character that lies within the text area exactly once, the lines from top to bottom and the characters of a line from left to right, with spaces exactly where the gaps are as wide as a space, with "
      "each line's indentation, justification and boldness, and with empty lines where the vertical gap says so; whatever order the page draws its text in.",
      IN, "for every page of the generator within the deviation bound, in every drawing order of its pieces", "Tests read three real PDF files, each drawn in one order by one program.",
      ["src/parser/pdf/"], [("page rendering", "src/parser/pdf/"), ("line assembly", "src/parser/pdf/")],
      T, "PDF files are generated byte by byte and read by the real parser; the oracle knows only where each character was meant to be printed.",
      "every page within 3 departures from the plainest one, in all drawing orders; documents grown along one dimension at a time (pages, lines, runs, characters)", "within 4 departures; the grown families as in quick")

    P("C17", "PDF text operators have exactly the effect the PDF standard gives them",
      "Whatever history of text, graphics-state and form operators a page's content consists of, each character comes out at the position, boldness and word spacing the PDF standard gives it after that history: saving and restoring, forms inside forms, font changes, "
      "moves, matrices, leading, spacing, scaling and both show operators.",
      ["histories"], "for every operator sequence up to the depth bound", "The operator subset used by three sample files is all the tests see; the effect of one operator depends on all those before it.",
      ["src/parser/pdf/"], [("content stream interpreter", "src/parser/pdf/")],
      T, "The reference model is an independent interpreter of the same operators. The transformation operator cm is outside: the parser ignores it by design.",
      "all sequences of all operators to depth 4 and of the core operators to depth 6; contents grown along one dimension at a time, and every operand of a list for every operator", "depths 5 and 8; the grown families as in quick")

    P("C18", "Every character of every font is read as the character it shows",
      "Each character code of each font is read as the character the font's ToUnicode map gives it, or, without one, its encoding with differences; on every page of a document with that page's own fonts and resources, inherited ones included. A font that cannot be understood is an error, never silently lost text.",
      IN, "for every code of every encoding with every kind of font dictionary, and every sequence of pages with every kind of resources", "Tests read the few fonts of three sample files.",
      ["src/parser/pdf/"], [("font and encoding reading", "src/parser/pdf/"), ("resource lookup and font cache", "src/parser/pdf/")],
      T, "Complete over all 256 single-byte codes and all 65536 two-byte codes.",
      "6 encodings x 256 codes x 7 differences x 7 ToUnicode kinds, all two-byte codes, documents of 1 to 3 pages x 18 font and resource kinds; every glyph name, weight and notation of the lists", "same space")

    P("C19", "Fixups change exactly the line they name, or are refused",
      "Applying a list of fixups to an act's lines changes, for each fixup in turn, exactly the lines it identifies by its context and old text, to exactly the new text (or removes or marks them bold), and leaves every other line, with its positions and style, as it was. "
      "A fixup that matches no line, or is ambiguous where it must be unique, is refused with an error; nothing is applied silently at another place.",
      ["inputs", "histories"], "for every list of lines and every history of fixups up to the bounds", "Tests apply three fixups to one text; fixups correct the text of law, so a misplaced one falsifies it.",
      ["src/fixups.rs"], [("Fixup::apply, Fixups::apply", "src/fixups.rs")],
      T, "Oracle: an independent model of the fixups on plain strings.",
      "all lines to 4 characters x all new texts to 5; all bodies to 6 lines x all fixups with up to 3 lines of context; all histories of 3 fixups on bodies to 3 lines, of 2 on 4; documents, lines and lists of fixups grown along one dimension", "lines to 5 and 6 characters, bodies to 8 lines, 4 lines of context, histories of 3 on 4 lines; the grown families as in quick")

    P("C20", "The stored fixups reproduce exactly what was edited",
      "After a session in the fixup editor, loading the stored fixups and applying them to the act's own lines gives exactly the lines as they were left in the editor, those marked bold in bold, and all other lines unchanged; also after several sessions, whatever the texts, and however the editor saves its file. "
      "If the edit cannot be recorded (lines were added or removed, or a changed line cannot be told from others), an error is reported and the stored fixups stay as they were. No edit crashes the session.",
      ["inputs", "histories"], "for every short text, every edit of every line, and every history of sessions within the bounds", "Tests check the recording of a dozen edits in isolation; what is recorded is only worth what it does when it is loaded and applied again.",
      ["src/bin/hun_law/fixup_editor.rs", "src/fixups.rs"], [("recording of edits", "src/bin/hun_law/fixup_editor.rs"), ("loading and applying", "src/fixups.rs")],
      T, "The editor is a real process that performs the enumerated edits on the file it is given. Lines have no blanks at their ends, as the PDF reader makes them.",
      "all edits of all texts to 3 lines, up to 2 edits on 4 lines, histories of 2 and 3 sessions, 7 ways of saving, all pairs of 42 odd texts, repeating texts to 26 lines", "all edits to 4 lines, 3 edits on 5; all edits in histories of 2 sessions on 3 lines")

    P("C21", "Stored fixups are never lost or torn, whatever interrupts saving",
      "At whatever file system operation saving the fixups of an act is killed, fails, or runs out of space, what is loaded afterwards is exactly the list before or exactly the list after the saving, and the latter if the saving succeeded; and saving works again later. "
      "The same holds for somebody loading or saving at the same time, in every interleaving. Fixups that exist but cannot be read are an error, never taken for none.",
      ["crash_points", "fault_sequences", "schedules"], "for every operation of every saving at which a kill, a torn or short write or an error can happen, pairs of these, histories of two, and every interleaving within the preemption bound",
      "Tests save once, undisturbed. The fixups are hand-made work that cannot be regenerated.",
      ["src/fixups.rs"], [("Fixups::load_from, Fixups::save", "src/fixups.rs")],
      "exhaustive fault injection and schedule exploration of the real code under ptrace", "A crash is the death of the process; the loss of data the operating system has already accepted (power failure) is not simulated.",
      "12 situations: all single faults, all pairs of faults in one run, all histories of two faulty runs; 2 processes with up to 4 preemptions", "all kinds of faults in pairs and histories; up to 5 preemptions, 10 for a reader")

    P("C22", "The cache only ever gives complete issues, each its own",
      "A downloaded gazette issue is either complete or an error is reported: whatever the server replies, wherever the connection breaks, at whatever file system operation the process is killed or fails, and with whatever other download running at the same time, the cache afterwards gives the complete document of that very issue, or nothing. "
      "After a failure the issue can be downloaded again; after a success it is not downloaded again, and different issues never get each other's documents.",
      ["crash_points", "fault_sequences", "schedules"], "for every reply of the list, every operation at which a kill, a torn or short write or an error can happen, pairs of these, and every interleaving of two downloads within the preemption bound",
      "Tests never download. A torn file in the cache is used for ever without notice.",
      ["src/mk_downloader.rs"], [("download_mk_issue", "src/mk_downloader.rs")],
      "exhaustive fault injection and schedule exploration of the real code under ptrace", "The server is one of the explorer's on the loopback network. One known finding: chunked replies cut inside a chunk.",
      "18 kinds of replies x 3 sizes x 3 states of the cache; all single faults, pairs of faults for complete replies; two downloads with up to 3 preemptions; 10 years x 16 issues and 3 numbers x 10 years sharing a cache", "77 cut points; all pairs of faults; 4 preemptions; 33 years x 300 issues")

    P("C23", "Acts survive JSON and YAML unchanged",
      "Every act (whatever its structure, texts, amendments, quoted lines with their positions and styles, semantic notes and change notes) written as JSON or as YAML, by the library or through the command line output, and read back is the same act. "
      "No text, whichever characters it consists of, makes writing or reading fail or changes on the way.",
      IN, "for every act of the value generator within the bound, every short text over the characters special to the formats in every place of an act, and every Unicode character",
      "The stored acts are the product's result; tests round-trip a handful of sample acts, with ordinary texts only.",
      ["src/structure.rs", "src/util/singleton_yaml.rs", "src/util/indentedline.rs", "src/semantic_info.rs", "src/output/mod.rs"],
      [("serde of structures", "src/structure.rs, src/semantic_info.rs"), ("YAML enum form", "src/util/singleton_yaml.rs"), ("quoted lines", "src/util/indentedline.rs")],
      T, "Quoted lines are compared character by character with positions and styles, beyond equality.",
      "every act within 2 departures with 80 odd texts, 3 with plain ones; every text to 3 special characters everywhere; all characters of two planes; acts grown along one dimension at a time, to 600", "3 and 4 departures; texts to 4; all characters; the grown families as in quick")

    P("C24", "The printed text shows the whole act, at every width",
      "Printing an act shows every header, identifier, title, text, intro, wrap-up and quoted line exactly once, in order, at the indentation of its level; at any width the text only wraps differently, the coloured form differs only by colour codes, in which the references and nothing else have a colour of their own, and the page and line "
      "listings show each line at its column and, in the testing form, can be read back. If the target stops taking bytes an error is reported and what was written is a prefix of the full output. No act and no width makes printing crash.",
      ["inputs", "fault_sequences"], "for every act of the value generator within the bound, every width of the list, every format, and every byte position at which the target fails",
      "Tests compare the printed form of a few sample acts at one width, to a target that never fails.",
      ["src/output/"], [("TextOutput", "src/output/text.rs"), ("CliOutput", "src/output/mod.rs")],
      T, "Oracle: an independent renderer of unlimited width; at smaller widths everything but white space is compared.",
      "every act within 3 departures at 3 widths, within 2 at 17 widths, all pairs of 121 kinds of lines, all cut points of 5 outputs in 5 formats; acts grown along one dimension at a time, to 2000", "4 departures; 33 widths; the grown families as in quick")

    P("C25", "Walking an act visits every element once, in order, at its own position",
      "Walking the elements of an act enters and leaves each paragraph, point and subpoint exactly once, children between their parent's entering and leaving, in the order of the act, each with the reference that denotes exactly that element. An error of the visitor stops the walk there and is "
      "returned; a change made by a mutable visitor changes only the element visited. Looking up an article by identifier gives the article with that identifier or nothing.",
      ["inputs", "histories"], "for every act of the value generator within the bound, and every event at which the visitor fails or changes the element",
      "Everything that adds meaning to an act (references, abbreviations, amendments) is attached by such a walk; the tests see it only through a few acts.",
      ["src/util/walker.rs", "src/structure.rs"], [("walk_saes, walk_saes_mut", "src/util/walker.rs"), ("Act::articles, Act::article", "src/structure.rs")],
      T, "Oracle: an independent recursion that forms positions as plain texts.",
      "every act within 4 departures, an error and a change at every event; acts grown along one dimension at a time, to 2000", "6 departures; the grown families as in quick")

    SEM = ["src/parser/semantic_info/", "hun_law_grammar/"]
    S = dict(assumptions=[], semantic=True)

    P("C26", "Every reference in a sentence is found, at its place, meaning what it says",
      "For a sentence of legal Hungarian, the references recorded are exactly those written in it, in order, each at the very characters that express it, and each denoting exactly the act, article, paragraph, point or range of them meant there, parts left out being carried over from the reference "
      "before it as the language has it. Texts that merely resemble references, are quoted, or refer to annexes, give none.",
      IN, "for every sentence of the generator (acts by number, with titles, by abbreviation; all shapes of references; lists, ranges and suffixes; other text around and between) within the bound",
      "Tests parse some sixty sentences; the language is a grammar with unbounded combinations, and a reference missed or misread silently links the wrong law.",
      SEM, [("grammar", "hun_law_grammar/grammar.ebnf"), ("references", "src/parser/semantic_info/reference.rs"), ("spans", "src/parser/semantic_info/sae.rs")],
      T, "Oracle: the generator composes each sentence from what it means.",
      "every sentence within 5 departures from the plainest; every label at every level; sentences grown along one dimension at a time", "6 departures; the grown families as in quick", **S)

    P("C27", "Abbreviations mean, everywhere in an act, what the act defines them to mean",
      "An abbreviation defined in an act (“a továbbiakban”) means the act it was defined for in every later text of the act, the latest definition counting, and is an ordinary word where it is not defined. "
      "The semantic information and abbreviations of an act depend only on its texts and the abbreviations known before, after any history of whole or single-article processing and changes of text; and processing an article reports that the abbreviations changed exactly when they did.",
      ["inputs", "histories"], "for every act of three texts from the menu, three sets of abbreviations known before, and every history of processing and changes to the depth",
      "Tests process two short acts once. Amendments are applied by processing single articles again and again, over years of changes.",
      SEM + ["src/structure.rs"], [("AbbreviationCache", "src/parser/semantic_info/abbreviation.rs"), ("Act::add_semantic_info, add_semantic_info_to_article", "src/parser/semantic_info/mod.rs")],
      T, "Oracle: a map from abbreviations to acts, updated text by text.",
      "all 11^3 acts x 3 sets known x histories of 2 operations, of 3 for two of the third texts; up to two definitions and a use, at all pairs and triples of 16 places of an act; acts of up to hundreds of abbreviations", "histories of 3 and 4 operations; the grown families as in quick", **S)

    P("C28", "Every block amendment is recognised, with exactly the place it amends",
      "A sentence which announces replaced or inserted elements (articles, paragraphs, points, subpoints, ranges and lists of them, subtitles, parts, titles, chapters, books, article titles) is recognised as a block amendment of exactly that act and place, "
      "replacing or inserting exactly the elements named, whether or not it also names the elements amended; its references are recorded at their places.",
      IN, "for every announcement of the generator within the bound", "Tests parse about a hundred announcements. A misread one puts the new text of law at the wrong place.",
      SEM, [("convert_block_amendment, structural", "src/parser/semantic_info/block_amendment.rs"), ("grammar", "hun_law_grammar/grammar.ebnf")],
      T, "Oracle: the generator composes each announcement from what it means.", "every announcement within 6 departures; every label at every level; lists grown along one dimension", "7 departures; the grown families as in quick", **S)

    P("C29", "Text amendments and repeals are recognised with exactly their places and texts",
      "A sentence that replaces or repeals texts, or repeals elements, article titles, subtitles, structural elements or whole acts, is recognised as just that: every place, with every pair of texts, exactly once, in the place's own act, as written; nothing else is amended. "
      "Quoted texts come out unchanged, whatever they contain.",
      IN, "for every sentence of the generator within the bound", "Tests parse some sixty sentences. A misread one changes or deletes the wrong words of law.",
      SEM, [("convert_text_amendment", "src/parser/semantic_info/text_amendment.rs"), ("convert_repeal", "src/parser/semantic_info/repeal.rs"), ("grammar", "hun_law_grammar/grammar.ebnf")],
      T, "Oracle: the generator composes each sentence from what it means.", "every sentence within 4 departures; every label at every level; sentences grown along one dimension at a time", "5 departures; the grown families as in quick", **S)

    P("C30", "Enforcement clauses give exactly the dates, places and exceptions written",
      "A clause on coming into force is recognised with exactly the elements or the default it applies to, the day meant (a date, a day counted from publication, the first day of a month counted so, with or without an hour), and the day the law or its part is repealed, if one is given.",
      IN, "for every clause of the generator within the bound", "Tests parse some forty clauses. A misread one makes law apply at the wrong time.",
      SEM, [("convert_enforcement_date", "src/parser/semantic_info/enforcement_date.rs"), ("grammar", "hun_law_grammar/grammar.ebnf")],
      T, "Oracle: the generator composes each clause from what it means.", "every clause within 4 departures; every day, month and count; lists grown along one dimension", "6 departures; the grown families as in quick", **S)

    P("C31", "A sentence broken into a list means the same as the sentence",
      "If a sentence is broken anywhere between words into an intro, points (and subpoints) and wrap-ups, each point is given the phrase the whole sentence has and exactly those references which end in the point, at their places in it, whatever conjunction ends the point; "
      "an intro is given the references which end in it, and no phrase. The rest of the act is not affected.",
      IN, "for every sentence of the generators of C26, C29 and C30 within the bound, and every way of breaking it in three, or in five with two levels", "Tests break six sentences in one place each.",
      SEM + ["src/util/walker.rs"], [("prefixes and postfixes", "src/parser/semantic_info/sae.rs")],
      T, "Oracle: the sentence's own meaning, cut at the same places.", "sentences within 2 departures in one level, 1 in two; lists, wrap-ups and acts grown along one dimension at a time", "2 in two levels; the grown families as in quick", **S)

    P("C32", "No text crashes or hangs the semantic parser, or gives references outside it",
      "Whatever a text consists of, finding its semantic information ends, quickly, with a result or an error; the references of a result lie within the text, on character boundaries, in order, and do not overlap.",
      IN, "for every sequence of the words the grammar knows up to the length, and every phrase with words left out, doubled, exchanged or put in", "Tests use well-formed sentences.",
      SEM, [("grammar_parse", "src/parser/semantic_info/"), ("grammar", "hun_law_grammar/grammar.ebnf")],
      T, "", "all sequences of 3 of 43 words; all single and some double mutations of 7 phrases", "sequences of 4; all double mutations", **S)

    P("C33", "An issue set in type and published as PDF gives its acts exactly as meant",
      "Whatever acts an issue contains, however their lines are broken, indented and justified, wherever the pages end, and however the page descriptions place the text, reading the "
      "published PDF file, separating the acts and parsing their structure gives exactly those acts, in order, each with its identifier, subject, date, preamble and structure; page headers, the table of contents and signatures never end up in an act.",
      IN, "for every issue over the act, layout and page-break choices within a number of departures from the plainest issue",
      "Tests compare a few stored pages; the stages are tested separately, so that what one hands to the next at a page seam, crop edge or indentation is not tested at all.",
      ["src/parser/", "src/mk_downloader.rs", "src/util/"], [("parse_pdf, CropBox", "src/parser/pdf/"), ("parse_mk_pages_into_acts", "src/parser/mk_act_section.rs"), ("parse_act_structure", "src/parser/structure/"), ("DEFAULT_MK_CROP", "src/mk_downloader.rs")],
      T, "The whole pipeline up to the structure, composed: each stage gets what the one before it really gives.",
      "issues within 3 departures; issues grown along one dimension at a time (to 2001 articles, 100 acts)", "within 4 departures; the grown families as in quick")

    P("C34", "The program gives what it was asked for, and reports failure if it cannot",
      "Whatever list of acts or issues is asked for, at any parsing step, format, width and target, the program's output is that of the parsing steps for exactly those acts, each under its own name and nothing else, "
      "with the stored fixups applied; earlier contents of an output file never remain. If anything asked for cannot be given (no such act or issue, no download, broken PDF, no act in the issue, a parse error, no place for the output), the rest "
      "is still given, and the program's exit status is a failure; otherwise it is success. An interactive session goes on exactly as long as it is consented to, and what was edited is kept and applies.",
      ["inputs", "histories"], "for every list of ids up to the length x step x format x target, every stored fixup set of the list, and every session of answers and edits up to the depth",
      "There is no test of the program.",
      ["src/bin/hun_law/", "src/output/", "src/fixups.rs", "src/mk_downloader.rs"], [("main, get_issues, get_output, process_single_act", "src/bin/hun_law/main.rs"), ("run_fixup_editor", "src/bin/hun_law/fixup_editor.rs")],
      T, "The real program is run as a process for every case, in a scratch folder, with a scripted editor and no network.",
      "lists of 2 of 12 act ids or 8 issues; 5 fixup sets; sessions of 2 rounds", "lists of 3; sessions of 3 rounds", **S)

    P("C35", "No page crashes the PDF reader, and nothing it cannot read is skipped",
      "Whatever sequence of operators a page or a form consists of, unbalanced, with missing operands or resources, with enormous numbers, or with forms that draw themselves, reading it ends, with the page or an error. It is an error whenever something it needs to show (font, form, graphics state, saved state, marked content) is not there, "
      "so that no text is left out silently, and never an error if nothing is wrong. A file that is cut off is refused.",
      IN, "for every operator sequence up to the depth bound, and every length a file can be cut off at", "Tests read three well-made files.",
      ["src/parser/pdf/"], [("PageRenderer::handle_op, handle_xobject", "src/parser/pdf/page.rs"), ("parse_pdf", "src/parser/pdf/mod.rs")],
      T, "Other damage to a file's bytes is left to the PDF library (which panics on some of it).",
      "all sequences of 63 operators up to length 3, from two states; every truncation of a file", "up to length 4")

    P("C36", "The fixups and act list that come with the repository are found and apply",
      "For every act, loading its fixups gives exactly those of its file in data/fixups (none if it has no file, and every file belongs to an act), each of them can be saved and loaded again unchanged, and applies exactly where its context says. Every act and issue in the list of acts is understood as it is written, and no act is listed in two issues.",
      IN, "for every act of every year from 1990 to 2035 with numbers to 400, every stored fixup and every row of the list", "Tests use made-up fixups only; the stored ones are used only with the downloaded gazettes.",
      ["src/fixups.rs", "src/identifier/act.rs", "data/"], [("Fixups::load_from", "src/fixups.rs"), ("ActIdentifier", "src/identifier/act.rs"), ("stored fixups", "data/fixups")],
      T, "The space is finite and enumerated completely.",
      "18400 acts, 83 files with all their fixups, 2384 rows", "same space")

    P("C37", "An amending act gives, from its printed lines, exactly the changes it makes",
      "From the printed lines of an act which amends another, parsing its structure, finding its semantic information and converting its block amendments gives exactly the act meant: every provision with its text and references, every quoted new text as the elements (articles, paragraphs, points, subpoints, "
      "chapters, subtitles) it puts into the amended act, at the place its announcement names, with the lead-in and close around it, every text amendment, repeal and enforcement date as written, and what amends nothing left as a quotation; abbreviations defined on the way counting from there on. Processing the act again, as a whole, article by article, or after it was stored and read back, changes nothing.",
      IN, "for every amending act of the generator within the bound: three ways of naming the amended act, nine kinds of provisions, ten kinds of announcements, quoted bodies, three widths of lines",
      "Tests give each step the results that the step before should have given; no test goes from lines to changes.",
      SEM + ["src/parser/structure/", "src/structure.rs"], [("parse_act_structure", "src/parser/structure/act.rs"), ("Act::add_semantic_info", "src/parser/semantic_info/mod.rs"), ("Act::convert_block_amendments", "src/parser/structure/block_amendment.rs")],
      T, "The three steps composed: each gets what the one before it really gives. Oracle: the generator composes the whole act as data along with its lines.",
      "every act within 5 departures", "within 7 departures", **S)

    P("C38", "An element is called empty exactly when nothing is left in it",
      "A paragraph, point, subpoint, block amendment or structural amendment is called empty exactly when its text is empty, or it has no children, or all of its children are empty, however deep; text around the children does not count, and every quoted block counts as a child with content. Semantic information is empty exactly when it records nothing.",
      IN, "for every element with empty and non-empty texts, in lists up to the length bound at each level", "No test asks whether an element is empty.",
      ["src/structure.rs", "src/semantic_info.rs"], [("SubArticleElement::is_empty", "src/structure.rs"), ("ChildrenCommon::is_empty", "src/structure.rs"), ("SemanticInfo::is_empty", "src/semantic_info.rs")],
      T, "Articles inside a structural amendment are not looked into, as the code's own TODO says, and this is not asked.",
      "lists to length 2 at each level", "lists to length 3")

    P("C39", "An error about an element names that very element",
      "When a block amendment cannot be converted, or a visitor stops the walk of an act, the error names the article, paragraph, point and subpoint it happened in, and no other, together with the visitor's own message; when a fixup is refused, the error names the text it was to change, and when a quotation is closed that was never opened, the line. It is the first failing one in the order of the act or list that is reported.",
      IN, "for every choice of failing paragraphs, every call of the visitor, every list of fixups and every line, within the bound", "Tests ask whether there is an error, not what it says.",
      ["src/util/debug.rs", "src/structure.rs", "src/util/walker.rs", "src/fixups.rs", "src/parser/structure/block_amendment.rs", "src/util/mod.rs"],
      [("WithElemContext", "src/util/debug.rs"), ("DebugContextString", "src/structure.rs"), ("walk_saes", "src/util/walker.rs"), ("Fixup::apply", "src/fixups.rs"), ("QuoteCheck::update", "src/util/mod.rs")],
      T, "The wording is free: only which identifiers and texts occur in the error is judged.",
      "3 articles of 3 paragraphs, visitors on lists of 4 at each level, 5 fixups, 30 lines", "4 articles of 4 paragraphs")
