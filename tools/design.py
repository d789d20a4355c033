"""Writes DESIGN.md from design_head.md, the table of properties, and design_tail.md."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
from meta import PROPS
D={
"C01":("Reference grammars for each text form (regular languages written out by hand), reference Roman numerals by subtraction tables, alphabets spelled out.","5 s"),
"C02":("Order: the position in an explicitly generated list of identifiers as an act would list them. Succession: a relation generated from the rules (next number; a→b, with digraphs cs, dz, … or without; 1→1a, 1z→2, …).","2 s"),
"C03":("A predicate on which of the five levels are present and which is a range; all builder call histories replayed on a small state machine (last level set, has range).","2 s"),
"C04":("An independent renderer of compact forms and citations; injectivity over the whole space by a global map.","3 s"),
"C05":("Denotational: a reference denotes an interval in the tree of elements; containment is interval inclusion.","4 s"),
"C06":("The same denotations; `relative_to`, `make_range`, `parent`, ends of ranges computed on label tuples.","6 s"),
"C07":("A line is a list of (character, position, bold); cutting and joining are list operations.","1 s"),
"C08":("Beginnings of texts that look like headers, titles, brackets and suffixes are enumerated beside the grammar of acts. The generator knows the act it spells out; the printer of the conventional layout (indentation, breaks, hyphenation, empty lines) is independent of the parser.","15 s"),
"C09":("Flattened text of the output (in reading order, identifiers re-rendered by the model of C01) must be the flattened text of the input.","20 s"),
"C10":("No panic, no worker death, no case over 20 s.","20 s"),
"C11":("Numbering judged by the succession model of C02.","20 s"),
"C12":("Differential inside one run: the act with the quotation replaced by a plain word must have the same structure; the quoted lines must be found, line by line, where they were put.","15 s"),
"C13":("The generator knows the elements quoted; idempotence is checked on each result.","13 s"),
"C14":("Generated issues know their acts and lines. For arbitrary line sequences: each result's lines are a contiguous run of the input minus page headers and footers, and lie after the header that names the act.","6 s"),
"C15":("Independent tables of ordinals, months and Roman numerals; all single-character misspellings (deletions, insertions, substitutions, exchanges).","2 s"),
"C16":("The page is generated from pieces placed at known coordinates; expected lines are computed from the coordinates alone. All permutations of the drawing order.","20 s"),
"C17":("A separate interpreter of the PDF operators (text and graphics state stack, matrices as 2x3 arrays), stepped along with the generated history.","35 s"),
"C18":("Tables of the standard encodings and glyph names typed in independently; the expected character is computed from the font dictionary generated.","2 s"),
"C19":("Fixups interpreted on plain strings: find all places whose context and text match; change them; error if none or ambiguous.","20 s"),
"C20":("Load the stored fixups with the real code, apply them to the raw body, and compare with what the scripted editor left in its file (parsed by the oracle). Every way of saving: in place, rename, truncate and rewrite, …","30 s"),
"C21":("What a fresh process loads afterwards must be the list before or after. Linearizability of concurrent save/load by comparison with all serial orders.","35 s"),
"C22":("The file in the cache must equal the bytes the server was going to send for that issue, or not exist. The server is the explorer's, on loopback, reached through `http_proxy`.","21 s"),
"C23":("Equality of the value read back, plus comparison of quoted lines character by character (the derived equality ignores positions).","4 s"),
"C24":("A renderer of unlimited width, independent of the code; narrower output compared without white space; every prefix failure of the target.","4 s"),
"C25":("A direct recursion over the value generated, forming positions as texts.","11 s"),
"C26":("Sentences are composed from their meaning; expected spans and references come out of the composition.","60 s"),
"C27":("A map of abbreviations, updated text by text; expected references from it.","15 s"),
"C28":("As C26, with the amendment as JSON.","12 s"),
"C29":("As C26.","20 s"),
"C30":("As C26.","6 s"),
"C31":("The meaning of the unbroken sentence (as composed), restricted to the pieces.","20 s"),
"C33":("The acts the issue was composed of; a small typesetter (breaking, indentation, justification, pages, PDF operators) stands between them and the code.","13 s"),
"C34":("The parsing steps called directly on the same issue file; lists, names, status and sessions from a model of the command line.","60 s"),
"C35":("For each operator, whether what it needs is there (stack depths, current font, resources), from a model of a few lines; everything else must merely end.","15 s"),
"C36":("The files read as plain YAML and CSV, Roman numerals by an own conversion.","1 s"),
"C37":("The whole expected act, composed by the generator as JSON along with the lines.","11 s"),
"C38":("Computed along with each enumerated element: does any text remain in it.","1 s"),
"C39":("The names on the path to the failing element, kept along with it; every word of the error is compared with the names of all elements.","1 s"),
"C32":("Well-formedness of the spans; no panic, no case over 20 s.","3 s"),
}
out=[]
for p in PROPS:
    if not p["claimed"]: continue
    o,c=D[p["id"]]
    out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n* Space: {p['text']}. Quick: {p['bounds']['quick']}. Thorough: {p['bounds']['thorough']}.\n* Oracle: {o}\n* Note: {p['note']} Cost: {c}. Beyond the tests: {p['why']}\n")
head = open(f"{HERE}/design_head.md", encoding="utf-8").read()
tail = open(f"{HERE}/design_tail.md", encoding="utf-8").read()
import glob, json, os
rows = []
for f in sorted(glob.glob(f"{HERE}/../seeded/*/meta.json")):
    m = json.load(open(f, encoding="utf-8"))
    rows.append(f"| {os.path.basename(os.path.dirname(f))}: {m['what_it_breaks']} | {m['needs']} | {m['property']} |")
tail = tail.replace("@SEEDED@", "\n".join(rows))
open(f"{HERE}/../DESIGN.md", "w", encoding="utf-8").write(head + "\n".join(out) + "\n" + tail)
