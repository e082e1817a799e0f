"""Configuration of the checks: units (contract files) and, per property, the units it rests on."""
UNITS = {
    "lex": {},
    "attr": {},
    "attrval": {},
    "leaf": {"args": ["--num-threads", "8"]},
    "html": {"args": ["--num-threads", "8"]},
    "tree": {"args": ["--num-threads", "8"]},
    "inline": {"args": ["--num-threads", "8"]},
}
P = {}
def prop(id, units, level, technique, note, **kw):
    P[id] = dict(units=units, level=level, technique=technique, note=note, **kw)

AV = ["AttributeKind::key", "Attributes::contains_key", "Attributes::get_value", "Attributes::unique_pairs", "<AttributePairsIter as Iterator>::next", "AttributeValue::extend", "AttributeValue::extend_raw"]
FOOT = ["Footnotes::reference", "Footnotes::start", "Footnotes::end", "Footnotes::current", "Footnotes::in_epilogue", "Footnotes::reference_encountered", "<Footnotes as Iterator>::next"]
def new(*cases):
    return "IdentifiedBlock::new ~ ^\\[case (%s)\\]" % "|".join(cases)
NUM = ["OrderedListNumbering::parse_number", "OrderedListStyle::number", "ListNumber::ambiguity", "ListType::alternative", "ListType::continues", "is_single_letter", "IdentifiedBlock::maybe_ordered_list_item",
    "IdentifiedBlock::maybe_ordered_list_item/is_roman_lower_digit", "IdentifiedBlock::maybe_ordered_list_item/is_roman_upper_digit"]
CONT = ["Parser::parse_container", "Parser::parse_container__close", "Parser::parse_container__open"]
STEP = ["Parser::resume_attributes", "Parser::parse_verbatim", "Parser::parse_attributes", "Parser::ahead_attributes", "Parser::parse_event", "Parser::merge_str_events", "Parser::apply_word_attributes",
    "Parser::new", "Parser::reset", "Parser::feed_line", "<Parser as Iterator>::next"]
LEAFI = ["Parser::parse_autolink", "Parser::parse_symbol", "Parser::parse_footnote_reference", "Parser::parse_atom"]
ORD = r" ~ in_order|ready|merged|wf\(|ord\(|rng_ok|bnd|last_ok|precondition|subtraction"
WR = ["write_text", "write_attr", "write_escape", "write_class"]
U = {
    "H01": {"html": WR + ["Renderer::render_event", "Renderer::render_epilogue", "Renderer::new"]},
    "H03": {"html": FOOT + ["Renderer::render_epilogue"]},
    "H04": {"html": [f + r" ~ failed\(\)|wrote\(" for f in WR + ["Renderer::render_event", "Renderer::render_epilogue", "Renderer::indent", "Renderer::block"]]},
    "H05": {"html": ["Renderer::indent", "Renderer::block", "Container::is_block", "Container::is_block_container"]},
    "P01": {"lex": "*", "attr": "*", "html": "*", "leaf": "*", "tree": "*", "inline": "*"},
    "P02": {"leaf": ["MeteredBlock::new"], "tree": "*", "inline": CONT + STEP + ["Parser::parse_autolink", "Opener::from_token", "Opener::closed_by", "<DelimEventKind as From<Opener>>::from"]},
    "P04": {"lex": "*", "inline": LEAFI + ["Parser::parse_verbatim", "Parser::merge_str_events", "Parser::apply_word_attributes", "Input::eat", "Input::reset_span", "Input::ahead_raw_format"]},
    "P06": {"leaf": [new("heading")], "tree": ["TreeParser::parse_leaf ~ ^\\[case section\\]"]},
    "P07": {"leaf": [new("def")]},
    "P08": {"leaf": NUM + [new("bullet", "colon", "other")]},
    "P11": {"leaf": [new("table"), "is_table_row"], "tree": ["TreeParser::parse_table"]},
    "P13": {"leaf": [new("quote")]},
    "P03": {"lex": "*", "inline": [f + ORD for f in CONT + LEAFI + STEP] + ["Input::eat", "Input::set_current_line", "Input::feed_line"]},
    "P09": {"lex": "*", "inline": ["Parser::parse_atom"]},
    "P10": {"lex": "*", "inline": ["Input::ahead_raw_format", "Parser::parse_verbatim"], "leaf": [new("tick", "tilde", "colon"), "Kind::continues"]}, "P12": {"attr": "*", "inline": ["Parser::apply_word_attributes", "Parser::merge_str_events"], "leaf": [new("attrs"), "is_name"]},
    "A01": {"attr": "*"}, "A02": {"attrval": AV}, "A03": {"attrval": ["AttributeValue::parts", "<AttributeValueParts as Iterator>::next"]},
}
# (what is proved, what only the bounded end-to-end check decides)
NOTES = {
    "A01": ("the conversion against a grammar given as a specification: success, elements, position of the first error", ""),
    "A02": ("the lookups against a specification over the list of elements", ""),
    "A03": ("the parts of a value concatenate to it without its escaping backslashes", ""),
    "P01": ("no panic, overflow, out-of-range slice or endless loop in lexer, attributes, block parser, renderer and inline parser (its loop over events excepted as to termination)", "lib.rs; both iterators give the same events"),
    "P02": ("the block events form one document tree obeying the content model, and the inline events of each block, from its first line to its end, are well-nested, for every text", "the two streams put together in lib.rs; lists and rows are not empty"),
    "P03": ("tokens tile their line; block spans lie on boundaries inside the source; the events that the inline parser has queued and hands out are in order, on boundaries inside the source, whatever the text", "order across blocks and lib.rs"),
    "P04": ("each token is the text its kind stands for; ranges and texts of autolinks, symbols, footnote references, dashes, ellipses, breaks, escapes, quotes and strings; joining of adjacent strings; verbatim", "attributes and block events"),
    "P05": ("", "all (spans are made in code not under contract)"),
    "P06": ("level of a heading; sections nest by level", "identifiers"),
    "P07": ("what is a definition, and its label", "resolution"),
    "P08": ("list markers, numbers and their alternatives; items match the class of their list", "start numbers and tightness end to end"),
    "P09": ("runs of hyphens and periods are maximal tokens, and what each run is converted to", "the same end to end"),
    "P10": ("verbatim mode and backtick runs, where verbatim text begins and ends and what is left out of it; formats of raw inline content; fences and their closing", "content end to end"),
    "P11": ("rows, separator cells, alignment of every cell, head rows", "the same end to end"),
    "P12": ("which text is attributes and what they are; the word that inline attributes belong to", "attachment to other elements"),
    "P13": ("what a quote marker is", "events equal those outside of the quote"),
    "H01": ("all text and attribute values pass through the escaping writers, whose output decodes to their input", "inline events of the parser"),
    "H02": ("", "all (nesting of tags is not a contract)"),
    "H03": ("numbers in order of first reference, each label listed once, in order", "the end notes end to end"),
    "H04": ("a failing destination ends rendering with its error", "equality of the interfaces in lib.rs"),
    "H05": ("depth of indentation, line breaks between blocks", "the outputs end to end"),
}
for i in ["P01","P02","P03","P04","P05","P06","P07","P08","P09","P10","P11","P12","P13","A01","A02","A03","H01","H02","H03","H04","H05"]:
    pr, bd = NOTES[i]
    note = ("Proved for all inputs (contracts on the extracted functions, Verus): " + pr + ". " if pr else "No contract within reach decides this property. ") + \
        ("Bounded (search with a stated budget, not proof): " + bd + "." if bd else "The bounded search only looks for concrete inputs.")
    prop(i, U.get(i, {}), "proof" if not bd else "other",
         "contract-based deductive verification (Verus) of the real functions" + (", with a bounded end-to-end check" if bd else "") if pr else "bounded end-to-end check of the compiled crate against an oracle", note)
PROPS = P
