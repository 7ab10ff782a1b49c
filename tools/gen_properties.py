#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements are easy to review)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": None}})

prop("C01", "Tokenising is lossless: token texts concatenate to the input, in order",
 "For every list of input tokens, the texts of the line's tokens produced from one text input concatenate to exactly that text: no character is dropped, duplicated, altered or moved. Every custom input yields exactly one text-less token, and tokens appear in input order. No token has an empty text.",
 ["inputs"], "every list of text/custom inputs, every Unicode text",
 "Tests tokenise about a dozen ASCII sentences; the property is over all Unicode strings, including digit words mixed with letters, marks and punctuation.",
 ["src/create_tokens.rs"],
 [("split_word_bounds + digit-word re-splitting with two pending buffers", "src/create_tokens.rs create_tokens_for_string"), ("order-preserving push of every produced token", "src/create_tokens.rs create_line_from_input_tokens")],
 ["LLLine::ll_tokens", "LLLine::query text"])
prop("C02", "Token positions tile the line and are sized by the caller's size function",
 "The first token starts at position 0, every later token starts where the previous one ends, and a token's extent is the caller's size function applied to exactly that token's text (for custom tokens: the size given). Found spans are reported as the start position of their first token and the end position of their last token.",
 ["inputs"], "every input list and every size function",
 "One snapshot checks 13 ASCII tokens with one size function; custom tokens, multi-input lines and size functions that disagree with byte length are never measured.",
 ["src/create_tokens.rs", "src/ll_line.rs", "src/lib.rs"],
 [("running position counter", "src/create_tokens.rs create_line_from_input_tokens"), ("get_text_size on each piece", "src/create_tokens.rs create_tokens_for_string"), ("pos_start_at / pos_end_at", "src/ll_line.rs LLLine::find")],
 ["LLToken positions", "LLLineFind::range"])
prop("C03", "Tokens carry the documented text tag, and a char attribute iff one char long",
 "Every text token carries exactly one text tag: natural-number tokens contain only ASCII digits, space tokens only whitespace, punctuation tokens are exactly one of the eight documented characters, word tokens start with a letter and continue with letters, apostrophes (') or dashes (- and \u2013), and everything else is a symbol. A token additionally carries its character as a char attribute exactly when its text is a single character; custom tokens get neither.",
 ["inputs"], "every Unicode text",
 "Two unit tests call the classifiers on about 12 literals and never classify through the tokenizer; the class boundaries are over all of Unicode.",
 ["src/create_tokens.rs", "src/create_tokens/get_word_tag.rs", "src/ll_line.rs"],
 [("classifier ladder", "src/create_tokens/get_word_tag.rs get_unicode_word_tag, is_spaces, is_word"), ("buffer/tag pairing in digit words", "src/create_tokens.rs create_tokens_for_string"), ("automatic TextTag / char insertion", "src/ll_line.rs LLLine::new")],
 ["attributes TextTag and char on a fresh line"])
prop("C04", "Every stored attribute is reachable by every lookup route at exactly its span",
 "Whenever an attribute value is attached to a span, by any route (automatic, with an input token, by a resolver), it is afterwards found matching forwards from the span's first token, matching backwards from its last token, and by the whole-line query and display, always with that same span and never under another span or type. A span is listed once per type on each route, however many values it carries, and attributes supplied with an input token cover exactly the tokens of that input.",
 ["inputs", "histories"], "every sequence of attribute insertions on every line",
 "Tests look up mostly single-token spans through one route at a time; agreement between four parallel indexes over all insertion histories is never compared.",
 ["src/ll_line.rs", "src/type_id_to_many.rs", "src/create_tokens.rs"],
 [("four indexes updated together", "src/ll_line.rs LLLineAttrs::insert, LLLine::add_any_attrs"), ("distinct insertion", "src/type_id_to_many.rs")],
 ["match_forwards, match_backwards, query, LLLineDisplay"],
 [{"name": "ranges/starts_at/ends_at/values", "meaning": "attribute indexes", "where": "src/ll_line.rs LLLineAttrs"}])
prop("C05", "Running a resolver only adds: layers are never removed or altered",
 "Running a resolver keeps every token and every previously attached attribute unchanged and adds exactly the assignments the resolver returned, each on exactly the span of the selection it was finished from, in order. The resolver is given the whole line; on an empty line it is not invoked and the line is returned unchanged.",
 ["inputs", "histories", "programs"], "every line, every resolver, every chain of runs",
 "Tests chain at most three resolvers and display only some attributes; that nothing else is lost or moved holds over all chains.",
 ["src/ll_line.rs", "src/ll_line/ll_selection.rs", "src/ll_line/finish_with.rs", "src/type_bucket.rs", "src/type_id_to_many.rs"],
 [("consume-run-reinsert", "src/ll_line.rs LLLine::run"), ("append-only containers", "src/type_bucket.rs, src/type_id_to_many.rs"), ("assignment carries the selection's span", "src/ll_line/ll_selection.rs finish_with_attr, src/ll_line/finish_with.rs")],
 ["LLLine::run"])
prop("C06", "A selection is always a non-empty in-bounds span of its own line",
 "Every selection obtainable through the public API, from any line and through any chain of operations with any matcher built from the library's pieces, covers at least one token, lies within its line, and refers to the same line as the selection it was derived from. Combining selections of two different lines is refused rather than answered.",
 ["inputs", "programs", "histories"], "every line, matcher and chain of selection operations",
 "Tests apply single operations to whole-line selections of five strings; the invariant is over every operation applied at every position, in particular at the line's first and last token.",
 ["src/ll_line/ll_selection.rs", "src/ll_line.rs", "src/ll_line/x.rs"],
 [("bounds guards before every construction", "src/ll_line/ll_selection.rs"), ("clamping", "src/ll_line/ll_selection.rs selection_from"), ("bounded direction stepping", "src/ll_line/x.rs after")],
 ["LLSelection"])
prop("C07", "Selection operations return exactly the documented spans",
 "Extending forwards (backwards) keeps the selection's own start (end), starts matching at the adjacent token and yields one result per match; finding tries every token of the selection as a start; the 'after' selection is exactly the rest of the line, absent when there is none. Splitting returns, in order, every maximal run of the selection's tokens not covered by a match (or by the other selection), and trimming removes exactly the first match at the requested ends, yielding nothing when no token is left.",
 ["inputs", "programs"], "every selection, matcher and operation",
 "Snapshot tests cover single-token, non-overlapping matches on whole-line selections; overlapping or multi-token matches, sub-selections and line edges are not reached.",
 ["src/ll_line/ll_selection.rs"],
 [("match_forwards/backwards, find_by, find_by_forwards_and_backwards, first variants", "src/ll_line/ll_selection.rs"), ("split_by, split_with, after, selection_from", "src/ll_line/ll_selection.rs"), ("trim_selection", "src/ll_line/ll_selection.rs")],
 ["LLSelection methods"])
prop("C08", "Basic matchers report all and only what is anchored at the position",
 "Going forwards (backwards) from a token, an attribute matcher reports every value of its type, once per attachment, whose span begins (ends) exactly at that token, and the span's other end as the place the match reaches. The equality matcher keeps exactly the values equal to the given one, the token-set matcher exactly the single-token values contained in the set, and the text matcher exactly the text of the token itself; none of them reports or fails on tokens without attributes or text.",
 ["inputs", "programs"], "every line, position, direction, attribute type and value",
 "Tests use single-token TextTag/char attributes; multi-token spans, several values per span and custom tokens are not exercised, and the two directions are never compared.",
 ["src/ll_line/x.rs", "src/ll_line/x/attr.rs", "src/ll_line/x/attr_eq.rs", "src/ll_line/x/token_has_any.rs", "src/ll_line/x/token_text.rs", "src/ll_line/x/functions.rs"],
 [("index lookups per direction", "src/ll_line/x.rs impl XDirection for XForwards / XBackwards"), ("thin matcher wrappers", "src/ll_line/x/*.rs")],
 ["XMatch::go results via find_by / match_forwards / match_backwards"])
prop("C09", "Combinators: sequences are adjacent, 'all' agrees, 'any of' takes the first",
 "A sequence matcher yields every combination in which each part begins at the token adjacent to where the previous part ended, in the direction of travel, and reaches where the last part ended. An 'all' matcher yields every combination of parts that start and end at the same tokens; an 'any of' matcher yields all results of its first alternative that has any, tagged with that alternative. Outputs appear in the order of the parts, for two and three parts alike.",
 ["inputs", "programs"], "every nesting of matchers, every line and direction",
 "Only two-part sequences and a two-part 'all' of single-token attributes are tested; three-part forms and parts with several results are not run at all.",
 ["src/ll_line/x/seq.rs", "src/ll_line/x/all.rs", "src/ll_line/x/any_of.rs", "src/ll_line/x.rs"],
 [("Seq2/Seq3", "src/ll_line/x/seq.rs"), ("All2/All3", "src/ll_line/x/all.rs"), ("AnyOf2/AnyOf3", "src/ll_line/x/any_of.rs"), ("direction stepping", "src/ll_line/x.rs after")],
 ["x::seq, x::all, x::any_of"])
prop("C10", "No input text makes the library or its bundled resolvers panic",
 "For every line built from non-empty text and custom tokens, building the line, running any of the bundled resolvers, querying, displaying and applying every selection operation with any bundled matcher complete without panicking. The only refusals are the documented ones: an empty text input, selections of two different lines combined, a resolver that keeps hold of its selection, and assignments not made from the resolver's own selection.",
 ["inputs", "programs"], "every Unicode text, every mix of text and custom tokens, every bundled resolver and configuration",
 "A panic needs one unusual input (a non-ASCII letter after a digit, a 30-digit number, a custom token without attributes); tests contain none.",
 ["src/create_tokens.rs", "src/create_tokens/get_word_tag.rs", "src/ll_line.rs", "src/ll_line/ll_selection.rs", "src/ll_line/x.rs", "src/ll_line/display.rs", "src/type_bucket.rs", "src/resolvers/text_match.rs", "layered-amount/src/amounts.rs", "layered-clauses/src/clauses.rs", "layered-part-of-speech/src/lib.rs"],
 [("guards before every index, subtraction and unwrap", "all listed files")],
 ["whole public API"])
prop("C11", "Results are deterministic: same input and layers, same output, everywhere",
 "Building a line, running the bundled resolvers, matching, querying and displaying give the same values in the same order in every process and on every run, and matching or displaying a line changes nothing about it. Nothing depends on hash iteration order, time, environment, addresses, randomness or hidden shared state.",
 ["inputs", "configurations", "schedules", "histories"], "every input and every process (hash seed), any number of repetitions",
 "Hash seeds differ per process; a test that happens to see one order passes.",
 ["src/type_bucket.rs", "src/type_id_to_many.rs", "src/ll_line.rs", "src/resolvers/text_match.rs", "layered-amount/src/amounts.rs", "layered-clauses/src", "layered-part-of-speech/src/lib.rs"],
 [("hash maps are only looked up by key, never iterated into results", "src/type_bucket.rs, src/type_id_to_many.rs, src/resolvers/text_match.rs"), ("shared references without interior mutability", "src/ll_line.rs")],
 ["all query results"])
prop("C12", "Lines cross threads; only safe, library-made spans and Send+Sync attributes",
 "A finished line can be sent to and shared between threads, and every attribute stored in one is required by the type system to be debuggable, Send, Sync and 'static. Code outside the library cannot fabricate line tokens, match end points, selections or assignments, nor mutate a line other than by running a resolver, and the library contains no unsafe code.",
 ["programs", "schedules"], "every program that uses the library",
 "It is a statement about programs that must not compile; no test contains one.",
 ["src/lib.rs", "src/ll_line.rs", "src/ll_line/ll_selection.rs", "src/ll_line/x.rs", "src/ll_line/x/attr.rs", "src/type_bucket.rs"],
 [("Send + Sync bounds on buckets and on Resolver::Attr", "src/type_bucket.rs, src/ll_line.rs"), ("private fields", "src/ll_line.rs, src/ll_line/ll_selection.rs, src/ll_line/x.rs")],
 ["the public type signatures"])
prop("C13", "Display prints all tokens and each included attribute once, under its span",
 "The display's first row is every token's text in order (a placeholder for custom tokens) with the same padding between neighbours. Below it there is exactly one row per value of each included type, carrying the value's debug text, indented to the column where the span's first token starts and underlined to the column where its last token ends. Types not included do not appear.",
 ["inputs", "histories"], "every line, every set of included types",
 "Snapshots show single-width text only, and only a few type combinations.",
 ["src/ll_line/display.rs", "src/type_bucket.rs", "src/lib.rs"],
 [("token column tables", "src/ll_line/display.rs fmt"), ("collecting rows", "src/ll_line/display.rs include, src/type_bucket.rs get_debug")],
 ["Display of LLLineDisplay"])
prop("C14", "Whole-line queries return every match with its exact span and text",
 "Searching a line tries the matcher at every token and returns every result with its value and its position span. Querying a type returns each span carrying that type exactly once, with its token indexes, the concatenated text of exactly its tokens (custom tokens contribute nothing), and all values of the type on it in insertion order.",
 ["inputs", "histories"], "every line, matcher, type",
 "Neither call is exercised by any test.",
 ["src/ll_line.rs", "src/type_bucket.rs", "src/type_id_to_many.rs"],
 [("LLLine::find", "src/ll_line.rs"), ("LLLine::query", "src/ll_line.rs")],
 ["LLLine::find", "LLLine::query", "LLLineFind::range/attr"])
prop("C15", "Dictionary resolver: assigns all of a key's values to exactly its tokens",
 "The text-dictionary resolver assigns to each text token, on that single token, every value stored for a key equal to the token's text, and nothing to other tokens. In the case-insensitive forms both sides are compared lower-cased, and keys that become equal contribute all of their values.",
 ["inputs", "configurations"], "every dictionary and every line",
 "One test uses four distinct keys with one value each, case-insensitively only.",
 ["src/resolvers/text_match.rs"],
 [("lookup by token text", "src/resolvers/text_match.rs go"), ("key normalisation", "src/resolvers/text_match.rs constructors")],
 ["TextMatchAssignResolver"])
prop("C16", "Part-of-speech resolver tags every word token, and only word tokens",
 "Every token tagged as a word receives, on that single token, every part-of-speech tag the lexicon lists for its lower-cased text, or exactly Noun when the lexicon does not know it; no other token receives any.",
 ["inputs"], "every line",
 "Only a handful of known English words are looked up in tests; the unknown-word and non-word cases are not.",
 ["layered-part-of-speech/src/lib.rs"],
 [("match on the word tag, lexicon lookup with default", "layered-part-of-speech/src/lib.rs go")],
 ["POSTagResolver"])
prop("C17", "Amounts start and end on number tokens and spell exactly their digits",
 "Every amount starts and ends on a number token (never on a delimiter or decimal mark), amounts never overlap, and each number token is part of an amount that fits the decimal type. From left to right, an amount takes every further number token joined by exactly one delimiter token, and then at most one more joined by the decimal mark or directly adjacent (delimiters and mark are not digits). The value is the concatenation of the digits of the amount's number tokens with delimiters dropped and a decimal point where the configured decimal mark stood between two number tokens. The English preset uses ',' and ''' as delimiters and '.' as decimal mark; the French one ' ', '.' and ''' with ','.",
 ["inputs", "configurations"], "every line, every delimiter set and decimal mark",
 "Three sentences with custom configurations are tested; the presets, chains of delimiters and trailing marks are not.",
 ["layered-amount/src/amounts.rs"],
 [("scan loop with last valid selection", "layered-amount/src/amounts.rs go"), ("presets", "layered-amount/src/amounts.rs english, french")],
 ["AmountResolver"])
prop("C18", "Clause layers: fixed keyword table and total clause classification",
 "The keyword resolver marks a token exactly when its lower-cased text is in one of the three lists, as condition start, then or and (in that order of precedence). The clause resolver cuts the line at keywords and punctuation and labels every non-blank piece, trimmed of one white-space token at each end: after a condition keyword Condition, after 'then' TrailingEffect, otherwise TrailingEffect or LeadingEffect according to whether a condition clause came before; a line with a single piece not opened by a condition keyword is Independent.",
 ["inputs", "configurations"], "every line and keyword configuration",
 "Nine sentences cover some rows of the decision table.",
 ["layered-clauses/src/clause_keyword.rs", "layered-clauses/src/clauses.rs"],
 [("keyword ladder", "layered-clauses/src/clause_keyword.rs go"), ("split, trim, classify", "layered-clauses/src/clauses.rs go")],
 ["ClauseKeywordResolver, ClauseResolver"])
prop("C19", "Typed attribute containers never mix types and keep insertion order",
 "A value stored in a type-keyed attribute container is returned exactly by lookups of its own concrete type, together with all other values of that type in insertion order, and never by lookups of another type; this holds for both ways of inserting. A prepared attribute reports its value's type, yields the value when extracted as that type, and is handed back intact when extracted as any other.",
 ["inputs", "histories", "programs"], "every set of types and insertion history",
 "One test inserts two types by one of the two routes.",
 ["src/type_bucket.rs", "src/type_id_to_many.rs"],
 [("TypeId key and Vec<T> built from the same T", "src/type_bucket.rs AnyAttribute::new, TypeBucket::insert/get/get_debug"), ("append", "src/type_bucket.rs insert_any")],
 ["TypeBucket, AnyAttribute"])
prop("C20", "Every operation terminates",
 "Building, matching, splitting, displaying and every bundled resolver finish on every line: each loop consumes a finite input or strictly advances through the line on every pass, and there is no recursion other than into nested matchers.",
 ["inputs"], "every line and configuration",
 "A scan that fails to advance only shows on the input that stalls it.",
 ["layered-amount/src/amounts.rs", "src/create_tokens.rs", "src/create_tokens/get_word_tag.rs", "src/ll_line/ll_selection.rs", "src/ll_line/display.rs"],
 [("search range strictly shrinks", "layered-amount/src/amounts.rs go"), ("iteration over finite collections", "everywhere else")],
 ["whole public API"])
prop("C21", "Word boundaries are those of the Unicode text segmentation standard",
 "Outside words that start with a digit, token boundaries are exactly the word boundaries of Unicode Standard Annex 29.",
 ["inputs"], "every Unicode text",
 "Tests contain a few European-language sentences.",
 ["src/create_tokens.rs"],
 [("delegation to the unicode-segmentation crate", "src/create_tokens.rs create_tokens_for_string")],
 ["LLLine::ll_tokens"])
prop("C22", "An amount's value is the number its notation denotes in the locale",
 "For every numeral written in the conventions of the chosen preset, the amount attached to it is numerically equal to the number a reader of that locale would understand.",
 ["inputs"], "every numeral of the locale",
 "Three sentences are tested.",
 ["layered-amount/src/amounts.rs"],
 [("digit collection and decimal parsing", "layered-amount/src/amounts.rs go")],
 ["Amount::get_decimal"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
