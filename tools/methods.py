# Deciding method and assurance of every check, for MANIFEST.json and DESIGN.md.
METHODS = {
"C01": ("property-based testing: generated cards rendered in random legal spellings, parsed and compared with the model", "Tens of thousands of generated cards over all property kinds, parameters and spellings, read field by field against the generating model."),
"C02": ("property-based testing of delimiter/escape strings against an independent splitter", "Dense sampling of delimiter and backslash adjacencies in all structured and list values, exact components expected."),
"C03": ("property-based testing of date/time texts against an independent calendar, with corrupted negatives", "Every spelling class, calendar and offset borders; negatives only of kinds that no leniency of the library covers."),
"C04": ("property-based testing: dense parameter sets in random spelling against the model", "All parameters on all properties, values compared exactly."),
"C05": ("property-based testing against an oracle table of VALUE x text class -> type or error", "Every VALUE on every property of several types with confusable texts."),
"C06": ("property-based testing: print/parse round trip of built cards plus independent strict RFC 6350 reader of the output", "Cards over the whole domain, equal after a round trip, and the printed text judged by a reader that shares no code with the library."),
"C07": ("mutation fuzzing with a round-trip oracle: accepted text -> print -> parse -> print", "Every accepted generated, unusual or edited text has to be a fixed point of printing and parsing."),
"C08": ("property-based testing: hostile texts injected, physical and logical lines of the output compared with a benign twin", "Every text slot of a card in turn; well-formedness of each line, fold and grapheme is checked on the bytes."),
"C09": ("metamorphic testing: random folds inserted into accepted and rejected texts", "Result with folds equals the result without, for strict, loose and iteration."),
"C10": ("metamorphic testing: line endings and blank lines changed", "Result equals that of the CRLF form, for strict, loose and iteration."),
"C11": ("metamorphic/model testing: letter case of all keywords randomised", "Data equals the model whatever the case of the keywords."),
"C12": ("fuzzing (structured generation, mutation, token sequences, long elements) with panic, overflow, abort and hang oracles", "Every public entry point under overflow checks with 64 MB stacks, and long elements in an unoptimised build with 8 MB; a process that dies is traced to its case."),
"C13": ("property-based testing: lines in error injected from a table of classes, loose result compared with the model of the other lines", "Lines of 78 kinds, single and several, anywhere in the card; random and edited lines judged by strict parsing."),
"C14": ("stateful property-based testing of the iterator against the list of generated good and bad cards", "Histories of next() over sequences of good and bad cards, past the end."),
"C15": ("property-based testing: repetitions of single- and multi-valued properties against the model", "All eight single-valued properties repeated in every manner, in one of several cards."),
"C16": ("property-based testing: FN, MEMBER and KIND combinations against the rule", "All entry points, strict and loose, and validate on built cards."),
"C17": ("property-based testing: one illegal parameter or its legal twin injected at random", "Each rule, on all properties, both directions."),
"C18": ("property-based testing: one control character injected at every kind of place", "Strict rejection and exact loose result, by place."),
"C19": ("property-based testing: all prefixes and structural edits of generated texts", "Every cut of small texts and random cuts of others; structure lines changed one at a time."),
"C20": ("property-based testing: near-miss values of every typed property, and exact numbers over their whole range", "Rejection strict, dropped loose; numbers compared bit for bit."),
"C21": ("property-based testing: printed dates, times and offsets read by an independent strict reader", "The denotation of the printed text equals the stored value, in its own kind."),
"C22": ("property-based testing: JSON round trips of generated cards", "Through JSON text, JSON value and lists; equality of data, of cards and of printed form."),
"C23": ("property-based testing with an instrumented allocator that scans freed memory for marked text", "Every block given back while a card, clone, property or modified card is dropped or zeroized; moved-out stack copies and buffers outgrown before the drop are out of scope."),
"C24": ("stateful property-based testing: builder call sequences against a model", "Whole card compared after any sequence of calls, then its round trip."),
"C25": ("property-based testing with an independent base64 encoder", "Any bytes, photos to skip and invalid ones mixed."),
"C26": ("property-based testing: display/parse round trips against standard spellings", "Each public value type, enumerations completely."),
"C27": ("metamorphic testing: concatenation of texts against their parts", "Strict and loose, with accepted and rejected parts."),
"C28": ("metamorphic testing: order of lines of different kinds permuted", "Acceptance and data equal to those of the lines alone."),
"C29": ("differential testing of five feature configurations in separate processes", "Same text to all builds; equal data and output, malformed media types and tags rejected with the feature only."),
"C30": ("model-based property testing of conversions", "Generated values through each conversion and constructor; the property equals the model and survives print and parse."),
"C31": ("metamorphic property testing of equality", "Pairs of cards that differ in one place or none; equality agrees with the models, in both directions."),
"C32": ("generated-input search against a growth-rate oracle (thread CPU time at two sizes)", "Repeated generated pieces at n and 8n bytes; the time ratio stays far below that of quadratic growth."),
"C33": ("fault-injection property testing", "One generated fault per text; the error is the documented variant and carries the offender."),
"C34": ("metamorphic and stateful testing over sequences, interleavings and threads", "The same texts parsed again in other orders, forms, interleavings and threads; identical results."),
"C35": ("property testing with injected writer failures", "Writers that fail at every kind of place; an error is returned and what was written is a prefix."),
"C36": ("mutation fuzzing of JSON with fixed-point and must-fail oracles", "Edited JSON of generated cards; error or a card whose JSON is a fixed point."),
}
