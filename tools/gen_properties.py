#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

PA, PR, PM, VC, HE, IT, BU, LI, DT, SE, UR = ["src/%s.rs" % x for x in
  "parser property parameter vcard helper iter builder lib date_time serde uri".split()]

p("C01", "A well-formed vCard decodes to exactly the data it describes",
  """For every well-formed vCard 4.0 (or 3.0) text of the supported syntax (RFC 6350 properties, groups, parameters with quotes around a whole value, X- extensions), in whichever legal spelling, parsing succeeds and yields a card holding exactly the
  described properties: every value, group, parameter and repetition is present once, in the right field, with the right type, and nothing else is.
  No property, component, character or parameter is dropped, duplicated, reordered within its kind, or moved to another property.""",
  ["inputs"], """all cards over all 37 property kinds and X- extensions, all parameters, groups, arbitrary Unicode text, and all legal spellings
  (escapes, quoting, letter case, folding, line endings, parameter and property order, date/time forms)""",
  "the tests read a few dozen hand-written cards with one or two properties each; combinations of kinds, parameters, escapes and spellings are not sampled",
  [PA, PR, PM, VC], [("token lexer and property dispatch", PA), ("FromStr of the value types", PR)], ["vcard4::parse", "public fields of Vcard"])

p("C02", "Structured and list values split only at unescaped delimiters",
  """N, ORG and ADR split at unescaped semicolons, CATEGORIES and list-valued typed extensions at unescaped commas, GENDER and CLIENTPIDMAP at their first semicolon;
  an escaped delimiter, an escaped backslash in front of a delimiter, empty components and the other delimiter character stay data of their component.
  The number, order and content of the components are exactly those written, and printing and re-reading them keeps them.""",
  ["inputs"], "all component lists whose components are arbitrary text rich in backslashes, commas, semicolons and newlines, including empty components",
  "the tests use components without escapes; whether delimiter recognition and unescaping interact correctly depends on every adjacency of backslashes and delimiters",
  [PA, PR, LI], [("splitting on the raw value, then unescaping", LI), ("Display of TextListProperty and DeliveryAddress", PR)],
  ["vcard4::parse", "DeliveryAddress::from_str", "Vcard::to_string"])

p("C03", "Date and time texts decode to the calendar value they denote or are rejected",
  """Every supported spelling of a date, time, UTC offset, date-time, date-and-or-time, timestamp (and comma separated lists of them) decodes to exactly the
  year, month, day, hour, minute, second and signed offset it denotes, with omitted leading parts 0000/01/00 and an omitted zone meaning UTC.
  Values that denote no calendar date, clock time or offset (month 13, 30 February, hour 25, minute 60, missing sign, trailing garbage) are rejected.""",
  ["inputs"], "all years 0000-9999, all months and days including leap days, all times of day, all offsets up to 23:59 on both sides of zero, all spellings, near-miss malformed spellings, through the helper functions and through BDAY, ANNIVERSARY, REV, TZ and typed extensions",
  "existing property tests cover days up to 28, and only check that offsets have some sign; leap rules, offset values and rejection are not settled by examples",
  [HE, PR, PA], [("parse_date, parse_time, parse_date_time, parse_timestamp, parse_utc_offset", HE), ("DateAndOrTime::from_str", PR)],
  ["vcard4::helper::*", "vcard4::parse"])

p("C04", "Parameters decode to exactly the values given",
  """Every parameter of a property (LANGUAGE, VALUE, PREF, ALTID, PID, TYPE, MEDIATYPE, CALSCALE, SORT-AS, GEO, TZ, LABEL, ENCODING, X-) is decoded to exactly the value written,
  quoted or unquoted, with its escapes undone and its list split at unescaped commas, independently of the other parameters, of their order and of the property value.
  A repeated TYPE accumulates in order, a quoted value may hold colons, semicolons and commas, and CHARSET=UTF-8 is accepted and ignored.""",
  ["inputs"], "all subsets and orders of parameters on all properties that allow them, with arbitrary text values, in quoted and unquoted spellings",
  "the tests set one parameter at a time with plain values",
  [PA, PM], [("parse_parameters and parse_parameter_value", PA), ("FromStr of Pid, TypeParameter, ValueType", PM)], ["vcard4::parse", "Parameters"])

p("C05", "The VALUE parameter decides the type of a value",
  """For properties with more than one value type the VALUE parameter alone decides the type: VALUE=text keeps text even when it looks like a URI or a date, VALUE=uri, utc-offset,
  date-and-or-time and, for extensions, every other type yields that typed value; without VALUE the documented default applies (URI if the text is one for TEL, RELATED, UID, KEY and PHOTO,
  date-and-or-time for BDAY and ANNIVERSARY, text for TZ and extensions).
  A VALUE that the property does not support, or a value that does not match its declared type, is an error and never a silently different type.""",
  ["inputs"], "all combinations of TEL, RELATED, UID, KEY, PHOTO, BDAY, ANNIVERSARY, TZ and X- properties, VALUE types and texts that are valid for one or several types",
  "the tests pair each VALUE with one matching literal; confusable texts (URI-like text, digits that are dates) are not sampled",
  [PA, PR], [("parse_text_or_uri, parse_date_time_or_text, extension dispatch", PA)], ["vcard4::parse"])

p("C06", "A card built through the API survives printing and parsing",
  """For every valid card built from the public types, printing succeeds and parsing the printed text yields an equal card (including offsets and parameter values), and an independent RFC 6350 reader of the
  printed text sees exactly the same properties, parameters and values.
  The domain is the values a vCard can represent: text without control characters other than tab and newline, parameter text without double quotes, whole seconds and minutes, years 0000-9999, lists that are not empty.""",
  ["inputs"], "all valid Vcard values over all property kinds, parameters, groups and arbitrary Unicode text in every text position",
  "the tests print cards they parsed from plain texts and one builder example; special characters in API-supplied values, long lines and their combinations are not reached",
  [VC, PR, PM, LI], [("Display of Vcard and of every property", VC), ("escape_value, write_value, fold_line", LI)], ["Vcard::to_string", "vcard4::parse"])

p("C07", "Printing an accepted text and parsing it again changes nothing",
  """Whenever parsing (strict or loose) accepts a text, printing each resulting card and parsing that output in strict mode succeeds and yields an equal card, and printing that again yields byte-identical output.
  The only exception is precision the printed form cannot carry (fractions of a second, a double quote next to a colon in the types of a property).""",
  ["inputs"], "every accepted text, including lenient, unusual and mutated texts far from the generator's idea of a well-formed vCard",
  "the tests assert the round trip on the fixed examples only",
  [PA, VC, PR, PM], [("parser and Display being inverse on accepted values", PA + ", " + PR)], ["vcard4::parse", "vcard4::parse_loose", "Vcard::to_string"])

p("C08", "Printed cards are well-formed and values cannot inject content",
  """The printed form is BEGIN:VCARD, VERSION:4.0, one content line per property, END:VCARD, every line ended by CRLF and no other CR or LF; no physical line exceeds 75 octets unless a single grapheme does not fit,
  continuation lines start with one space, and no fold splits a grapheme cluster.
  No value, parameter value or list item, whatever text it holds (newlines, CR, delimiters, quotes in values, text that looks like vCard lines), adds, removes or alters another property, parameter or component.""",
  ["inputs"], "all valid cards with hostile text in every text position and with line lengths around the fold limit, in every script",
  "two fold tests on fixed strings; injection is not tested",
  [VC, PR, PM, LI], [("fold_line", VC), ("escape_value", LI), ("write_value", PM)], ["Vcard::to_string"])

p("C09", "Folding is transparent anywhere in a line",
  """Inserting folds (CRLF or LF followed by one space or tab) at any positions inside the content lines of a text, including inside names, parameters, quoted values and escape sequences, does not change the result of parsing it;
  only the single white space character of the fold is removed.""",
  ["inputs"], "all texts and all sets of fold positions, in strict, loose and iterator parsing",
  "three fold tests fold between words of an FN value",
  [PA], [("unfold before tokenising", PA)], ["vcard4::parse", "vcard4::parse_loose", "vcard4::iter"])

p("C10", "Line endings and surrounding blank lines do not matter",
  """A text parses to the same result whether its lines end in CRLF, LF or any mixture, with or without a final line ending, and with any number of blank lines before, between and after the cards, in parsing and in iteration.""",
  ["inputs"], "all texts, all assignments of line endings per line, any blank lines around cards",
  "fixtures use one convention per file",
  [PA, IT], [("NewLine token", PA), ("parse and parse_next skipping newlines", PA + ", " + IT)], ["vcard4::parse", "vcard4::iter"])

p("C11", "Names and keywords are case-insensitive",
  """BEGIN, VERSION, END, property names, parameter names, VALUE types, the TYPE values the library knows and boolean values mean the same in any mixture of letter cases, on every property and with or without a group,
  while the case of text values, group names, extension names and unknown TYPE values is preserved.""",
  ["inputs"], "all well-formed texts and all case assignments of the case-insensitive words",
  "the tests write names in upper case except for a few",
  [PA, PM], [("case-insensitive token patterns", PA), ("FromStr of the keyword types", PM)], ["vcard4::parse"])

p("C12", "No input makes the library panic",
  """No text makes parse, parse_loose, the iterator, the public FromStr implementations and helper functions panic, overflow or abort; each returns a value or an error.
  Every card they return can be printed, cloned, compared, validated, searched for photos and dropped without a panic, and iteration ends after at most as many items as the text has lines.""",
  ["inputs"], "all Unicode strings: random, token soups, and mutations of real vCards, up to long values (optimised builds; see DESIGN.md for unoptimised builds)",
  "a handful of malformed literals and random strings for three helpers",
  [PA, HE, PR, PM, IT, VC], [("Result-returning parsers", PA), ("helper parsers slicing strings", HE)], ["all public entry points"])

p("C13", "Loose parsing drops exactly the properties that are in error",
  """parse_loose gives the same cards as parse on every text parse accepts; when some property lines of a card are in error for any reason (unknown name, malformed or forbidden parameter, malformed value, control character, repeated
  single property, misplaced VERSION, missing delimiter) it yields the card made of exactly the other lines, losing and altering none of them.
  An unknown VALUE type is ignored with the property kept, and cards whose structure (BEGIN, VERSION, END) or mandatory content is broken are still errors.""",
  ["inputs"], "all texts mixing correct property lines with lines in error of every class, at every position",
  "one test with a duplicated KIND",
  [PA], [("parse_properties skipping to the end of the line", PA)], ["vcard4::parse_loose", "vcard4::parse", "vcard4::iter"])

p("C14", "Iteration yields the same cards as parsing and isolates bad cards",
  """On a text parse accepts the iterator yields exactly the parsed cards in order and then ends for good; Vcard::try_from yields the first of them.
  On a text where some cards are malformed or invalid it yields every well-formed card, in order and unaltered, and at least one error at the place of each run of bad ones, and it always ends; Vcard::try_from is an error exactly when the first card, read strictly, is bad.""",
  ["inputs", "histories"], "all sequences of well-formed, malformed, truncated and invalid cards, blank lines and junk between them, strict and loose, pulled to the end and beyond",
  "the tests iterate over one or two good cards and one truncated one",
  [IT, PA, VC], [("offset bookkeeping and skip to the next BEGIN", IT)], ["vcard4::iter", "VcardIterator::next", "Vcard::try_from"])

p("C15", "Single-valued properties are enforced, multi-valued ones keep every occurrence",
  """KIND, N, BDAY, ANNIVERSARY, GENDER, PRODID, REV and UID may occur once per card: a second occurrence, adjacent or not, in any case, group or value, is an error in strict mode and ignored in favour of the first in loose mode.
  Every other property may repeat any number of times and all occurrences are kept in order; limits never leak from one card of a text to the next.""",
  ["inputs"], "all cards and all placements of repeated occurrences of every property kind, several cards per text",
  "one literal per property with the two occurrences adjacent",
  [PA], [("OnlyOnce guards", PA)], ["vcard4::parse", "vcard4::parse_loose"])

p("C16", "Only valid cards are accepted: FN present, MEMBER only in groups",
  """A parsed or iterated card always has at least one FN and has MEMBER only when its KIND is group, wherever in the card these properties stand; otherwise the result is an error, in strict and in loose mode, from parse, iter and try_from.
  Vcard::validate accepts a card exactly when these two rules hold.""",
  ["inputs"], "all cards with and without FN, KIND of every value and MEMBER, in every order, several cards per text",
  "three literals",
  [VC, PA, IT], [("Vcard::validate", VC), ("calls after parse_one", PA + ", " + IT)], ["Vcard::validate", "vcard4::parse", "vcard4::iter"])

p("C17", "Parameters are checked: range, allowed property, form",
  """A property is rejected in strict mode when PREF is not an integer from 1 to 100, PID is not digits[.digits], TYPE is on a property that may not have it, LABEL is not on ADR, GEO is not a quoted URI, a quoted TZ is not a URI,
  CHARSET is not UTF-8, VALUE is unknown, CLIENTPIDMAP has a PID, or the parameter name is unknown; the same parameter in its legal form and place is accepted.""",
  ["inputs"], "all parameters times all properties times legal, boundary and illegal values, alone and next to other parameters",
  "one literal per error",
  [PA, PM], [("checks in parse_parameters", PA), ("TYPE_PROPERTIES", PM)], ["vcard4::parse"])

p("C18", "Control characters are rejected",
  """A control character (U+0000-U+001F except tab and line endings, a carriage return not followed by a line feed, U+007F) anywhere in a property, in its name, parameter or value, quoted or not, makes strict parsing fail and makes loose parsing drop that property;
  it never reaches the data of a card, nor does a raw line ending inside a parameter value.""",
  ["inputs"], "all control characters at all positions of all property lines",
  "two literals",
  [PA], [("Control token and check in parse_parameter_value", PA)], ["vcard4::parse", "vcard4::parse_loose"])

p("C19", "Card structure is enforced and truncation is detected",
  """Every card must be BEGIN:VCARD, then VERSION:3.0 or VERSION:4.0, then properties, then END:VCARD; a text with a missing, misspelt, misplaced or repeated one of these, with junk outside cards, with an empty line inside a card, or without any card is an error in strict mode.
  Every proper prefix of a text that ends inside a card is an error in strict and in loose mode, so a truncated file is never taken for a complete one.""",
  ["inputs", "crash_points"], "all valid texts, all truncation points, all removals, repetitions, moves and misspellings of the structural lines",
  "a few literals; truncation at line ends inside a card was accepted and no test noticed",
  [PA], [("parse, parse_one, parse_properties", PA)], ["vcard4::parse", "vcard4::parse_loose", "vcard4::iter"])

p("C20", "Malformed typed values are rejected",
  """A value that does not have the syntax of its property (KIND, GENDER sex, ADR with fewer than seven components, CLIENTPIDMAP without positive integer or URI, URI-valued properties, and extensions typed integer, float, boolean, date, time, date-time, timestamp, uri or utc-offset) is an error in strict mode
  and is never coerced to another value; integers and floats decode to exactly the number written, over the whole range of their type.""",
  ["inputs"], "all values of each syntax, boundary values, and near misses",
  "one bad literal for some of them",
  [PA, PR, HE], [("FromStr of Kind, Gender, Sex, DeliveryAddress, ClientPidMap", PR), ("parse_integer_list and friends", HE)], ["vcard4::parse", "vcard4::helper::*", "FromStr"])

p("C21", "Printed dates, times and offsets denote the stored value",
  """Printing a date, time, date-time, timestamp or UTC offset, alone or in a list, in a property or in a TZ parameter, produces a valid RFC 6350 text that denotes exactly the stored year, month, day, hour, minute, second and signed offset, in its own kind (a time is not readable as a date).""",
  ["inputs"], "all years 0000-9999, all days, all times to the second, all whole-minute offsets up to 23:59 on both sides of zero, lists of mixed kinds",
  "a few literals with whole-hour offsets",
  [HE, PR, PM], [("format_date, format_time, format_date_time, format_utc_offset", HE), ("Display of DateAndOrTime and UtcOffsetProperty", PR)], ["Vcard::to_string", "Display"])

p("C22", "Serialized cards deserialize to equal cards",
  """With the serde feature every valid card serializes to JSON and deserializes to an equal card: every property, parameter, group, delimiter and value keeps its content and its type (text or URI or offset, date or date-time or time, integer or float), and absent fields stay absent.
  The domain is that of C06 with finite floats, where a value whose type is not the default for its property carries its VALUE parameter.""",
  ["inputs", "configurations"], "all valid cards over all property kinds, value types and parameters, with the serde feature alone and together with mime and language-tags",
  "the tests round trip their literals with all features on; 17 of them failed at the pinned commit",
  [PR, PM, DT, SE, VC], [("derive(Serialize, Deserialize), untagged enums, From conversions", PR), ("Date and DateTime FromStr", DT)], ["serde_json::to_string", "serde_json::from_str"])

p("C23", "Dropping or zeroizing a card erases its private text from memory",
  """With the zeroize feature, when a card is dropped no text of the card (property values, components, groups, parameters, extension names and values) is left in memory the card owned;
  only the documented external types (URI, time types, language tag, mime) are exempt.
  This holds for cards that were parsed, built, cloned or modified, including replaced and truncated contents of the fields at drop.
  Calling zeroize() on a card or on a property erases the same text at once, and leaves a card that equals an empty one.""",
  ["inputs", "histories"], "all cards over all property kinds and parameters with marked text in every text position, however the card came about",
  "no test looks at memory after drop",
  [VC, PR, PM], [("derive(Zeroize, ZeroizeOnDrop) with skip attributes", PR + ", " + PM + ", " + VC)], ["freed heap blocks"])

p("C24", "The builder sets exactly what it is told",
  """A card produced by any sequence of builder calls holds exactly what a plain model of those calls holds: single-valued setters keep the last value, the others append in call order, the formatted name comes first, an unparsable gender changes nothing, and no call affects another field.
  The result prints and parses back to an equal card whenever it is valid and its telephone texts are not URIs.""",
  ["inputs", "histories"], "all sequences of builder calls with arbitrary values",
  "one sequence with every method once",
  [BU], [("VcardBuilder methods", BU)], ["VcardBuilder", "public fields of Vcard"])

p("C25", "Embedded JPEG photos are extracted exactly",
  """parse_photo_jpeg returns, in order, exactly the decoded bytes of the photos given as text with ENCODING=b as first extension parameter and JPEG as first TYPE (in any letter case, as TYPE=JPEG;ENCODING=b or in the other order), for any bytes, folded or not; it skips all other photos and reports invalid base64 as an error.""",
  ["inputs"], "all byte strings, all numbers and orders of JPEG, other and URI photos, all parameter spellings",
  "one embedded fixture",
  [VC, PA], [("Vcard::parse_photo_jpeg", VC)], ["Vcard::parse_photo_jpeg"])

p("C26", "Text conversion of the public value types is lossless",
  """For Uri, Date, DateTime, DateAndOrTime, UtcOffsetProperty, DeliveryAddress, ClientPidMap, Gender, Sex, Kind, Pid, TypeParameter, TelephoneType, RelatedType and ValueType, parsing the displayed form of any value yields that value again (Gender identities without characters that need escaping),
  distinct values have distinct displayed forms, and each displayed form is the standard RFC 6350 (for Date and DateTime RFC 3339) spelling.""",
  ["inputs"], "all values of each type",
  "some enumerations are covered by literals, the open types by one or two values each",
  [PR, PM, DT, UR], [("Display and FromStr of each type", PR + ", " + PM + ", " + DT + ", " + UR)], ["ToString", "FromStr"])

p("C27", "Cards in one text are independent and keep their order",
  """Parsing a text made of several cards yields the cards that parsing each part alone yields, in the order written, whatever their contents, versions and the blank lines between them; if any part alone is an error, so is the whole.
  Printing the cards one after another and parsing that gives the same list.""",
  ["inputs"], "all sequences of card texts, valid and invalid",
  "fixtures with two cards",
  [PA], [("parse loop with a fresh card per BEGIN", PA)], ["vcard4::parse", "vcard4::parse_loose"])

p("C28", "The order of properties of different kinds does not matter",
  """Moving the property lines of a card so that lines of the same kind keep their relative order does not change the parsed card, and the acceptance of a property never depends on the other properties of the card except for repeated single-valued properties and the FN and MEMBER rules;
  properties of the same kind appear in the card and in its printed form in the order written.""",
  ["inputs"], "all cards and all permutations of their lines",
  "tests list properties in one order",
  [PA, VC], [("one field per property kind", VC)], ["vcard4::parse", "Vcard::to_string"])

p("C29", "Optional features change representation only",
  """Switching on mime, language-tags and serde changes which texts are accepted only by rejecting malformed media types and language tags: well-formed ones are accepted, keep all their parts, and print, round trip and combine with all other parameters as without the features,
  and every text without MEDIATYPE and language values has the same result in all configurations.""",
  ["inputs", "configurations"], "all texts under the default configuration and with all features on",
  "tests of both configurations use one or two literals each",
  [PA, PR, PM, SE], [("cfg(feature) variants of parse_media_type and parse_language_tag", PA)], ["vcard4::parse", "Vcard::to_string", "features"])

p("C30", "Conversions and constructors keep exactly what they are given",
  """Every public constructor and conversion into a value or property (from String, &str, Uri, time's Date, UtcOffset and OffsetDateTime, Kind, Gender, DeliveryAddress, lists, integer pairs for PID and TextListProperty constructors with their delimiter) gives the property that holds exactly that value, without group or parameters other than a VALUE that the value needs,
  and that property put in a card prints and parses back to it. The Property trait's group() and parameters() and the accessors of each property and property enum return exactly what the property holds.""",
  ["inputs"], "all values of each convertible type; all properties with groups and parameters",
  "most of the conversions are not called by any test",
  [PR, PM, DT, UR, VC], [("From implementations, Property trait", PR), ("From<(u32, u32)> for Pid and others", PM)], ["vcard4::property::*", "vcard4::parameter::*"])

p("C31", "Cards are equal exactly when they hold the same data",
  """Two cards compare equal if and only if they hold the same properties, in the same order within each kind, with the same values, groups and parameters (date-times as instants): a difference in any one text, number, date, item, parameter or group makes them unequal, in both directions, and a clone is always equal to its original.""",
  ["inputs"], "all pairs of cards that differ in at most one place",
  "tests compare cards only where they expect equality",
  [VC, PR, PM], [("PartialEq of Vcard and its properties", VC + ", " + PR)], ["Vcard::eq", "Vcard::clone"])

p("C32", "Time grows linearly with the length of the input",
  """The time to parse (strictly, loosely, by iteration, or one card), print, or unfold an input grows in proportion to its length for any repeated structure: properties, cards, folds, groups, parameters, items of a list, components, blank lines, malformed lines or cards, and one long value.
  No input makes the work grow with the square of its size.""",
  ["inputs"], "all repeated pieces in 13 shapes at 24,000 and 192,000 bytes, in each operation",
  "tests use short texts; a quadratic step is invisible in them",
  [PA, IT, VC], [("parse loop, unfolding, content_line folding", PA + ", " + VC)], ["vcard4::parse", "vcard4::parse_loose", "vcard4::iter", "Vcard::to_string"])

p("C33", "Errors say what is wrong",
  """The error of a text with a single fault is the documented variant for that fault and carries the offending name or text: an unknown parameter, a repeated single-valued property, PREF out of range, a number that is no number, TYPE where it is not allowed, LABEL outside ADR, another CHARSET, TZ or GEO not quoted, an unknown or unsupported VALUE, an unknown KIND or sex,
  PID on CLIENTPIDMAP, VERSION misplaced, a control character, a malformed boolean, PID, address or URI, a missing FN, MEMBER without KIND:group. The first error of the text is the one reported.""",
  ["inputs"], "all names and words in the faulty place, alone or after good cards, in any letter case",
  "tests check that an error occurs, rarely which",
  [PA, "src/error.rs"], [("Error", "src/error.rs"), ("parse_property_parameters, parse_property_by_name", PA)], ["vcard4::parse", "vcard4::Error"])

p("C34", "The result depends on the text alone",
  """Parsing gives the same result for a text however often and in whatever order, from whatever thread, it is parsed, whether it is a borrowed, owned or boxed string or a part of a longer one, and whatever other texts and iterators are in use at the same time; dates without a date or time part do not depend on the clock.
  Cards do not borrow from the text and keep their data when the text is gone and when they are moved to other threads.""",
  ["inputs", "schedules"], "all sequences and interleavings of parsing of several texts",
  "tests parse one text once",
  [PA, IT, "src/lib.rs"], [("VcardParser, VcardIterator", PA + ", " + IT)], ["vcard4::parse", "vcard4::iter"])

p("C35", "Printing reports the failure of its writer",
  """When the writer that a card, property, parameter list or error is printed to fails, for good or once, printing returns an error, does not panic, and what was written before is a prefix of the whole printed text; writers that take everything get exactly the text of to_string, in whatever pieces, and formatting never silently leaves a part out.""",
  ["inputs", "injected faults"], "all cards and all places at which the writer fails",
  "tests print to strings, which cannot fail",
  [VC, PR, PM, HE], [("Display implementations, content_line", VC + ", " + PR + ", " + PM)], ["Vcard::fmt", "fmt::Write"])

p("C36", "JSON that does not describe a card is an error and never a panic",
  """With serde, deserializing any JSON whatever into a card does not panic: it gives a card or an error. A property without one of its mandatory fields is an error.
  A card that is accepted serializes to JSON that gives an equal card and the same JSON again, and can be printed without panic.""",
  ["inputs"], "all JSON near that of cards: fields removed, renamed, added, retyped, copied, edited",
  "the tests deserialize only what the library wrote",
  [SE, PR, PM, VC], [("Deserialize implementations", SE + ", " + PR + ", " + PM + ", " + VC)], ["serde_json::from_str::<Vcard>", "serde_json::to_string"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["title"]
print(len(P))
