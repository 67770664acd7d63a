import json
def P(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    return d
api=["the public functions ParseAddressList and ParseDateTime"]
L=[
P("P01","An address list is accepted exactly when it is in the published grammar",
 "ParseAddressList succeeds for every string the published address-list grammar derives and returns an error for every other string; the empty string gives an empty list. There is no input for which an error is lost, trailing or inner text is skipped, or a sentence of the grammar is refused.",
 ["inputs"],"all strings, of any length, over all of Unicode",
 "The tests try about 140 chosen strings; the language is infinite and any token order, character or length may be treated wrongly while all of them pass.",
 ["RFC5322Parser.g4","RFC5322Lexer.g4","parser/rfc5322_parser.go","parser/rfc5322_lexer.go","parser.go","walker.go"],
 [("generated ALL(*) parser over the published grammar","parser/rfc5322_parser.go"),("error listener turns any syntax error into the returned error","walker.go SyntaxError, parser.go")],api),
P("P02","Every mailbox of a list is returned exactly once and in order",
 "The result of a list holds one entry for each mailbox written in it, in the order they are written, whatever separators, empty elements, groups, duplicates and list length are used. Groups contribute their members in place, and nothing else appears in the result.",
 ["inputs"],"all address lists: any number of mailboxes, any nesting into groups, any separators",
 "The tests compare lists of at most a few elements and ignore order (ElementsMatch); a dropped, repeated or moved entry at some length or separator pattern is invisible to them.",
 ["address_list.go","address.go","mailbox_list.go","obs_mbox_list.go","group.go","group_list.go","mailbox.go"],
 [("values bubble up the stack of open nodes and are appended in order","address_list.go, group_list.go, mailbox_list.go")],api),
P("P03","A display name decodes to exactly the text it denotes",
 "The name of a mailbox is the concatenation of its words: atoms as written, quoted strings without quotes, escapes or line breaks but with all their whitespace, encoded words decoded, unspaced dots and at-signs in place. One space stands between words that are not adjacent encoded words, and comments and surrounding whitespace leave no trace.",
 ["inputs"],"all display names: any sequence and kind of words, any content, any whitespace and comments between them",
 "The tests fix some dozens of names; words combine freely, and each combination decides which characters are kept, dropped or separated.",
 ["display_name.go","word.go","atom.go","quoted_string.go","quoted_value.go","quoted_content.go","quoted_char.go","quoted_pair.go","obs_qp.go","qtext.go","fws.go","encoded_word.go","unspaced.go"],
 [("each kind of word reports its own value to its parent","word.go, quoted_string.go, atom.go"),("spacing rules for joining words","display_name.go")],api),
P("P04","An address keeps the exact local part, domain and port that were written",
 "The address of a mailbox is its local part without quotes, escapes, comments or folding, an at-sign, its domain or literal, and the port if one is given. This is so for bare, angle-bracketed, named, routed and grouped forms alike; routes, comments and the display name never leak into the address.",
 ["inputs"],"all addr-specs in all forms and positions",
 "The tests use a few dozen addresses; each form (dot-atom, quoted, obsolete, literal, route, port) goes through separate code and the forms combine.",
 ["addr_spec.go","local_part.go","obs_local_part.go","dot_atom.go","domain.go","domain_literal.go","obs_domain.go","angle_addr.go","obs_angle_addr.go","name_addr.go","port.go"],
 [("addr-spec assembles its parts","addr_spec.go"),("angle address with and without a route","angle_addr.go, obs_angle_addr.go")],api),
P("P05","Encoded words decode according to their charset and encoding",
 "An RFC 2047 encoded word in a display name yields the text its bytes denote in its charset, for both encodings, any letter case and any bytes; the built-in charsets need no hook. For any other charset the application's charset hook is called exactly once per word, in order, with the lower-case name and the exact bytes, and it is called for nothing else.",
 ["inputs","configurations"],"all encoded words: charsets, encodings, payload bytes, lengths, spacing, number of words; any charset hook",
 "The tests decode some fixed words; the space of bytes, charsets, encodings and the calls made to the hook are not covered.",
 ["encoded_word.go","word.go","display_name.go","parser.go"],
 [("decoding with the installed charset hook","encoded_word.go")],api+["the log of calls to CharsetReader"]),
P("P06","A failing charset hook costs its own word only",
 "When the charset hook refuses a charset or the reader it returns fails at any point, that encoded word is returned as it was written, parsing still succeeds, and every other word, mailbox and address is what it would have been. Readers that deliver in odd pieces make no difference.",
 ["fault_sequences","inputs"],"all sequences of failures and odd reads of the hook over the encoded words of an input",
 "The tests never make a charset hook fail, let alone midway through reading or for some words and not for others.",
 ["encoded_word.go","display_name.go","parser.go"],
 [("raw text is kept when decoding fails","encoded_word.go")],api+["the scripted CharsetReader"]),
P("P07","Comments and folding whitespace never change a result",
 "Wherever the syntax allows comments or whitespace, adding, removing or replacing them, including nested comments with quotes, escapes, addresses or encoded words and folded lines, leaves addresses, names and times the same, apart from the one space between the words of a name. A folded line inside a quoted string or literal means the same as the unfolded line.",
 ["inputs"],"all valid lists and date-times with all choices of comments and whitespace in all allowed places",
 "The tests have a handful of comments in fixed places; there are dozens of places in the grammar and unboundedly many comments, nested and combined.",
 ["display_name.go","addr_spec.go","dot_atom.go","atom.go","fws.go","domain_literal.go","local_part.go","domain.go","date_time.go"],
 [("nodes take values only from meaningful children","atom.go, dot_atom.go, local_part.go, domain.go"),("unfolding","fws.go, domain_literal.go")],api),
P("P08","Addresses formatted by net/mail parse back to themselves",
 "Any mailbox or list of mailboxes written with the Go standard library's address formatter and joined with commas parses back to the same names and addresses in the same order. That includes names that need quoting or encoding and local parts that need quoting.",
 ["inputs"],"all names and addresses net/mail can format, and all lists of them",
 "The tests contain no round trip; the formatter chooses quoting and encoding by content, so all of text space is involved.",
 ["parser.go","encoded_word.go","quoted_string.go","quoted_pair.go","addr_spec.go","display_name.go"],
 [("decoding is the inverse of the standard encoding","encoded_word.go, quoted_string.go, display_name.go")],api+["net/mail.Address.String"]),
P("P09","Every character comes back unchanged, wherever it may stand",
 "Every Unicode character that may stand in an atom, quoted string, quoted pair, local part, domain or literal is returned exactly as given, at any position, next to any other character and in text of any length. No character is dropped, replaced, case-folded or normalised.",
 ["inputs"],"all characters of Unicode in all positions, all pairs of ASCII characters, all lengths",
 "The tests use few of the 1.1 million characters and no systematic neighbours; a lossy class of characters or a length limit goes unnoticed.",
 ["parser/rfc5322_lexer.go","RFC5322Lexer.g4","atom.go","dot_atom.go","qtext.go","quoted_char.go","quoted_pair.go","obs_qp.go","domain_literal.go","local_part.go","domain.go"],
 [("lexer with one token per character class","parser/rfc5322_lexer.go")],api),
P("P10","A date-time denotes the right instant, offset and zone",
 "For every date-time of the grammar the returned time is the instant its fields denote under the Gregorian calendar, with the UTC offset of its numeric or named zone and the zone's written name; without a zone it is UTC. Two-digit years mean the latest such year that is not in the future, and the result does not depend on the machine's own time zone.",
 ["inputs","configurations"],"all dates, times, offsets and zone names in all spellings, on machines in any time zone",
 "The tests check about a hundred date-times; calendar boundaries, all offsets, letter cases and the local zone of the process are not sampled.",
 ["date_time.go","day.go","month.go","year.go","hour.go","minute.go","second.go","offset.go","zone.go","obs_zone.go"],
 [("fields are collected and given to time.Date","date_time.go"),("offset arithmetic and zone table","offset.go, obs_zone.go, zone.go"),("two-digit years","year.go")],api),
P("P11","A date-time is accepted exactly when it is in the published grammar",
 "ParseDateTime succeeds for every string the published date-time grammar derives and returns an error for every other string; the empty string gives the zero time. No damaged, truncated or extended date-time is accepted.",
 ["inputs"],"all strings",
 "The tests contain almost no date-times that must be refused and only some of the spellings that must be accepted.",
 ["RFC5322Parser.g4","parser/rfc5322_parser.go","parser.go","walker.go","date_time.go"],
 [("generated parser over the published grammar","parser/rfc5322_parser.go"),("error listener","walker.go SyntaxError")],api),
P("P12","Times formatted in the common mail layouts parse back to themselves",
 "A time written in an RFC 5322, RFC 1123 or RFC 822 layout, with numeric or named zone, with or without day name and seconds, parses back to the same instant at the layout's precision and to the same offset. This holds across the centuries the layout can express.",
 ["inputs"],"all times, offsets and mail layouts",
 "The tests contain no round trip and no systematic sweep of times.",
 ["date_time.go","year.go","month.go","offset.go","zone.go","obs_zone.go"],
 [("parsing inverts formatting","date_time.go, offset.go")],api+["time.Time.Format"]),
P("P13","Concurrent calls neither race nor influence each other",
 "Any number of goroutines may call both functions at once, from the very first call of the process on, with the same or different inputs and with a charset hook that blocks or parses again. Every call returns what it would have returned alone, and there is no data race or deadlock.",
 ["schedules","inputs"],"all interleavings of calls, including first use and re-entrant calls",
 "No test makes two calls at the same time; the parser shares static data and a prediction cache between calls.",
 ["prediction_cache.go","parser.go","walker.go","parser/rfc5322_parser.go","parser/rfc5322_lexer.go","encoded_word.go","obs_zone.go"],
 [("static data behind sync.Once, shared prediction tables with locks","parser/rfc5322_parser.go, prediction_cache.go"),("one walker per call","parser.go")],api+["race detector","log of call starts and ends"],
 [("predictions","what the parser has learned, shared by all calls","prediction_cache.go")]),
P("P14","A result depends only on the input and the current charset hook",
 "Whatever was parsed before, successfully or not, however many calls were made, whatever charset hooks were installed before, and even if a hook panicked, a call returns what its input and the current hook determine. Results already returned never change, and changing them affects no later call.",
 ["histories"],"all sequences of calls, hook changes, failures and modifications of results in one process",
 "Each test makes independent calls on fresh inputs; none repeats an input after others, modifies a result or changes the hook back and forth.",
 ["parser.go","prediction_cache.go","walker.go","encoded_word.go","address_list.go","obs_zone.go"],
 [("no state survives a call but the prediction cache","parser.go, prediction_cache.go"),("the hook is read at each decoding","encoded_word.go")],api,
 [("CharsetReader","the application's charset hook","parser.go"),("predictions","what the parser has learned","prediction_cache.go")]),
P("P15","Any input gives either a result or an error, and nothing else",
 "For every byte string, both functions return without panicking or crashing, with either a result or an error that says something, never both and never a nil entry. They write nothing to the process's output and leave no goroutine or file behind.",
 ["inputs"],"all byte strings, including ill-formed UTF-8, arbitrary nesting and very long input",
 "The tests give well-formed text; hostile shapes, raw bytes and output to stderr are not observed.",
 ["parser.go","walker.go","parser/rfc5322_lexer.go","parser/rfc5322_parser.go","date_time.go","encoded_word.go"],
 [("the default console error listeners are replaced","parser.go"),("the tree is walked only after a successful parse","parser.go")],api+["stdout and stderr of the process","goroutine and file counts"]),
P("P16","The work for an input is bounded by a low polynomial of its length",
 "Parsing does not blow up: doubling an input by repeating any part of it multiplies the work at most about four times, and for long atoms, quoted strings, comments, nested comments, lists, dates and refused junk at most about two times. Every call returns within a modest budget.",
 ["inputs"],"all families of growing inputs, accepted and refused",
 "The tests use short inputs and measure nothing; exponential or cubic behaviour shows only on growing, usually hostile, input.",
 ["parser.go","prediction_cache.go","parser/rfc5322_parser.go","walker.go","display_name.go","quoted_value.go"],
 [("adaptive prediction with shared tables","parser/rfc5322_parser.go, prediction_cache.go"),("one walk over the tree","walker.go")],api+["allocation counts of a call"]),
P("P17","The parser package's trees and callbacks are faithful to the input",
 "For accepted input the parse tree applies only rules of the grammar, choosing the earlier alternative and the longer repetition where the grammar leaves a choice; its leaves are exactly the input's characters in order with right types and positions, and the typed accessors agree with the children, present or absent. A walk enters and leaves every node once, properly nested, with the callbacks of that node's rule.",
 ["inputs"],"all accepted inputs, for every rule of the grammar",
 "The tests never look at the tree; only final values of chosen inputs are compared.",
 ["parser/rfc5322_parser.go","parser/rfc5322_lexer.go","parser/rfc5322parser_listener.go","parser/rfc5322parser_base_listener.go"],
 [("generated contexts, accessors and listener dispatch","parser/rfc5322_parser.go")],["the public parser package and antlr.ParseTreeWalker"]),
P("P18","No memory is kept per call and the parser's cache is bounded",
 "Once the parser knows the syntax at hand, calls leave nothing behind: parsing ever new addresses and dates that look alike, accepted or refused, does not grow the heap. With ever new syntax the memory kept stays below a fixed bound.",
 ["histories","inputs"],"all long sequences of calls, with the same, similar and varied inputs",
 "The tests make some hundred calls and never look at memory; what is retained per call or per distinct input adds up only in long-lived processes.",
 ["prediction_cache.go","parser.go","walker.go"],
 [("the prediction cache is replaced after a fixed amount of input","prediction_cache.go"),("everything else belongs to one call","parser.go")],api+["the heap that survives garbage collection"],
 [("predictions","what the parser has learned","prediction_cache.go")]),
P("P19","The lexer splits any text into its characters, each of its class",
 "The generated lexer turns every text into exactly one token for each character, in order, of the class the published lexer grammar gives it, with the character as its text and its position, line and column; then it reports the end of the text. No character is skipped, merged or reported as an error, and lexers do not influence each other, whether new, reset or used in turn.",
 ["inputs"],"all texts over all of Unicode, well-formed or not, of any length; all orders of using lexers",
 "The tests never look at tokens, and use a few dozen of the 1.1 million characters.",
 ["RFC5322Lexer.g4","parser/rfc5322_lexer.go"],
 [("table-driven lexer with static data shared by all lexers","parser/rfc5322_lexer.go")],["the public parser package: NewRFC5322Lexer, NextToken"]),
P("P20","Equivalent spellings mean the same",
 "The same mailboxes give the same result however they are spelled: a name as atoms, quoted string (with or without needless escapes) or encoded words of either encoding, any suitable built-in charset and any cutting; a local part as atoms or quoted; an address bare, in angle brackets, with a route or in a group. So does the same time: long or short year, padded or not, with or without day name and zero seconds, with a zone name or its offset, in any letter case.",
 ["inputs"],"all pairs of spellings of the same mailboxes, lists and date-times",
 "The tests compare single spellings with single results; they do not relate spellings to each other.",
 ["display_name.go","word.go","atom.go","quoted_string.go","encoded_word.go","local_part.go","obs_local_part.go","angle_addr.go","obs_angle_addr.go","group.go","date_time.go","year.go","obs_zone.go","offset.go"],
 [("every form of a word, address and date field goes through code of its own and must meet in the same value","word.go, local_part.go, angle_addr.go, date_time.go")],api),
]
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d,ensure_ascii=False)+'\n' for d in L))
T={
"P01":("reference-model monitor (chart parser over the frozen grammar) on generated, mutated and enumerated inputs","Every string up to 3 characters over 22 token classes, single-edit neighbourhoods of 16 seeds and thousands of generated or damaged inputs get the model's verdict. Assumes the frozen grammar is the intended language."),
"P02":("monitor with values known by construction on generated lists","Sizes swept densely up to 64 and around common limits, all pairs of separators, groups in all positions; order, multiplicity and content are compared. Longer lists than those are not observed."),
"P03":("monitor with values known by construction, cross-checked with a reference model","Names built from the text they must decode to, plus exhaustive small combinations of word kinds; the generator is itself checked against an independent evaluator."),
"P04":("monitor with values known by construction, cross-checked with a reference model","All forms of addr-spec in all positions, generated and swept."),
"P05":("trace monitor over the charset hook's call log plus values known by construction","All byte values in both encodings and all built-in charsets, lengths and charset spellings swept; the hook's call log is compared event by event."),
"P06":("fault injection into the charset hook, outcome monitor","All single faults, all ordered pairs and all good/bad patterns of four words in five layouts are enumerated; longer fault sequences are sampled."),
"P07":("metamorphic monitor: the same input with different comments and whitespace","30 fillings in every slot of 21 skeletons, sizes of comments and folds swept, generated templates refilled."),
"P08":("round-trip monitor with the standard library's formatter","Trusts net/mail's formatter."),
"P09":("character sweep with an identity monitor","Every BMP character and all ordered ASCII pairs in the places; characters beyond the BMP sampled in the quick tier, all of them in the thorough tier."),
"P10":("monitor with own calendar arithmetic","Every day of 1890-2110, all times, offsets and zones swept; the process's zone is varied."),
"P11":("reference-model monitor on generated, mutated and enumerated date-times","As P01, for date-times."),
"P12":("round-trip monitor with time.Format","Trusts time.Format."),
"P13":("race detector plus outcome monitor and history log over concurrent calls","Held on the interleavings observed (counted in the evidence), in the race-detector build, with cold starts in separate processes."),
"P14":("history monitor: every result of long operation sequences against a stateless model","Random and systematic histories; results still held are re-checked at the end."),
"P15":("runtime monitors for panics, crashes, output, goroutine and file leaks under hostile inputs","All one- and two-byte strings and 44 hostile shapes up to 20000 repetitions; deeper input is not observed."),
"P16":("allocation-count monitor over doubling families of inputs","Judges counts of heap allocations, not time; families named in the code plus all ordered pairs of 26 units."),
"P17":("structural monitor over parse trees and listener event traces","Each node is checked against the frozen grammar and the tree against the model's derivation; walks are compared event by event."),
"P18":("live-heap monitor over long call sequences","Growth must show twice in a row; varied input is bounded by 600 MB for 135 KB of input (a cache that is never replaced exceeds that)."),
"P19":("token-stream monitor against the frozen lexer grammar","Every Unicode character, every pair of ASCII characters and random and ill-formed texts; other sequences are sampled."),
"P20":("metamorphic monitor: independent random spellings of one meaning","Sampled spellings, each also compared with the meaning it was made from."),
}
M=dict(version=1,setup_cmd="bash setup.sh",checks=[],not_applicable=[],notes="All checks are black-box drivers of the public API and the public parser package; /repo needs no hooks. Checks build the harness against /repo's working tree through a replace directive (harness/go.mod).")
for d in L:
    t,n=T[d['id']]
    M['checks'].append(dict(property=d['id'],quick_cmd="VERIF_TIER=quick bash run.sh "+d['id'],thorough_cmd="VERIF_TIER=thorough bash run.sh "+d['id'],technique=t,level="fault_enumeration" if d['id']=="P06" else "exploration",level_note=n))
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
open('/verif/MANIFEST.json','a').write('\n')
