#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Tokens do not depend on how the source is delivered",
  "For every text and every legal behaviour of the reader it comes from (reads of any size, empty reads, the end reported with the last bytes or by a separate read, spare buffer space used as scratch), tokenizer and scanner produce the same kinds, literals, offsets, line/column positions and errors as when the text arrives in one piece. Every raw literal is exactly the stretch of source text at its reported position, and the scanned tokens together cover the whole text except white space (and skipped comments). A literal or token text, once handed out, never changes while scanning goes on.",
  ["inputs","schedules","fault_sequences"],
  "all texts (any length relative to internal buffering, multi-byte characters, invalid encodings) x all segmentations of the text into reads x all sequences of scan/peek/next/push-back calls",
  "The tests read short ASCII strings from strings.Reader, which hands over everything in one read that fits the internal buffer; no test ever makes the refill path run in the middle of a token, a character or a line.",
  ["scanner/scanner.go","token.go"],
  [("buffer refill, saving the token head","scanner/scanner.go next"),("token text assembly","scanner/scanner.go TokenText"),("offset/line/column accounting","scanner/scanner.go Scan, Pos"),("push-back","token.go next/Reset/Unwind")],
  ["Tokenizer.Scan/TokenText/Offset/Err/ErrorCount","scanner.Scanner Scan/Next/Peek/Pos/TokenText"],
  [("srcBuf/srcPos/srcEnd/srcBufOffset","window on the source","scanner/scanner.go"),("tokBuf/tokPos/tokEnd","token text split over refills","scanner/scanner.go")])

p("C02","A failing source is reported and no token is invented",
  "If the reader fails at any point, every token that was complete before the failure is delivered unchanged, what follows is exactly what the text cut off at a point where a failure occurred would give (or the full text, if the reader carried on), and by the time the end of the stream is reported the error count is positive and the error is available; the error handler of a scanner receives the reader's own message. The tokenizer writes nothing to the process's standard error, and neither it nor the scanner panics or hangs.",
  ["inputs","fault_sequences","crash_points"],
  "all texts x all failure positions x all failure shapes (error alone or together with data, once or for good, repeated, after the end of data, inside a token; inside a multi-byte character for failures that last)",
  "No test uses a reader that fails.",
  ["scanner/scanner.go","token.go"],
  [("read error branch of the refill loop","scanner/scanner.go next"),("error callback","token.go NewTokenizer"),("error counter","scanner/scanner.go error")],
  ["Tokenizer.Scan/Err/ErrorCount","scanner.Scanner.Error callback","standard error"])

p("C03","Scanning makes progress on a slow source and ends with it",
  "A token is delivered as soon as the source has supplied the token and the character after it (for operators that may have two parts, the following token and the character after that); creating a tokenizer or scanner asks for no input. Once the source has ended, the end-of-stream token comes after at most one scan per remaining character and every later scan returns it again, whatever characters an identifier predicate accepts.",
  ["inputs","schedules"],
  "all texts x all timings of arrival (the source stalls after any byte) x all stall lengths",
  "The tests never use a source that can stall, so a scanner that insisted on more input than it needs, or never ended, would pass them.",
  ["scanner/scanner.go","token.go"],
  [("one-character look-ahead","scanner/scanner.go Peek/next"),("two-part operators","token.go Scan"),("end-of-source stickiness","scanner/scanner.go Scan")],
  ["reads requested from the source at each simulated instant","Tokenizer.Scan","scanner.Scanner.Scan"])

p("C04","A re-initialised scanner behaves like a new one",
  "After a scan has been abandoned at any point (in the middle of a text, after a token split over reads, after a read error, an encoding error or a panic of the reader), initialising the same scanner with another source makes it produce exactly the tokens, texts, positions and error counts that a brand-new scanner with the same settings produces.",
  ["histories","crash_points","fault_sequences"],
  "all abandoned prefixes of all scans x all next texts x any number of restarts",
  "No test initialises a scanner twice; the tokenizer initialises each scanner once.",
  ["scanner/scanner.go"],
  [("state reset","scanner/scanner.go Init")],
  ["scanner.Scanner.Init/Scan/Pos/TokenText/ErrorCount"],
  [("source buffer, token buffer, position counters","per-source state that must not survive","scanner/scanner.go")])

p("C05","A failed write makes formatting stop and return that error",
  "If the destination fails any write, Format returns that error, attempts no write after it, and what the destination accepted is an exact prefix of the complete text. Format returns nil only if the destination accepted the complete text without error. A later attempt on a healthy destination, another one or the same one repaired and emptied, writes the complete text.",
  ["inputs","fault_sequences","crash_points"],
  "all statements x every write of the output as the failing one x failure shapes (nothing accepted, part accepted, disk full after n bytes, one-off or permanent)",
  "The only formatting test writes to a bytes.Buffer, which never fails.",
  ["format.go","ast.go"],
  [("checked writes unwinding to the caller","format.go checkError, formatTriggerStmt")],
  ["Format's result","the sequence of WriteString calls"])

p("C06","A rule whose save was acknowledged reloads as the same rule",
  "When Format of a parsed rule returned nil, the text on the destination parses without error into a rule with the same meaning: same variables and values, same condition with the same nesting, operators, operands, units and signs, same repeat count and interval and same reset delay. This holds whatever write errors and retries preceded the acknowledgement, whatever process saved it, and however many times the rule is saved and reloaded; saved again without a change it is the same text each time, and CheckType gives the rule and its reloaded copy the same verdict.",
  ["inputs","histories","fault_sequences","crash_points"],
  "all rules the parser accepts from the documented language x all sequences of failed and retried saves, crashes, restarts (with new process-level hash seeds) and reloads",
  "One fixed rule is formatted once to memory and only checked to parse again, not to mean the same; at the pinned commit even that fails.",
  ["format.go","parser.go","primitive.go","geometry.go","datetime.go","composite.go","units.go","keyword.go","token.go","ast.go"],
  [("formatting of every node kind","format.go"),("parsing of every node kind","parser.go, composite.go, primitive.go, datetime.go, geometry.go")],
  ["Format","Parse","exported fields of the statement tree"])

p("C07","Formatting the same rule always gives the same text",
  "The text that Format produces, and the keyword text of a token, depend only on the rule: they are the same for every call, in every process, for every hash-table iteration order, and whatever calls were made before.",
  ["schedules","histories","configurations"],
  "all rules x all iteration orders of all hash tables (including those walked at process start) x all call histories",
  "Tests sample one process and one iteration order per run, and compare no output between runs.",
  ["format.go","keyword.go","ast.go"],
  [("selector argument set printed from a map","format.go Selector.format"),("reverse keyword table built by ranging over a map","keyword.go init")],
  ["Format","KeywordString"])

p("C08","A type-check verdict depends only on the rule and the dictionary",
  "Whether CheckType accepts a rule, and the error text if it does not, depend only on the rule and the dictionary's contents at the time of the call: not on hash-table iteration order, on earlier calls (accepted, rejected or with other rules or dictionaries), or on what the dictionary contained before. Checking changes neither the rule nor the dictionary.",
  ["histories","schedules","configurations"],
  "all rules x all dictionaries and sequences of changes to them x all iteration orders x all call histories",
  "Tests check each rule once in one iteration order against one dictionary that never changes.",
  ["typecheck.go","format.go","walk.go"],
  [("rule table walked in map order","typecheck.go eval"),("dictionary lookup","typecheck.go lookup/getSelectorType"),("shared operand prototypes","typecheck.go opInt..opRangeFloat")],
  ["CheckType","exported fields of the statement tree and the dictionary afterwards"])

p("C09","Concurrent calls on separate data do not influence each other",
  "Any number of goroutines may parse, tokenize, scan, format, type-check and traverse at the same time, each on its own texts, rules, dictionaries, readers and writers: every call returns what it would return alone in a fresh process, under every interleaving and without a data race, and none is blocked for ever by another.",
  ["schedules","histories"],
  "all sets of concurrent calls x all interleavings of their steps, including readers and writers that stall in the middle of a call",
  "The tests are sequential.",
  ["parser.go","token.go","scanner/scanner.go","format.go","typecheck.go","keyword.go","walk.go"],
  [("no mutable package state after initialisation","keyword.go, typecheck.go, units.go, format.go"),("per-call parser, tokenizer and checker","parser.go Parse, token.go NewTokenizer, typecheck.go CheckType")],
  ["results of every public call","the race detector, under a simulated schedule"])

p("C10","One parsed rule can be used by many goroutines at once",
  "Goroutines that share one parsed rule (and one dictionary that nobody changes) may format, type-check and traverse it at the same time: every call returns what it would return alone, under every interleaving and without a data race, none is blocked for ever by another, and the rule and the dictionary are afterwards exactly what they were.",
  ["schedules","histories"],
  "all rules x all sets of concurrent read-only calls x all interleavings, including destinations that stall or fail in the middle of a call",
  "The tests are sequential and never look at a rule again after using it.",
  ["format.go","typecheck.go","walk.go","ast.go"],
  [("formatting, checking and traversal only read the tree","format.go, typecheck.go, walk.go")],
  ["Format, CheckType, Walk, Visit results","exported fields and positions of the tree afterwards"])

p("C11","Cancelling a traversal skips exactly the declined subtree",
  "A traversal offers every expression of the rule (variable assignments with both sides, condition, repeat and reset clauses, selector properties, array items, range ends, operands, parenthesised expressions; geometries are leaves) exactly once, parents before children and children in source order. When the visitor declines an expression, exactly its descendants are skipped and the traversal continues after it. This holds for every choice of declined expressions, for a visitor that calls back into the library, and after a visitor that aborted an earlier traversal.",
  ["inputs","fault_sequences","histories"],
  "all rules x all sets of declined expressions x all points at which a traversal is aborted x re-entrant calls from the visitor",
  "Test visitors accept everything and only count a few node kinds.",
  ["walk.go"],
  [("pre-order walk with pruning","walk.go Walk, Visit")],
  ["sequence of expressions offered to the visitor"])

p("C12","An interrupted call leaves nothing behind",
  "When a caller-supplied reader, writer, visitor or error handler panics or ends its goroutine in the middle of a call, every later call of the library, by the same or another goroutine, returns exactly what it would return in a fresh process, and none blocks or panics because of the interrupted one.",
  ["crash_points","fault_sequences","histories"],
  "all public calls that run caller code x every point at which that code can be interrupted x all later calls",
  "No test interrupts a call.",
  ["format.go","walk.go","token.go","scanner/scanner.go","parser.go","typecheck.go"],
  [("no state shared between calls","parser.go Parse, token.go NewTokenizer, typecheck.go CheckType"),("recovery in formatting","format.go formatTriggerStmt")],
  ["results of every public call made after the interruption"])

p("C21","Two parties can exchange rules over a connection",
  "When one party formats rules onto a connection and another tokenizes what arrives, then whatever the connection's capacity, fragmentation and timing the tokens received are those of the bytes that arrived, nothing is missing if nothing failed, and a sender that waits for the receiver's answer to each terminated rule gets it. If the connection is cut, the sender dies or the receiver leaves at any point, both sides learn of it: Format returns the connection's error and attempts no further write, what was sent is an exact prefix of the rules' texts, the receiver's stream ends with an error reported, and neither side is blocked for ever.",
  ["inputs","schedules","fault_sequences","crash_points"],
  "all sequences of rules x all connection capacities and fragmentations x all interleavings of the two parties x a cut, a death of the sender or a departure of the receiver at every point",
  "No test formats onto or tokenizes from anything but memory, or runs a writer and a reader together.",
  ["format.go","token.go","scanner/scanner.go"],
  [("formatting onto a string writer","format.go Format"),("tokenizing from a reader","token.go Scan, scanner/scanner.go next")],
  ["the bytes on the connection","Format's result","Tokenizer.Scan/Err/ErrorCount","scanner.Scanner"])

p("C22","A long stream is scanned at constant cost",
  "However far into a stream of well-formed tokens, and however it is delivered, each token is produced with the right kind, text and position, the work per character does not grow with the amount already scanned or with the length of the current token, and the memory held does not grow with the amount already scanned.",
  ["inputs","schedules","histories"],
  "all streams of any length x all segmentations into reads x all token lengths",
  "The tests scan texts of a few dozen bytes.",
  ["scanner/scanner.go","token.go"],
  [("sliding source buffer","scanner/scanner.go next"),("token text assembly","scanner/scanner.go TokenText"),("offset and line counters","scanner/scanner.go")],
  ["tokens and positions","statements executed","bytes allocated and held"])

p("C23","Looking ahead and pushing back lose nothing",
  "Whatever mix of Peek, Next and Scan calls is made and however the source is delivered, Peek returns the next character of the text without consuming it, Next returns the same character and consumes exactly it, Scan consumes a token and the white space (and skipped comments) before it and nothing else, and the reported position is the place in the text reached so far. A token of a tokenizer that is pushed back (and was not recognised by looking ahead) is returned again by the next scan with the same kind, literal, text and offset, a push-back that is undone has no effect, and the rest of the stream is the same as without push-backs.",
  ["inputs","histories","schedules"],
  "all texts x all sequences of calls x all segmentations into reads",
  "The tests call Scan only, on texts that arrive in one piece.",
  ["scanner/scanner.go","token.go"],
  [("one-character look-ahead","scanner/scanner.go Peek/Next"),("push-back","token.go next/Reset/Unwind")],
  ["scanner.Scanner Peek/Next/Scan/Pos/TokenText","Tokenizer.Scan/Reset/Unwind/TokenText/Offset"])

p("C24","Callbacks may call the library",
  "A reader, writer, visitor or error handler that is called by the library may itself, at any point, parse, tokenize, format, type-check or traverse, with other data or with the rule that is being formatted or traversed: the inner and the outer call both return what they would return alone in a fresh process, and neither blocks, panics or fails because of the other.",
  ["inputs","histories","crash_points"],
  "all public calls that run caller code x every point at which that code runs x all calls it may make, nested to any depth",
  "No test makes a call from inside another one.",
  ["format.go","walk.go","token.go","scanner/scanner.go","parser.go","typecheck.go"],
  [("no state shared between calls","parser.go Parse, token.go NewTokenizer, typecheck.go CheckType, format.go Format, walk.go Walk")],
  ["results of inner and outer calls"])

p("C25","An edited rule is used as edited, and no other rule changes",
  "A program may change a parsed rule through its exported fields and SetVar (values, operators, operands, list items, arguments, variables, repeat and reset clauses). Every later Format, CheckType and traversal of the rule returns what it returns for a rule that was changed in the same way right after parsing, whatever was called on it before. Changing one value changes no other value of the rule, and no other rule, whether parsed before or after, from the same text or another, by the same goroutine or one that runs at the same time.",
  ["inputs","histories","schedules"],
  "all rules x all sequences of edits and calls x all other rules alive in the process x all interleavings with other callers",
  "The tests never change a rule after parsing it.",
  ["ast.go","parser.go","format.go","typecheck.go","walk.go"],
  [("every Parse builds its own tree","parser.go, primitive.go, composite.go, geometry.go, datetime.go"),("calls read the tree as it is","format.go, typecheck.go, walk.go"),("variables looked up in the rule","ast.go SetVar, findAssign")],
  ["Format, CheckType, Walk, SetVar results","exported fields of all rules alive"])

p("C26","Scanner settings may be changed between tokens",
  "The Mode, Whitespace, IsIdentRune and Error fields of a scanner may be set to anything documented between any two scans. Every token from then on, its text, position and errors are those that a new scanner with the new settings produces from the rest of the text, positions counted from the beginning of the whole text: no token is of a kind the mode in force does not have, none begins with white space in force, and an identifier is the longest stretch the predicate in force accepts. This holds however the source is delivered and however often the settings are changed.",
  ["inputs","histories","schedules"],
  "all texts x all deliveries x all sequences of settings and scans",
  "No test changes a setting after Init.",
  ["scanner/scanner.go"],
  [("settings are looked up when they are needed","scanner/scanner.go Scan, isIdentRune, error"),("one character of look-ahead","scanner/scanner.go next")],
  ["scanner.Scanner Scan/TokenText/Position/Pos/ErrorCount/Error"])

p("C27","Calls cost what their input warrants, however many came before",
  "A rule with twice as many parts (terms, levels of parentheses, variables, list items, arguments, points, characters of a token) takes Parse, Format, CheckType and Walk at most about four times the work, memory and output. Making the same calls again and again, in any order and including calls that fail or are interrupted by the caller's own reader, writer, visitor or handler, takes no more work per call later than earlier, and leaves no more memory held, even if each time the names and strings in the rules are other ones.",
  ["inputs","histories"],
  "all rules of any size x all histories of completed, failing and interrupted calls",
  "The tests use rules of a few terms, make each call once, and measure nothing.",
  ["format.go","parser.go","typecheck.go","walk.go","ast.go","scanner/scanner.go"],
  [("each part is visited once","format.go, typecheck.go, walk.go"),("indentation grows by one tab a level","format.go ParenExpr"),("no state outlives a call","parser.go Parse, token.go NewTokenizer, typecheck.go CheckType")],
  ["statements executed","bytes allocated and held","bytes written"])

p("C28","What a call gave out stays as it was given out",
  "Everything a call returns or hands over (rules and their expressions, errors and their texts, token literals and texts, messages, strings passed to WriteString, dictionaries) keeps its value for as long as the program holds it, whatever is called afterwards or at the same time, on the same input or another, by the same goroutine or another, and whatever the program does to other things it was given: changing one rule or dictionary changes no other and no error. A scan that is set aside and taken up again later continues exactly as if nothing had happened in between, however many other scanners, tokenizers and calls were used meanwhile.",
  ["inputs","histories","schedules"],
  "all histories of calls x all values kept from them x all interleavings with other callers",
  "The tests look at a result at once and drop it before the next call.",
  ["parser.go","token.go","scanner/scanner.go","typecheck.go","format.go","composite.go","ast.go"],
  [("fresh memory for every result","parser.go Parse, error; composite.go parseArrayExpr; typecheck.go error, Dict"),("strings are copies","scanner/scanner.go TokenText; format.go formatFloat"),("state only in the tokenizer","token.go NewTokenizer; scanner/scanner.go Scanner")],
  ["exported fields, Pos and End of kept rules","error texts","token texts","strings written","dictionaries","tokens of a resumed scan"])

p("C29","Damage to a text is reported where it is",
  "When a text is damaged on its way (bytes changed, lost, added, or the rest cut off) so that it holds bytes that are not UTF-8 or NUL characters, each of these is reported exactly once, however the text is delivered: the error count of tokenizer and scanner includes it by the time the token it is in or before has been returned, and the error handler of a scanner is called with Pos() at it. Every other token, literal, offset and message is what it would be if a replacement character stood in place of each damaged byte; so nothing before the damage changes and scanning goes on after it. A text that ends inside a string, character or raw string literal or a general comment is reported; a text without damage and without a literal, escape or comment that is malformed has no errors. Parse does not accept a rule that has such damage or such an unfinished literal in it.",
  ["inputs","fault_sequences"],
  "all texts x all damages (including damage inside a character split between reads and at buffer boundaries) x all deliveries x all sequences of calls",
  "The tests scan and parse valid text; two scan illegal characters, in one piece, and look at the token only.",
  ["scanner/scanner.go","token.go","parser.go"],
  [("one message per damaged byte, position first","scanner/scanner.go next, error"),("the tokenizer keeps the last message","token.go NewTokenizer, Err, ErrorCount"),("the parser looks at the tokenizer's error","parser.go parse0, parseUnaryExpr")],
  ["error counts","messages and their places","tokens","verdict of Parse"])

p("C30","When and where a call is made does not matter",
  "What a call returns, writes or reports (Parse, tokenizer and scanner, Format, CheckType, Walk, KeywordString) depends only on what it is given. It is the same at any date and time of day, in any time zone and locale, on a machine with other environment variables, host name, working directory, user, number of processors and random numbers; while the clock is set forward or back, the process is suspended or memory is collected during or between the calls; and however long the caller's reader, writer, visitor or handler takes, or the program waits between two calls. No call changes any of this or prints anything (except what a scanner without an error handler reports).",
  ["inputs","configurations","fault_sequences","histories"],
  "all calls x all times, zones, environments and machines x all clock jumps, suspensions, collections and stalls",
  "The tests run on one machine in one zone within one second, without a collection of memory in the middle of a call.",
  ["parser.go","datetime.go","format.go","typecheck.go","walk.go","token.go","keyword.go","scanner/scanner.go"],
  [("calendar values are plain numbers, checked against fixed bounds","datetime.go; format.go formatValue"),("no clock, environment or random number is read","all files"),("reads have no deadline","scanner/scanner.go next")],
  ["results of every call","bytes printed","local time zone, environment and directory of the process"])

p("C31","No text ends the process",
  "However large a text is and however deeply it is nested, no call of Parse, tokenizer, scanner, Format, CheckType, Walk or Visit exhausts the stack of the goroutine that makes it (which ends the process and cannot be recovered from): a rule that is nested too deeply or has too many operators is refused with a syntax error, and every rule that Parse returned can be formatted, checked and traversed. What is not nested (tokens, comments, white space, digits, escapes, list items, points, arguments, properties, variables, damaged bytes, looking ahead and pushing back) takes no more stack the more there is of it. Size alone is no reason to refuse or lose anything: up to 500 levels of nesting, up to 30,000 parts connected by operators and any number of other parts are accepted as in a small rule, and all of them are in the result.",
  ["inputs","configurations","fault_sequences"],
  "all texts of any size and depth x all deliveries x all sequences of calls x all stack limits from a quarter of a megabyte (what is not nested) or the default limit on",
  "The largest text of the tests has a few hundred bytes and three levels.",
  ["parser.go","composite.go","format.go","typecheck.go","walk.go","token.go","scanner/scanner.go"],
  [("recursive descent with a limited depth and number of operators","parser.go parseUnaryExpr, parseBinaryExpr"),("recursion over the rule","format.go; typecheck.go walk; walk.go Walk"),("comments, escapes and white space are skipped in loops","scanner/scanner.go Scan, scanComment, scanString")],
  ["survival of the process","acceptance","number of expressions"])

p("C32","A call is over when it returns",
  "When Parse, Format, CheckType, Walk, Visit, or a call on a tokenizer or scanner has returned, or was ended by the caller's own reader, writer, visitor or handler (a panic, or the end of the goroutine), nothing that belongs to it happens any more. What was supplied by the caller (source, destination, visitor, error handler, identifier predicate) is used only while a call it was supplied to is under way, never twice at a time, and a visitor that has ended its traversal is not called again. What was returned, written or reported, and the position, counts and messages of a scanner, are complete when the call returns and do not change afterwards, however much time passes before the next call. No goroutine or timer stays behind: their number does not grow with the number of calls, whether these succeed, fail, are interrupted or leave a scan unfinished.",
  ["inputs","schedules","histories","fault_sequences"],
  "all calls x all outcomes (result, error, interruption, scan not finished) x all schedules, stalls and pauses between calls x all histories",
  "The tests make a call, look at its result at once, and end with the process; none counts goroutines or looks at what was supplied once more.",
  ["parser.go","token.go","scanner/scanner.go","format.go","typecheck.go","walk.go"],
  [("every call runs on the caller's goroutine to its end","all files"),("the source is read only in next()","scanner/scanner.go next"),("writes are made before Format returns","format.go"),("the visitor is called by Walk alone","walk.go Walk")],
  ["calls of readers, writers, visitors, handlers and predicates","results over time","goroutines and timers left"])

# ---- pure functions of their input: not simulation targets
p("C13","Parsing is total",
  "For every string, Parse returns either a rule or a syntax error, never both and never neither; it does not panic, and it ends in time polynomial in the length of the string.",
  ["inputs"],"all strings","The tests parse a few hundred fixed strings.",
  ["parser.go","composite.go","primitive.go","geometry.go","datetime.go"],
  [("recursive descent with error returns","parser.go")],["Parse"])
p("C14","Operators bind by the documented precedence",
  "The condition tree of a parsed rule groups operators by the documented precedence levels, operators of equal precedence to the left, and parentheses override both.",
  ["inputs"],"all combinations and nestings of operators","The tests check no tree shape with more than one operator.",
  ["parser.go","token.go"],[("precedence climbing","parser.go parseBinaryExpr"),("precedence table","token.go Precedence")],["Parse: BinaryExpr, ParenExpr"])
p("C15","Source positions point at the text",
  "The start and end position of every expression of a parsed rule delimit the stretch of source text it was written as, and a syntax error's offset and context point at the place where parsing stopped.",
  ["inputs"],"all rules","The tests check positions of some two dozen values, most at one column.",
  ["parser.go","primitive.go","composite.go","geometry.go","datetime.go","ast.go"],[("offset bookkeeping","primitive.go, composite.go")],["Pos, End","Error.Offset, Error.Msg"])
p("C16","Literal values, units and signs are kept",
  "The value, unit and sign of every literal (numbers, percentages, speeds, distances, temperatures, pressures, durations, coordinates, strings, booleans) in a parsed rule are those written, or the rule is rejected.",
  ["inputs"],"all literals in all documented spellings","The tests check positions of unit literals but almost none of their values.",
  ["primitive.go","units.go","geometry.go"],[("unit recognition","units.go"),("numeric conversion","primitive.go parseAllTypes")],["Parse: literal nodes"])
p("C17","Type checking accepts exactly well-typed conditions",
  "CheckType accepts a rule if and only if every operator in its condition is applied to operand types that the operator admits, with selectors typed by the dictionary and variables by their assignment.",
  ["inputs"],"all conditions x dictionaries","The tests cover single-operator conditions on sampled operand types.",
  ["typecheck.go"],[("operator rule table","typecheck.go rules"),("operand classification","typecheck.go is*")],["CheckType"])
p("C18","Calendar literals are validated",
  "Dates, times, weekdays and months outside the documented ranges are rejected, alone and inside lists and ranges, and accepted ones carry the fields that were written.",
  ["inputs"],"all calendar literals","The tests sample a few dozen.",
  ["datetime.go"],[("range checks","datetime.go")],["Parse: DateTyp, TimeTyp, WeekdayTyp, MonthTyp"])
p("C19","Variables are unique and resolvable",
  "A rule that assigns a variable twice, or assigns a variable reference to a variable, is rejected; in an accepted rule every assigned variable is found under the name it was written with.",
  ["inputs"],"all SET sections","The tests sample a few.",
  ["parser.go","ast.go"],[("duplicate check","ast.go SetVar"),("assignment parsing","parser.go parseSet")],["Parse","CheckType"])
p("C20","Keyword spellings are case-insensitive",
  "Keywords, operators, units written in the accepted spellings and calendar names are recognised in any documented letter case, while string contents and variable names keep theirs.",
  ["inputs"],"all spellings","The tests use one or two spellings of each.",
  ["token.go","keyword.go","units.go","datetime.go"],[("lower-casing","token.go Scan")],["Parse","Tokenizer.Scan"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
