import json
P=[]
def p(id,title,statement,text,why,files,mech,over=("inputs","programs"),state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe or ["validate_cbor","validate_json","validate_cbor_bytes","validate_json_str"],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":list(over),"text":text},"why_tests_cant":why,"anchors":a})

V="src/validate.rs"; F="src/flatten.rs"; PA="src/parser/mod.rs"
p("C01","Prelude type names accept exactly the values of their type",
"A value validates against a prelude type name (any, nil/null, bool, true, false, int, uint, nint, float and its sized aliases, tstr/text, bstr/bytes) exactly when it is a member of that type: uint is every integer >= 0, nint every integer < 0, int both, and no value of another kind is ever accepted. A non-member is reported as a mismatch, not as any other kind of error. Prelude types this implementation does not support are refused when the schema is loaded, never silently accepted.",
"all prelude names x all data values: every CBOR integer in -2^64..2^64-1, every float, every boolean, null, strings and containers",
"tests try a few hand-picked values per name; acceptance must be right for all 2^65 integers and all float bit patterns, at every sign and width boundary.",
[V,F],[("prelude dispatch","validate.rs validate_prelude_type"),("name resolution","flatten.rs flatten_typename")])
p("C02","A literal accepts exactly the equal value of the same kind",
"A literal used as a type (integer, float, text, byte string, true/false) accepts a value exactly when the value is of the same kind and equal to it: an integer literal never accepts a float of the same magnitude, a text literal never accepts a byte string with the same bytes, and no prefix, extension or one-bit variation of the literal is accepted.",
"all literals of each kind x all values of each kind (signed zeros and NaN set aside)",
"tests check a handful of literal/value pairs; exactness is a claim about every pair.",
[V,"src/value.rs","src/ivt.rs"],[("literal comparison","validate.rs validate_literal"),("literal to value conversion","validate.rs From<&Literal> for Value")])
p("C03","Ranges accept exactly the values between their endpoints",
"lo..hi accepts a number of the endpoints' kind exactly when lo <= v <= hi, and lo...hi exactly when lo <= v < hi; a range whose lower end exceeds its upper end accepts nothing, and a value of another kind is a mismatch. Endpoints may be named rules that resolve to literals; endpoints of different kinds, or that do not resolve to literals, are a schema (structural) error for every value.",
"all integer and float endpoint pairs, inclusive and exclusive, literal or by rule x all values",
"boundary behaviour at both ends for every endpoint pair, 128-bit comparisons included; tests have a few small ranges.",
[V,F],[("range check","validate.rs validate_range, check_range, deref_range_rule"),("range construction","flatten.rs flatten_range")])
p("C04",".lt .le .gt .ge accept exactly the integers the comparison admits",
"For targets uint, nint and int, `target .op N` (op one of lt, le, gt, ge; N an integer literal or a rule naming one) accepts a value exactly when it is an integer of the target type and `value op N` holds over the mathematical integers. A non-integer or out-of-type value is a mismatch; any other target (float included) or a limit that is not an integer is a schema error, whatever the value.",
"4 operators x 3 targets x all integer limits x all values",
"exactness at N-1, N, N+1 for every N and target, including limits of the opposite sign from the target.",
[V,F],[("comparison controls","validate.rs validate_control_{lt,le,gt,ge}, validate_*_{uint,nint,int}"),("control construction","flatten.rs control_{lt,le,gt,ge}")])
p("C05",".size constrains length and integer width exactly",
"On tstr and bstr, `.size N` accepts exactly the strings of N bytes (UTF-8 bytes for text), `.size a..b` lengths a to b, `.size a...b` lengths a to b-1. On uint, `.size N` accepts exactly 0 <= v < 256^N, and a proper range `.size a..b` (a < b) exactly the values whose minimal byte width lies in it. Other value kinds are mismatches; a negative or non-integer size, or another target type, is a schema error; sizes may be given through a rule.",
"all size limits and ranges x all integers / all strings up to the stated length",
"width boundaries 256^N - 1 / 256^N for all N, huge limits (N*8 must not overflow), and multi-byte characters; tests sample a few.",
[V,"src/normalize.rs",F],[("size checks","validate.rs validate_size_{uint,tstr,bstr}"),("normalisation","normalize.rs normalize_size_range")])
p("C06","A type choice accepts a value iff at least one alternative does",
"`a / b / ...` accepts a value exactly when some alternative, taken alone, accepts it - wherever the choice stands (top level, array element, map value, map key, range of an occurrence, behind a rule or parentheses) and in whichever order the alternatives are written. Failing alternatives leave no effect on later ones. Group choices `//` try their alternatives in order and the first that fits is taken.",
"all choices of up to three alternatives from the type vocabulary x all values",
"acceptance is compared with the alternatives' own verdicts for every value, not for sampled pairs; ordering and leakage bugs need the right failing alternative first.",
[V,PA,F],[("choices","validate.rs validate_choice, validate_array_member, validate_map_choice"),("parsing of / and //","parser/mod.rs ty, group")])
p("C07","Array schemas match element sequences left to right and consume all of them",
"An array is accepted exactly when its members, matched in order against the elements from the left (a repeated member taking as many as it can within its limits), all succeed and no element is left over. Anything that is not an array is a mismatch, and member keys written inside an array are ignored.",
"all array schemas with up to three members (types, keyed members, occurrences, groups, nested arrays) x all element sequences up to the stated length",
"leftover, missing and misordered elements must be detected for every combination of member kinds and counts.",
[V],[("array matching","validate.rs validate_array_part2, validate_array_member, validate_array_occur, validate_array_value")],
state=[("working array","the elements not yet matched","validate.rs WorkingArray")])
p("C08","Map schemas accept exactly the maps whose entries are all accounted for",
"A map is accepted exactly when every required member finds an entry whose key and value match, every optional or repeated member takes what it can within its limits, and no entry is left unmatched; each entry satisfies at most one member. The order in which the entries appear in the data never matters. Anything that is not a map is a mismatch.",
"all map schemas with up to three members (literal keys, type keys, optional, repeated, nested) x all maps of up to three entries in every order",
"which entry a type-keyed member claims depends on key order, value types and multiplicity; tests use one or two fixed maps.",
[V],[("map matching","validate.rs validate_map_part2, validate_map_member, validate_map_keyvalue, map_search, map_search_literal")],
state=[("working map","the entries not yet matched","validate.rs WorkingMap")])
p("C09","Cut: a key claimed by `:` or `^ =>` cannot be reused by a later member",
"When an optional or repeated member written with `:` or `^ =>` finds its key in the map but the value does not match, the map is rejected, even if a later member (such as `* tstr => any`) would accept the entry. With plain `=>` the entry stays available to later members. A cut never escapes the map, or the alternative of a group choice, in which it occurred, and is reported to the caller as a plain mismatch.",
"all maps mixing cut, non-cut and wildcard members, nested maps and group choices x all entries",
"the effect shows only with a wrong-typed value for an optional known key plus a permissive later member; leakage only in nested maps and alternatives.",
[V,PA,"src/util.rs"],[("cut","validate.rs validate_map_keyvalue, validate_map_occur; util.rs erase_mapcut"),("cut syntax","parser/mod.rs grpent_member")])
p("C10","A group that fails partway consumes nothing",
"When a group, an alternative, a repeated item or an unwrapped array/map fails after matching some of its members, every element or entry it had matched is available again, in its original place, to whatever is tried next. A group therefore matches entirely or not at all, at any nesting depth.",
"all nestings (to depth three) of groups, occurrences, choices, rules and unwraps in arrays and maps x all data",
"needs a failure after partial success inside nested groups, a case tests cover at one level only.",
[V],[("rollback","validate.rs WorkingArray/WorkingMap snapshot, rewind, commit")],
state=[("snapshots","what to restore if the group in progress fails","validate.rs WorkingArray.snaps, WorkingMap.snaps")])
p("C11","Occurrence indicators enforce their minimum and maximum exactly",
"`?`, `*`, `+`, `n*`, `*m` and `n*m` before an array or map member admit exactly the repetition counts they name: fewer than n repetitions is a mismatch and at most m are consumed, m = 0 included. The same holds when the occurrence is reached through a named group or applies to a parenthesised group.",
"all limits 0 <= n, m (small, and boundary sizes) x all counts of matching items up to the stated length",
"off-by-one and zero limits matter for every (n, m, count) triple; tests check a few.",
[V,PA,"src/ivt.rs"],[("occurrence loops","validate.rs validate_array_occur, validate_map_occur; ivt.rs Occur::limits"),("syntax","parser/mod.rs occur, occur_star")])
p("C12","A rule name means its definition; generics mean substitution",
"Replacing a type or group name by its (parenthesised) definition never changes which values are accepted, wherever the name stands, whatever order rules are written in, and through chains of names. A generic rule behaves as its body with the parameters replaced by the arguments as they read at the point of use: parameters shadow rules only inside that body, and never leak into the rules it mentions. Using a generic with the wrong number of arguments is a generic error.",
"all schemas of the vocabulary with names inlined or not, generics of one or two parameters (nested, passed through, shadowing) x all values",
"hygiene and scoping need particular name collisions and nesting; tests have a few fixed schemas.",
[V,F,PA],[("lookup and parameter scopes","validate.rs Context::lookup_rule, derive, blank; chase_rules")])
p("C13","Unwrap (~) is the same as writing the members inline",
"Inside an array (map), `~name` where name is an array (map) type behaves exactly as if the members of that type had been written, as a group, in its place - also when optional, repeated, in a choice, or with generic arguments. Unwrapping anything that is not of the enclosing kind of container matches nothing.",
"all array/map schemas with an unwrap in each position x all data",
"equality of two schemas over all data; tests check a few values.",
[V],[("unwrap","validate.rs validate_array_unwrap, validate_map_unwrap")])
p("C14","Choice from a group (&) is the choice of the group's member values",
"`&(a: x, b: y, z)` and `&name` for a named group accept a value exactly when the type choice `x / y / z` of the group's member types does, including groups that mention other groups by name. Applying & to something that is not a group is a schema error.",
"all groups of up to three members, inline, named and nested by name x all values",
"same set of accepted values as the explicit choice for every value.",
[V,F],[("choiceify","validate.rs validate_choiceify, validate_choiceify_members, validate_choiceify_inline"),("construction","flatten.rs flatten_choiceify, flatten_choiceify_inline")])
p("C15",".cbor T accepts exactly byte strings that hold one encoding of a T",
"`bstr .cbor T` accepts a byte string exactly when its whole content is one well-formed CBOR data item that T accepts. A value that is not a byte string is a mismatch; content that is not well-formed CBOR, or has bytes left over, is never accepted and never a panic. A target that is not a byte string type is a schema error when the schema is loaded.",
"all byte strings up to the stated length x T from the type vocabulary",
"every byte sequence, including truncated, over-long and non-minimal encodings, has to be classified; tests hold a few encodings.",
[V,F],[("embedded CBOR","validate.rs validate_control_cbor"),("construction","flatten.rs control_cbor")],over=("inputs",))
p("C16","Schema errors are reported as such, never as acceptance or mismatch",
"If validation has to consult an undefined name, a generic with the wrong arguments or a construct it cannot evaluate, the outcome is that error (missing rule, generic, structural, unsupported) and never a mismatch or an acceptance that hides it - also inside choices, occurrences, map keys and values, generics arguments, unwraps and groups. Conversely data that merely does not fit always yields a mismatch. Asking for a rule name that does not exist is a missing-rule error, and a generic rule cannot be validated against directly.",
"all positions of a broken reference in the schema vocabulary x all values that make validation reach it",
"the error must survive every enclosing construct, for each data value that reaches it; tests place it in a few spots.",
[V,"src/util.rs","src/context.rs",F],[("fatal vs mismatch","util.rs is_fatal, is_mismatch; each loop over alternatives in validate.rs")])
p("C17","Validation always terminates with a result",
"Every validation call returns within bounded work: schemas that refer to themselves (directly, mutually, through generics, groups, choices, unwraps or operators) end in an error or a verdict, repetitions of something that can match nothing do not loop, and no schema/data pair makes validation panic.",
"all schemas of the vocabulary including recursive ones and occurrences of possibly-empty items x all data up to the stated size",
"non-termination and panics need specific combinations (an empty-matching body under *, a recursion through an operator) that a finite test list does not enumerate.",
[V],[("recursion limit","validate.rs Context::inc_depth"),("occurrence loops","validate.rs validate_array_occur, validate_map_occur")])
p("C18","The schema parser is total: any text gives a schema or a parse error",
"Parsing and loading any UTF-8 text ends with either a rule set or an error; it never panics, overflows or hangs, however deeply the text is nested (beyond a limit of about 100 levels nesting is an error). Text is accepted only if all of it was understood as rules: trailing text that is not a rule is always an error.",
"all texts: arbitrary characters in every position of a set of skeletons covering each grammar production, and arbitrary short texts",
"malformed input is unbounded; tests list a few malformed schemas.",
[PA,F,"src/parser/parse_err.rs"],[("grammar","parser/mod.rs cddl, rule, ..."),("error conversion","parser/parse_err.rs")],over=("inputs",),observe=["parse_cddl","flatten_from_str","slice_flatten_from_str"])
p("C19","Number literals denote their exact value or are rejected",
"An integer literal in decimal, 0x or 0b notation, with or without minus sign, denotes exactly the integer it spells; one that cannot be represented is rejected with a parse error, never wrapped, truncated or rounded. A decimal floating-point literal denotes the nearest double, an exponent or fraction makes a number a float, and occurrence limits are read exactly.",
"all digit strings of each notation up to the stated length, around the 2^63 and 2^64 limits included",
"overflow and leading-zero/sign handling over all digit strings; tests hold a handful of literals.",
[PA,F],[("numbers","parser/mod.rs uint, int, float_or_int, parse_int, parse_float, uint_u64"),("conversion","flatten.rs num_to_i128")],over=("inputs",),observe=["parse_cddl","flatten_from_str"])
p("C20","Text and byte-string literals denote exactly what they spell",
"A text literal accepts every character the CDDL grammar allows, up to U+10FFFD, and denotes exactly those characters with backslash escapes decoded as in JSON. Byte-string literals denote exactly their bytes: the UTF-8 of '...', the decoded digits of h'...' and the decoded base64url of b64'...'. Malformed escapes, digits or base64, and unterminated literals, are parse errors.",
"all characters and short character sequences in each kind of literal",
"each code point, escape, digit and padding combination must decode exactly; tests use few literals.",
[PA],[("literals","parser/mod.rs text_literal, bytestring, is_unescaped_schar, is_unescaped_bchar, parse_hex")],over=("inputs",),observe=["parse_cddl","flatten_from_str"])
p("C21","Layout does not change meaning",
"Spaces, tabs, line ends (LF or CRLF), comments and blank lines may be added anywhere between tokens, and optional commas between group entries added or dropped, without changing the schema; a comment ends at its line end and its contents are never interpreted.",
"all whitespace/comment sequences up to the stated length at every token boundary of a set of schemas covering each production",
"each production has its own whitespace handling; an omission shows only for whitespace at that very spot.",
[PA],[("layout","parser/mod.rs optcom, ws, comment and each production's use of it")],over=("inputs","programs"),observe=["parse_cddl","flatten_from_str"])
p("C22","The source-preserving loader agrees with the plain one",
"slice_flatten_from_str accepts exactly the texts flatten_from_str accepts and yields the same rules; the text kept with each rule is the part of the input that defines it, and loading that text alone gives the same rule.",
"all texts: arbitrary characters in and around the rules of skeleton schemas",
"agreement must hold for each input, with comments and blanks before, between and after rules.",
[PA,F],[("slices","parser/mod.rs cddl_slice, offset, recognizer"),("flattening","flatten.rs slice_flatten")],over=("inputs",),observe=["flatten_from_str","slice_flatten_from_str"])
p("C23","Decoded data is validated as what it is; JSON and CBOR agree",
"Converting CBOR or JSON data for validation preserves it: each integer keeps its exact value over the whole 64-bit signed and unsigned ranges, floats stay floats with the same value, strings, bytes, booleans, null, array order and all map entries with distinct keys are kept, and kinds never change. Equal JSON and CBOR documents get the same verdict from the same schema, and a CBOR tag anywhere in the data is a value error.",
"all scalar values and all small nested containers, in both formats",
"exactness over all 2^64 integers of each sign and all floats; tests convert a few.",
["src/cbor.rs","src/json.rs","src/value.rs"],[("conversions","cbor.rs TryFrom, json.rs TryFrom")],over=("inputs",))
p("C24","Encoded documents: any bytes are classified without a panic",
"validate_cbor_bytes and validate_json_str accept only input that is entirely one well-formed encoded document which the rule accepts; malformed, truncated or trailing input is a value error, and a bad schema or unknown rule name is reported as a parse or missing-rule error. No input makes them panic.",
"all byte strings / texts up to the stated length x a set of schemas",
"decoding errors live in arbitrary byte sequences; tests use well-formed documents.",
["src/cbor.rs","src/json.rs"],[("entry points","cbor.rs validate_cbor_bytes, json.rs validate_json_str")],over=("inputs",))
p("C25",".regexp accepts exactly the texts in which the pattern matches",
"`tstr .regexp P` accepts a text value exactly when pattern P matches in it, rejects other texts and every non-text value with a mismatch; a malformed pattern, a pattern that is not a text literal, or a target that is not text is a schema error when the schema is loaded.",
"a set of patterns covering anchors, classes, repetition and alternation x all texts up to the stated length",
"tests check a few strings against one or two patterns.",
[V,F],[("regexp","validate.rs validate_control_regexp; flatten.rs control_regex")])
p("C26","Member keys mean what their syntax says",
"In a map, `name: T`, `\"name\": T` and `\"name\" => T` all require the text key \"name\"; `1: T` and `1 => T` require the integer key 1; `name => T` takes any key accepted by the type called name. `name: T` and `\"name\": T` are cuts, `=>` is not and `^ =>` is. A bare type without a key never matches a map entry.",
"all member-key forms x all keys (text, integer, boolean, bytes) and values",
"each form has its own parsing path; a wrong reading shows only for the right key kind.",
[PA,F,V],[("member keys","parser/mod.rs grpent_member, assemble_basic_member; flatten.rs flatten_member")])
p("C27","Every well-formed schema text is accepted",
"A text that follows the CDDL grammar (RFC 8610 appendix B, within the documented subset: no tags, sockets or /= //= extensions) is parsed: no well-formed rule, group, choice, occurrence, member key, generic, range, control operator, literal, comment or layout is refused as a parse error. The few documented limits are the nesting depth and integer literals outside the 64-bit ranges.",
"skeletons covering each grammar production with arbitrary characters in one or two places, against an independent recogniser of the grammar",
"tests list schemas that load; a production that is refused only in an unusual position, spelling or combination is not among them.",
[PA],[("grammar","parser/mod.rs cddl, rule, ty, type2, grpent, grpchoice, occur, ...")],over=("inputs",),observe=["parse_cddl","flatten_from_str"])
p("C28","Every way in gives the same outcome",
"validate_cbor_bytes and validate_json_str give the outcome that parsing the schema text, flattening it, looking the rule up and calling validate_cbor or validate_json on the decoded document give, whichever of the four loaders (flatten_from_str, parse_cddl and flatten, slice_flatten_from_str, slice_parse_cddl and slice_flatten) is used and whichever LookupContext supplies the rules (BasicContext or one of the user's own); the class of the error is the same too.",
"schemas of every kind of node, well-formed and broken, with arbitrary characters in places x encoded documents with arbitrary bytes x the ways in",
"agreement must hold for each schema, rule name and document; tests use one way per schema.",
["src/cbor.rs","src/json.rs","src/context.rs",F,V],[("whole ways in","cbor.rs validate_cbor_bytes, json.rs validate_json_str"),("steps","flatten.rs flatten_from_str, flatten, slice_flatten_from_str, slice_flatten; context.rs LookupContext, BasicContext")],over=("inputs","programs"))
p("C29","Outcomes do not depend on earlier calls",
"Loading a schema and validating a value are functions of their arguments: the outcome is the same however many and whatever other texts were loaded (accepted, refused, nested beyond the limit, broken off inside brackets) and values validated before, against this schema or another, and a used context behaves as one just loaded.",
"pairs and triples of calls with arbitrary characters in the texts and arbitrary payloads in the values",
"state left behind by a call (a nesting count after an error, a cache with too narrow a key) shows only for particular sequences of calls; each unit test makes one.",
[PA,V,F,"src/cbor.rs","src/json.rs"],[("nesting count","parser/mod.rs NESTING"),("validation","validate.rs do_validate, context.rs BasicContext")],over=("inputs","histories"))
p("C30","A parse error names the literal that is malformed",
"A schema text that is refused because of a malformed literal gives a ParseError whose kind is that literal's (MalformedInteger for an integer beyond the 64-bit ranges, in any notation and in occurrence limits too; MalformedText for a bad escape in a text or a quoted byte string; MalformedHex and MalformedBase64 for byte strings) and whose ctx is that literal's own characters (the digits, or what stands between the quotes, blanks in h'' apart), wherever in the schema the literal stands; the first such literal counts. A text refused for any other reason, an unclosed literal included, is Unparseable.",
"malformed literals with arbitrary characters x every place a literal can stand",
"the parser tries alternatives at each place and can lose the error in any of them; tests check three texts.",
[PA,"src/parser/parse_err.rs"],[("failures that end the parse","parser/mod.rs map_res_fail, grpent_member_tail"),("kinds","parser/parse_err.rs ErrorKind")],over=("inputs",),observe=["parse_cddl","slice_parse_cddl"])
p("C31","The syntax tree says what the schema text says",
"parse_cddl gives, for a schema text, the rules in the order written, each with its name, its generic parameters in order, and the tree the grammar assigns to its right side: the alternatives, members, group alternatives and generic arguments all there and in the order written; literals as their kind and value; the occurrence (`?`, `*`, `+`, n*m with a missing n as 0 and a missing m as unlimited) on the entry it precedes; keys as bareword, value or type with their cut flag (set after `:` and `^ =>`, not after `=>`); operators with target, operand and name; parentheses, `~` and `&` where they stand. slice_parse_cddl gives the same rules, each with its text.",
"trees of every node kind x layouts x places, spelled with arbitrary names, digits and characters",
"the tree is what tools other than the validator consume; tests check fixed texts for some node kinds.",
[PA,"src/ast.rs"],[("grammar functions","parser/mod.rs rule, ty, type1, type2, grpent, memberkey, occur"),("tree","ast.rs")],over=("inputs",),observe=["parse_cddl","slice_parse_cddl"])
p("C32","The text of an error names its subject",
"The Display text of an error states what went wrong and with what, and the same wherever it stands. A mismatch is 'Mismatch(expected X)' with X the name of the prelude type (nil, bool, int, uint, nint, float, tstr, bstr), the literal or the range (lower bound, '..' or '...', upper bound) the data failed to meet, 'choice of N' for a choice of N alternatives, 'array' or 'map' where the data was of another kind, 'shorter array' or 'shorter map' where elements or members were left over, 'array element X' for an element of a named type or literal that is not there, and 'map{\"k\"}' for a member that is not there. This is so directly, through rules, groups, generic parameters, parentheses and unwrapping, and inside arrays and maps, from CBOR and from JSON. Looking up a name that is not defined gives MissingRule carrying exactly that name, shown as 'MissingRule(name)'. A schema that does not parse gives an error shown as its kind followed by its context in parentheses, the same from the parser and from validation. (The letter case of type names is left open.)",
"errors of every kind x subjects (types, literals and names with arbitrary characters, ranges, shapes) x places x values that do not fit",
"the text is all a caller logs or shows; it is put together from the flattened schema, so a subject that is lost, swapped or resolved to another rule shows nowhere else; tests look at error kinds only.",
["src/util.rs","src/validate.rs","src/ivt.rs","src/parser/parse_err.rs"],[("error texts","util.rs ValidateError, Mismatch, mismatch"),("subjects","validate.rs validate_prelude_type, validate_literal, validate_range, validate_choice, validate_array, validate_map, validate_array_member, map_search_literal, lookup_rule"),("how subjects are written","ivt.rs Display")],over=("inputs",),observe=["validate_cbor","validate_json","parse_cddl"])
p("C33","The flattened schema says what the syntax tree says",
"flatten and slice_flatten turn any syntax tree, however it was put together, into exactly the rules it contains: one definition per rule, under its name, with its parameters in order and (for slice_flatten) its own text unchanged. The definition has the shape of the rule's tree: alternatives, entries, members and arguments all present, in their order and nesting; each literal with its value; each range with both its ends in order and its inclusiveness; each control operator with its own target and its own argument; each member with its key, value and cut; each occurrence with its limits around its own entry; barewords as text keys; prelude names as the types they stand for, wherever they occur, and every other name as a reference with all its arguments. A group of one alternative is its entries, one of several a choice of groups. A tree that names an unsupported prelude type, an unknown control operator, an argument of a kind the operator does not take, a range end that is neither literal nor name, arguments for a prelude type, or an unwrapped or choice-from-group prelude type is refused as a whole, by both alike.",
"syntax trees: names with arbitrary characters, arbitrary literals and limits, all operators, keys and occurrences, up to three levels of nesting and 40 alternatives, entries or arguments",
"every verdict rests on this tree; flatten is public and takes trees no text of the test suite produces; the tests compare a few dozen schemas.",
["src/flatten.rs","src/ivt.rs"],[("rules","flatten.rs flatten, slice_flatten, flatten_rule"),("types, groups, members, controls, ranges and names","flatten.rs flatten_type, flatten_group, flatten_member, flatten_control, flatten_range, flatten_typename, flatten_name_generic"),("occurrences and values","flatten.rs occur_wrap, flatten_value; ivt.rs constructors")],over=("inputs","programs"),observe=["flatten","slice_flatten"])
p("C34","Schemas put together by hand are judged by what their nodes say",
"A rule definition built from the public ivt types, with no schema text behind it, is validated as its nodes say, also where the language cannot spell them: an integer literal, a range and an operator's limit of any 128-bit value compare exactly; a .size limit that no length can have (negative, or beyond 64 bits) is a schema (structural) error; an occurrence admits exactly the counts between its limits, and nothing when the lower is above the upper; a choice of one alternative is that alternative and a choice of none accepts nothing; a definition that still needs parameters is a generic error. Whatever nodes stand in whatever places, validation ends in a verdict or an error and never panics. The helpers agree with this: Occur::limits and Occur::symbol give the limits and the notation of the occurrence, and normalize_size_range gives the range a size stands for (a size N is N..N) or the structural error.",
"trees of every node kind in every other, two deep, with arbitrary 128-bit integers, floats and 64-bit occurrence limits x values",
"programs that build their own schemas reach values and shapes that no text produces, and that the tests, which start from text, never see.",
["src/ivt.rs","src/normalize.rs",V],[("constructors and limits","ivt.rs Occur::new, limits, symbol; Rule, Choice, Range, Control"),("size limits","normalize.rs normalize_size_range"),("dispatch","validate.rs validate, validate_array_member, validate_map_member, validate_range, validate_control_*")],over=("inputs","programs"),observe=["validate_cbor","validate_json","Occur::limits","Occur::symbol","normalize_size_range"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
