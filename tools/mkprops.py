#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os
DOM = ("all well-formed JSON texts whose root is an object or array and whose objects have no repeated key, in any layout")
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                     mechanism=[dict(name=a,where=b) for a,b in mech],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01","A path that exists yields exactly the bytes of the value it denotes",
 "For every well-formed document whose root is an object or array and every path (object keys in their source spelling, array positions in decimal) that resolves in it, Get succeeds and returns exactly the source bytes of the denoted value, a string value without its surrounding quotes and otherwise unaltered. Get without a path returns the document itself.",
 ["inputs"], DOM+"; all resolving paths",
 "The tests read 9 fixed files (and their flattened forms); which byte a quote, brace, comma, colon, backslash or blank occupies relative to the path decides which scanner branch runs, and that space is unbounded.",
 ["inter_core.go","inter_get.go"],
 [("core: one-pass byte scanner with level/quote tracking and value-skipping jump","inter_core.go:core"),("Get slices the document","inter_get.go:Get")],
 observe=["Get"])
prop("C02","A path that does not exist is always an error, never some other value",
 "For every well-formed document whose root is an object or array and every path that does not resolve in it (absent key, array position at or beyond the length, a negative position, a non-numeric component on an array, any component below a scalar or an empty container), every lookup (Get, the typed getters, the type queries, iteration and collection functions, Parser.Get) reports an error and returns no value from elsewhere in the document. A failed lookup is the only reason for such an error: it never depends on what other objects or strings in the document contain.",
 ["inputs"], DOM+"; all non-resolving paths built from the document's own keys, foreign keys and positions",
 "The tests only ask for paths that exist; a scanner that runs on past the end of the addressed object finds same-named keys elsewhere and no test looks.",
 ["inter_core.go","inter_type.go","parse_utils.go"],
 [("level bookkeeping and key-not-found / out-of-range exits of core","inter_core.go:core"),("node.walk","parse_utils.go:walk")],
 observe=["Get","GetString","GetInt","GetType","IsArray","IterateArray","GetKeys","Length","Parser.Get"])
prop("C03","Typed getters return the value's exact conversion or an error",
 "For every well-formed document and resolving path, GetString/GetInt/GetFloat/GetBool return the conversion of precisely the addressed value's text and an error when it has no such conversion; GetStringArray/GetIntArray/GetFloatArray/GetBoolArray (interpreter and Parser alike) and ParseArray return one element per array element, in order, surrounding blanks and quotes removed and an empty slice for an empty array, or an error when some element is not convertible. No call panics on a well-formed document.",
 ["inputs"], DOM+"; all paths; all eight typed getters of interpreter, JO and Parser, and ParseArray",
 "No test calls the typed array getters or the numeric getters at all; element splitting depends on blanks, nesting, escapes and emptiness.",
 ["inter_get.go","parse_get.go","others.go","utils.go"],
 [("element splitter loops","inter_get.go:GetIntArray.."),("ParseArray","others.go"),("cleanValueString","utils.go")],
 observe=["GetInt","GetFloat","GetBool","Get*Array","ParseArray"])
prop("C04","Set replaces exactly the addressed value and nothing else",
 "For every well-formed document, resolving non-empty path and well-formed new value, Set returns the document with exactly the bytes of the addressed value (with its quotes, if a string) replaced by the new value, every other byte unchanged, so that reading the path yields the new value and every path outside it still yields what it did. For a path that does not resolve, or no path, Set returns an error together with the document unchanged; the typed Set variants equal Set with their value's canonical JSON text.",
 ["inputs"], DOM+"; all paths; all new values from a scalar/container alphabet",
 "The tests set one bare word at existing paths of 9 files and read back only that path; the rest of the document is never compared.",
 ["inter_set.go","utils.go","inter_core.go"],
 [("core's value span, quote widening","inter_set.go:Set"),("replace","utils.go:replace")],
 observe=["Set","SetString","SetInt","SetFloat","SetBool"])
prop("C05","AddKeyValue appends one pair to the addressed object, or changes nothing",
 "For every well-formed document and path (possibly empty) denoting an object that lacks the key, AddKeyValue returns a well-formed document in which that object has exactly one more pair, last, with that key and value, all existing pairs keeping order and bytes and everything outside the object unchanged. If the object already has the key it fails with the key-already-exists error, if the path denotes anything else or nothing it fails, and in every failing case the returned document equals the given one; typed variants write their argument in decimal JSON form.",
 ["inputs"], DOM+"; all paths; new, existing, empty and odd keys; all values of the alphabet; all typed variants",
 "The tests add one fixed key to existing objects of 9 files; empty objects, blanks before the brace, same-named keys elsewhere, rejected keys and the integer variants are never exercised.",
 ["inter_add.go","inter_core.go","utils.go"],
 [("empty-object detection, duplicate probe via core, splice before closing brace","inter_add.go:AddKeyValue")],
 observe=["AddKeyValue","AddKeyValueString","AddKeyValueInt*","AddKeyValueUint*","AddKeyValueFloat","AddKeyValueBool"])
prop("C06","Add and Insert place one element in an array and shift nothing else",
 "For every well-formed document and path (possibly empty) denoting an array, Add appends the value as the new last element, and Insert at an existing position i makes it element i with the later elements shifted by one; the result is well formed, the other elements keep order and bytes and everything outside the array is unchanged. When the path denotes anything but an array (including a string that looks like one), does not resolve, or the position is negative or not below the length, they fail and the returned document equals the given one; typed variants write their argument in decimal JSON form.",
 ["inputs"], DOM+"; all array and non-array paths; all positions -1..length+1; all values; all typed variants",
 "The tests only insert at position 0 and append to existing arrays; blanks around commas, middle and last positions, strings and empty arrays are not tried.",
 ["inter_add.go","inter_core.go","utils.go"],
 [("edge search around the element and splice","inter_add.go:Insert"),("splice before closing bracket","inter_add.go:Add")],
 observe=["Add*","Insert*"])
prop("C07","Delete removes exactly the addressed element or pair and its comma",
 "For every well-formed document and resolving non-empty path, Delete returns a well-formed document from which exactly the addressed element or key-value pair is gone, the siblings keeping order and bytes and everything outside the enclosing container unchanged. For a path that does not resolve, or no path, it returns an error together with the document unchanged.",
 ["inputs"], DOM+"; all paths",
 "The tests delete only what they just appended (always the last member); first, middle and only members, blanks around commas and string neighbours are not tried.",
 ["inter_delete.go","inter_core.go"],
 [("edge search for the neighbouring comma/brace","inter_delete.go:Delete"),("key start from core","inter_core.go:core")],
 observe=["Delete"])
prop("C08","SetKey renames exactly the addressed key and keeps keys unique",
 "For every well-formed document and path denoting an object member, SetKey with a key the object does not have returns the document with exactly the bytes of that key replaced, every other byte unchanged, so the value is found under the new key and no longer under the old. If the new key is empty or already present in that object, or the path is empty, does not resolve or denotes an array element, it fails and the returned document equals the given one.",
 ["inputs"], DOM+"; all member and non-member paths; new, existing, escaped and empty new keys",
 "The tests rename to one fresh key on 9 files and never compare the rest of the document; collisions, escapes in keys, and array elements are not tried.",
 ["inter_set.go","inter_core.go"],
 [("duplicate probe and key span","inter_set.go:SetKey")],
 observe=["SetKey"])
prop("C09","Store is an upsert: it sets a present key, adds an absent one, else fails",
 "For every well-formed document, path (possibly empty) denoting an object, key and well-formed value, Store yields the document Set would produce when the key is present and the document AddKeyValue would produce when it is absent, so that the key reads back as the value and storing again changes nothing. When the path does not resolve or denotes something that cannot hold the key, it fails with the document unchanged; the JO methods and the typed variants agree with Store on the same arguments.",
 ["inputs","histories"], DOM+"; all paths, keys and values of the alphabet; Store followed by Store",
 "No test calls any Store function.",
 ["inter_set.go","jin_object_add.go"],
 [("Store: probe, then replace or AddKeyValue","inter_set.go:Store"),("JO.Store re-implementation","jin_object_add.go:Store")],
 observe=["Store*","JO.Store*"])
prop("C10","Iteration visits every member once, in order, and obeys the callback",
 "For every well-formed document and path (possibly empty) denoting an array, IterateArray calls the callback exactly once per element in order with the element's text (blanks around it and a string's quotes removed), and IterateKeyValue does the same with (key, value) for objects; an empty container gives no call. If the callback returns false there is no further call and the result is nil; if it returns an error there is no further call and exactly that error is returned; a path that does not denote such a container is an error with no call.",
 ["inputs","histories"], DOM+"; all container paths; every callback behaviour (continue / stop at member i / fail at member i)",
 "The tests iterate to the end over non-empty containers of 9 files; stopping, failing, blanks around members and empty containers are not tried.",
 ["inter_iter.go","utils.go"],
 [("comma/brace splitting loops","inter_iter.go"),("cleanValue","utils.go:cleanValue")],
 observe=["IterateArray","IterateKeyValue"])
prop("C11","Walk visits every scalar of the document once, in order, with its path",
 "For every well-formed document, Walk calls the callback exactly once for each scalar value, in document order, with its last path component, its text (a string without quotes) and a path that resolves to it; empty containers contribute nothing and do not end the walk. If the callback returns an error, no further call happens and exactly that error is returned; if it returns false no further call happens and the result is nil; the path given to one call is not altered by later calls.",
 ["inputs","histories"], DOM+"; every callback behaviour (continue / stop / fail at visit i); retained paths compared after the walk",
 "No test calls Walk.",
 ["walk.go","inter_iter.go","inter_type.go"],
 [("recursive walk over IterateKeyValue/IterateArray","walk.go:walk")],
 observe=["Walk","JO.Walk"])
prop("C12","Collection getters and Length agree with the container they read",
 "For every well-formed document and path (possibly empty) denoting an object, GetKeys, GetValues and GetKeysValues list its keys and values in document order (values trimmed, strings unquoted), GetMap maps exactly each key to its value, and GetAll/GetAllMap return exactly what Get returns for each requested key and fail if one is absent; for arrays GetMap maps each position to its element. Length is the number of members of the addressed array or object, whatever the layout, and what follows the container in the document has no influence.",
 ["inputs"], DOM+"; all container paths; all subsets of present keys plus an absent key",
 "The tests flatten documents first, compare GetKeysValues only with the library's own GetKeys/GetValues, and never call GetMap/GetAll/GetAllMap beyond one example each.",
 ["inter_get.go","others.go","utils.go"],
 [("GetKeys/GetValues/GetKeysValues scanners","inter_get.go"),("getStartEnd","utils.go:getStartEnd"),("Length","others.go:Length")],
 observe=["GetKeys","GetValues","GetKeysValues","GetMap","GetAll","GetAllMap","Length"])
prop("C13","Type queries classify every addressed value correctly",
 "For every well-formed document and resolving path (possibly empty), exactly one of IsObject, IsArray, IsValue is true and it is the one matching the addressed value, and GetType names its JSON type (array, object, string, boolean, null, number). IsEmpty on an array or object is true exactly when it has no members.",
 ["inputs"], DOM+"; all resolving paths",
 "No test calls a type query; strings that look like numbers, literals or containers, and one-character containers decide the outcome.",
 ["inter_type.go"],
 [("typeControlCore on the first byte","inter_type.go:typeControlCore"),("IsEmpty scan","inter_type.go:IsEmpty")],
 observe=["IsObject","IsArray","IsValue","GetType","IsEmpty"])
prop("C14","A parsed document answers every path exactly as the interpreter does",
 "For every well-formed document, Parse succeeds, and for every path Parser.Get (and its typed variants) returns the same value as the interpreter's Get, or an error exactly when the path does not resolve; JSON returns the given text and GetNew rebuilds, for every path, text with the same content. Tree lists every member once, in document order, at its depth, and TreeFull does so with each member's value.",
 ["inputs"], DOM+"; all resolving and non-resolving paths",
 "The tests read existing paths of 9 files; one-element arrays, nesting beyond the stack's initial capacity, blanks and failed paths are barely reached, GetNew and Tree not at all beyond one example.",
 ["parse_core.go","parse_get.go","parse_utils.go","sequence.go"],
 [("pCore: one-pass tree construction with brace/index stacks","parse_core.go:pCore"),("sequance stack growth","sequence.go"),("node.walk","parse_utils.go:walk"),("dive","parse_utils.go:dive")],
 state=[("node tree","label/value/children of every member","parse_utils.go:node"),("braceList/indexList","open containers and next array index","parse_core.go")],
 observe=["Parse","Parser.Get","Parser.GetNew","Parser.Tree","Parser.JSON"])
prop("C15","A Parser edited by any sequence of operations equals a fresh parse",
 "After every sequence of Parser edits (Set, SetKey, AddKeyValue, Add, Insert, Delete and typed variants; successful or failed), the Parser's JSON text is the well-formed document that the same edits produce on a plain tree, and for every path Get, GetNew and Tree answer as a fresh Parse of that text would (TreeFull too, up to blanks in values). A failed edit changes no answer.",
 ["histories","inputs"], "all edit sequences up to the stated depth from all small documents, over all paths and an alphabet of values and keys",
 "Every test makes one edit on a fresh Parser and reads back one path; text and tree are updated by separate code and only histories reveal their divergence.",
 ["parse_add.go","parse_set.go","parse_delete.go","parse_utils.go","parse_core.go"],
 [("tree surgery: append/insert/deAttach/relabel","parse_utils.go"),("text edit through the interpreter functions","parse_add.go, parse_set.go, parse_delete.go"),("ancestor value refresh loops","parse_*.go")],
 state=[("Parser.core","tree of nodes","parse_utils.go:Parser"),("Parser.json","text","parse_utils.go:Parser")],
 observe=["Parser.JSON","Parser.Get","Parser.GetNew","Parser.Tree"])
prop("C16","A JO behaves as the function set applied to its current text",
 "For every document and every sequence of JO method calls, each method returns what the function of the same name returns on the JO's current text, and afterwards the JO's text is that function's resulting document if it succeeded and is unchanged if it failed; JSON and String always show that text. ReadFile/ReadJSONFile give a JO whose text is the file's exact content, or an error and no JO when the file cannot be read.",
 ["histories","inputs","fault_sequences"], "all method sequences up to the stated depth from small documents; unreadable/absent/empty/large files",
 "No test uses a JO; each method is hand-written delegation, and a failing call in the middle of a history is what loses the document.",
 ["jin_object.go","jin_object_add.go","jin_object_get.go","jin_object_set.go","jin_object_others.go","walk.go"],
 [("delegation j.body, err = F(j.body, ...)","jin_object_*.go")],
 state=[("JO.body","current document text","jin_object.go")],
 observe=["JO.*"])
prop("C17","Flatten and Indent change layout only and are mutually inverse",
 "For every well-formed JSON text (any root), Flatten returns it with exactly the blanks outside strings removed, and Indent returns a well-formed text with the same content whose Flatten equals the Flatten of the original and which depends only on that; both are idempotent and never alter a byte inside a string. Neither panics on any well-formed text.",
 ["inputs"], "all well-formed JSON texts including scalar roots, in any layout, with any escapes",
 "One example each, one level of escapes; the tests use Flatten as part of their own oracle, and never call Indent.",
 ["others.go","utils.go"],
 [("quote toggling and escape skipping","others.go:Flatten"),("level-driven indentation","others.go:Indent")],
 observe=["Flatten","Indent"])
prop("C18","Builders and typed writers emit well-formed JSON that reads back",
 "For every list of values, MakeArray and its variants, MakeJson, MakeJsonString, MakeJsonWithMap, and the typed Set/Add/Insert/AddKeyValue/Store writers emit well-formed JSON with exactly one element per input, in order (maps: as a set), that reads back as the input: integers of every width in decimal, finite floats exactly, booleans, and text. A text that is itself a JSON number, literal, quoted string or bracketed JSON is written as that value and any other text (whose characters need no JSON escaping, or are already escaped) is written as a quoted string (texts that begin and end like a container or a quoted string without being JSON are outside this guarantee, and Parser.SetString may write look-alikes as strings); empty inputs give an empty container.",
 ["inputs"], "all value lists up to the stated length over alphabets of boundary ints, floats, booleans, look-alike texts",
 "The tests cover two examples with a handful of values; look-alikes of numbers, empty lists, whole floats and wide integers are never tried.",
 ["make.go","utils.go","inter_add.go","inter_set.go"],
 [("formatType classification","utils.go:formatType"),("comma-trim assembly","make.go")],
 observe=["MakeArray*","MakeJson*","typed writers"])
prop("C19","A Scheme behaves as an ordered key set with one saved copy",
 "After every sequence of Add, Remove, Save and Restore on a Scheme, the current keys and the saved keys are those of an ordered list with one saved copy: Add appends an absent key and reports whether it did, Remove deletes a present key and reports whether it did, Save copies current to saved, Restore copies back; key lists handed in or out earlier are not altered by later calls. MakeJson/MakeJsonString pair exactly the current keys with the given values (nil on a count mismatch), Check holds exactly when the document has every key, CheckAbs exactly when it has these keys and no other, and MutateJson/MutateJsonAbs yield exactly the current keys with the document's values (MutateJsonAbs failing when one is absent, MutateJson writing an empty string).",
 ["histories","inputs"], "all operation sequences up to the stated depth over a small key alphabet; all small documents for the checks",
 "One example runs one fixed sequence; aliasing between the current and the saved list only shows in particular histories.",
 ["make.go"],
 [("keys/originalKeys slices","make.go:Scheme")],
 state=[("Scheme.keys","current keys","make.go"),("Scheme.originalKeys","saved keys","make.go")],
 observe=["Scheme.*"])
prop("C20","Calls never modify the caller's data, and results stay as returned",
 "No function or method modifies the bytes of the document, value or key it is given, nor the elements of the path slice or the memory behind it, whether it succeeds or fails. A document returned by an edit, and every string or slice of strings returned by a query, keeps its content no matter what calls are made later.",
 ["inputs","histories"], DOM+"; all operations; paths passed as sub-slices with spare capacity; every earlier result compared after later calls",
 "No test looks at its inputs after a call, and the tests pass path slices whose spare capacity is not observed.",
 ["inter_add.go","inter_set.go","inter_get.go","walk.go","utils.go","make.go"],
 [("replace allocates a new document","utils.go:replace"),("append(path, key) on caller slices","inter_add.go, inter_set.go, inter_get.go, walk.go")],
 observe=["all exported functions"])
prop("C21","No exported call panics or runs away on any byte sequence",
 "For every byte sequence whatsoever (truncated, corrupted, empty, blank or random text), every path, index and value, every exported function and method returns, normally or with an error, without panicking and without unbounded work or memory. In particular every prefix of a valid document and every one-byte corruption of it is survived by parsing, every query, every edit and formatting.",
 ["inputs","fault_sequences"], "all byte strings over the JSON-significant alphabet up to the stated length; all truncations and one-byte corruptions of all small documents; all operations",
 "The tests only feed valid documents.",
 ["inter_core.go","inter_iter.go","inter_get.go","inter_type.go","inter_add.go","inter_set.go","inter_delete.go","parse_core.go","parse_utils.go","sequence.go","others.go","utils.go"],
 [("length checks before indexing","all scanners"),("stack push/pop","sequence.go")],
 observe=["all exported functions"])
prop("C22","Every failure carries the error code of its cause",
 "On well-formed documents each failing call returns an error that ErrEqual recognises by the code of its cause and by no other: absent object key -> key not found, position outside a non-empty array -> index out of range, non-numeric component on an array -> index expected, missing required path -> null path, rejected empty key -> null key, key present already -> key already exists, object/array operation on something else -> object/array expected, failed conversion -> the matching parse code. ErrEqual is false for nil and for errors that carry no code.",
 ["inputs"], DOM+"; all operations with all failing arguments of the alphabet; all error codes",
 "No test inspects an error; callers (and the library itself, for upserts) branch on these codes.",
 ["errors.go","inter_core.go","inter_add.go","inter_set.go","inter_get.go","parse_add.go"],
 [("two-digit code at the end of the message","errors.go:ErrEqual"),("AddKeyValue/SetKey/Store branch on key-not-found","inter_add.go, inter_set.go")],
 observe=["ErrEqual"])
prop("C23","Calls on shared data are independent: concurrent, nested, interleaved",
 "Any number of calls running concurrently on the same document bytes, paths and values, and any number of concurrent reads of one Parser, one JO or one Scheme, each return exactly what they return when run alone, in every interleaving. A callback given to IterateArray, IterateKeyValue or Walk may itself call any function on the same document, or start a nested iteration, without changing what either call sees.",
 ["schedules","inputs"], "all interleavings of two (three) calls at statement granularity up to the stated preemption bound, for all pairs of operations; all operations nested at every callback",
 "The tests are single-threaded and no callback in them does anything that could disturb a scan with shared scratch state.",
 ["inter_core.go","inter_iter.go","inter_get.go","parse_core.go","parse_get.go","walk.go","others.go"],
 [("per-call scratch tables, no package-level mutable state","all scanners"),("read-only tree traversal","parse_utils.go:walk")],
 observe=["all query functions","Parser reads","edit functions on shared input"],
 hook="none in /repo: statement-level scheduling points are inserted in a scratch copy of the working tree")
prop("C24","Every history of edits keeps the document well formed and equal to a model",
 "Starting from any well-formed document (including the empty object and array), after any sequence of the editing functions (Set, SetKey, Store, AddKeyValue, Add, Insert, Delete, Flatten, Indent) the document is well formed and its content is that of a plain ordered tree to which the same edits were applied, each call failing exactly when the model's does. Reading any path of the result gives the model's value.",
 ["histories","inputs"], "all edit histories up to the stated depth from seed documents; all states deduplicated by text",
 "Every test makes at most two edits on a large regular document; documents that are themselves the product of edits (emptied, re-filled, oddly spaced) are not reached.",
 ["inter_add.go","inter_set.go","inter_delete.go","inter_core.go","others.go","utils.go"],
 [("all edit functions composed","inter_*.go")],
 state=[("document text","whole state of a history","caller")],
 observe=["JSON text after each step","Get on every path"])
prop("C25","Answers depend on content only, never on layout",
 "For every well-formed document and path, every query (Get, typed getters, type queries, iteration, collections, Length, Walk, Parser reads) gives the same answer on the document, on its Flatten, on its Indent and on any other layout of it (scalars byte for byte, containers up to blanks outside strings), and fails on one layout exactly when it fails on the others. Every edit applied to two layouts of one document gives two layouts of one document.",
 ["inputs"], DOM+"; all pairs (compact form, layout with blanks in any token gap)",
 "The tests compare a raw and a flattened run of the same 9 files, whose layout is one fixed indentation style; blanks before commas, colons and closing braces never occur in them.",
 ["inter_core.go","inter_iter.go","inter_get.go","inter_add.go","inter_delete.go","parse_core.go","others.go","utils.go"],
 [("blank skipping at every token boundary","all scanners"),("cleanValue/cleanValueString","utils.go")],
 observe=["all queries and edits"])
prop("C26","Arguments are not retained: buffers may be reused once a call returns",
 "The effect of a call is fixed when it returns. If afterwards the caller overwrites the value bytes, the path or key list it passed (and, for package functions, typed and string results, successful JO edits and builders, also the document or inputs it passed), then no document returned by an edit or builder, no string, key, number, map or error returned by a query, no later answer of the JO, Parser or Scheme and no key list changes. Conversely a call on memory that earlier held another document, path or value answers for its present content only. (Get's bytes, JSON(), callback arguments of type []byte and the text behind Parse and New are views and are outside this guarantee.)",
 ["inputs","histories"], DOM+"; all operations; all short edit histories on Parser, JO and Scheme through one recycled value buffer, path slice and document buffer",
 "The tests use fresh literals for every argument and never touch one after the call; recycled buffers are how real programs call a byte-slice library.",
 ["parse_utils.go","parse_add.go","parse_set.go","inter_set.go","inter_add.go","inter_get.go","jin_object.go","make.go","utils.go"],
 [("makeNode copies the value","parse_utils.go:makeNode"),("replace allocates the result","utils.go:replace"),("copyKeys","make.go")],
 state=[("node.value","value bytes held by the Parser's tree","parse_utils.go:node")],
 observe=["all exported functions"])
prop("C27","Parser edits change the text byte for byte as the package functions do",
 "For every well-formed document and every sequence of Parser edits (Set, SetKey, AddKeyValue, Add, Insert, Delete and their typed variants), each edit succeeds exactly when the package function of the same name succeeds on the Parser's current text, and afterwards Parser.JSON is byte for byte that function's result if it succeeded (layout included) and is unchanged if it failed. (Parser.SetString is compared on texts that are not themselves JSON values.)",
 ["histories","inputs"], "all edit sequences up to the stated depth from all small documents in many layouts; all typed variants",
 "The tests compare single values read back from flattened documents; the text a Parser would be saved as is never compared.",
 ["parse_add.go","parse_set.go","parse_delete.go","parse_utils.go","inter_add.go","inter_set.go","inter_delete.go"],
 [("text edit delegated to the interpreter functions","parse_add.go, parse_set.go, parse_delete.go"),("typed conversions","parse_add.go, parse_set.go")],
 state=[("Parser.json","text","parse_utils.go:Parser")],
 observe=["Parser.JSON","Set/Add/Insert/AddKeyValue/SetKey/Delete of Parser and package"])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
