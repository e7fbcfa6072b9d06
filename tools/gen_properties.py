#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))
PARSE = ["nrbf::RemotingMessage::parse"]
SLICE = ["nrbf::from_slice"]
BP = "src/binary_parser/mod.rs"

prop("C01", "Parsing and deserialising never panic, abort or hang",
 "For every byte sequence, parsing it returns a message or an error: it never panics, never aborts the process and never fails to terminate. The same holds for deserialising the bytes into any type.",
 ["inputs"], "All byte sequences; all target types.",
 "The tests parse about 25 well-formed messages and assert successful results; no test feeds malformed, truncated or inconsistent bytes to the record parser.",
 [BP, "src/combinator.rs", "src/data_type/length_prefixed_string.rs", "src/value/mod.rs", "src/value/object.rs"],
 [("unreachable!() guarded by the additional-type-info pairing", BP), ("checked multiplication of array lengths", BP), ("splitting of rectangular arrays by draining chunks", BP)],
 observe=PARSE + SLICE)
prop("C02", "Declared sizes never drive memory use beyond the data present",
 "The memory allocated while parsing is bounded by a fixed multiple of the input's length plus the number of elements the message supplies, the nulls of its null runs included. A length, count, rank or string size that is larger than what the remaining input can supply leads to an error, without memory being reserved in proportion to the declared number.",
 ["inputs"], "All messages, and every declared 32-bit length, count, rank, null count or string length in them.",
 "No test declares a size that the input does not back; the tests never look at allocation.",
 [BP, "src/combinator.rs", "src/common/class_info.rs", "src/record/binary_array.rs", "src/record/array_of_value_with_code.rs"],
 [("elements are collected one by one while input lasts", BP), ("null runs are expanded only up to the array's length", BP)],
 observe=PARSE)
prop("C03", "Every primitive value decodes to exactly the value that was encoded",
 "Each of the fifteen primitive types decodes to exactly the encoded value, with its own type, for every bit pattern: little-endian integers and floats bit for bit, characters as UTF-8, decimals digit for digit, booleans from 0 and 1 only. This holds wherever a primitive may occur: typed class members, self-describing members, primitive arrays, general arrays, inline method arguments and inline return values. What follows the value in the message is read from the byte right after it.",
 ["inputs"], "All primitive types x all bit patterns x all positions a primitive can take.",
 "Each type is tested with one or two values in one position (a boxed system class); most positions, DateTime, TimeSpan, Decimal and Char are untested.",
 ["src/data_type/", "src/record/member_primitive_untyped.rs", "src/record/member_primitive_typed.rs", "src/record/value_with_code.rs", BP],
 [("one parser per primitive type", "src/data_type/"), ("three dispatch tables from type code to parser to Value", "src/record/")],
 observe=PARSE)
prop("C04", "Strings decode exactly and are borrowed from the input",
 "A string is decoded as exactly the number of bytes its variable-length prefix states (seven bits per prefix byte, least significant group first, at most five bytes), in every place a string may occur. Non-empty results point into the caller's input instead of being copies. A prefix that exceeds the format's maximum, or bytes that are not valid UTF-8, make the parse fail.",
 ["inputs"], "All string lengths and contents; all places: root strings, members, array elements, class, member, library and method names, inline arguments.",
 "Four lengths made of all-one bits are tested on the string parser itself; two short strings in messages.",
 ["src/data_type/length_prefixed_string.rs", "src/record/binary_object_string.rs", "src/record/string_value_with_code.rs", "src/common/class_info.rs"],
 [("prefix parser over 7-bit groups and UTF-8 validation of the slice", "src/data_type/length_prefixed_string.rs")],
 observe=PARSE)
prop("C05", "Only complete, exactly framed messages are accepted",
 "A message is accepted only if it starts with a stream header of version 1.0 with a non-negative root id and ends with the end-of-message record as its last byte. Hence no proper prefix of an accepted message is accepted, and an accepted message followed by any further bytes is rejected.",
 ["inputs", "crash_points"], "All accepted messages, all their truncation points, all continuations, all header field values.",
 "Tests only feed complete messages with the right header.",
 [BP, "src/record/serialization_header.rs", "src/record/message_end.rs"],
 [("header checks", "src/record/serialization_header.rs"), ("end record and trailing-data check", BP)],
 observe=PARSE)
prop("C06", "Objects have exactly their declared class, library and members",
 "A parsed object carries the class name of its record, the library name its record refers to (none for system classes), and exactly one entry per declared member. Each entry holds the value that stands at that member's position in the message, for any number of members and any mix of member kinds, for all four record forms that declare a class.",
 ["inputs"], "All class declarations (typed/untyped, system/library), member counts, and combinations of member kinds, including nested objects.",
 "One library class with four strings and boxed single-member system classes are tested; untyped forms and most member kinds are not.",
 [BP, "src/common/class_info.rs", "src/common/member_type_info.rs", "src/common/additional_type_info.rs", "src/record/"],
 [("member names zipped with parsed members", BP), ("type enums zipped with additional type infos", BP)],
 observe=PARSE)
prop("C07", "Re-using a class by id equals spelling the class out again",
 "An object record that only names the id of the earlier object that spelled its class out yields the same value as if class name, library, member names and member types were repeated in it. The definition used is that of the object named, however many classes the message defines and however deeply either object is nested. If no class was defined under that id before that point the parse fails.",
 ["inputs"], "All messages with class definitions and later instances by id, in any order, nesting and number.",
 "No test contains a class-by-id record at all.",
 [BP, "src/record/class_with_id.rs"], [("table of classes by object id", BP)],
 state=[("classes", "class definitions by id of the defining object", BP)], observe=PARSE)
prop("C08", "Arrays hold exactly the declared number of elements, in order",
 "A one-dimensional array yields exactly as many elements as it declares, in message order, for every element kind; a run-length null record stands for exactly the stated number of consecutive null elements. A null run of zero, or one that exceeds the elements still missing, makes the parse fail. What follows the array is read from the byte right after its last element.",
 ["inputs"], "All array record kinds x lengths x element mixes x ways of writing nulls.",
 "Four arrays are tested, one of them with a null run that exactly fills a string array.",
 [BP, "src/common/array_info.rs", "src/record/object_null_multiple.rs", "src/record/object_null_multiple_256.rs"],
 [("element loops with null-run expansion", BP)], observe=PARSE)
prop("C09", "Multi-dimensional arrays nest row-major according to their lengths",
 "A non-empty array of rank r becomes r levels of nested arrays whose sizes are the declared lengths, outermost first, with the elements in row-major order and null runs counting as elements wherever they fall. Lower bounds never influence the result. Jagged arrays are one-dimensional arrays of references to their inner arrays.",
 ["inputs"], "All general array records: ranks, lengths, lower bounds, array kinds, element types, null runs crossing row boundaries.",
 "One 1x2, one 10x4 all-zero rectangular array and two jagged ones are tested: transposition of most shapes goes unnoticed.",
 [BP, "src/record/binary_array.rs"], [("repeated chunking of the flat element list", BP)], observe=PARSE)
prop("C10", "References yield the value of the object with that id",
 "Wherever a successful parse met a reference, the result holds the value of the object that carries the referenced id, whether it is defined before or after the reference, directly or through further references. Any number of references to the same object are resolved. A reference to an id that no object carries makes the parse fail, and so does a chain of references that leads from the result back into itself.",
 ["inputs"], "All reference graphs up to the bound, in all record orders, from all positions that can hold references.",
 "Two jagged arrays, one list and one method call contain forward references in a single order; no backward, repeated, dangling or cyclic reference is tested.",
 [BP, "src/record/member_reference.rs"], [("resolution of references from the root after all records are read", BP)],
 state=[("objects", "values parsed so far by id", BP)], observe=PARSE)
prop("C11", "The parsed value is the object with the root id",
 "For a message without method call or return, the result is the value of the top-level object whose id is the header's root id, whatever its position among the message's records and whatever other objects there are. If no object has that id the parse fails.",
 ["inputs"], "All messages with several top-level records, all root ids.",
 "In every test the root is the first record and has id 1.",
 [BP, "src/record/serialization_header.rs"], [("root lookup after all records are read", BP)], observe=PARSE)
prop("C12", "Undefined, duplicate or invalid identifiers are always rejected",
 "A message that uses a library id, class-definition id or object id that it does not define is rejected, as is one that defines the same object id or the same library id twice, or uses an id of zero. This holds for every record kind and position that carries such an id.",
 ["inputs"], "All records and positions with ids x all id faults.",
 "No test contains an invalid identifier.",
 [BP, "src/combinator.rs", "src/record/class_with_id.rs", "src/record/binary_library.rs"],
 [("id combinators", "src/combinator.rs"), ("library, class and object tables", BP)],
 state=[("binary_libraries", "library names by id", BP)], observe=PARSE)
prop("C13", "Library records bind names to ids and change nothing else",
 "A library record may precede any object, array, nested object, method call or method return, and from then on classes naming its id carry its name. Its presence never changes any other value: in particular raw primitive data is never taken for a library record, whatever bytes it consists of.",
 ["inputs"], "All placements of library records, all raw primitive data.",
 "Two tests have a library record, in one placement each; one test covers one raw value that starts like a library record.",
 [BP, "src/record/binary_library.rs"], [("optional library record before each element of the grammar", BP)],
 state=[("binary_libraries", "library names by id", BP)], observe=PARSE)
prop("C14", "Method calls report the name, type, context and arguments encoded",
 "A method call yields exactly the encoded method name, type name, inline call context (none unless flagged inline) and arguments. Arguments are the inline list, the whole call array, or the array that is the call array's first item, as its flags say, and none if flagged absent. If the flags announce arguments in a call array that is missing, has another id than the root id, or whose first item is not an array, the parse fails.",
 ["inputs"], "All flag words x names x contexts x argument lists x call array shapes.",
 "One method call with one flag word is tested.",
 [BP, "src/record/binary_method_call.rs", "src/record/array_of_value_with_code.rs"],
 [("conditional fields by flag", "src/record/binary_method_call.rs"), ("argument selection", BP)], observe=PARSE)
prop("C15", "Method returns report the value, context and arguments encoded",
 "A method return yields exactly the encoded return value (inline, or the item of the call array that holds it, or none), inline call context and arguments, selected by its flags in the same way as for calls. If the flags announce arguments or a return value in a call array that is missing or has another id than the root id, or arguments in a first item that is not an array, the parse fails.",
 ["inputs"], "All flag words x return values x contexts x argument lists x call array shapes.",
 "One method return with one flag word is tested.",
 [BP, "src/record/binary_method_return.rs", "src/record/value_with_code.rs"],
 [("conditional fields by flag", "src/record/binary_method_return.rs"), ("argument selection", BP)], observe=PARSE)
prop("C16", "Contradictory method flags are always rejected, others accepted",
 "A method call or return is rejected if its flag word sets more than one flag of the argument, context or return category, or sets flags of two categories that exclude each other (exception with argument, return or signature; return with signature). Flag words without such a contradiction are accepted, provided the fields they announce are present.",
 ["inputs"], "All 2^16 combinations of the defined flags, for calls and returns.",
 "Two flag words, both valid, are tested.",
 ["src/record/message_flags.rs"], [("category checks on the flag word", "src/record/message_flags.rs")], observe=PARSE)
prop("C17", "Unknown codes are rejected and known codes keep their meaning",
 "Every byte that selects a record kind, primitive type, member type or array kind selects exactly the one the format assigns to it; any other value makes the parse fail, as does a known code where the format does not allow it (such as a null or string type code for raw primitive data, or an array record in place of a member).",
 ["inputs"], "All 256 values of every code byte in every position where such a code is read.",
 "Only valid codes appear in the tests, most of them once.",
 ["src/enumeration.rs", "src/record/mod.rs", BP], [("enumerations with explicit discriminants", "src/enumeration.rs"), ("record dispatch by trial in order", BP)], observe=PARSE)
prop("C18", "A member's declared type governs which records may fill it",
 "A slot declared as string takes a string, a reference or null; one declared with a class takes null, a reference, or an object of exactly that class and library; array-typed slots take references and null; object slots take any of these and self-describing primitives. Any other record in a string or class slot makes the parse fail. The rules are the same for class members and general array elements.",
 ["inputs"], "All declared slot types x all records x class and array slots.",
 "Tests contain matching records only, and no nulls or references in typed members except one array reference.",
 [BP, "src/common/additional_type_info.rs"], [("dispatch on declared type", BP), ("comparison of declared and actual class and library", BP)], observe=PARSE)
prop("C19", "Scalars deserialise to the parsed value or fail, never to another",
 "Deserialising a scalar, or an object of one of the twelve boxed system primitive classes, gives exactly the parsed value when the target type can represent it and an error otherwise: integers are never truncated or wrapped, only float targets may round, kinds are never confused. A boxed class with missing, extra or wrongly named members is an error. Deserialisation never succeeds on bytes that do not parse, nor on method calls and returns.",
 ["inputs", "programs"], "All scalar values x all scalar target types, bare and boxed.",
 "One value per type and mostly the matching target type are tested; no range failure, no malformed box.",
 ["src/lib.rs", "src/remoting_message.rs", "src/value/mod.rs", "src/value/object.rs", "src/data_type/mod.rs"],
 [("dispatch from Value to visitor", "src/value/mod.rs"), ("unwrapping of boxed system classes", "src/value/object.rs")], observe=SLICE)
prop("C20", "Arrays and generic lists deserialise all their elements, in order",
 "Deserialising an array gives exactly its elements in order, and fails if the target takes fewer or needs more. Deserialising a generic list object gives exactly its first `_size` items, and fails if the backing array holds fewer, if the size is negative, or if the target's length differs. An object of the list class with members other than `_items`, `_size` and `_version` is rejected rather than read as a list that loses them.",
 ["inputs", "programs"], "All arrays and lists up to the bound x sizes x target shapes and lengths.",
 "One array and one list are tested against four target lengths; list size always fits.",
 ["src/value/mod.rs", "src/value/object.rs"], [("sequence access with end check", "src/value/mod.rs"), ("list access bounded by size", "src/value/object.rs")], observe=SLICE)
prop("C21", "Objects deserialise field by field, null only into optional or unit",
 "Deserialising an object into a struct or map gives each field the value of the member with that name, independent of member order; a missing required field or a mismatching kind is an error. Null becomes None or unit and nothing else, and a non-null value becomes Some of that value, at every depth including the top level.",
 ["inputs", "programs"], "All member sets and orders x struct, map, option, tuple and nested targets.",
 "Three structs are tested, all members present and matching; options only inside one list.",
 ["src/remoting_message.rs", "src/value/mod.rs", "src/value/object.rs"],
 [("struct and map access over members", "src/value/object.rs"), ("option handling", "src/value/mod.rs")], observe=SLICE)
prop("C22", "Each parse depends on its own input bytes only",
 "The result of parsing a byte sequence depends on nothing but those bytes: not on messages parsed before, successfully or not, not on values still alive, not on where in memory the bytes lie or what surrounds them, and not on how often or in how many threads they are parsed (the order in which a map's entries are visited aside). The same holds for deserialising.",
 ["histories", "schedules", "inputs"], "All sequences of parses over a corpus up to the bound; all buffer placements; all interleavings of two parses at the bound of two preemptions.",
 "Each test parses one or a few messages with no interplay in ids.",
 ["src/remoting_message.rs", BP], [("a fresh parser per call", "src/remoting_message.rs")], observe=PARSE + SLICE)
prop("C23", "Equivalent encodings of the same data parse to equal results",
 "The choice among equivalent encodings never shows in the result: how objects and libraries are numbered, whether a class is typed or self-describing, whether it is spelled out or re-used by id, whether a string is written in place or by reference, how consecutive nulls are grouped, in which array record kind a list is written, and where a library record stands.",
 ["inputs"], "All data up to the bound x all combinations of encoding choices.",
 "The tests contain one encoding per datum.",
 [BP], [("normalisation of all record forms to one value type", BP)], observe=PARSE)
prop("C24", "Date-times and time spans expose the encoded ticks and kind",
 "For every 64-bit date-time, the tick count is its lower 62 bits and the kind its upper two bits (1 UTC, 2 local, 0 none). For every time span the value is the encoded signed 64-bit tick count. Deserialising either to an integer gives the encoded 64-bit value.",
 ["inputs"], "All 64-bit patterns, as a member, array element or inline argument.",
 "No test contains a date-time or time span.",
 ["src/value/date_time.rs", "src/value/time_span.rs", "src/data_type/datetime.rs", "src/data_type/timespan.rs"],
 [("bit split of the 64-bit word", "src/value/date_time.rs")], observe=["nrbf::value::DateTime", "nrbf::value::TimeSpan"] + SLICE)
prop("C25", "Deserialising bytes is parsing them and deserialising the message",
 "Deserialising bytes into a type fails if the bytes do not parse, and if they are a method call or return, whatever the type. Otherwise it ends exactly as deserialising the parsed message into that type does: with an equal value, or with an error in both cases. An unconstrained target sees the value that was parsed, with its kind, at every depth.",
 ["inputs", "programs"], "All byte sequences x target types.",
 "The tests deserialise a handful of well-formed messages from bytes only; none deserialises a parsed message, a malformed one, a call or a return.",
 ["src/lib.rs", "src/remoting_message.rs"],
 [("parse, then hand the message to the target", "src/lib.rs"), ("one deserializer for values, none for calls and returns", "src/remoting_message.rs")],
 observe=SLICE + PARSE)
prop("C26", "The work grows in proportion to the data",
 "The processor time of parsing or deserialising grows in proportion to the length of the input and the size of the value it stands for (written out in full: with every null, and with the names of class and members for every object), up to a logarithmic factor, whichever of its dimensions grows: the records, objects, references, libraries, classes, class re-uses, members, elements, nulls, arguments, lengths of strings and names. What came before is not searched, copied or decoded again for every record, member or element that follows, nor what is still to come. The same holds for input that is rejected.",
 ["inputs"], "All families of messages with a growing dimension; every size up to megabytes.",
 "The tests parse messages of some hundred bytes, for which quadratic work takes no noticeable time.",
 [BP, "src/value/mod.rs", "src/value/object.rs"],
 [("maps from ids to objects, classes and libraries", BP), ("references resolved by one lookup each", BP), ("members moved out of the objects they belong to", "src/value/object.rs")],
 observe=PARSE + SLICE)
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
