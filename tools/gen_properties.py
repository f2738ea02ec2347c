#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mechanism,observe,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mechanism],observe_at=observe,hook_needed=hook)))
SL="Drawing::save / save_binary followed by Drawing::load"
p("C01","Entities survive save and load unchanged",
 "An entity added to a drawing and saved, as text or binary, for a version whose format has that entity type comes back from loading with every field that format can carry equal to what was saved (floating point to 12 digits in text, exactly in binary). Its neighbours are unaffected, and a field the version does not have comes back as its default without disturbing the others.",
 ["inputs","configurations"],"every entity type x every field x a domain of values per field type (all enum variants, extreme integers, empty and multi-element lists, present and absent options), single deviations and pairs, x every version x text/binary",
 "The tests read or write a handful of hand-picked entities in one direction; no test writes an entity and reads it back field by field, let alone for each version and encoding.",
 ["src/entity.rs","src/entity_iter.rs","src/generated.rs","build/entity_generator.rs","spec/EntitiesSpec.xml","src/helper_functions.rs"],
 [("per-type code pair writer and reader pairs","src/entity.rs, generated entities.rs"),("post-parse assembly of coordinate lists","src/entity.rs"),("version gates","spec/EntitiesSpec.xml")],[SL])
p("C02","Objects survive save and load unchanged",
 "A non-graphical object added to a drawing and saved, as text or binary, for a version whose format has that object type comes back from loading with every field that format can carry equal to what was saved. Its neighbours are unaffected, and a field the version does not have comes back as its default without disturbing the others.",
 ["inputs","configurations"],"every object type x every field x value domains, single deviations and pairs, x every version x text/binary",
 "Object tests cover a few types in one direction and one version; most of the 41 types are never written and read back.",
 ["src/object.rs","src/object_iter.rs","build/object_generator.rs","spec/ObjectsSpec.xml","src/section_type_settings.rs","src/section_geometry_settings.rs","src/table_cell_style.rs","src/transformation_matrix.rs"],
 [("custom readers and writers with stateful decoding of repeated codes","src/object.rs"),("generated readers and writers","generated objects.rs")],[SL])
p("C03","Symbol table entries survive save and load unchanged",
 "Every entry of every symbol table (application ids, block records, dimension styles, layers, line types, text styles, coordinate systems, views, view ports) comes back from a save, as text or binary, and load with every field the target version can carry equal to what was saved, in the same order and in its own table.",
 ["inputs","configurations"],"9 tables x every field x value domains, single deviations and pairs, 0..3 entries per table and all pairs of tables, x every version x text/binary",
 "Table tests check a few fields of layers, styles and view ports for one version, in one direction.",
 ["src/table.rs","build/table_generator.rs","spec/TableSpec.xml"],[("generated table readers and writers","generated tables.rs"),("table dispatch by name","src/table.rs")],[SL])
p("C04","Header variables survive save and load unchanged",
 "Every header variable that the target version has comes back from a save, as text or binary, and load with the value that was saved, including dates and durations to the second, unique ids, colours and handles. Setting one variable never changes another, and variables the version lacks come back as their defaults.",
 ["inputs","configurations"],"every header variable x value domain, single deviations and pairs, x every version x text/binary",
 "Tests sample under twenty of about 270 variables, none in pairs, and never compare a date to the second.",
 ["src/header.rs","build/header_generator.rs","spec/HeaderVariablesSpec.xml","src/helper_functions.rs"],[("generated variable dispatch by name and code","generated header.rs"),("julian date conversion","src/helper_functions.rs")],[SL])
p("C05","Blocks, classes, thumbnail and item order survive save and load",
 "A drawing's blocks with their contents, its classes and its thumbnail image come back from a save and load as they were, and all entities, objects, blocks and table entries come back in the order they were in, with the same number of each. A thumbnail in any bitmap form another program may write (header, depth, palette, color masks) is read with its pixels as they are. Repeating the save and load adds and drops nothing.",
 ["inputs","configurations","histories"],"every block and class field x value domain; all ordered pairs of entity types (inside and outside blocks) and of object types; thumbnails of every size up to a bound and of every header, depth and palette count; up to 3 repeated save/load cycles; x versions x text/binary",
 "Tests read or write one block or one class at a time; none writes a mixed sequence and reads it back.",
 ["src/drawing.rs","src/block.rs","src/class.rs","src/thumbnail.rs","src/entity_iter.rs"],[("section readers and writers","src/drawing.rs"),("block reader and writer","src/block.rs"),("class reader and writer","src/class.rs"),("bitmap header reconstruction","src/thumbnail.rs")],[SL])
p("C06","Text values are preserved exactly",
 "Any text stored in a drawing (any Unicode characters, control characters, backslashes, carets, leading or trailing blanks, escape-like sequences) comes back from a save and load exactly as it was, whatever the version and whether saved as text or binary.",
 ["inputs","configurations"],"all strings up to a length over an alphabet of structurally relevant characters, and every Unicode scalar value on its own and between other characters, x every version x text/binary",
 "The encoding tests try about ten strings; the escaping scheme has interactions between neighbouring characters that only exhaustive combination reaches.",
 ["src/code_pair_value.rs","src/code_pair_writer.rs","src/code_pair_iter.rs","src/helper_functions.rs"],[("control character escaping","src/code_pair_value.rs"),("Unicode escaping for versions up to R2004","src/code_pair_value.rs, src/code_pair_writer.rs"),("switch to UTF-8 from R2007 on","src/header.rs, src/code_pair_iter.rs")],[SL])
p("C07","Scalar values survive both encodings over their whole range",
 "Every 16-, 32- and 64-bit integer, boolean, handle, finite floating point number and byte string stored under any group code of that type reads back equal (floating point to 12 decimal places in text, bit-exactly in binary), in text and in binary files of every version.",
 ["inputs","configurations"],"every group code 0..1071 with its value type x boundary and bit-pattern domains (all 65536 16-bit integers, all powers of two and neighbours, all binades of doubles, all byte values and chunk lengths), x versions x text/binary",
 "Tests check about a dozen values; range errors appear only at particular magnitudes or group codes.",
 ["src/code_pair_writer.rs","src/code_pair_iter.rs","src/code_pair.rs","src/expected_type.rs","src/helper_functions.rs"],[("group code to value type table","src/expected_type.rs"),("number formatting and parsing","src/code_pair_value.rs, src/helper_functions.rs")],[SL+" with the value inside an extension record or extended data"])
p("C08","Saved files are well-formed DXF with the documented group codes",
 "Every saved file is a well-formed group-code stream: sections, tables, blocks and sequences open and close properly, nothing follows the end marker, each item and header variable appears under its documented name and each field under its documented group code, and the text and binary files of the same drawing carry the same groups and values.",
 ["inputs","configurations"],"every field of every item type and header variable (deviation 1 from the default), x every version; grammar and text/binary comparison on every file produced",
 "A reader and a writer that are wrong in the same way pass every round trip; tests compare only short extracts of the output.",
 ["src/drawing.rs","src/code_pair_writer.rs","src/entity.rs","src/object.rs","src/table.rs","src/header.rs","spec/EntitiesSpec.xml"],[("section framing","src/drawing.rs"),("binary prelude, code width and value layout","src/code_pair_writer.rs")],["bytes written by Drawing::save and save_binary, decoded by an independent decoder"])
p("C09","Handles are non-zero, unique and never reused",
 "However a drawing is built, edited, saved and loaded, every item added to it gets a non-zero handle that no other item of the drawing has (block contents, vertices and attributes included), and the next handle it hands out is new. Handles given out are not given out again, also after removing items or saving and loading (clearing the drawing starts over). An item made an owner before it is added gets a handle in the same way. Loading keeps the handles the file gives.",
 ["histories","inputs"],"all operation sequences up to a depth over add/remove of each kind of item, clear, normalize, and save+load; and files with every small pattern of present, missing and low handles and handle seed",
 "Tests add one item and compare with zero; collisions need sequences such as load, then add.",
 ["src/drawing.rs","src/handle.rs","src/entity.rs","src/block.rs"],[("next available handle counter","src/drawing.rs"),("handle assignment on add and on load","src/drawing.rs, src/block.rs")],["Drawing add_* / remove_* / save / load, item handles, header's next available handle"])
p("C10","Handle lookup and item references resolve to the right item",
 "Looking up a handle yields exactly the top-level item that has it, of any kind (table entry, block, entity or object), and nothing for a handle no item has. An owner or other item-to-item reference set through the API resolves to the item it was set to, before saving and after a save and load, for every kind of referring and referred-to item.",
 ["histories","inputs"],"every kind of item as referrer x every kind as target x drawings holding several items of each kind, x lookups by shared and exclusive reference, x versions x text/binary",
 "Tests try two kinds of referrer with one target each.",
 ["src/drawing.rs","src/drawing_item.rs","src/entity.rs","src/object.rs","src/table.rs"],[("linear search over each collection","src/drawing.rs item_by_handle"),("handle-backed references","generated accessors")],["Drawing::item_by_handle(_mut), get_*/set_* reference accessors"])
p("C11","Named resources an item refers to exist; normalizing is idempotent",
 "After adding any entity, object, layer or block, the layer, line type, text style, dimension style, multi-line style, block record or view it names exists in the drawing, added exactly once if it was missing (for the contents of a block: layers and line types). Normalizing any drawing makes all the standard entries present, removes and renames nothing, sorts tables by name, and doing it twice gives the same as doing it once.",
 ["histories","inputs"],"all operation sequences up to a depth over adding items that name existing or new resources, removing table entries, and normalizing, against a reference model",
 "Tests add one item to an empty drawing; none checks repetition, removal or idempotence.",
 ["src/drawing.rs","src/table.rs","src/header.rs"],[("ensure_*_is_present","src/drawing.rs"),("normalize","src/drawing.rs")],["Drawing add_*, normalize, table iterators"])
p("C12","Loading never panics, hangs or exhausts memory",
 "Loading any sequence of bytes, whether text, binary or DXB, ends with a drawing or an error: it never panics, overflows the stack, loops forever, or allocates memory out of proportion to the input. The same holds for saving whatever was loaded.",
 ["inputs"],"every single-place mutation of a corpus of valid files covering every item type (delete, duplicate, swap and replace each group; replace each value by each of a hostile value set; each byte value at each byte of small files), all short byte strings, all group sequences to a depth, nesting to large depths",
 "Tests hold some twenty malformed files.",
 ["src/drawing.rs","src/entity.rs","src/object.rs","src/helper_functions.rs","src/code_pair_iter.rs","src/thumbnail.rs","src/dxb_reader.rs","src/x_data.rs","src/extension_data.rs"],[("error propagation","everywhere in the readers"),("bounds checks","readers")],["Drawing::load, Drawing::save"])
p("C13","A file cut short inside a section is an error, not a shorter drawing",
 "If a valid text or binary file is cut off at any byte inside a section, loading it returns an error. A cut after a complete section yields exactly the sections before it, never anything else.",
 ["crash_points","inputs"],"every byte offset of each file of a corpus covering every section and item type, x text/binary",
 "One test cuts one file in one place.",
 ["src/drawing.rs","src/code_pair_iter.rs","src/entity_iter.rs","src/object.rs","src/table.rs","src/header.rs","src/class.rs","src/block.rs"],[("end-of-input handling in each section reader","section readers")],["Drawing::load"])
p("C14","I/O errors are reported and partial transfers are transparent",
 "If reading or writing fails at any point, the load or save returns an error; and if the stream merely transfers fewer bytes than asked, or is interrupted, the outcome is the same as without. Saving to a file reports success only when all data reached the file.",
 ["fault_sequences","crash_points"],"a failure of each kind at every read or write call and byte offset, every fixed transfer size, interruptions at every call, x load / save / save_binary / save_dxb / save_file*",
 "No test injects a fault.",
 ["src/drawing.rs","src/helper_functions.rs","src/code_pair_iter.rs","src/code_pair_writer.rs","src/dxb_writer.rs","src/dxb_reader.rs","src/entity_iter.rs"],[("error propagation with ?","readers and writers"),("buffered file writers","src/drawing.rs")],["Drawing::load / save / save_binary / save_dxb / save_file / save_file_binary / save_file_dxb"])
p("C15","Saving is deterministic, changes nothing, and is stable under reload",
 "Saving the same drawing twice gives identical bytes and leaves the drawing unchanged. Loading a saved file and saving it again for the same version gives the same bytes (the first load may drop what the fields or the version cannot hold, and files up to R12, which have no room for every handle, may renumber), so nothing drifts or accumulates however often it is repeated.",
 ["inputs","histories","configurations"],"every item type with defaults, with every field set and with each single field deviating, drawings mixing them, normalized drawings, x versions x text/binary, 2 to 3 cycles",
 "No test saves a loaded drawing or saves twice.",
 ["src/drawing.rs","src/header.rs","src/helper_functions.rs","src/object.rs","src/block.rs"],[("writers take shared references","src/drawing.rs"),("sorted map iteration","src/object.rs")],["bytes of Drawing::save / save_binary"])
p("C16","DXB files written can be read back with the same geometry",
 "A drawing saved in the DXB format and loaded again has the same entities of the kinds DXB can hold, in the same order, with the same coordinates (to the single precision that DXB has; x and y only for two-dimensional kinds), layers (of one-byte characters), colours, bulges and widths; entities DXB cannot hold are left out without disturbing the others. A single block without loose entities keeps its base point and contents.",
 ["inputs","configurations"],"all sequences up to a depth over DXB-able and other entities with varying layers and colours, every field's value domain, with and without a block",
 "Tests write or read three entities, one at a time.",
 ["src/dxb_writer.rs","src/dxb_reader.rs","src/dxb_item_type.rs"],[("item encoding","src/dxb_writer.rs"),("item decoding","src/dxb_reader.rs")],["Drawing::save_dxb followed by Drawing::load"])
p("C17","The DXB reader interprets every item sequence per the format",
 "For every sequence of DXB items, the loaded drawing is what the format's rules give: current layer, colour, number mode and scale factor (which scales the coordinates of integer mode; integer angles are millionths of a degree, bulges 65536ths) apply to all following items, line and trace extensions continue from the last one, and vertices with their bulges and widths belong to the polyline being read.",
 ["inputs","histories"],"all item sequences up to a depth over all item types, in integer and floating point mode, against a reference interpreter",
 "Tests read one short stream in each mode.",
 ["src/dxb_reader.rs","src/dxb_item_type.rs"],[("reader state (layer, colour, scale, mode, last line/trace)","src/dxb_reader.rs")],["Drawing::load of DXB bytes"])
p("C18","Saving for an older version keeps everything that version can hold",
 "Saving any drawing for any version gives a file that loads as that version: entities, objects and table entries whose type the version does not have are left out, and all the others, before and after them, come back in order with their fields intact. No version makes saving fail.",
 ["inputs","configurations"],"all ordered triples around each item type (neighbour, item, neighbour) with every field set, x every version x text/binary, plus version changes between load and save (every ordered pair of versions)",
 "Tests check one or two version-gated fields and types.",
 ["src/drawing.rs","src/entity.rs","src/object.rs","build/entity_generator.rs","build/object_generator.rs","spec/EntitiesSpec.xml","spec/ObjectsSpec.xml"],[("minimum/maximum version gates","generated writers, spec"),("version names","src/enums.rs")],[SL])
p("C19","Unknown or extra content does not disturb what is known",
 "Inserting comments, unknown sections, unknown tables, unknown entities or objects, unknown header variables, or unknown group codes anywhere the format allows leaves the rest of the loaded drawing exactly as it would be without the insertion.",
 ["inputs"],"each kind of insertion at every position of a corpus of files covering every item type, in text and binary, singly and in pairs",
 "Four tests insert one unknown thing at one place.",
 ["src/drawing.rs","src/entity.rs","src/object.rs","src/table.rs","src/code_pair_iter.rs","src/header.rs"],[("skip loops for unknown sections, tables and items","src/drawing.rs, src/table.rs, generated readers"),("comment filtering","src/code_pair_iter.rs")],["Drawing::load"])
p("C20","Collections behave like ordered lists under any edit history",
 "For every collection of a drawing, adding appends one item with the given content, removing by index takes out exactly that item and returns it (or returns nothing when out of range), iterating visits items in order, edits through mutable iteration stick, and clearing empties everything. No operation changes a collection it does not concern, beyond adding the named resources an added item needs.",
 ["histories"],"all operation sequences up to a depth over the 12 collections against a reference model of lists",
 "Tests add or remove a single item.",
 ["src/drawing.rs","src/block.rs"],[("add_*/remove_*/iterators","src/drawing.rs")],["Drawing's collection API"])
p("C21","Polylines and inserts gather exactly their own vertices and attributes",
 "For every sequence of entities in a file, a polyline gets exactly the vertices that directly follow it and an insert exactly the attributes that follow it, up to the sequence end marker if there is one; multi-line text of an attribute joins that attribute; and every other entity stays in the drawing in file order, inside blocks as well.",
 ["inputs"],"all sequences up to a depth over polyline, vertex, insert with and without the attributes flag, attribute, attribute definition, multi-line text, end marker and a plain entity, in the entities section and in a block, with handles and without, against a reference gatherer",
 "Tests read one or two fixed sequences.",
 ["src/entity_iter.rs","src/entity.rs","src/block.rs"],[("vertex, attribute and mtext gathering","src/entity_iter.rs")],["Drawing::load"])
p("C22","Layout variations of a text file do not change what is loaded",
 "A text file with any mix of LF and CR LF line ends, blanks around group codes and numbers, leading zeros or signs, 16-bit integers written as decimals, letter case of hexadecimal digits, unique ids with or without braces, a byte order mark, or no end marker loads as the same drawing as its plain form.",
 ["inputs"],"each layout variation at every line of a corpus of files, singly and all at once, and in pairs",
 "Three tests cover one variation each.",
 ["src/code_pair_iter.rs","src/helper_functions.rs","src/code_pair_value.rs"],[("line reading and number parsing","src/helper_functions.rs"),("byte order mark handling","src/helper_functions.rs")],["Drawing::load"])
p("C23","Flag accessors are independent and agree with the stored bits",
 "Setting any named flag of any item to true or false makes its getter return that value, changes no other named flag or field of the item, and the setting survives a save and load.",
 ["inputs"],"every flag accessor pair found in the API x every combination of the item's flag bits (or of pairs of flags) x both values",
 "Tests touch a few flags in a single state.",
 ["src/entity.rs","src/object.rs","src/table.rs","src/block.rs","src/class.rs","src/enums.rs","src/header.rs","spec/EntitiesSpec.xml"],[("bit masks in generated and hand-written accessors","generated code, src/block.rs, src/class.rs, src/enums.rs")],["flag getters and setters, serialized bits"])
p("C24","Colours, line weights, points and dates convert without loss",
 "Colour, line weight and view mode values keep exactly one meaning each over all raw values, every colour index round trips, every version name maps back to its version, and every date and duration converts to its stored number and back to the same second.",
 ["inputs"],"all 65536 raw colours and line weights, all colour indices, all version names, dates at every second of selected days and every day of four centuries, durations",
 "Tests check under ten values.",
 ["src/color.rs","src/line_weight.rs","src/enums.rs","src/helper_functions.rs"],[("raw value predicates","src/color.rs, src/line_weight.rs"),("julian day arithmetic","src/helper_functions.rs")],["Color, LineWeight, AcadVersion API and header dates through save and load"])
p("C25","Malformed values are rejected with an error at the right place",
 "A group code, number, handle or binary value that is not of the form its type requires makes loading fail with an error that names the line (text) or byte offset (binary) of the offending group, wherever in the file it is; it is never silently replaced or skipped. (16-bit integers beyond their range are clamped, which is not judged.)",
 ["inputs"],"every typed value of a corpus of files replaced by each malformed form for its type, in text and binary",
 "Two tests check the offset of one error each.",
 ["src/code_pair_iter.rs","src/code_pair.rs","src/dxf_error.rs","src/helper_functions.rs","src/entity_iter.rs","src/object_iter.rs"],[("parse errors carrying offsets","src/code_pair_iter.rs, src/helper_functions.rs")],["the error returned by Drawing::load"])
p("C26","Extended data and extension groups survive on every kind of item",
 "Extended data (every item kind, nested control groups included) and extension groups (nested groups included) attached to any entity, object, table entry or block come back from a save and load with the same structure, order and values, on the same item, for every version that supports them, in text and binary.",
 ["inputs","configurations"],"all trees up to a size over every extended data item kind and over extension group values, attached to every item type, x versions x text/binary",
 "Tests attach one fixed tree to a line and read or write it in one direction.",
 ["src/x_data.rs","src/extension_data.rs","src/entity.rs","src/object.rs","src/table.rs","src/block.rs"],[("recursive readers and writers","src/x_data.rs, src/extension_data.rs")],[SL])
p("C27","Constructors, typed groups and item wrappers give back what they were given",
 "Every constructor (points, vectors, lines, circles, arcs, points, solids, traces, faces, entities, objects, list elements) sets exactly the fields its arguments name and leaves the others at their defaults; a typed group value is given back by the accessor of its type and refused by those of other types, and two groups are equal exactly when code and value are; a wrapper around any kind of item reads and sets the handle of that item; the vertices of a polyline and attributes of an insert are visited by shared and exclusive reference in the order they were added, and changes made so are kept; the two version numbers packed in a proxy entity are independent.",
 ["inputs","histories"],"all argument triples from a set of numbers for every constructor; every typed value x every accessor x every other value; every wrapper kind x handles; child lists up to a length with each child changed; pairs of packed words",
 "Tests build items by naming fields; most constructors and wrappers are never called by them.",
 ["src/entity.rs","src/object.rs","src/code_pair.rs","src/drawing_item.rs","src/point.rs","src/vector.rs"],[("constructors","src/entity.rs, src/point.rs, src/vector.rs"),("handle access by kind","src/drawing_item.rs"),("typed accessors","src/code_pair.rs")],["public constructors and accessors"])
p("C28","Normalizing repairs values that are not valid and changes nothing else",
 "Normalizing an item or a drawing replaces sizes and counts that are not positive and names that are empty by their defaults, replaces layer colours that only make sense on entities (by layer, by block), and puts each table in the order of its names; every other value of the header, of table entries, blocks, entities and objects is left as it is, and nothing is lost.",
 ["inputs","histories"],"every field of every type over its value domain; the fields that have a rule in pairs over values on both sides of it; items normalized alone and inside drawings; tables with every order of a set of names",
 "Tests normalize one layer and one view and look at the two fields they set.",
 ["src/table.rs","src/header.rs","src/entity.rs","src/block.rs","src/drawing.rs","src/helper_functions.rs"],[("rules for valid values","src/table.rs, src/header.rs, src/helper_functions.rs"),("normalizing of a drawing","src/drawing.rs")],["normalize of Drawing, Header, Layer, Style, View, ViewPort, Entity, Object, Block"])
p("C29","The order of an item's groups does not change what is read",
 "Within an item of a file, groups that are not repeated may come in any order under their subclass marker, and header variables and the parts of a variable's value in any order: the loaded drawing is the same. (Not judged where the format gives order a meaning: list elements, sizes and counts before data, nested records, extension records, extended data.)",
 ["inputs"],"every item type, default and with every field set, oldest and newest version: each unrepeated group moved to other places of its run, and all reversed; every header variable moved, all reversed; text and binary",
 "Tests read groups in one order each; other programs write them in other orders, and a reader that depends on what came before fails only there.",
 ["src/entity.rs","src/object.rs","src/block.rs","src/class.rs","src/table.rs","src/header.rs","build/entity_generator.rs"],[("group dispatch of each reader","src/entity.rs, src/object.rs, src/block.rs, src/class.rs, generated"),("custom readers with state","src/entity.rs, src/object.rs")],["Drawing::load"])
p("C30","A group that is absent leaves exactly its own field at its default",
 "Leaving out any one unrepeated group of an item, or any header variable, gives its field the type's default and changes no other field of the item or drawing (beyond resources a default name needs); and an item with just one group has that field as given and all others at their defaults.",
 ["inputs"],"every item type, default and with every field set, x versions: each unrepeated group left out, and each on its own; each header variable left out and on its own; text and binary",
 "Tests read nearly complete items or a single field; which of several thousand groups are missing in files from other programs is arbitrary.",
 ["src/entity.rs","src/object.rs","src/block.rs","src/class.rs","src/table.rs","src/header.rs","build/entity_generator.rs"],[("defaults of each type","generated, src/entity.rs, src/object.rs"),("values completed after reading","src/entity.rs, src/object.rs")],["Drawing::load"])
p("C31","The version a file names does not change what is read from it",
 "A file with any version name, an unknown one or none, or without a header loads with the same entities, objects, blocks, tables, thumbnail and header variables (classes, whose layout depends on the version, and the encoding of characters beyond ASCII aside), in text and in binary files of either code width; the version itself is the one named, R12 if unknown.",
 ["inputs","configurations"],"every item type, default and with every field set, and headers x 25 version names, none, no header x text and binary with one and two byte codes",
 "Tests load each construct under one version; a reader gated by the version breaks files of other programs, which carry later groups in files named older.",
 ["src/drawing.rs","src/header.rs","src/code_pair_iter.rs","src/enums.rs","src/entity.rs","src/object.rs"],[("section dispatch","src/drawing.rs"),("binary code width detection","src/code_pair_iter.rs"),("version names","src/enums.rs")],["Drawing::load"])
p("C32","Size does not matter: long lists, long texts and many items survive",
 "However many entities, objects, table entries, blocks, classes, vertices, attributes, list elements, extended data items and extension groups a drawing holds, however deeply these are nested (up to 256) and however long its texts and binary data are, all of them come back from a save, as text or binary, and load, complete and in order.",
 ["inputs"],"every list and text of every item type grown to sizes around powers of two and ten and the limits of 8 and 16 bit counts (to 70000); each kind of item in such numbers; every nesting depth to 250; text and binary, R12, R2000 and R2018",
 "Tests use lists of a few elements and short texts; a limit, a narrow counter or a chunk boundary only shows beyond it.",
 ["src/drawing.rs","src/entity.rs","src/object.rs","src/entity_iter.rs","src/helper_functions.rs","src/x_data.rs","src/extension_data.rs","src/code_pair_writer.rs","src/code_pair_iter.rs"],[("gathering","src/entity_iter.rs"),("combining coordinate lists","src/helper_functions.rs"),("chunks of binary data","src/code_pair_writer.rs"),("nested groups","src/x_data.rs")],["Drawing::save","Drawing::save_binary","Drawing::load"])
p("C33","How a file is divided and arranged does not change what is loaded",
 "The contents of a file may be divided over several sections or tables of the same name, with empty sections or tables between them, its sections may come in any order in which the tables precede what refers to them, its tables in any order in which line types precede layers, and its header variables in any order: the drawing loaded is the same.",
 ["inputs"],"every place between items of every section and table; every order of sections; every table moved to every place; every header variable moved to the front and end; files with one of everything and small files of every type; text and binary",
 "Tests load files of one section, or in the order this library writes; other programs arrange files their own way.",
 ["src/drawing.rs","src/header.rs","src/class.rs","src/block.rs","src/entity_iter.rs","src/object_iter.rs"],[("section dispatch","src/drawing.rs"),("read_section_item and read_entities, read_objects","src/drawing.rs"),("class section reader","src/class.rs"),("header variable reader","src/header.rs")],["Drawing::load"])
d=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(d,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
