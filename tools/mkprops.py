import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
FP=["src/footprint/de.rs","src/footprint/ser.rs","src/footprint/data.rs","src/footprint/mod.rs"]
LY=["src/layout/de.rs","src/layout/ser.rs","src/layout/data.rs","src/layout/mod.rs"]
p("C01","A footprint survives being written and read back",
 "For every footprint the reader can produce, writing it out and reading the result back succeeds and gives the same footprint: the same name and the same elements in the same order, with every coordinate, angle, size, layer, text, font setting, pad property, drill, net, margin, time stamp, 3D model and flag unchanged. Nothing is dropped, duplicated, reordered or rounded.",
 ["inputs"],"all footprints in the reader's image: any number of elements of any kind, any optional part present or absent, any finite number, any text",
 "The tests read a handful of sample footprints and compare a few fields; optional parts such as trapezoid deltas, oval drills with offsets or thermal gaps, and their combinations, are never exercised.",
 FP,[("footprint writer","footprint/ser.rs IntoSexp impls"),("footprint reader","footprint/de.rs FromSexp impls"),("layer name codec","footprint/data.rs Layer::from_string, footprint/mod.rs Display for Layer")])
p("C02","A board layout survives being written and read back",
 "For every board layout the reader can produce, writing it out and reading the result back succeeds and gives the same layout: header, general numbers, page, layer table, set-up values, and every board element (footprints, nets, net classes, texts, lines, arcs, circles, dimensions, track segments, vias, zones, and uninterpreted items) in the same order with every field unchanged. Optional parts that are absent stay absent and parts that are present keep their value.",
 ["inputs"],"all layouts in the reader's image: any number of elements, any combination of optional parts, any finite number, any text",
 "The tests cover a few sample boards; most element kinds, optional parts and their combinations never occur in them.",
 LY+FP,[("layout writer","layout/ser.rs IntoSexp impls"),("layout reader","layout/de.rs FromSexp impls")])
p("C03","A footprint library table survives being written and read back",
 "For every footprint library table, writing it out and reading it back gives the same list of libraries, in the same order, each with the same name, type, location, options and description.",
 ["inputs"],"all tables: any number of entries, any field text including empty",
 "One sample table is tested; nothing covers arbitrary entries or empty fields.",
 ["src/fp_lib_table.rs"],[("table writer and reader","fp_lib_table.rs IntoSexp/FromSexp for FpLibTable and Lib")])
p("C04","Pretty-printing only adds white space",
 "Whatever tree is written and at whatever indentation level, the pretty-printer's own output consists only of spaces, newlines and one bracket per list opened or closed: every opening is matched by exactly one opening bracket and every closing by exactly one closing bracket. An item that follows another inside a list is always separated from it by at least one space or newline unless it is itself a bracketed list, so two adjacent words can never run together.",
 ["inputs","histories"],"every sequence of open, item and close events over arbitrary trees, from every internal state of the printer",
 "Tests compare a few files with expected text; the layout rules branch on the stack of enclosing list names, and most stacks never occur.",
 ["src/formatter.rs"],[("pretty-printer callbacks","formatter.rs Formatter for KicadFormatter: open, element, close"),("indentation rules","formatter.rs want_indent*, indent")])
p("C05","A schematic survives being written and read back",
 "For every schematic whose texts contain no line breaks or quote characters, writing it out and reading the text back succeeds and gives the same schematic: library list, layer line, page description, and every component (name, reference, unit line, position, sheet paths, fields with position, size, visibility, justification and style, orientation matrix), wire, junction, no-connect mark, text, uninterpreted line and sub-sheet with its labels, in order with every value unchanged.",
 ["inputs"],"all schematics in the reader's image: any number of elements, fields, labels; any integer and finite number; any text free of newlines and quotes",
 "One sample schematic is parsed and compared as text; the combinations of element kinds, flags, negative numbers, empty and spaced texts are never reached.",
 ["src/schematic.rs","src/lib.rs"],[("schematic writer","schematic.rs Display impls"),("schematic reader","schematic.rs parse and parse_* functions"),("line splitter","lib.rs parse_split_quote_aware_int")])
p("C06","A symbol library survives being written and read back",
 "For every symbol library whose texts contain no line breaks or quote characters, writing it out and reading the text back succeeds and gives the same library: every symbol with its name, reference, text offset, flags, unit count, fields (including style and visibility), aliases and drawing items (pins with all attributes, rectangles, uninterpreted lines), in order with every value unchanged.",
 ["inputs"],"all symbol libraries in the reader's image: any number of symbols, fields, aliases and drawing items, any flag combination",
 "Tests parse one library and compare text; flag combinations such as bold fields or invisible shaped pins never occur.",
 ["src/symbol_lib.rs","src/lib.rs"],[("symbol library writer","symbol_lib.rs Display impls"),("symbol library reader","symbol_lib.rs parse, parse_symbol, parse_field, parse_pin, parse_rect")])
p("C07","Lines are split into fields respecting quotes",
 "Splitting a line gives exactly its fields in order: fields are separated by one or more spaces, a double-quoted field is one field with its inner text verbatim (spaces included, quotes removed, empty allowed), and leading or trailing spaces add nothing. When a number of fields is requested, a line with fewer fields is an error.",
 ["inputs"],"all lines made of any number of plain or quoted fields and any spacing",
 "The splitter is only tested indirectly by a few sample files.",
 ["src/lib.rs"],[("line splitter","lib.rs parse_split_quote_aware_int and its two wrappers")])
p("C08","Reading never aborts the program",
 "Reading any text as a footprint, layout, library table, schematic or symbol library always returns either a value or an error: it never aborts the program, whatever is missing, empty, truncated, misplaced or malformed in the text.",
 ["inputs"],"all texts",
 "Tests only feed well-formed files; the failing inputs are truncated or malformed ones.",
 ["src/footprint/de.rs","src/layout/de.rs","src/schematic.rs","src/symbol_lib.rs","src/fp_lib_table.rs","src/lib.rs"],[("readers","footprint::parse, layout::parse, fp_lib_table::parse, schematic::parse, symbol_lib::parse_str")])
p("C09","Moving a layout shifts every position by exactly the offset",
 "Moving a board by (dx, dy) adds exactly dx to every x and dy to every y position of its placed footprints, texts, lines, arcs, circles, dimensions, segments, vias and all zone outlines, fills and fill segments, once each. Nothing else changes: rotations, sizes, layers, nets, names, footprint-relative positions, the header and the order and number of elements stay as they were.",
 ["inputs"],"all layouts, all offsets",
 "No test covers moving; arbitrary element lists and every coordinate of every kind are needed.",
 ["src/layout/data.rs","src/footprint/data.rs"],[("move","Adjust impls in layout/data.rs and footprint/data.rs")])
p("C10","A bounding box contains every item it is made from",
 "Merging a bounding box with another gives the smallest box containing both, and merging with an unbounded one changes nothing. The box reported for a line, arc, segment, point list, polygon, dimension, zone, footprint, board or schematic contains every point (for a whole board, footprint, zone or dimension: the box of every item it counts), and its lower corner is never greater than its upper corner.",
 ["inputs"],"all boxes and all items with finite coordinates, collections of any size, any orientation of lines",
 "Tests check three fixed pads and one file; reversed lines, empty collections and arbitrary mixes are never reached.",
 ["src/lib.rs","src/layout/data.rs","src/footprint/data.rs","src/schematic.rs"],[("box merge","lib.rs Bound::update, swap_if_needed"),("item boxes","BoundingBox impls")])
p("C11","Flipping a footprint mirrors it and flipping twice restores it",
 "Flipping a footprint negates every y coordinate, replaces each placement angle a by 360 - a, swaps front and back layers and leaves other layers alone, for every element, and toggles text mirroring; everything else is unchanged. Flipping twice gives back the original positions, layers and mirroring.",
 ["inputs"],"all footprints",
 "Not tested at all; needs every element kind and every layer.",
 ["src/footprint/data.rs"],[("flip","Flip impls in footprint/data.rs")])
p("C12","Rotating a footprint turns every placement by the given angle",
 "Rotating a footprint by an angle adds that angle to the rotation of every pad, text and placement, wrapping once at 360 so that angles in [0,360) turned by an amount in (-360,360) stay in [0,360]. Everything else in the footprint is unchanged.",
 ["inputs"],"all footprints, all angles",
 "Not tested; needs all elements and the wrap-around boundaries.",
 ["src/footprint/data.rs"],[("rotate","Rotate impls in footprint/data.rs")])
p("C13","Renaming a net renames it everywhere and touches nothing else",
 "After renaming net A to B on a board, every net entry, net-class member, pad and zone that carried A carries B, and every one that carried another name keeps it; net numbers and everything else on the board are unchanged. Renaming on a footprint does the same for its pads.",
 ["inputs"],"all layouts, all old and new names",
 "Not tested; needs every place a net name can occur in boards of any size.",
 ["src/layout/data.rs","src/footprint/data.rs"],[("net renaming","layout/data.rs change_net_name, update_net_names, NetName::rename"),("pad renaming","footprint/data.rs Module::rename_net, Pad::rename_net")])
p("C14","Editing component fields changes only the intended field",
 "Changing a component's reference or name updates it together with the matching reserved fields and no other field's value; setting a named field reports whether it was new, changed (with the old value) or the same, afterwards reading it back gives the new value, and other fields keep their values, names and numbers. A newly added field gets a number greater than every existing one and is hidden.",
 ["inputs","histories"],"all components with any list of fields, any names and values",
 "Not tested; needs arbitrary field lists including repeated names and unordered numbers.",
 ["src/schematic.rs"],[("field editing","schematic.rs Component::update_reference, update_name, update_field, add_or_update_field, add_new_field, get_available_field_num")])
p("C15","Look-ups return the first match and edits touch only the match",
 "Looking up a component, footprint, text, symbol, field or set-up value by name returns the first one that matches, and reports absence exactly when none matches; list queries return exactly the items of the asked kind, all of them, in order. Editing one component, footprint, text or set-up value by name applies the edit to the first match only (to all components when asked) and leaves every other item as it was.",
 ["inputs"],"all schematics, layouts, footprints and libraries with any number of items, including repeated names and no match",
 "Tests look up one or two known items in sample files; absence, duplicates and the unchanged rest are not checked.",
 ["src/schematic.rs","src/layout/data.rs","src/footprint/data.rs","src/symbol_lib.rs"],[("look-ups and edits","schematic.rs Schematic/Component methods; layout/data.rs Layout, Setup, NetClass methods; footprint/data.rs Module methods; symbol_lib.rs SymbolLib::find, Symbol::pins")])
p("C16","Fixing a footprint clears every fixable convention finding",
 "After fixing a footprint, checking it reports nothing except problems the fixer does not address (a missing reference or value text, and the placement-attribute findings for through-hole parts); fixing again changes nothing. Fixing keeps the name and all elements not concerned (pads, other graphics, other texts), only adjusting the reference, value and second-reference texts and appending what was missing.",
 ["inputs","configurations"],"all footprints, all font size and thickness settings",
 "Not tested; needs every combination of present, missing and wrong texts, attributes and courtyard lines.",
 ["src/footprint/data.rs","src/checkfix.rs"],[("fixer","footprint/data.rs CheckFix for Module: fix"),("checker","footprint/data.rs CheckFix for Module: check")])
p("C17","A footprint check reports exactly the convention violations",
 "Checking a footprint reports a finding if and only if the corresponding rule is violated: reference, value and second-reference texts missing or with wrong text, layer, visibility, aspect ratio, height, width or thickness; fewer than four courtyard lines; and a wrong placement attribute for pure surface-mount or pure through-hole parts. A footprint violating none of these yields an empty report.",
 ["inputs","configurations"],"all footprints, all settings",
 "Not tested; needs all rule combinations.",
 ["src/footprint/data.rs","src/checkfix.rs"],[("checker","footprint/data.rs CheckFix for Module: check")])
p("C18","A symbol check reports exactly the convention violations",
 "Checking a symbol's pins, rectangles and fields reports a finding if and only if the corresponding rule is violated: pin position off the grid, pin length off grid or out of range, not-connected naming, type and visibility, text sizes, rectangle fill and line width, field text size and field visibility for normal, power and graphic symbols. The findings of a symbol are those of its name, its fields and, unless it is a power or graphic symbol, its drawing items.",
 ["inputs"],"all symbols: any pins, rectangles, fields and flags",
 "Not tested; needs all rule combinations for arbitrary values.",
 ["src/symbol_lib.rs","src/checkfix.rs"],[("symbol checker","symbol_lib.rs CheckFix impls")])
p("C19","A name is accepted exactly when all its characters are allowed",
 "A name passes the character rule if and only if each of its characters is an ASCII letter, digit, underscore, hyphen or period; otherwise there is exactly one finding per offending character, in order, and the list of findings is empty exactly for accepted names.",
 ["inputs"],"all strings",
 "Two examples are tested; the rule quantifies over all characters and positions.",
 ["src/checkfix.rs"],[("character rule","checkfix.rs allowed_1_7, allowed_1_7_items, is_allowed_1_7")])
p("C20","Enumerated values and their text codes are inverse to each other",
 "Every pad type, pad shape, layer side and type, board layer kind, text justification, orientation, label form and side, wire and text kind, pin orientation, type and shape, and fill style is written as a code that reads back as the same value; unknown codes are rejected. Distinct values therefore never share a code.",
 ["inputs"],"all enumerated values and all strings offered as codes",
 "Sample files contain only a few of the codes.",
 ["src/footprint/data.rs","src/footprint/ser.rs","src/footprint/mod.rs","src/layout/de.rs","src/layout/ser.rs","src/schematic.rs","src/symbol_lib.rs"],[("code tables","from_string/make/new/parse_* functions and the matching Display/IntoSexp impls")])
p("C21","References sort by letter and then by number",
 "The sort key of a reference is its first character together with the number formed by the digits before the first comma (0 when there are none or they do not fit), so references with the same letter order numerically rather than alphabetically. Computing the key never aborts the program.",
 ["inputs"],"all reference texts, including empty ones and lists of references",
 "Not tested.",
 ["src/lib.rs"],[("reference key","lib.rs reference_ord")])
p("C22","Reading a file identifies its kind and honours the expected kind",
 "Reading a file of unspecified kind returns the first kind, in the order footprint, schematic, layout, symbol library, project, library table, whose reader accepts its content, and reports it as unknown only if none does. When a kind is expected and its reader rejects the content (and no earlier kind accepts it), that reader's error is returned.",
 ["inputs"],"all file contents and all expected kinds",
 "Tests open only well-formed files of the expected kind.",
 ["src/lib.rs","src/project.rs"],[("kind detection","lib.rs read_kicad_file and read_* wrappers")])
p("C23","Files are written completely or an error is returned",
 "Writing a layout or footprint to a file leaves exactly the generated text in that file or returns an error naming it; reading a file returns its whole content or an error.",
 ["inputs","fault_sequences"],"all contents, all operating-system failures",
 "Tests only read existing files.",
 ["src/util.rs"],[("file access","util.rs read_file, write_file")])
p("C24","Unnamed nets keep their pad when the component is renamed",
 "A net name is recognised as automatically generated exactly when it consists of the fixed prefix, a component part, a dash, a pad part and the closing bracket, and then yields those two parts; renaming its component gives a name with the new component part and the same pad part, and any other name is refused unchanged. Replacing a sheet block name in a net name changes only complete path segments equal to the old block name.",
 ["inputs"],"all net names and component names",
 "Two examples are tested.",
 ["src/layout/data.rs"],[("unnamed nets","layout/data.rs NetName::is_unnamed_net, set_unnamed_net, replace_block")])
open("/verif/properties.jsonl","w").write("\n".join(json.dumps(x) for x in P)+"\n")
