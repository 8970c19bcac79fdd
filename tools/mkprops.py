#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": ["dustmaker/" + f for f in files],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
            "mechanism": [{"name": n, "where": "dustmaker/" + w} for n, w in mech],
            "observe_at": observe or [],
            "hook_needed": None,
        },
    })

prop("C01", "Bit streams are exact for every operation history",
 "Any sequence of integer writes of any width (negative values as two's complement), byte-string writes, aligns, skips and seeks produces exactly the little-endian, least-significant-bit-first byte image those operations describe, and reading any positions back, signed or unsigned, as integers or bytes, returns exactly the stored bits; an integer read past the end raises EOFError, and writing an integer that does not fit its width is refused and writes nothing. "
 "The reported bit position and alignment always equal the true position, whatever offset the underlying stream started at, and bytes not touched by an operation are left alone.",
 ["histories", "inputs"], "every interleaving of read/write/read_bytes/write_bytes/align/skip/seek/flush, every width and value, every start offset and kind of stream",
 "The unit tests write one string and 128 six-bit strings; they never mix signed reads, seeks, aligns and byte access at all bit phases.",
 ["bitio.py"], [("pending-bit buffer of the reader and writer", "bitio.py:BitIOReader.read, BitIOWriter.write"), ("seek/align bookkeeping", "bitio.py:BitIO.bit_seek, align")],
 ["public BitIOReader/BitIOWriter calls and the bytes of the underlying stream"],
 [("bit position", "next bit to be read or written", "bitio.py:BitIO")])

prop("C02", "Closing a bit stream loses nothing and respects ownership",
 "Flushing or closing a bit writer, directly or by leaving its context normally or through an exception, puts every bit written so far into the underlying stream exactly once and leaves the writer at a byte boundary; repeating it adds nothing, a flush that failed loses nothing and can be repeated once the stream works again, and writing may go on after a flush (an unbuffered underlying stream may receive the bytes only on closing or releasing). "
 "The underlying stream is closed exactly when the wrapper still owns it: never if it was created as non-closing or was released before closing, and always otherwise, even if the final flush fails.",
 ["histories", "fault_sequences"], "every order of write/flush/release/close/exception, stream kind (buffered, raw, in-memory, duck-typed) and injected write failure",
 "The tests only close in-memory buffers once, after reading their value.",
 ["bitio.py"], [("close/flush/release", "bitio.py:BitIO.close, BitIOWriter.close, BitIOWriter.flush"), ("wrapping of unbuffered streams", "bitio.py:BitIOWriter.__init__")],
 ["bytes and closed state of the underlying stream"])

prop("C03", "Fixed-point numbers and 6-bit names survive encoding",
 "A finite number in range, written in fixed-point form with any integer and fraction widths and read back, gives a value on that form's grid less than one grid step away, and exactly the same number when it is on the grid, for either sign; exactly the declared number of bits is used. A number out of range is refused. "
 "A name of up to 63 characters from the 64-character alphabet is read back identically, and any other string is refused with ValueError.",
 ["inputs"], "every number in range, every pair of widths, every string, at every bit alignment",
 "Tests cover positive floats 0.5, 2.0 and 4.0 inside one variable map and one random family of valid names.",
 ["dfreader.py", "dfwriter.py"], [("write_float/read_float", "dfwriter.py:DFWriter.write_float, dfreader.py:DFReader.read_float"), ("write_6bit_str/read_6bit_str", "dfwriter.py, dfreader.py")],
 ["values returned by the reader, bits produced by the writer"])

prop("C04", "Variable trees round-trip in the Dustforce encoding",
 "Every well-formed variable tree (booleans, 32-bit signed and unsigned ints, fixed-point floats, byte strings of any length, vectors, nested structs and arrays) is read back equal and with struct keys in order, whether written alone, inside structs and arrays, or as a headered variable file, at any bit alignment. "
 "The bytes follow the Dustforce variable format, including the splitting of strings that do not fit one 65535-byte piece. A tree the format cannot hold (an oversize bare string, an array with too many entries, a bad key, a number out of range) is refused with an error, and a variable file with the wrong header is refused on reading.",
 ["inputs"], "every variable tree, every string length around the split boundary, every nesting and alignment",
 "One fixed tree is tested; string lengths exactly at the piece size, nested arrays, negative fractions and refusals are not.",
 ["dfreader.py", "dfwriter.py", "variable.py"], [("recursive codec", "dfwriter.py:write_variable, dfreader.py:read_variable"), ("string continuation", "dfwriter.py:write_variable, dfreader.py:read_variable"), ("headered files", "dfwriter.py:write_var_file, dfreader.py:read_var_file")],
 ["decoded trees, and encoded bytes under an independent decoder and encoder"])

prop("C05", "Variables behave as typed values and arrays as sequences",
 "Variables compare equal exactly when their type and value are equal, equal variables of any type have equal hashes, and building or validating a variable whose value does not fit its declared type or range fails. "
 "An array variable behaves as a mutable sequence of plain values of its element type: after any history of element-wise sequence operations (indexing, assignment, insertion, deletion, append, extend, pop, reverse and the like) it holds what a Python list holds after the same operations, every stored element being a variable of the element type.",
 ["inputs", "histories"], "every pair of variables; every history of sequence operations on arrays of every element type",
 "Tests compare one tree with its copy and never use the sequence interface, hashing or validation.",
 ["variable.py"], [("equality, hash, validation", "variable.py:Variable"), ("boxing/unboxing", "variable.py:VariableArray")],
 ["public operations on Variable objects"])

prop("C06", "Any level written and read back is the same level",
 "Writing any level and reading it back yields the same tiles (shape, flags, sprite, and per-edge solidity, visibility, caps, angles and, on the collision layer, filth), the same props and entities (id, type, placement, layer, rotation, flips, visibility, variables), the same level variables, thumbnail and backdrop, up to the format's coordinate and prop-scale resolution. "
 "This holds for every coordinate in range including negative ones, any spread over regions, and any starting offset in the output, and writing does not change the level being written.",
 ["inputs"], "every level over all shapes, edge data, entity types, ids, coordinates and sizes",
 "One level file is cycled and only byte equality of the two outputs is compared; content the writer drops both times is invisible.",
 ["dfwriter.py", "dfreader.py", "tile.py", "level.py", "entity.py", "prop.py"], [("region/segment splitting", "dfwriter.py:_compute_region_map"), ("segment codec", "dfwriter.py:_write_segment, dfreader.py:read_segment"), ("edge packing", "tile.py:_pack_tile_data, _pack_dust_data")],
 ["content of the level object before writing and after reading"])

prop("C07", "Written level files are well formed for the game",
 "In every level file produced, the header sizes and counts, region directory offsets, compressed and uncompressed lengths and segment lengths agree with the actual bytes, and regions appear in ascending unsigned (x, y) order, also when the level is written over older content of the stream. "
 "Each tile, prop and entity is stored exactly once, in the region and segment that contains its stored position (negative positions included), and every segment's dust (filthy edges without spikes), enemy and dustblock filth totals equal the count over its contents. Tiles are stored by layer and row, and the bytes do not depend on the order in which tiles were put into the level. The recorded next id exceeds every id in use. Content that does not fit its field (tile join angles, sprites and flags, prop and entity fields, prop scales, positions out of range, more than 65535 props or entities in one segment) is refused.",
 ["inputs"], "every level",
 "No test looks inside the produced bytes; only that two writes agree.",
 ["dfwriter.py", "level.py"], [("region map", "dfwriter.py:_compute_region_map, _RegionMap"), ("back-patched headers", "dfwriter.py:_write_segment, _write_region, write_level_ex"), ("filth totals", "dfwriter.py:_write_segment, entity.py:Enemy.FILTH")],
 ["produced bytes under an independent decoder"])

prop("C08", "Legal level files from the game are decoded faithfully",
 "Any legal level file (supported level versions, segment versions 4 to 8, emptied prop and entity slots, ids stored twice with the last one winning, extended entity names, regions and segments in any order, alternative encodings of negative numbers) is decoded to exactly the content it encodes. "
 "The result depends only on the bytes: it is the same at any stream offset, when reading region by region, and metadata-only reading returns the same metadata. Unsupported versions are refused.",
 ["inputs", "configurations"], "every legal file, every version combination, every way of reading it",
 "Tests read one file and never compare what was read with what the file says.",
 ["dfreader.py", "tile.py", "entity.py"], [("versioned segment parser", "dfreader.py:read_segment"), ("level header", "dfreader.py:read_level_ex, _read_metadata"), ("region reader", "dfreader.py:read_region")],
 ["decoded level content against an independent encoder and decoder"])

prop("C09", "Metadata edits leave everything else untouched",
 "Reading a level's metadata and writing it back with its raw region bytes reproduces the region bytes, region directory, next id (raised to 101 if lower), variables and thumbnail exactly, except for what the caller changed, however the region bytes are chunked and in whatever order the directory lists them; a region payload of the wrong size is refused. "
 "Rewriting is stable: a level read from a file and written twice through read/write cycles gives the same bytes from the first write on, and writing the same level twice gives identical bytes.",
 ["inputs", "histories"], "every level file and every change of variables or thumbnail size",
 "Tests do this on one file without changing any metadata.",
 ["dfwriter.py", "dfreader.py"], [("write_level_ex with raw regions", "dfwriter.py:write_level_ex, _write_regions_raw"), ("read_level_ex", "dfreader.py:read_level_ex")],
 ["bytes before and after the edit"])

prop("C10", "Replays round-trip with the same effective inputs",
 "Any replay (each supported version, any number of players, any in-range intents of any length, entity frames, level name, optional username) is read back with the same header fields, the same effective value of every input stream at every frame, and the same entity data to the documented resolution; streams newer than the replay's version are left out. "
 "Rewriting a replay that was read from a file is byte-stable, and unsupported versions or player counts, or values that do not fit their field (names too long, intents out of range), are refused.",
 ["inputs"], "every replay, with run lengths around the 255 split, trailing and leading neutral runs",
 "One version-1 replay is cycled and only byte equality of the outputs is compared.",
 ["replay.py", "dfreader.py", "dfwriter.py"], [("run-length codec", "dfwriter.py:write_replay, dfreader.py:read_replay"), ("intent metadata", "replay.py:_INTENT_META"), ("effective values", "replay.py:PlayerData.get_intent_value")],
 ["replay objects before and after"])

prop("C11", "Replay bytes follow the Dustforce replay format",
 "Every replay file produced decodes under the Dustforce replay format to the same header, run-length input streams and entity frames, with all length fields consistent, and every legal replay file, however its runs are split and its streams padded within their declared lengths, decodes to exactly what it encodes. "
 "Reading gives the same replay with or without a known length and leaves the stream positioned exactly at the end of the replay. Unknown replay versions are refused in both directions.",
 ["inputs", "configurations"], "every replay and every legal run split, every concatenation of replays",
 "Tests only check that two of dustmaker's own outputs agree.",
 ["dfreader.py", "dfwriter.py", "replay.py"], [("write_replay", "dfwriter.py:DFWriter.write_replay"), ("read_replay", "dfreader.py:DFReader.read_replay")],
 ["produced bytes under an independent codec"])

prop("C12", "Damaged files end in an error, never a hang or a silent loss",
 "Reading a level, variable file or replay that was cut short at any point, or that starts with the wrong magic, ends with an exception after work bounded by the input size; it never returns an object as if the file were complete. "
 "Files with arbitrarily corrupted bytes either raise an ordinary exception or return an object, also within bounded work.",
 ["inputs", "fault_sequences"], "every truncation point and every byte corruption of every file",
 "Tests never read damaged input.",
 ["bitio.py", "dfreader.py"], [("end-of-data handling", "bitio.py:BitIOReader.read"), ("decompression loop", "dfreader.py:read_replay"), ("magic checks", "dfreader.py:read_expect")],
 ["exceptions and executed steps while reading"])

prop("C13", "New ids never collide",
 "Every id handed out for a new prop or entity, on a level or on its backdrop, differs from every prop and entity id then present in the level and its backdrop, after any history of automatic and explicit additions, removals, remaps, merges with or without remapping, transforms, max-id queries, writes and reloads (also of files whose stored id counter is behind the ids in them). "
 "Adding a prop (or entity) under an id a prop (or entity) of the same level already has raises an error and changes nothing. The reported maximum id is at least 100 and at least every id present; a resetting query reports exactly the larger of the two, and the next automatic id is one above it; remapping starts at the requested id.",
 ["histories"], "every history of level edits",
 "No test allocates an id.",
 ["level.py", "dfreader.py"], [("allocator", "level.py:Level._gen_id, _note_id"), ("calculate_max_id", "level.py:Level.calculate_max_id"), ("merge/remap", "level.py:Level.merge, remap_ids")],
 ["ids returned by the add methods and ids present in the level"],
 [("next id", "smallest id the allocator will hand out", "level.py:Level")])

prop("C14", "Remapping and merging keep objects and their references",
 "Remapping ids gives every prop and entity, backdrop included, a distinct id, starting at the requested minimum, keeps every object and its placement, and keeps every entity reference stored in an entity (AI puppet, camera connections, level-end lists, key doors, score-book level lists) pointing at the same entity; a reference to no existing entity becomes zero. "
 "Merging with remapping yields exactly the union of both levels' props, entities and tiles (the merged-in tile wins), backdrops too, with the references of both sides intact, and leaves the merged-in level's contents unchanged and unshared; merging without remapping leaves all ids alone, the merged-in object winning where both levels use one.",
 ["inputs", "histories"], "every pair of levels with arbitrary reference graphs",
 "No test remaps or merges.",
 ["level.py", "entity.py"], [("remap_ids", "level.py:Level.remap_ids, entity.py: remap_ids overrides"), ("merge", "level.py:Level.merge")],
 ["levels before and after"])

prop("C15", "Transformation matrices obey affine algebra",
 "Multiplying two matrices composes them: sampling the product equals sampling the right factor then the left, for translations too; multiplying by a number scales the sampled result, and adding a translation shifts it. "
 "The named rotations, flips and identity act as documented (clockwise quarter turns, mirror images), determinant, flip flag, scale and angle (of the turn that precedes any horizontal mirror; a clockwise quarter turn is minus a quarter) agree with the matrix, and anything that is not a 3x3 affine matrix of numbers is refused.",
 ["inputs"], "all matrices and points",
 "Tests only use the named constants, without offsets.",
 ["transform.py"], [("TxMatrix", "transform.py:TxMatrix")], ["sampled points"])

prop("C16", "Tiles keep shape and edge data under turns and flips",
 "Under every combination of quarter turns and flips, a tile's new shape covers exactly the transformed area, and each existing edge's data ends up on the edge at the transformed place: solidity, visibility and filth unchanged, cap flags and join angles following their corners (swapped, with angles negated, when mirrored). "
 "Sprite and tile flags are unchanged, and applying the inverse restores every existing edge.",
 ["inputs"], "all 21 shapes, all 8 turn/flip combinations with any offset and scale, all edge data",
 "Tests sample some shapes and single operations, and never filth sprites or combined operations.",
 ["tile.py", "transform.py"], [("Tile.transform", "tile.py:Tile.transform"), ("side tables", "tile.py:SHAPE_ORDERED_SIDES, SHAPE_VERTEXES")], ["tile objects before and after"])

prop("C17", "Level transforms move everything as one rigid body",
 "Flipping, rotating or translating a level applies one and the same motion to every tile area, prop, entity, player start and positional entity data (trigger areas, kill boxes, AI waypoints, last-known key positions), on the level and its backdrop, so that what was inside a tile stays inside it (tiles snap to the nearest grid cell, all of them alike, in the 48-pixel grid or the backdrop's 768-pixel grid); nothing is lost or created. "
 "Prop and entity orientation follows the same motion consistently: a clockwise quarter turn adds a quarter turn, a horizontal mirror negates the rotation and toggles the vertical flip, and a sequence of operations (whole-cell translations) equals the single combined transform, so opposite operations restore the level.",
 ["inputs", "histories"], "every level and every sequence of flips, turns and translations",
 "Tests transform single tiles only.",
 ["level.py", "entity.py", "prop.py", "tile.py", "transform.py"], [("Level.transform", "level.py:Level.transform"), ("entity and prop transforms", "entity.py, prop.py: transform")], ["levels before and after"])

prop("C18", "Upscaling covers exactly the enlarged tiles",
 "Upscaling by an integer factor replaces each tile by tiles that together cover exactly its shape enlarged by that factor, inside its own factor-by-factor block, with its sprite and flags; every existing edge's data appears on the new tiles along that enlarged edge and nowhere else, with caps and angles kept only at the original edge's two ends. "
 "The same holds for the backdrop. Positions of props, entities and player starts scale by the same factor, as do the scale setting of resizable entities and the zoom and width of camera nodes, combined with any given flip or turn, and factor one changes nothing.",
 ["inputs"], "all shapes, factors, edge data, levels and extra transforms",
 "Tests cover factors 2 and 3 on single tiles of some shapes.",
 ["tile.py", "level.py"], [("Tile.upscale", "tile.py:Tile.upscale"), ("Level.upscale", "level.py:Level.upscale")], ["tiles yielded, levels before and after"])

prop("C19", "Computed edge visibility follows the documented rules",
 "After automatic edge calculation, every edge that the tile's shape lacks is blank; a sloped edge, or a flush edge whose neighbour on the same layer is missing or has no flush edge there, is solid and visible; any other flush edge is not solid, is invisible next to a tile with the same sprite, and otherwise is visible as the callback says (by default only bottom and right edges). "
 "Shapes, sprites, filth and edge cap data of existing edges are untouched, layers do not influence each other, and the result does not depend on the order or the previous edge flags of tiles.",
 ["inputs"], "all tile configurations and callbacks",
 "No test calls it.",
 ["level.py", "tile.py"], [("calculate_edge_visibility", "level.py:Level.calculate_edge_visibility")], ["edge data before and after"])

prop("C20", "Computed edge caps follow the documented rules",
 "After automatic cap calculation, invisible edges have no caps, angles or filth; an edge end between grid corners has none either; every other end joins the visible same-side edge of a same-sprite tile on the same layer that starts where it ends (the one turning furthest away from the tile), and is capped exactly when there is none, with its angle being half the turn, rounded toward zero, positive for clockwise turns as seen walking the edge in clockwise order. "
 "Filth caps and angles are set only on filthy ends: capped unless the joining edge carries the same filth, in which case the angle matches.",
 ["inputs"], "all tile configurations, sprites, visibility flags and filth",
 "No test calls it.",
 ["level.py", "tile.py"], [("calculate_edge_caps", "level.py:Level.calculate_edge_caps")], ["edge data before and after"])

prop("C21", "Named properties and entity types map faithfully to variables",
 "Every named property of levels, player starts and entities reads the variable it documents, or its documented default when unset; setting it stores a variable of the documented type and survives writing and reading; deleting it restores the default; a stored or assigned value of another variable type is refused, and assigning back the value just read is always accepted. "
 "Entities read from a file are instances of the class registered for their type, user-defined classes included; unknown types keep their name and data. Fog triggers index and normalise their per-layer data as documented.",
 ["inputs", "programs"], "every property of every entity class, every value, every user-defined entity class",
 "No test touches entity classes or properties.",
 ["entity.py", "level.py"], [("bind_prop", "entity.py:bind_prop, bind_prop_arr"), ("type registry", "entity.py:Entity.__init_subclass__, _from_raw"), ("fog helpers", "entity.py:FogTrigger")], ["property access, variables, objects read back"])

prop("C22", "The variables tool edits files losslessly",
 "Dumping a level's or variable file's variables as JSON and loading that JSON back reproduces the same variables and leaves the rest of the file (thumbnail, regions) unchanged; an edited JSON document changes exactly what was edited. Conversion to JSON and back is the identity for every variable tree it accepts. "
 "Unknown headers are refused with a non-zero exit, and an update whose document cannot be applied, or of a level that is cut short, fails and leaves the existing file's bytes intact.",
 ["inputs", "fault_sequences"], "every variable tree, every file kind, every failing update",
 "No test runs the command line tools.",
 ["cmd/variables.py"], [("JSON conversion", "cmd/variables.py:variables_to_json, json_to_variables, merge_schema"), ("file update", "cmd/variables.py:Variables.update_variables")], ["files and exit codes"])

prop("C23", "The thumbnail tool only touches the thumbnail",
 "Extracting writes exactly the level's thumbnail bytes and never modifies the level file; an existing image is not overwritten unless forced (non-zero exit, image untouched). "
 "Updating stores exactly the image's bytes, marks the icon as taken, and leaves all other variables, the next id and the region data byte-for-byte unchanged; an update that cannot be done (no such image, not a level, a level cut short) leaves the level file intact.",
 ["inputs", "configurations"], "every level, thumbnail and option combination",
 "No test runs the command line tools.",
 ["cmd/thumbnail.py"], [("Thumbnail.main", "cmd/thumbnail.py:Thumbnail.main")], ["files and exit codes"])

prop("C24", "The transform tool applies upscale, turn, flip, shift in order",
 "The level written by the transform tool is the input level upscaled, then rotated, then flipped, then shifted by exactly the given number of pixels, in that order, for every option combination, and the input file is unchanged unless it is also the output; an unreadable input, or a result that cannot be written, is refused with a non-zero exit and leaves an existing output alone. "
 "Upscaling turns a normal level into a dustmod level and leaves other level types alone.",
 ["inputs", "configurations"], "every level and option combination",
 "No test runs the command line tools.",
 ["cmd/transform.py", "level.py"], [("Transform.main", "cmd/transform.py:Transform.main")], ["files and exit codes"])

prop("C25", "Save conversion conserves scores and key counts",
 "Converting a save keeps exactly one score record per known level score, with the same name, combo, time, thoroughness, best time and overall values, sorted by level name, and drops records of unknown levels; key types and used-key counts follow from the levels present, red keys used and score books are carried over unchanged. "
 "The output is a valid dustmod save file.",
 ["inputs"], "every save",
 "No test runs the command line tools.",
 ["cmd/save_convert.py"], [("migrate_stats", "cmd/save_convert.py:migrate_stats")], ["files"])

prop("C26", "Separate objects never share mutable state",
 "Changing one level, tile, entity, variable or replay never changes another one: objects built separately, from the same entity variables, read from the same bytes, deep-copied, merged in or made by upscaling can be edited independently of each other and of their source, and values used as defaults are never altered (objects the caller itself puts in two places stay shared). "
 "Two tiles compare equal exactly when all their data is equal, and equal tiles have equal hashes.",
 ["histories"], "every pair of objects and every history of edits to one of them",
 "Tests never keep two objects alive and edit one.",
 ["entity.py", "level.py", "tile.py", "variable.py", "replay.py"], [("copying constructors", "entity.py:Entity.__init__, variable.py:VariableStruct, VariableArray, level.py:Level.merge, tile.py:Tile.upscale"), ("tile equality and hash", "tile.py:Tile.__eq__, __hash__")], ["snapshots of untouched objects"])

prop("C27", "Constants, tables and tile helpers agree with the game's data",
 "Every enumeration (tile shapes, sides, sprite sets, level and variable types, intent streams, mouse buttons, characters, camera node types) has the values the Dustforce formats use, and the public shape tables give each shape's corners and sides as documented. "
 "New tiles, edges, levels, entities and replays start in their documented state whatever was done to earlier ones. For every tile and history of edits: copying or setting a sprite changes exactly the sprite set, tile and palette; the sprite path names that sprite; a tile has filth exactly if some edge does; it is a dustblock exactly if its sprite is the sprite set's dustblock, which making it one selects (palette 1) and which is refused, changing nothing, for sets without one; "
 "replay lookups give the data of that player or camera and the neutral intent outside the recorded frames.",
 ["inputs", "histories"], "every enumeration member and table entry, every tile and history of helper calls",
 "Tests use a few members and never the helpers.",
 ["tile.py", "level.py", "replay.py", "variable.py", "entity.py"], [("sprite and dustblock helpers", "tile.py:Tile.set_sprite_tuple, sprite_path, set_dustblock, is_dustblock, has_filth"), ("tables", "tile.py:SHAPE_VERTEXES, SHAPE_ORDERED_SIDES, SIDE_CLOCKWISE_INDEX, SPRITE_SET_DUSTBLOCK_TILE"), ("replay lookups", "replay.py:PlayerData.get_intent_value, Replay.get_player_entity_data, get_camera_entity_data")], ["constants, return values, object state"])

prop("C28", "Writing has no side effects and stream faults are reported",
 "Writing a level, variable file or replay never changes it. If the underlying stream fails at any write, read or seek, the failure surfaces as an exception from the library, never as a seemingly successful write or a partial object; the object being written stays unchanged, and writing it again to a working stream (or reading the stream again once it works) gives exactly the result of an undisturbed run. "
 "The same holds when content that cannot be stored is refused and then removed.",
 ["fault_sequences", "inputs"], "every object and every position of a stream failure",
 "Tests never inject faults.",
 ["dfwriter.py", "dfreader.py", "bitio.py"], [("writers", "dfwriter.py:DFWriter.write_level, write_var_file, write_replay"), ("readers", "dfreader.py:DFReader.read_level, read_var_file, read_replay"), ("bit streams", "bitio.py:BitIOReader, BitIOWriter")], ["exceptions, object snapshots, bytes of later writes"])

prop("C29", "Work on separate objects does not interfere, however interleaved",
 "Tasks that share no object or stream (reading, writing, transforming, upscaling, edge calculation, remapping and merging, replays, variables and JSON conversion, bit streams) give the same results when their steps are interleaved in any order, call by call in one thread or line by line in several threads, as when each runs alone; running one leaves no trace in the results of another.",
 ["schedules", "histories"], "every set of tasks on separate objects and every interleaving of their steps",
 "Tests run one operation at a time in one thread.",
 ["dfreader.py", "dfwriter.py", "bitio.py", "level.py", "tile.py", "entity.py", "variable.py", "replay.py"], [("readers and writers", "bitio.py:BitIO, dfreader.py:DFReader, dfwriter.py:DFWriter"), ("level operations", "level.py:Level.transform, calculate_edge_visibility, calculate_edge_caps, remap_ids, merge")], ["results of tasks under a deterministic scheduler"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P))
