import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe,hook_needed=hook)))
def m(name,where): return dict(name=name,where=where)
B="src/binary/"
CH="src/binary/chunks/"
p("C01","Parsing arbitrary bytes never panics",
  "For every byte string, parsing it (as a whole file with the low-level or the high-level entry point, or as the payload of any single chunk type) returns either a value or an error; it never panics, overflows, indexes out of bounds or aborts. This holds in builds with and without overflow checks.",
  ["inputs"],"every byte string of every length, well-formed or hostile",
  "The tests parse eight well-formed fixture files; a panic needs a hostile length, count, index or nesting that no fixture contains.",
  [B+"raw_file.rs",B+"raw_frame.rs",B+"chunk.rs",B+"file.rs",B+"scalars.rs",CH+"user_data.rs",CH+"palette.rs",CH+"old_palette.rs","src/loader/mod.rs"],
  [m("checked size conversions and nom's complete parsers",B+"scalars.rs"),m("bounds check before indexing the per-frame cel table",B+"file.rs"),m("size field of the properties block",CH+"user_data.rs")],
  ["return value or unwinding of parse_file, AsepriteFile::load and the chunk parsers"])
p("C02","File header fields are decoded exactly and bad headers rejected",
  "A file is accepted only if it has a complete 128-byte header with the magic number 0xA5E0 at offset 4, and every header field (frame count, size, colour depth, flags, speed, transparent index, colour count, pixel ratio, grid) equals the little-endian value at its offset in the file-format specification, with the signedness given there. Body parsing starts at byte 128.",
  ["inputs"],"every 128-byte header, and every shorter input",
  "One fixture header is compared with fixed values, most of them zero or one; swapped, truncated or sign-confused fields keep passing.",
  [B+"header.rs",B+"color_depth.rs",B+"scalars.rs"],
  [m("sequential little-endian field parsers over a 128-byte slice",B+"header.rs")],["Header value returned by parse_header / in the parsed file"])
p("C03","Frames and chunks are delimited exactly by their size and count fields",
  "Each frame and chunk occupies exactly the number of bytes its size field says: the next one starts there whatever its payload contains, chunks of unknown type are reported with their type code and skipped, and surplus bytes inside a chunk or frame are ignored. The number of chunks in a frame is the new 32-bit count unless that is zero, in which case it is the old 16-bit count. A size below 4, a size reaching past the enclosing data, a wrong frame magic, too few chunks, no frame at all, or left-over bytes after the last frame is an error.",
  ["inputs"],"every sequence of frames and chunks, sizes, counts and payload bytes",
  "Fixtures have consistent sizes and counts, so mis-delimiting, wrong count selection and accepted garbage are never exercised.",
  [B+"raw_frame.rs",B+"chunk.rs",B+"chunk_type.rs",B+"scalars.rs"],
  [m("take(size - 4) sub-slices",B+"raw_frame.rs"),m("take(size - 4) and dispatch on type",B+"chunk.rs"),m("all_consuming(many1(..))",B+"raw_frame.rs")],
  ["frames and chunks of the parsed raw file","error results"])
p("C04","Layer records are decoded exactly",
  "For every well-formed layer chunk the reported flags, type, child level, blend mode, opacity, name and (only for tilemap layers) tileset index equal the values the file-format specification assigns to those bytes, and each named flag tests exactly its specified bit (1, 2, 4, 8, 16, 32, 64). Truncated chunks and names that are not UTF-8 are errors.",
  ["inputs"],"every layer chunk payload",
  "Tests compare three layer names only.",
  [CH+"layer.rs",B+"blend_mode.rs",B+"scalars.rs"],
  [m("sequential field parsers",CH+"layer.rs"),m("bitflags constants",CH+"layer.rs")],["LayerChunk values"])
p("C05","Cel records are decoded exactly",
  "For every well-formed cel chunk the reported layer index, position, opacity, z-index and content equal what the file-format specification assigns to those bytes: raw and compressed images carry width, height and exactly the remaining payload bytes, linked cels carry the frame position, tilemaps carry dimensions, bits per tile, the tile-id, X-flip, Y-flip and diagonal-flip masks in that order and the remaining bytes, and unknown kinds carry their code and the remaining bytes. Truncated chunks are errors.",
  ["inputs"],"every cel chunk payload",
  "No test inspects a decoded cel; fixtures contain only compressed images and links.",
  [CH+"cel.rs",B+"image.rs"],[m("match on cel type with per-type parsers",CH+"cel.rs")],["CelChunk values"])
p("C06","Tag and slice records are decoded exactly",
  "For every well-formed tags chunk the tags appear in file order with their inclusive frame range, direction, repeat count, colour and name, and a range whose start exceeds its end is an error. For every well-formed slice chunk the keys appear in file order with frame, signed origin and size, and nine-patch and pivot data are present exactly when their flag bits are set. Truncated chunks are errors.",
  ["inputs"],"every tags chunk and every slice chunk payload",
  "Tests compare three tag names; no test reads a slice key.",
  [CH+"tags.rs",CH+"slice.rs"],[m("count(parse_tag, n)",CH+"tags.rs"),m("flag-conditional key fields",CH+"slice.rs")],["TagsChunk and SliceChunk values"])
p("C07","Palette records are decoded exactly",
  "A new-style palette chunk yields the index range first..=last and exactly last-first+1 entries in order, each with its RGBA colour and a name exactly when its flag is set; indices beyond 255 or first > last are errors. An old-style palette chunk yields its packets in order, each with its skip value and its RGB triples, a stored colour count of 0 meaning 256. Truncated chunks are errors.",
  ["inputs"],"every palette chunk payload of the three kinds",
  "One indexed fixture with one full, unnamed palette is checked at three entries; partial palette changes, names and multiple packets never occur.",
  [CH+"palette.rs",CH+"old_palette.rs"],[m("entry count and range checks",CH+"palette.rs"),m("packet parser",CH+"old_palette.rs")],["PaletteChunk and OldPaletteChunk values"])
p("C08","User data and custom properties are decoded exactly",
  "For every well-formed user-data chunk the text, colour and properties are present exactly when their flag bits are set and equal the encoded values; every property type (scalars, fixed, float, string, point, size, rect, homogeneous and mixed vectors, nested maps, UUID) is decoded to its specified value, in order, and nested maps carry no extension id of their own. The properties block occupies exactly its declared size, and a malformed properties block does not make the text and colour unavailable.",
  ["inputs"],"every user-data chunk payload",
  "The fixture contains only text; no test decodes a single property.",
  [CH+"user_data.rs",B+"scalars.rs"],[m("parse_value / parse_vector dispatch",CH+"user_data.rs"),m("size-delimited properties block",CH+"user_data.rs")],["UserDataChunk values"])
p("C09","Tileset, external-file, colour-profile, mask and cel-extra records decode",
  "For every well-formed tileset, external-files, colour-profile, mask or cel-extra chunk, every reported field equals the value the file-format specification assigns to its bytes, optional parts are present exactly when their flag or type says so, and embedded blobs have exactly their declared length. Truncated chunks are errors.",
  ["inputs"],"every payload of these five chunk types",
  "No test inspects any of these chunks.",
  [CH+"tileset.rs",CH+"external_files.rs",CH+"color_profile.rs",CH+"mask.rs",CH+"cel_extra.rs"],
  [m("per-chunk field parsers",CH)],["chunk values"])
p("C10","Unknown codes are preserved, known codes are mapped to their meaning",
  "Every coded field (colour depth, blend mode, layer type, cel type, animation direction, colour-profile type, external-file type, chunk type) maps each specified code to the variant the specification gives it and every other code to an unknown variant carrying exactly that code. No unknown code makes the parse of the surrounding record fail.",
  ["inputs"],"every value of every coded 8-bit or 16-bit field",
  "Tests try three blend-mode codes; the first code beyond the specified ones behaves differently from larger ones in derived conversions and is never tried.",
  [B+"blend_mode.rs",B+"color_depth.rs",B+"chunk_type.rs",CH+"layer.rs",CH+"cel.rs",CH+"tags.rs",CH+"color_profile.rs",CH+"external_files.rs"],
  [m("From<Word>/From<Byte> conversions",B)],["enum values of parsed records"])
p("C11","The sprite palette is resolved from the right palette records",
  "For an indexed sprite the palette is built from the new-style palette records of all frames if there are any, otherwise from the 8-bit old-style records, otherwise from the 6-bit old-style records scaled to 8 bits; later records override earlier ones index by index, old-style colours are opaque, untouched entries are transparent black, and the header's transparent index always ends with alpha 0 and its colour otherwise unchanged. A missing or empty palette, or old-style packets running past index 255, is an error; sprites of other colour depths have no palette.",
  ["inputs","histories"],"every sequence of palette records over all frames, and every transparent index",
  "One fixture, one palette record, three entries compared.",
  [B+"palette.rs",B+"file.rs"],[m("create_palette precedence",B+"palette.rs"),m("old packet index arithmetic",B+"palette.rs")],["File::palette","indexed pixels returned by load_image"])
p("C12","Parsed files list layers, frames, cels, tags and slices faithfully",
  "The parsed file has one layer per layer record, one tag per tag record, one slice per slice record and one frame per frame record, each in file order with its own data and frame duration. Within a frame every cel is found at its layer index, layers without a cel are empty there, a later cel for the same layer replaces an earlier one, and a cel whose layer index is not less than the number of layers makes the parse fail.",
  ["inputs","histories"],"every sequence of layer, cel, tag and slice records over frames",
  "Fixtures never contain an out-of-range or repeated cel, and most have one frame.",
  [B+"file.rs"],[m("per-frame cel table sized by layer count",B+"file.rs")],["File::layers, frames, tags, slices"])
p("C13","User data attaches to the record it follows and to nothing else",
  "A user-data record attaches to the layer, cel or slice record immediately before it; the ones following a tags record attach to its tags one by one in order; one following a palette record in the first frame attaches to the sprite. Records without a following user-data record have none, and user data following any other record is attached nowhere.",
  ["inputs","histories"],"every sequence of records in every frame",
  "One fixture with one arrangement of records.",
  [B+"file.rs"],[m("peek-ahead consumption of user-data chunks",B+"file.rs")],["user_data fields of File, LayerChunk, CelChunk, Tag, SliceChunk"])
p("C14","The loader resolves images, links, layers and tags consistently",
  "Every image cel gets its own image with the pixel size stored in the file, a linked cel refers to the image of the same layer in the frame it links to (keeping its own position), and a link to a frame or layer without an image is an error. Listed layers are the normal and group layers in file order with their name, blend mode and visibility, every frame cel's layer index selects the listed layer it was drawn on, and cels on unlisted layers are not listed. Tags keep name, range and direction, with a repeat count of 0 reported as none.",
  ["inputs","histories"],"every accepted file",
  "Tests only count frames; fixtures contain no dangling link and no layer kind the loader leaves out.",
  ["src/loader/mod.rs"],[m("image map keyed by frame and layer","src/loader/mod.rs"),m("layer filter and index","src/loader/mod.rs")],["AsepriteFile::layers, frames, images, tags"])
p("C15","Image pixels are converted to RGBA exactly",
  "Loading an image writes, for every pixel in row order, the RGBA value the format defines: RGBA pixels unchanged, greyscale pixels as (v, v, v, a), indexed pixels as the palette entry of their index; the result is the same for raw and zlib-compressed storage. Only the first width*height*4 bytes of the target are written.",
  ["inputs"],"every image size, every pixel content, every palette, both storage kinds and all three colour depths",
  "Tests discard the decoded pixels; they only check that loading succeeds.",
  ["src/loader/mod.rs"],[m("load_image dispatch on depth and compression","src/loader/mod.rs"),m("grayscale_to_rgba / indexed_to_rgba","src/loader/mod.rs")],["target buffer after load_image"])
p("C16","Malformed image data yields an error, never a panic or stale pixels",
  "Loading an image whose stored data is corrupt, is shorter or longer than width*height pixels, or uses an unsupported colour depth returns an error, as does a target shorter than width*height*4 bytes, for every image size; it never panics and never writes past width*height*4 bytes. Success means that all width*height*4 target bytes were determined by the image.",
  ["inputs"],"every stored byte string, every image size and every target length",
  "All fixture images are intact and all test targets have the exact size.",
  ["src/loader/mod.rs"],[m("length checks in the converters","src/loader/mod.rs"),m("decompress status handling","src/loader/mod.rs")],["result of load_image and decompress, target buffer"])
p("C17","Rendering places every cel pixel exactly and clips to the canvas",
  "Rendering a frame changes exactly the canvas pixels covered by a drawn cel: canvas pixel (X, Y) receives cel pixel (X - cel x, Y - cel y) when that lies inside the cel, for every signed cel position, and all other bytes of the target, including those beyond width*height*4, keep their value. A target shorter than width*height*4 bytes is rejected.",
  ["inputs"],"every cel position, cel size, canvas size and target length",
  "No test compares a rendered pixel; fixtures exercise a handful of positions.",
  ["src/loader/mod.rs"],[m("checked coordinate arithmetic","src/loader/mod.rs")],["target buffer after render_frame"])
p("C18","Layer selection decides exactly which layers are drawn",
  "With the visible selection exactly the layers that are visible in the source file (their own visible flag and that of every enclosing group) are drawn, with the all selection every layer, with a mask exactly the layers whose mask entry is true, entries beyond the mask counting as false; group layers are never drawn themselves. Selecting by predicate or by names yields the mask of the layers for which the predicate holds or whose name is listed.",
  ["inputs","configurations"],"every set of layers, flags and nesting levels, and every selection",
  "Two selections of one flat, fully visible fixture are compared.",
  ["src/loader/mod.rs"],[m("LayerSelection::is_selected","src/loader/mod.rs")],["target buffer after render_frame, LayerSelection values"])
p("C19","Cels are composited in stacking order with layer and cel opacity",
  "The cels of a frame are drawn back to front in the order the format defines: by layer index plus z-index, ties by z-index. Each is blended onto the result so far with its layer's blend mode and with the product of layer and cel opacity (rounded division by 255), the layer opacity counting as 255 unless the header marks it as valid; existing target contents act as the backdrop.",
  ["inputs","histories"],"every set of cels with any z-index, opacities and header flags",
  "No test compares rendered pixels; fixtures use full opacity and no z-index.",
  ["src/loader/mod.rs","src/loader/blend.rs"],[m("cel loop and opacity passed to the blend function","src/loader/mod.rs")],["target buffer after render_frame"])
p("C20","Integer blend modes match Aseprite bit for bit",
  "For every backdrop pixel, source pixel and opacity, the blend modes normal, multiply, screen, overlay, darken, lighten, colour dodge, colour burn, hard light, difference, exclusion, addition, subtract and divide produce exactly the RGBA value of Aseprite's new blend functions, without overflow. In particular a fully transparent source or zero opacity leaves an opaque backdrop unchanged, and over a transparent backdrop every mode acts like normal.",
  ["inputs"],"all 2^72 combinations of two RGBA pixels and an opacity, for each of the 14 modes",
  "blend.rs has no test; rendering tests only check for success.",
  ["src/loader/blend.rs"],[m("blender, normal, merge and the per-channel functions","src/loader/blend.rs")],["target pixel after render_frame"])
p("C21","Soft-light and HSL blend modes follow Aseprite's formulas without glitches",
  "For every backdrop pixel, source pixel and opacity, the modes soft light, hue, saturation, colour and luminosity never panic or overflow and produce the value of Aseprite's formulas, evaluated in double precision on channels scaled to 0..1 and using all three channels of both pixels. The result's alpha is the one normal blending gives.",
  ["inputs"],"all combinations of two RGBA pixels and an opacity, for each of the 5 modes",
  "blend.rs has no test, and no fixture uses these modes.",
  ["src/loader/blend.rs"],[m("blend_soft_light","src/loader/blend.rs"),m("set_saturation, set_luminocity, clip_color","src/loader/blend.rs")],["target pixel after render_frame"])
p("C22","Any accepted file can be rendered without panicking",
  "For every file the loader accepts, every existing frame, every selection and every target buffer, rendering returns success or an error: corrupt or mis-sized cel data, unsupported colour depths and unknown blend modes are reported as errors, and cels on layers the loader does not list are skipped. Loading any listed image likewise returns success or an error.",
  ["inputs","configurations"],"every accepted file, frame, selection and target length",
  "Fixtures are all intact; no test renders a damaged or exotic file.",
  ["src/loader/mod.rs","src/loader/blend.rs"],[m("error propagation out of the cel loop","src/loader/mod.rs"),m("blend mode dispatch","src/loader/blend.rs")],["result or unwinding of render_frame, load_image and combined_frame_image"])
p("C23","The combined frame image equals the visible rendering and hashes its cels",
  "The deprecated combined-image call writes exactly what rendering with the visible selection writes and fails exactly when it does. Its hash is a function of the frame's cels (image, layer, position, size, opacity): frames with equal cel lists hash equally, and frames differing in one of these values, or in the number or order of their cels, do not hash equally by construction.",
  ["inputs","histories"],"every accepted file and pair of frames",
  "Only the success of the new call is tested; the hash is never looked at.",
  ["src/loader/mod.rs"],[m("DefaultHasher over the cel list","src/loader/mod.rs")],["result and target of combined_frame_image"])
p("C24","Nested custom properties cannot exhaust the stack",
  "Parsing custom properties nested to any depth (vectors of vectors, mixed vectors, maps in maps) uses stack space bounded by a constant, whatever the input: excessive nesting is reported as an error inside the user data instead of crashing the process. Nesting up to at least 32 levels is decoded normally.",
  ["inputs"],"every nesting depth and every mix of nesting kinds",
  "No test decodes a property; the crash needs a chunk with thousands of nested values.",
  [CH+"user_data.rs"],[m("recursive value parser",CH+"user_data.rs")],["process survival; properties of the parsed user data"])
p("C25","Reserved bytes, unknown chunks and surplus bytes never change what a file means",
  "Two files are both accepted and yield equal palettes, layers, frames, cels, tags, slices, user data, images and renderings if they differ only in the following: bytes the format reserves in the header (after the grid fields), frames and records; chunks of unknown type that do not come between a record and its user data; surplus bytes at the end of a chunk (other than a cel, whose data is the rest of its chunk) or of a frame; the header's file size and frame count; the old 16-bit chunk count of a frame whose 32-bit count is not zero. So files by newer writers stay readable.",
  ["inputs","configurations"],"every content of the ignored bytes, every unknown chunk type and position, every chunk and frame with a surplus",
  "Fixtures come from one version of Aseprite, which writes zeroes, exact counts and no unknown chunks.",
  [B+"file.rs",B+"chunk.rs",B+"raw_file.rs",B+"raw_frame.rs",CH+"cel.rs",CH+"layer.rs",CH+"tags.rs"],[m("skipped bytes in the record parsers",CH+"layer.rs"),m("Chunk::Unsupported","src/binary/chunk.rs"),m("chunk_count","src/binary/raw_file.rs")],["parsed file, loaded sprite and rendered frames against those of the plain file"])
p("C26","Loading, decoding and rendering keep no state between calls",
  "The result of loading a file, decoding an image, rendering a frame or hashing a frame depends on the arguments of that call only: whatever was loaded, decoded or rendered before in the same process, of the same or another sprite, successfully or with an error, the same call gives the same result and the same bytes, and a call never changes a sprite.",
  ["histories","inputs"],"every sequence of successful and failing calls on any sprites",
  "Each test makes its calls once, on one intact sprite.",
  ["src/loader/mod.rs"],[m("buffers and decompressor created per call","src/loader/mod.rs"),m("DefaultHasher with fixed keys","src/loader/mod.rs")],["results and target buffers of load, load_image, render_frame and combined_frame_image"])
open("properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
