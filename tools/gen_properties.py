#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
I="lib/src/Image.cpp"; T="lib/src/Texture.cpp"; SC="lib/src/StandardConverter.cpp"; SCH="lib/src/StandardConverter.h"
C="lib/src/Converter.cpp"; CL="tool/CommandLine.cpp"; M="tool/main.cpp"; H="lib/src/HalfFloat.cpp"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=observe or [],hook_needed=None)))

p("C01","Converted pixels hold exactly the encoding the texture format names",
  "After a successful texture conversion to any uncompressed integer, normalized or 32-bit float format, every pixel of every mip level, array layer, depth slice and cube face is stored at its own position with each channel in the bit field the format's name prescribes. Channel values are the nearest representable code of the source value after clamping it to the range of the type (unsigned/signed normalized, unsigned/signed integer, float), whatever the image size, thread count, quality, alpha mode or color mask; NaN becomes zero in integer formats. The reported data size of each surface is width times height times the bytes per pixel.",
  ["inputs","configurations"],"every valid uncompressed (format,type) pair x every dimension/size/mip/layer/face layout x every pixel value including out-of-range ones",
  "The gtest suite converts one or two constant-colour images per format and compares a handful of values; it never varies size, layout or per-pixel data and never reaches range ends for wide types.",
  [SC,SCH,C,T],[("per-format packers",SC),("work splitting over surfaces/rows",C),("Texture::convert/data/dataSize",T)],["Texture::data","Texture::dataSize"])
p("C02","Small-float formats store the nearest representable value",
  "Conversion to 16-bit half floats yields the nearest half (ties to even, overflow to infinity), whether or not the CPU has instructions for it, and conversion to the 10/11-bit unsigned floats and to shared-exponent 9/9/9/5 yields a representable value next to the input after clamping it to the format's non-negative finite range. Negative inputs become zero in the unsigned formats, and representable values are stored exactly. No input, however small or large, wraps round to an unrelated value.",
  ["inputs"],"every finite float per channel, including denormals, negatives, halfway cases and overflow, with and without hardware half floats",
  "Unit tests check a few mid-range colours and cannot cover the float range or the rounding boundaries.",
  [H,"lib/src/HalfFloat.h",SC,SCH],[("half packing (F16C or software)",H),("B10G11R11 and E5B9G9R9 packers",SC)],["Texture::data"])
p("C03","Conversion is deterministic and independent of the thread count",
  "Converting the same texture contents produces byte-identical data for any requested thread count, including zero, one, more threads than pixels, and all cores, and for repeated runs, also when the system can't start as many threads as asked for. Conversion performs no unsynchronised conflicting memory access.",
  ["schedules","configurations"],"every thread count and interleaving of the conversion workers x texture layouts",
  "Unit tests run one default thread count per format on tiny images and compare no two runs.",
  [C,T],[("worker threads pulling jobs from an atomic counter",C)],["Texture::convert"])
p("C04","Texture lifecycle: every call succeeds or fails exactly as documented",
  "For any sequence of initialize, setImage, generateMipmaps, convert, reset, copy, move, query and save calls, each call succeeds exactly when its documented precondition holds and leaves the texture in the documented state. Dimensions, mip counts, per-level sizes, face and layer counts, completeness, format, type, alpha mode, colour mask and colour space always match that state. Rejected calls (out-of-range level, layer or face, wrong image size, incomplete images, invalid format/type or sRGB combination) do not change what the texture reports or holds.",
  ["histories"],"every operation history over all dimensions, sizes, layer and mip counts",
  "Unit tests exercise a few fixed call orders; the state after failing calls and of re-initialised or re-converted textures is never compared with a model.",
  [T],[("Texture::Impl state and checks",T)],["Texture public API"])
p("C05","Generated mip chains are the successive downsampling of the base image",
  "Generating mipmaps without custom images keeps the base images and fills each lower level, independently for every face and array layer, with the previous level resized by the requested filter in linear light to exactly max(1, size>>level). For 3D textures each level also reduces depth by combining the slices that cover each new slice (box averages them, other filters interpolate linearly). Exactly the requested number of levels, capped at the full chain, is produced, and constant input stays constant at every level.",
  ["inputs","configurations"],"every texture dimension, size (powers of two or not), layer count, filter, requested level count, colour space and pixel content",
  "Unit tests check level sizes and one or two constant colours, never contents across faces/layers/slices with distinct data.",
  [T,I],[("Texture::generateMipmaps",T),("Image::resize",I)],["Texture::getImage after generateMipmaps"])
p("C06","Custom mip images replace exactly the surfaces they are given for",
  "Supplying custom images to mip generation stores each one, resized to its level and converted to the texture's colour space, at exactly the face, level and layer or slice it names. Levels below it in the same face and layer derive from the custom image when it is marked Continue, and from the chain as it would have been without it when marked Once. No other face, layer or level is affected. The custom images may be images of the same texture: they count as they were before the call.",
  ["inputs","configurations"],"every set of custom images (positions, sizes, formats, colour spaces, replacement modes) on every texture layout",
  "Unit tests place a couple of custom mips in one fixed texture; isolation between faces/layers and mixed modes is never checked.",
  [T],[("custom mip lookup in Texture::generateMipmaps",T)],["Texture::getImage"])
p("C07","Saved DDS files decode back to exactly the texture that was saved",
  "A texture saved as DDS yields a well-formed file (magic, header, DX10 header, flags and caps) whose dimensions, depth, array size, mip count, cube flag, DXGI format, colour space and alpha mode describe the texture. Its payload is, in the standard DDS order (layer, face, mip level, slice), byte for byte the texture's converted data, with nothing missing or trailing.",
  ["inputs","configurations"],"every DDS-supported format/type, dimension, size, mip count, layer count, alpha type and content",
  "Unit tests only check that saving reports success; no test parses the file.",
  ["lib/src/SaveDds.cpp"],[("saveDds header and payload writer","lib/src/SaveDds.cpp")],["Texture::save"])
p("C08","Saved KTX files decode back to exactly the texture that was saved",
  "A texture saved as KTX yields a well-formed KTX 1 file whose GL type, format, internal format and base format, dimensions, element, face and mip counts describe the texture. Each level's recorded size matches its data, and the payload in KTX order (level, layer, face, slice, row) with rows padded to 4 bytes is the texture's converted data, with nothing missing or trailing.",
  ["inputs","configurations"],"every KTX-supported format/type, dimension, size (including row sizes that need padding), mip count, layer count and content",
  "Unit tests only check that saving reports success; no test parses the file.",
  ["lib/src/SaveKtx.cpp"],[("saveKtx header and payload writer","lib/src/SaveKtx.cpp")],["Texture::save"])
p("C09","Saved PVR files decode back to exactly the texture that was saved",
  "A texture saved as PVR yields a well-formed PVR 3 file whose pixel format (channel order and bit counts), channel type, colour space, pre-multiplied flag, dimensions, surface, face and mip counts and metadata (array and 1D markers) describe the texture. Its payload in PVR order (level, surface, face, slice) is byte for byte the texture's converted data, with nothing missing or trailing.",
  ["inputs","configurations"],"every format/type, dimension, size, mip count, layer count, alpha type and content",
  "Unit tests only check that saving reports success; no test parses the file.",
  ["lib/src/SavePvr.cpp"],[("savePvr header and payload writer","lib/src/SavePvr.cpp")],["Texture::save"])
p("C10","Format capability queries agree with what convert and save really do",
  "A (format, type) pair reported valid converts, and one reported invalid is refused; one reported valid for a file type saves to that file type and one reported invalid is refused as unsupported. The queries for native sRGB, alpha, block size, minimum size, full mip chain length and file type from a name (extension, any letter case) return the values the format and name define, and a converted texture's data sizes agree with them.",
  ["inputs","configurations"],"all formats x types x file types (exhaustively), all sizes and file names",
  "Unit tests hard-code a subset of (format,type) pairs for conversion and never cross the three file-type tables with the general one.",
  [T,C,"lib/src/SaveDds.cpp","lib/src/SaveKtx.cpp","lib/src/SavePvr.cpp"],[("isFormatValid tables",T),("createConverter",C)],["Texture static queries"])
p("C11","Saving to file, stream and memory gives the same bytes and honest results",
  "For every texture, saving to a named file, to an output stream and to a memory buffer produce identical bytes and the same result code. The automatic file type follows the file name extension regardless of letter case. Unconverted or empty textures are refused as invalid, unknown names as unknown format and unsupported combinations as unsupported, and saving never changes the texture.",
  ["inputs","configurations"],"every texture state x file type x sink x file name",
  "Tests save each texture to one sink and never compare outputs.",
  [T],[("Texture::save overloads and fileType",T)],["Texture::save"])
p("C12","A failed write is always reported",
  "If the destination of a texture or image save cannot be opened, or any write to it fails or falls short at any point, including when buffered data is finally flushed, the save reports failure. If the save reports success the destination holds the complete content.",
  ["fault_sequences","crash_points"],"every byte offset at which the output stream or file can start failing x every file type and texture layout",
  "No test injects a write failure.",
  [T,I,"lib/src/SaveDds.cpp","lib/src/SaveKtx.cpp","lib/src/SavePvr.cpp"],[("stream state checks after writing",T),("FreeImage I/O callbacks for streams",I)],["Texture::save","Image::save"])
p("C13","Reading back a set pixel gives the written colour in the image's precision",
  "For every image format, writing a colour to a pixel and reading it back yields that colour quantised to a value next to it that the format can hold after clamping to the format's range (truncated for raw integer formats), with absent channels read as the documented defaults and grayscale formats holding Rec. 709 luminance (computed in linear light for sRGB images) or the red channel when luminance conversion is off. Only the addressed pixel and never any other changes, and out-of-range coordinates are refused without effect.",
  ["inputs","histories"],"every image format, size, colour space, coordinate and colour value including out-of-range values",
  "Unit tests write one colour per format at one pixel.",
  [I],[("getPixelImpl/setPixelImpl",I)],["Image::getPixel/setPixel/scanline"])
p("C14","Image format conversion preserves every pixel's colour",
  "Converting an image to another format whose values have the same meaning keeps its size and colour space and gives each pixel the colour of the source pixel at the same coordinates, to within one step of the coarser of the two formats, with absent channels filled by the documented defaults, colour reduced to Rec. 709 luminance where the target is grayscale, and values clamped to the target range. Converting to the same format is an identical copy, and the source is never modified.",
  ["inputs","configurations"],"every pair of formats with a defined value mapping, sizes, colour spaces and contents",
  "Unit tests convert one constant colour per pair.",
  [I],[("Image::convert and its FreeImage/fallback paths",I)],["Image::convert"])
p("C15","Rotation and flipping are exact pixel permutations",
  "Rotating by any right angle and flipping in either axis move every pixel, bit for bit, to the position the geometric operation defines for every image format, size and orientation; width and height swap for quarter turns. The documented algebra holds: four quarter turns, two half turns, two equal flips, and opposite rotations are identities, and clockwise by an angle equals counter-clockwise by its complement.",
  ["inputs"],"every format, size (including 1xN and non-square), angle and content",
  "Unit tests use one image size and check a few pixels.",
  [I],[("Image::rotate, flipHorizontal, flipVertical",I)],["Image::rotate/flip*"])
p("C16","Resizing gives filtered images of exactly the requested size",
  "Resizing produces an image of exactly the requested size with the source's format and colour space in which each pixel is the normalised weighted average of the source pixels that the chosen filter defines, computed in linear light for sRGB images. Resizing to the same size copies, a constant image stays constant, and box and linear never exceed the source's range. Zero or unrepresentable sizes and filters not supported for a format give an invalid image, and the source is never modified.",
  ["inputs","configurations"],"every format, source and target size (up, down, degenerate), filter, colour space and content",
  "Unit tests resize a small gradient once per format.",
  [I],[("Image::resize (FreeImage_Rescale and fallback)",I)],["Image::resize"])
p("C17","Colour operations apply the documented per-pixel formula and nothing else",
  "Changing the colour space of normalized and floating point images applies the sRGB transfer function to colour channels only, leaves alpha untouched and round-trips; grayscale stores Rec. 709 luminance (computed in linear light) in every colour channel; pre-multiplying multiplies colour by alpha in linear light and affects only formats with alpha; swizzling routes each output channel from the named input channel, with None giving 0 for colour and 1 for alpha. Each operation acts on every pixel, to the format's precision, and never changes size, format or alpha beyond its formula.",
  ["inputs"],"every format, size, colour space, swizzle pattern and content",
  "Unit tests apply each operation to one or two colours.",
  [I],[("changeColorSpace, grayscale, preMultiplyAlpha, swizzle",I)],["Image operations"])
p("C18","Normal maps are the unit normals of the height field",
  "The normal map of an image has the image's size, and each pixel is the normalised vector (-dh/dx, -dh/dy, 1) of the red-channel height field scaled by the height parameter, using central differences inside, one-sided differences at unwrapped borders and wrapped differences at wrapped ones. Values are mapped to [0,1] unless sign is kept; a constant image maps to straight up, whatever colour format is asked for.",
  ["inputs","configurations"],"every source format, size (including single row/column), wrap and sign options, height and content",
  "Unit tests check one small map per option set.",
  [I],[("Image::createNormalMap",I)],["Image::createNormalMap"])
p("C19","Lossless image save and load round-trip through file, stream and memory",
  "Saving an image losslessly (PNG, TIFF, BMP, TGA and the like as the pixel format allows) and loading it again gives the same size and bit-identical pixels, through a file, a stream or a memory buffer, and all three sinks produce equal bytes. A stream load starts at the stream's current position and behaves like the same bytes loaded from memory. The colour space given on load is the one reported.",
  ["inputs","configurations"],"every saveable format, extension, size, content, sink and source, including streams with leading data",
  "Tests load and save one fixture image.",
  [I],[("FreeImage I/O callbacks",I)],["Image::save/load"])
p("C20","Malformed image data is refused without crashing, identically on every path",
  "Loading any byte sequence as an image, truncated, corrupted or arbitrary, with declared dimensions that fit in memory, either fails or yields a fully usable image of the size the data declares, without crashing, hanging or reading out of bounds. Loading the same bytes from file, stream and memory gives the same outcome and pixels. A failed load leaves the image invalid.",
  ["inputs"],"every byte string, in particular mutations and truncations of valid images",
  "Tests only load valid fixtures and one missing file.",
  [I],[("Image::load and internal format normalisation",I)],["Image::load"])
p("C21","Value-range adjustment maps normalized images exactly onto the target range",
  "Adjusting an image for a signed normalized, unsigned integer or signed integer texture type maps each normalized channel linearly onto [-1,1], [0,max] or [min,max] of the original image's channel precision, alpha included, in a floating point image with the same channel count class. Images of non-normalized origin and types that need no adjustment are left untouched, and the extremes of the source range map exactly to the extremes of the target range.",
  ["inputs","configurations"],"every current and original image format, type, size and content",
  "Unit tests check a few corner colours of some formats.",
  [T],[("Texture::adjustImageValueRange",T)],["Texture::adjustImageValueRange"])
p("C22","Copies are independent and moves transfer everything",
  "Copying an image, texture or custom mip image gives an object equal in every observable respect whose later modification never affects the original, nor the reverse. Moving transfers the whole state and leaves the source destroyable, assignable and reusable. Self-contained chains of copies, moves and assignments preserve contents, format, colour space, conversion results and replacement mode.",
  ["histories"],"every history of copies, moves, assignments (including self-assignment) and modifications over objects in every state",
  "Unit tests do not exercise aliasing after copy or the moved-from object.",
  [I,T],[("copy/move constructors and assignments",T),("Image deep copy",I)],["Image/Texture special members"])
p("C23","The command line tool produces exactly what the library pipeline defines",
  "For any accepted command line, the file the tool writes is byte-identical to applying the documented stages in order through the library: load, bring to the target size and texture colour space, resize, rotate, grayscale, normal map, flips, swizzle, pre-multiply, value-range adjustment, mip generation with custom mips, conversion with the derived colour mask and alpha type, save. Each input image lands on its own layer, slice, face or mip level.",
  ["inputs","configurations"],"every combination of tool options and input images",
  "The ctest cases only check the exit code of each invocation and never look at the output file.",
  [M,CL],[("loadImages/saveTexture",M),("CommandLine::parse",CL)],["tool output file"])
p("C24","Any command line ends cleanly with an honest exit status",
  "For every argument vector and list-file content the tool terminates without crashing or hanging, with exit status 0, 1, 2 or 3 as documented for success, usage, load and conversion/save errors. Status 0 means that a complete output file was written, and any other one comes with a message and (unless writing the output itself failed) leaves every file as it was. Malformed or out-of-range options are rejected with status 1, as is asking for help; missing or broken inputs give status 2, and failing conversions and outputs status 3.",
  ["inputs","fault_sequences"],"every argument vector, list file and input/output file condition",
  "The ctest cases are 80 fixed invocations.",
  [CL,M],[("CommandLine::parse/validate",CL),("exit status in main",M)],["tool exit status and output"])
p("C25","Equivalent command lines produce identical outputs",
  "Option order does not matter between independent options, and every short option, its long form and the list-file form of an input set produce byte-identical output. Explicitly passing a default value equals omitting it, and verbosity, quiet and job-count options never change the output file.",
  ["inputs","configurations"],"every pair of equivalent command lines derived from a generated one by reordering, alias, list-file, explicit-default or verbosity rewrites",
  "No ctest case compares two outputs.",
  [CL,M],[("option table and parser",CL)],["tool output file"])
p("C26","No API history corrupts memory or yields inconsistent objects",
  "Under any sequence of public image and texture calls with any argument values in their declared types, the library performs no out-of-bounds, uninitialised-lifetime or undefined operation and never crashes. After every call each image's reported format, size, bits per pixel and channel masks agree with its pixel storage: a pixel with known value read through masks and shifts from the scanline equals the value the pixel accessor returns.",
  ["histories","inputs"],"every operation history over images and textures",
  "Unit tests follow the intended call sequences only and run without sanitizers.",
  [I,T,C],[("format/bitmap bookkeeping",I),("mip/layer containers",T)],["sanitizer reports, Image::redMask/...Shift/bitsPerPixel/scanline"])
p("C27","Loading an image gives the size and colours its file describes",
  "Loading a well-formed image file in a format the library reads (BMP, TGA, PNG, PNM, PFM, TIFF, GIF, HDR, SGI, RAS, PSD; any bit depth, palette, channel order, compression, row order and byte order of it) gives an image of the file's size in which every pixel has the colour and alpha that the file describes, to the precision of the image's format, with the first row on top. Palette, bilevel and low bit depth images are expanded, transparency of palettes and grayscale images is kept, and all load paths (file, memory, stream) give the same image.",
  ["inputs","configurations"],"every well-formed file of every layout variant of the supported formats, every size and content",
  "Tests load one RGB fixture; palettes, low bit depths, row orders, compressions and transparency are never loaded.",
  [I],[("Image::Impl::create normalises palette, bilevel and transparent bitmaps",I),("Image::load overloads and I/O callbacks",I)],["Image::load, getPixel, format, width, height"])
p("C28","Independent objects can be used from several threads at once",
  "Threads that each use images and textures of their own (creating, converting, resizing, loading, saving, converting and saving textures with worker threads of their own), and that share only constant objects they read, get exactly the results that the same calls give one after the other. No library state is shared between them without synchronisation: there is no data race, crash or result that depends on the interleaving.",
  ["schedules","histories"],"every set of histories on distinct objects and every interleaving of them",
  "All tests are single threaded apart from the library's own workers.",
  [I,T,C,"lib/src/Shared.h"],[("no shared mutable state in image and texture calls",I),("guarded one-time initialisation and format lookup",I),("worker threads owned by each conversion",C)],["results of all calls; ThreadSanitizer reports"])
p("C29","A failed image allocation is reported, never a crash or a silent wrong result",
  "When storage for an image can't be allocated at any point within a public image or texture call (creation, copy, conversion, resize, rotation, normal map, loading, saving, setting texture images, generating mipmaps, converting), the call reports failure by its return value or an invalid image, or succeeds with a complete result of the right size, format and colours by another way. It never crashes, hands out a half made object or claims success for a missing image, and other objects keep their contents and stay usable.",
  ["fault_sequences","histories"],"every allocation of image storage in every call of every history, failing once or from then on",
  "No test injects an allocation failure.",
  [I,T],[("checks of created bitmaps in image operations",I),("checks of mip images in generateMipmaps",T)],["return values, Image::isValid, Texture::imagesComplete"])
p("C30","Objects release everything they acquired, whatever the calls did",
  "After any history of image, texture, loading, saving and conversion calls, including refused calls and failing loads and saves, destroying the objects releases all memory the library acquired for them. Repeating a history any number of times doesn't grow the number of memory blocks in use.",
  ["histories","inputs"],"every history of public calls, successful and failing",
  "Tests run once without leak checking.",
  [I,T,C],[("Image::Impl owns the bitmap; intermediate bitmaps and memory streams are closed on every path",I),("texture surfaces owned by containers",T)],["live allocations"])
p("C31","Block compression encodes every pixel exactly once, in its own block",
  "In a build with block compressors, converting to a block compressed format hands every block of every mip level, layer, slice and face exactly the pixels it covers, with the edge repeated in partial blocks, to the encoder the format names, with the channels, sign, color space and alpha handling that were asked for, and stores what the encoder returns at the block's own place. The result doesn't depend on the number of threads, other conversions at the same time or earlier ones, and a higher quality never takes less effort.",
  ["inputs","configurations","schedules"],"every block compressed format and type x every dimension/size/mip/layer/face layout x contents, alpha types, color masks, qualities, color spaces and thread counts",
  "The unit tests of these formats need libraries that aren't part of this build, compress one constant color and look at the size of the result only.",
  ["lib/src/S3tcConverter.cpp","lib/src/EtcConverter.cpp","lib/src/AstcConverter.cpp","lib/src/PvrtcConverter.cpp",C,T],[("gathering of block pixels and choice of encoders","lib/src/S3tcConverter.cpp"),("context cache of ASTC","lib/src/AstcConverter.cpp"),("sharing of blocks among threads",C)],["Texture::data with stand-ins for the encoder libraries"])
p("C32","Files of block compressed textures describe and hold exactly their blocks",
  "In a build with block compressors, every block compressed format is valid, natively sRGB and saveable exactly where the format's definition and the container allow it, and other combinations are refused and leave the texture alone. DDS, KTX and PVR files saved from a compressed texture name its format, color space, type, alpha type, size, layers, faces and levels with the values the file formats define, and hold every block in the order the container requires, without a byte left over.",
  ["inputs","configurations"],"every block compressed format x type x color space x container x dimension, size (multiples of the block size or not), layer and mip counts",
  "The tests of these formats aren't part of this build, and no test parses a file.",
  [T,C,"lib/src/SaveDds.cpp","lib/src/SaveKtx.cpp","lib/src/SavePvr.cpp"],[("format tables",T),("format codes of the containers","lib/src/SaveKtx.cpp")],["Texture::save","Texture static queries"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
