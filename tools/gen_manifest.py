#!/usr/bin/env python3
"""Writes MANIFEST.json and the "fixed" list of known_findings.json (the findings are kept)."""
import json, os, re, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PBT = "property-based testing: "
TRUST = (" Trusts the harness's own oracle, the sanitizers of gcc 13 and the system's FreeImage 3.18; "
         "bounded by the generated sizes and the case counts in the evidence.")
T = {
 "C01": ("generated textures against an independent decoder of every format",
   "All valid integer, normalized and 32-bit float (format, type) pairs are enumerated; shapes and pixel values are sampled, biased to the boundaries between codes."),
 "C02": ("generated float values against exact rational rounding of the small float formats",
   "Values are sampled around every representable value, midpoint, overflow and denormal boundary. The packing in software, for CPUs without the instruction, is switched on in a quarter of the half float cases."),
 "C03": ("differential runs over thread counts, with ThreadSanitizer as a second oracle",
   "Schedules are those the operating system produced; races are found by ThreadSanitizer's happens-before analysis rather than by luck. Thread starts are made to fail from the n-th on (n up to 5)."),
 "C04": ("stateful model-based testing of texture call histories",
   "Histories up to 25 calls on two textures against a reference model."),
 "C05": ("metamorphic and reference-model testing of mip chains",
   "Every pixel of every level is compared with the resize of the level above (and one surface with a separate resampler)."),
 "C06": ("model-based testing of generated custom mip sets",
   "Every surface is compared with a model of the chain."),
 "C07": ("generated textures against an independent DDS parser",
   "Every DDS-supported (format, type) pair is enumerated; the parser was written from the DDS documentation, not from the writer."),
 "C08": ("generated textures against an independent KTX parser",
   "Every KTX-supported (format, type) pair is enumerated; the parser was written from the KTX 1.1 specification."),
 "C09": ("generated textures against an independent PVR parser",
   "Every valid uncompressed (format, type) pair is enumerated; the parser was written from the PVR 3 specification."),
 "C10": ("exhaustive (format, type, file type) matrix with generated textures and names",
   "The matrix is complete for this build, in which the block compressors other than the always built ones are off, as in the baseline build."),
 "C11": ("differential testing of save sinks",
   "All sinks are compared byte for byte on generated textures."),
 "C12": ("systematic fault injection at every write offset of generated outputs",
   "Faults are enumerated at every byte for small outputs and around every seam for bigger ones, through streams, RLIMIT_FSIZE and /dev/full."),
 "C13": ("stateful model-based testing of pixel writes", "All image formats, against a per-channel model."),
 "C14": ("generated conversions over all ordered format pairs against a value model", "All ordered pairs with a defined value mapping."),
 "C15": ("generated permutation histories against an index model, with inverse laws", "Bit-exact."),
 "C16": ("generated resizes against a reference resampler and range/constancy laws", "Tolerance of up to two code values for quantised formats (8 for 16-bit sRGB ones)."),
 "C17": ("generated operation histories against per-pixel formulas", "Tolerance of the format's precision."),
 "C18": ("generated height fields against the finite-difference formula", "Tolerance of the target format's precision."),
 "C19": ("round-trip and differential codec testing with independent encoders", "Lossless codecs of the linked FreeImage: PNG, BMP, TGA, TIFF, PNM and others as the format allows."),
 "C20": ("structure-aware mutation fuzzing with differential load paths under sanitizers",
   "Mutated files of six codecs. FreeImage itself is not instrumented; crashes inside it are reported by their call site (one known finding)."),
 "C21": ("generated images against the linear range map", "All image formats and types."),
 "C22": ("stateful model-based testing of copies and moves", "Pools of images, textures and custom mips, with full state comparison after every call."),
 "C23": ("differential testing of the tool against the library pipeline", "The tool's main runs in process, the reference goes through the library calls in the documented order."),
 "C24": ("grammar-based fuzzing of command lines and list files with exit status oracle", "In process, in a scratch folder. A share of the cases lets one image allocation (or all from there on) fail."),
 "C25": ("metamorphic testing of equivalent command lines", "Three writings of each generated conversion."),
 "C26": ("stateful API fuzzing under sanitizers with storage invariants", "Histories up to 30 calls with hostile arguments."),
 "C27": ("generated files of independent encoders against the pixels they describe", "Eleven formats in the variants FreeImage 3.18 can read; its own limits (BMP V4/V5 headers, PFM row order, interlaced GIF beyond 4 rows, tRNS for 16-bit samples) are left out."),
 "C28": ("differential runs of generated histories, concurrent against sequential, with ThreadSanitizer as a second oracle", "Up to four threads; schedules are those the operating system produced."),
 "C29": ("systematic fault injection into every image allocation of generated histories", "Allocations of image storage through FreeImage fail (at link level, by wrapped symbols); failures of operator new, which end in exceptions, are not injected."),
 "C30": ("generated histories with a count of live memory blocks as invariant", "Counted by the sanitizer's malloc hooks, which also see FreeImage's allocations."),
 "C31": ("generated textures converted with recording stand-ins for the encoder libraries, against an independent division into blocks", "The encoder libraries (Squish, rgbcx, bc7enc, Compressonator, EtcLib, astcenc, PVRTexLib) aren't available offline; stand-ins with their interfaces take their place, so the glue code is decided and not the encoders. Sizes up to 40 pixels."),
 "C32": ("generated compressed textures saved and parsed by independent readers with tables from the specifications", "Compressed with the stand-ins of C31. Sizes up to 20 pixels."),
}
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
 "notes": "No hooks are needed: every property is observed through the public API, the tool's main() or the files. "
          "See DESIGN.md."}
for i in range(1, len(T) + 1):
    pid = "C%02d" % i
    tech, note = T[pid]
    m["checks"].append({"property": pid, "quick_cmd": "python3 check.py " + pid,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + pid,
        "evidence_file": "evidence/%s.json" % pid, "technique": PBT + tech,
        "level": "fault_enumeration" if pid in ("C12", "C29") else "exploration", "level_note": note + TRUST})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

PROPS = {"1ff8eb6":"C13","1f67b76":"C13","9f59012":"C26","b084a71":"C16","606fb91":"C14","8907617":"C14",
 "a89829d":"C19","683cdff":"C19","f383cdc":"C19","d14155c":"C20","3572150":"C04","a9302b4":"C06","a266e9e":"C06",
 "ce9a736":"C04","2768e4b":"C26","47987e9":"C22","c5efdfa":"C02","0374aec":"C01","22beb24":"C01","a8183ca":"C10",
 "61bd51a":"C21","58a1ea1":"C12","9d366eb":"C08","1082045":"C08","22439f1":"C08","b329e2c":"C07","1b1bd4d":"C04",
 "26494e4":"C25","4282547":"C24","badfe4b":"C24","5a2616d":"C24","9958b1b":"C24","bc5454d":"C24","b5fb6ee":"C23",
 "0b66ad0":"C24","a969feb":"C06","04ddad9":"C26","614c493":"C27","5d9c3cf":"C28","ece1310":"C29","03e9d7f":"C03","157d902":"C02","9569bd9":"C06","028581a":"C16","25afc4f":"C05","ae99029":"C19"}
WHAT = {
 "1ff8eb6": "setPixel on sRGB grayscale images stored the luminance of the sRGB values instead of the one computed in linear light",
 "1f67b76": "setPixel cast out of range colours before clamping them; UInt16 values over 32767 were mangled",
 "9f59012": "blueMask() returned the green mask and all shifts of 8-bit images were 0",
 "b084a71": "resizing RGB5/RGB565 images left an image that claimed 16 bits per pixel over 24-bit storage",
 "606fb91": "converting 8-bit images to 16-bit channels gave 0xFF00 for white and opaque alpha",
 "8907617": "converting RGB5/RGB565 to RGBAF lost precision through an 8-bit step",
 "a89829d": "loading from seekable streams returned wrong item counts and ignored the start offset",
 "683cdff": "saving images wrote different bytes to files, streams and memory, corrupted memory for unsupported pixel formats and hid write failures",
 "f383cdc": "black and white and 4-bit grayscale images couldn't be loaded",
 "d14155c": "the same bytes gave different outcomes when loaded from a stream or a file",
 "3572150": "setImage on lower 3D levels used the depth of the base level",
 "a9302b4": "a custom mip of one face or layer was used for the following ones as well",
 "a266e9e": "custom mips weren't converted to the texture's colour space",
 "ce9a736": "a rejected set of 3D custom mips left the texture changed",
 "2768e4b": "generateMipmaps on a converted texture kept data of the old mip count, read out of bounds by dataSize and save",
 "47987e9": "assigning a custom mip image kept the old replacement mode",
 "c5efdfa": "B10G11R11 and E5B9G9R9 conversion wrapped round for large values and lost denormals",
 "0374aec": "conversion to 32-bit integers was undefined at the upper limit",
 "22beb24": "converting NaN to an integer format was undefined",
 "a8183ca": "hasAlpha was false for A4R4G4B4",
 "61bd51a": "adjustImageValueRange mapped opaque alpha of 16-bit images to the wrong value",
 "58a1ea1": "texture saves reported success after failed flushes, and refused saves truncated the existing file",
 "9d366eb": "KTX headers of 32-bit packed formats named the wrong component order",
 "1082045": "the KTX header of R8G8 named the wrong component type",
 "22439f1": "KTX headers of integer formats named normalized GL formats",
 "b329e2c": "DDS cube maps lacked the complex flag",
 "1b1bd4d": "1D textures with a height other than 1 were accepted and saved as malformed files",
 "26494e4": "-t before -f was overridden by the format's default type",
 "4282547": "image lists could be mixed with other inputs, which crashed or dropped images",
 "badfe4b": "out of range array indices crashed the tool",
 "5a2616d": "sizes out of range wrapped round on the command line",
 "9958b1b": "custom mip depths for cube arrays were checked against the image count instead of the cubes",
 "bc5454d": "the tool went on after failures to set images or generate mipmaps",
 "b5fb6ee": "rotated custom mips of normal maps kept the size of the unrotated level",
 "0b66ad0": "a huge job count allocated as many threads and ended the process",
 "a969feb": "custom mips of formats that don't support the mip filter made generateMipmaps fail",
 "04ddad9": "sizes whose pitch FreeImage can't represent overflowed and crashed",
 "614c493": "the transparency of grayscale images was dropped when loading",
 "5d9c3cf": "saving images from several threads at once crashed in FreeImage's strtok() based format lookup",
 "ece1310": "generateMipmaps crashed (3D) or reported success with missing mip images when an image couldn't be allocated",
 "157d902": "half floats in the middle between two values were rounded up on CPUs without half float instructions, to even on others",
 "9569bd9": "images of removed mip levels were used after being freed, and replaced levels after being overwritten, when passed as custom mip images of the same texture",
 "028581a": "resizing sRGB images with 8 or fewer bits per channel rounded the linear values to those bits, so dark colours changed by several levels, even in constant images",
 "25afc4f": "box filtered mipmaps of 3D textures lost the middle slice for some depths (45, 69, 77, 109, ...), left out of both neighbouring boxes by rounding",
 "ae99029": "saving images wider or taller than 65535 pixels as TGA or GIF reported success, but the file held an image of the size modulo 65536 or couldn't be loaded",
 "03e9d7f": "conversion ended the process when the system couldn't start as many threads as asked for",
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h%x01%s%x01%b%x02"], capture_output=True, text=True).stdout
fixed = []
for e in log.split("\x02"):
    p = e.strip("\n").split("\x01")
    if len(p) < 3 or not p[1].startswith("fix:"):
        continue
    h = p[0][:7]
    fixed.append("fixed: property=%s %s %s" % (PROPS[h], h, WHAT[h]))
path = os.path.join(V, "known_findings.json")
k = json.load(open(path))
k["fixed"] = fixed
json.dump(k, open(path, "w"), indent=1); open(path, "a").write("\n")
