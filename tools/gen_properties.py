#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

ALL_IO = ["src/general_file_io.rs","src/metadata/metadata_io.rs","src/jpg.rs","src/png/mod.rs","src/png/read.rs",
          "src/jxl.rs","src/tiff/file.rs","src/tiff/vec.rs","src/webp/file.rs","src/webp/vec.rs","src/heif/mod.rs","src/heif/container.rs","src/util.rs"]

p("C01", "Success is reported only when the file really holds the whole result",
  "When an operating-system call made underneath an operation on a stored image fails for good (disk full, I/O error, permission denied, read-only medium, refused open, seek or truncation), the operation returns an error, unless the file nevertheless ends up holding exactly the bytes that a fault-free run would have left: a write or clear that returns success has left the complete, untruncated result with nothing of the old content behind it, and a read that returns success has returned exactly the metadata stored in the file. A failed operation leaves every other file alone and creates no file. Once the faults stop, repeating the operation on the restored original succeeds with the fault-free result.",
  ["fault_sequences","inputs"],
  "Every file operation (read, write metadata, clear metadata, clear a single application segment) x every supported container x every position in the operation's sequence of system calls x every hard error (EIO, ENOSPC after k bytes, EDQUOT, EACCES, EROFS, EPERM on truncation, EISDIR, EMFILE), singly and in short sequences.",
  "The existing tests only ever run against a healthy disk: no test makes a system call fail, so swallowed errors (unflushed buffers dropped, ignored results) and stale bytes left when the new content is shorter can never show.",
  ALL_IO,
  [("open helpers that turn failures into errors","src/general_file_io.rs"),("`?` on every read/write/seek/set_len in the per-format file functions","src/{jpg,jxl}.rs, src/{png,heif,tiff,webp}/*.rs"),("dispatch returning io::Result","src/metadata/metadata_io.rs")],
  [("file content","bytes of the image being rewritten in place","the path handed to write_to_file / file_clear_metadata")],
  ["return value of the operation","file content after the operation","every other path of the simulated file system"])

p("C02", "Short transfers and interrupted system calls are invisible",
  "A read may return fewer bytes than asked for, a write may accept fewer bytes than offered, and either may be interrupted by a signal before transferring anything, at any call and any number of times. None of this changes the outcome of any operation on a file: it returns the same result and leaves the same bytes in the file as on a medium that always transfers everything at once.",
  ["fault_sequences","inputs","schedules"],
  "Every file operation x every container x every pattern of short reads (down to 1 byte), short writes and EINTR over its system calls.",
  "Tests read and write small local files whose transfers are always complete and never interrupted; the partial-transfer branches never execute.",
  ALL_IO,
  [("read_exact / write_all / read_to_end instead of bare read/write","all per-format modules"),("fixed-size integer readers","src/util.rs"),("content sniffing from a prefix of the file","src/filetype.rs")],
  None, ["return value","file content"])

p("C03", "A failed or crashed operation never leaves a mangled image",
  "An operation that fails because its input cannot be read, because the stored image is malformed, or because the metadata cannot be represented in that container leaves the file - or the caller's byte buffer - byte-for-byte as it was. Replacing a file's content starts only after the complete new content is known, so a process crash or failing call at any point leaves the file with each byte either the original one or the one of the complete result at that position, never with content from an intermediate editing step, and leaves no additional files and no other file changed. Once an operation was acknowledged, a process crash cannot take its result away.",
  ["crash_points","fault_sequences","inputs"],
  "Every mutating operation, in file and in-memory form, x every container x crash after each system call (including in the middle of a write) x every failing read x damaged inputs and metadata too large for the container.",
  "A unit test cannot stop the process between two system calls, and none checks what is left of the image when an operation returns an error.",
  ["src/metadata/metadata_io.rs","src/jpg.rs","src/png/mod.rs","src/jxl.rs","src/tiff/file.rs","src/tiff/vec.rs","src/webp/file.rs","src/webp/vec.rs","src/heif/mod.rs","src/heif/container.rs"],
  [("read everything, compute new content in memory, write back once","file_write_metadata / file_clear_metadata of each format"),("size checks before emitting a segment","src/jpg.rs"),("parse before modify","src/png/mod.rs, src/heif/container.rs")],
  [("file content","old image until the final rewrite","path"),("caller's buffer","old image when Err is returned","&mut Vec<u8> of write_to_vec / clear_metadata")],
  ["file content at every crash point","buffer content after Err"])

p("C04", "Reading is free of side effects and needs nothing but read permission",
  "Reading metadata - from a file or from memory - never changes, creates, truncates, renames or locks anything and touches no path other than the given one. It succeeds on read-only files and media exactly as on writable ones, and whatever way it ends, successfully, with an error or on damaged content, no file descriptor stays open. Likewise the write and clear operations touch only the path they were given and leave no descriptor open.",
  ["inputs","fault_sequences"],
  "Every read operation x every container (with and without metadata, well-formed, damaged) x writable / read-only file / read-only medium x any failing system call along the way.",
  "Tests read writable files in a private directory and look only at the returned tags; they never check open modes, descriptors, or behaviour on read-only media.",
  ["src/general_file_io.rs","src/metadata/metadata_io.rs","src/jpg.rs","src/png/mod.rs","src/jxl.rs","src/tiff/file.rs","src/webp/file.rs","src/heif/mod.rs","src/filetype.rs"],
  [("open for reading only","open_read_file in src/general_file_io.rs"),("per-format file_read_metadata","src/*/")],
  None, ["open flags and mutating calls seen by the simulated file system","descriptor table after the operation"])

p("C05", "Metadata written is the metadata read back, in every container",
  "After any history of setting and removing tags, writing to images, clearing, copying metadata from one image to another and restarting in between, reading an image yields exactly the tags - same directory, same tag number, same value, same byte order - that the last successful write to it stored, excluding only the offset and pointer fields the library regenerates itself (for text, trailing NULs are not part of the value, and text that is not UTF-8 may be re-encoded; for an integer tag, its value counts and not its 16- or 32-bit width). This holds for every supported container, both byte orders, every writable tag and value type, multiple image directories, thumbnails and unknown tags, and an operation on a well-formed image succeeds unless the container has no room for that metadata. What is stored on the medium is a well-formed EXIF structure that a separate, standard-following decoder reads with the same result.",
  ["histories","inputs","crash_points","fault_sequences"],
  "All histories of set / remove / write / read / clear / transfer / restart operations over all containers, values and byte orders, also with benign transfer faults underneath.",
  "Tests write a handful of tags once to a handful of sample images and read them back with the same code; combinations of histories, containers, value shapes and byte orders are unbounded, and reading with the same code hides symmetric errors.",
  ["src/metadata/mod.rs","src/metadata/get.rs","src/metadata/set.rs","src/metadata/edit.rs","src/metadata/metadata_io.rs","src/ifd/mod.rs","src/ifd/get.rs","src/ifd/set.rs","src/exif_tag/mod.rs","src/exif_tag/decode.rs","src/u8conversion.rs","src/endian.rs","src/jpg.rs","src/png/mod.rs","src/jxl.rs","src/tiff/mod.rs","src/webp/file.rs","src/webp/vec.rs","src/heif/container.rs"],
  [("IFD encoder","ImageFileDirectory::encode_ifd in src/ifd/mod.rs"),("IFD decoder","ImageFileDirectory::decode_ifd in src/ifd/mod.rs"),("tag map keyed by directory and tag number","src/ifd/set.rs, src/metadata/set.rs"),("container embedding/extraction","per-format modules")],
  [("metadata of an image","set of (directory, tag, value) plus byte order","the EXIF payload inside the container")],
  ["new_from_path/new_from_vec after restart","EXIF payload located and decoded by the independent decoder"])

p("C06", "Image content survives every metadata operation",
  "No history of metadata writes and clears, successful or failed, changes the picture: compressed image data, dimensions, colour profiles, animation frames, comments, XMP (except EXIF properties duplicated in it) and every other part of the image that is not EXIF data stay byte-for-byte the same and in the same relative order. Container bookkeeping (sizes, offsets, flags, checksums) changes only as far as needed to describe the same picture, so that every stored reference still leads to the same picture bytes.",
  ["histories","inputs","fault_sequences"],
  "Every history of write/clear operations over every container layout (segment orders, several chunks, padding, restart markers, simple and extended layouts, item tables with several extents and reference kinds, large fields, trailing data).",
  "Tests compare only metadata, on a handful of sample files; whether the picture bytes still match is not checked anywhere, for any input.",
  ["src/jpg.rs","src/png/mod.rs","src/png/chunk.rs","src/jxl.rs","src/tiff/mod.rs","src/webp/mod.rs","src/webp/vec.rs","src/webp/file.rs","src/heif/container.rs","src/heif/boxes/item_location.rs","src/xmp.rs"],
  [("segment-wise splice","src/jpg.rs"),("chunk-wise splice","src/png/mod.rs, src/webp/*"),("box-wise splice and item offset adjustment","src/heif/container.rs, src/heif/boxes/item_location.rs"),("strip data carried as tag payload","src/ifd/mod.rs, src/exif_tag/mod.rs"),("EXIF-only filtering of XMP","src/xmp.rs")],
  None, ["file content parsed by the independent container parsers"])

p("C07", "Every file produced is a valid container that other readers accept",
  "After any successful write or clear, in memory or on file, at any point of any history, the result is a well-formed instance of its container: every length, checksum, padding byte, flag, offset and item table entry is correct, mandatory parts are present and in their mandatory order, and nothing but parts of the image follows the end. An independent reader following the container's standard finds the picture and exactly the metadata that was written.",
  ["histories","inputs"],
  "All histories of writes and clears over all container layouts and all metadata sizes, including odd sizes needing padding and sizes around field limits.",
  "Tests read results back with the same code that wrote them, so an invalid checksum, length, flag or a wrong place is invisible when reader and writer agree.",
  ["src/jpg.rs","src/png/mod.rs","src/png/chunk.rs","src/png/text.rs","src/jxl.rs","src/tiff/mod.rs","src/webp/mod.rs","src/webp/riff_chunk.rs","src/webp/vec.rs","src/webp/file.rs","src/heif/container.rs","src/heif/box_header.rs","src/heif/boxes/meta.rs","src/heif/boxes/iso.rs","src/heif/boxes/item_info.rs","src/heif/boxes/item_location.rs","src/heif/boxes/item_reference.rs"],
  [("APP1 construction","src/jpg.rs"),("chunk construction with CRC","src/png/mod.rs"),("RIFF size, padding, VP8X flags","src/webp/*"),("box sizes and item tables","src/heif/**")],
  None, ["file content parsed by the independent container parsers"])

p("C08", "Clearing removes all EXIF data and nothing else, and is idempotent",
  "After a successful clear no EXIF payload is left anywhere in the image, however many there were and wherever they sat, and reading reports no tags except those a TIFF or HEIF image needs for rendering itself; clearing an image without EXIF data succeeds or fails cleanly but changes no picture or other metadata. Clearing twice equals clearing once, and writing then clearing returns the image to what clearing alone produces. Clearing a single kind of application segment (APP12, APP13) of a JPEG removes exactly all segments of that kind before the picture data and touches nothing else.",
  ["histories","inputs","fault_sequences"],
  "All container layouts with zero, one or several EXIF carriers (native carrier, textual legacy carrier, compressed carrier, EXIF inside XMP) in any position x histories of write/clear.",
  "Tests clear single sample images with one carrier in the usual place; duplicates, adjacency, unusual order and idempotence over histories are not sampled.",
  ["src/metadata/metadata_io.rs","src/jpg.rs","src/png/mod.rs","src/jxl.rs","src/tiff/mod.rs","src/webp/vec.rs","src/webp/file.rs","src/heif/container.rs","src/xmp.rs"],
  [("removal loops","clear_metadata / clear_segment of each format"),("property-by-property XMP filter","src/xmp.rs")],
  None, ["file content parsed by the independent container parsers","result of reading after clearing"])

p("C09", "The file and the in-memory interface give the same answers",
  "For every image and every metadata, operating on a file and operating on the same bytes in memory agree: both succeed or both fail, a read returns the same metadata, and a write or clear leaves the same bytes. This stays so when operations through both interfaces are mixed in one history.",
  ["histories","inputs","fault_sequences"],
  "Every operation x every container and layout, well-formed or damaged, in mixed histories, with benign transfer faults on the file side.",
  "File and in-memory variants are partly separate code, and tests exercise each on its own samples; no test compares them.",
  ["src/metadata/metadata_io.rs","src/jpg.rs","src/png/mod.rs","src/jxl.rs","src/tiff/file.rs","src/tiff/vec.rs","src/webp/file.rs","src/webp/vec.rs","src/heif/mod.rs"],
  [("parallel implementations per format","file.rs / vec.rs pairs, file_* / as-vec functions")],
  None, ["return values and resulting bytes of both interfaces"])

p("C10", "Damaged or truncated storage is survived",
  "Whatever happened to a stored image - bits flipped, sectors zeroed, overwritten or duplicated, ranges lost or inserted, file truncated or extended at any point, or changed by someone else between two reads of it - reading, writing and clearing return in bounded time with a result or an error. They never crash the process or panic, never loop or recurse without bound, and use memory bounded by a multiple of the file's size plus a fixed allowance. An operation that reports an error on such an image has not changed it.",
  ["fault_sequences","inputs"],
  "Every operation x every container x arbitrary storage damage at arbitrary positions, in file and in-memory form.",
  "The regression tests hold a few dozen crashing inputs found in the past; the space of damaged inputs is unbounded and each container parser has its own length and offset arithmetic.",
  ["src/filetype.rs","src/util.rs","src/u8conversion.rs","src/ifd/mod.rs","src/exif_tag/decode.rs","src/jpg.rs","src/png/mod.rs","src/png/read.rs","src/png/text.rs","src/jxl.rs","src/tiff/mod.rs","src/webp/mod.rs","src/webp/riff_chunk.rs","src/webp/vec.rs","src/webp/file.rs","src/heif/container.rs","src/heif/box_header.rs","src/heif/boxes/item_location.rs","src/heif/boxes/item_info.rs","src/heif/boxes/item_reference.rs","src/heif/boxes/iso.rs","src/heif/boxes/meta.rs","src/xmp.rs"],
  [("checked length arithmetic and io::Error instead of indexing","all parsers"),("bounded reads","src/util.rs, src/png/read.rs")],
  None, ["process exit, watchdog, allocation high-water mark, return value, file content"])

p("C11", "Concurrent callers do not disturb each other and no state is kept between calls",
  "Operations on different files, buffers and metadata objects running at the same time in several threads behave as if each ran alone, whatever the interleaving of their system calls, and several readers of one file all get its metadata. The outcome of an operation depends only on its arguments and the stored file - not on operations performed, failed or interrupted before, in this thread or another.",
  ["schedules","histories","fault_sequences"],
  "All interleavings of the system calls of 2-4 concurrent operations over distinct files (and readers sharing one file), with faults hitting some of them; all orders of preceding operations.",
  "No test runs two operations concurrently, and hidden shared state (a static buffer, a shared temporary path) only shows under particular interleavings or after particular failures.",
  ["src/metadata/metadata_io.rs","src/general_file_io.rs","src/jpg.rs","src/png/mod.rs","src/jxl.rs","src/tiff/file.rs","src/webp/file.rs","src/heif/mod.rs","src/ifd/mod.rs"],
  [("no global or thread-local state; every operation owns its buffers and handles","whole crate")],
  None, ["per-thread results compared with a solo run","file contents after all threads ended"])

p("C12", "Rewriting metadata replaces it and never accumulates",
  "After any number of metadata writes to an image, in any order with clears in between, exactly one EXIF payload is present - the one of the last write - and the file holds nothing of the earlier ones. Writing the same metadata again changes nothing, and the resulting file depends only on the original picture and the metadata last written, not on how often or with what it was rewritten before.",
  ["histories","inputs","fault_sequences"],
  "All histories of writes with metadata of growing and shrinking size, and clears, over all containers, starting from images with zero, one or several EXIF payloads.",
  "Tests write once or twice per image; left-over payloads, stale tails and slow growth only show over histories with shrinking metadata.",
  ["src/jpg.rs","src/png/mod.rs","src/jxl.rs","src/tiff/file.rs","src/tiff/vec.rs","src/tiff/mod.rs","src/webp/vec.rs","src/webp/file.rs","src/heif/container.rs","src/heif/boxes/item_location.rs"],
  [("clear before write","write_metadata of jpg, png, jxl, webp"),("in-place replacement of the EXIF item","src/heif/container.rs"),("truncation after in-place rewrite","file_write_metadata of each format")],
  None, ["file content parsed by the independent container parsers","file size over a history"])

p("C13", "Editing metadata of existing images preserves everything not edited",
  "Reading an image whose metadata was produced by other software, changing one tag and writing it back preserves every other tag - including unknown and maker tags, tags in further image directories, GPS and interoperability directories, and the embedded thumbnail - with directory, number and value unchanged, and keeps the byte order. Removing a tag removes exactly that tag, and asking for tags in between changes nothing.",
  ["histories","inputs"],
  "All well-formed EXIF structures (any entry layout, inline or external values, gaps, unsorted value areas, both byte orders, several directories, single and multi-strip thumbnails) x all edit histories with restarts, in all containers.",
  "Tests edit a few sample files from few producers; layouts made by other software vary without bound.",
  ["src/ifd/mod.rs","src/ifd/set.rs","src/ifd/get.rs","src/exif_tag/mod.rs","src/exif_tag/decode.rs","src/metadata/mod.rs","src/metadata/edit.rs","src/metadata/set.rs","src/metadata/get.rs","src/u8conversion.rs"],
  [("IFD decoder/encoder pair","src/ifd/mod.rs"),("format coercions","src/exif_tag/decode.rs"),("tag replace by number","src/ifd/set.rs")],
  None, ["EXIF payload before and after decoded by the independent decoder"])

p("C14", "Conversions between rational and floating-point numbers are accurate",
  "Converting a finite floating-point number that a rational tag value can hold to such a value and back yields it up to the precision of a 32-bit numerator and denominator; converting a rational with a non-zero denominator to floating point yields numerator divided by denominator.",
  ["inputs"],
  "All finite floating-point numbers and all numerator/denominator pairs.",
  "Tests sample a few constants.",
  ["src/rational.rs"], [("continued-fraction approximation","src/rational.rs")], None, ["return value"])

p("C15", "An operation works on an image only as what it is",
  "Reading a file goes by its content when the content is recognisable as a supported image type, whatever (supported or missing) name extension it has, by the extension - in any letter case - when it is not, and fails with an error for an extension that is not supported. Writing metadata to a file, clearing it and clearing an application segment take the type from the name extension in any letter case; a file whose content is of another type, and a file with a missing or unsupported extension, is refused with an error and left unchanged byte for byte. In memory the type given by the caller decides in the same way: a buffer holding another type is refused and unchanged. No operation ever turns an image of one type into something else, at any point of any history and under any disturbance.",
  ["inputs","histories","fault_sequences"],
  "All file names (extensions in any letter case, missing, unsupported, near misses, dots in stems and directories, non-ASCII) x all content types, including empty, damaged and unrecognisable ones, x all operations, in histories with short transfers and failing calls.",
  "Tests use files whose extension and content agree; pairs of name and content that do not are unbounded, and what a refused operation leaves behind is never looked at.",
  ["src/filetype.rs","src/metadata/metadata_io.rs","src/jpg.rs","src/png/mod.rs","src/jxl.rs","src/tiff/mod.rs","src/tiff/file.rs","src/tiff/vec.rs","src/webp/mod.rs","src/heif/container.rs"],
  [("extension table","src/filetype.rs"),("content sniffing","src/filetype.rs"),("signature checks","check_signature of each format")], None, ["return value","file content after the operation"])

p("C16", "Metadata objects are maps of tags, independent of each other and of files",
  "After any history of operations a metadata object holds, per directory, one value per tag number: the one set or read last. Setting a tag adds or replaces exactly that tag, in its own directory; removing a tag removes exactly that tag number from the directories of its group and reports truthfully how many directories it looked into; creating a directory adds an empty one only when there is none; reducing to a minimum keeps exactly the tags documented as needed for rendering. Every way of asking - by tag, by number with or without group, by directory, by iteration - reports exactly what is held, asking changes nothing, and after setting a tag the tags of its directory are in ascending order. The value bytes of a tag in the two byte orders describe the same value, and its type, component count and size agree. Copies are independent, and no operation on another object, and no read, write or clear of a file, successful or failed, changes an object except the object a successful read returns.",
  ["histories","inputs","fault_sequences"],
  "All histories of new / set / replace / remove / create directory / reduce / copy / read / write / clear over several objects, with file operations failing or disturbed in between.",
  "Tests set and get a few tags on fresh objects; multi-directory objects, objects read from files, replacement by tags of other types, and interleavings with failing file operations are not sampled.",
  ["src/metadata/mod.rs","src/metadata/get.rs","src/metadata/set.rs","src/metadata/edit.rs","src/metadata/iterator.rs","src/ifd/mod.rs","src/ifd/get.rs","src/ifd/set.rs","src/exif_tag/mod.rs","src/exif_tag_format.rs","src/u8conversion.rs"],
  [("tag map keyed by directory and tag number","src/ifd/set.rs, src/metadata/set.rs"),("removal","src/metadata/edit.rs"),("iterators","src/metadata/iterator.rs, src/metadata/get.rs")],
  [("metadata object","directories of tags plus byte order","Metadata")], ["get_* and iteration of every object after each step"])

p("C17", "Metadata encoded for a container is what that container needs",
  "At any point of any history, encoding a metadata object alone, or for JPEG, PNG, WebP and HEIF, yields bytes that can be put into such an image as they stand: a complete APP1 segment with its length, a raw profile or compressed text chunk content, an EXIF chunk with size and padding, an EXIF item payload. A separate, standard-following decoder finds in them exactly the tags the object holds, the library reads the assembled image with that same result, encoding changes nothing and encoding again yields the same bytes, and metadata that does not fit the container is refused with an error.",
  ["histories","inputs"],
  "All metadata objects reachable by histories of set / remove / read / copy over all containers, values, sizes and byte orders.",
  "No test puts the encoded bytes into an image or decodes them independently.",
  ["src/metadata/metadata_io.rs","src/metadata/mod.rs","src/ifd/mod.rs","src/jpg.rs","src/png/mod.rs","src/webp/mod.rs","src/heif/mod.rs"],
  [("IFD encoder","src/ifd/mod.rs"),("per-container wrapping","as_u8_vec of jpg, png, webp, heif")],
  None, ["bytes returned by encode and as_u8_vec"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
