import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=[observe])))
A="atrcopy/ataridos.py";D="atrcopy/dos33.py";DI="atrcopy/diskimages.py";U="atrcopy/utils.py";S="atrcopy/segments.py";I="atrcopy/__init__.py"
p("P01","Atari DOS files read back exactly after any history of writes and deletes",
"After any sequence of writing and deleting files on an Atari DOS disk image (single, enhanced or double density, with or without an ATR header), the listing shows exactly the files written and not deleted since, each under its stored 8.3 name, and reading a file returns exactly the bytes last written, including empty files. This stays true after the image is saved and opened again, and files that were on the disk before keep their contents and lock state.",
["inputs","histories"],"every starting disk, every sequence of writes, deletes and reopenings, every file size and content",
"the unit tests add and delete a handful of fixed files on fixed disks; wrong links at particular sector counts, slots, fragmentation patterns or densities need other histories",
[DI,A,U],[("write_file / delete_file","DiskImageBase in diskimages.py"),("sector links and file numbers","AtariDosWriteableSector, AtariDosDirent"),("slot choice and directory encoding","Directory in utils.py")],"image.files, find_file(), save() and find_diskimage()")
p("P02","DOS 3.3 files read back exactly after any history of writes and deletes",
"After any sequence of writing and deleting files on an Apple DOS 3.3 disk image, the catalog shows exactly the files written and not deleted since, under their names of up to 30 characters and with the file type requested, and reading a file returns the bytes last written padded with zeros to a whole number of 256 byte sectors. This stays true after saving and opening the image again, and files already there keep contents, type and lock state.",
["inputs","histories"],"every starting disk, every sequence of writes, deletes and reopenings, every file size up to the disk, every type",
"tests use a few small files; track/sector lists beyond 122 sectors, full catalogs, reused slots and fragmented allocation need generated histories",
[DI,D,U],[("track/sector lists","Dos33TSSector, Dos33Dirent.add_metadata_sectors"),("catalog encoding","Dos33Directory, Dos33Dirent.encode_dirent")],"image.files, find_file(), save() and find_diskimage()")
p("P03","Atari DOS disks stay well formed for an Atari after any history",
"After any sequence of writes and deletes, an independent reader following the Atari DOS 2 on-disk format finds every file complete: each sector chain is loop free, carries its directory slot number, ends after exactly the number of sectors in the directory entry, and its bytes are the file. No sector belongs to two files or to the system area, the sector bitmap marks exactly the sectors of live files and the originally reserved ones as used, and the free sector count agrees with the bitmap.",
["inputs","histories"],"every starting disk (own templates, foreign disks, all densities), every sequence of writes and deletes",
"tests only read back with the same code that wrote the disk, so a disk that only this program can read passes them",
[A,U,DI],[("VTOC bitmap and count","AtariDosVTOC.calc_bitmap"),("directory sectors","AtariDosDirectory"),("sector links","AtariDosWriteableSector.next_sector_num")],"raw bytes of the image after each operation")
p("P04","DOS 3.3 disks stay well formed for an Apple after any history",
"After any sequence of writes and deletes, an independent reader following the Apple DOS 3.3 on-disk format finds every file complete through its chain of track/sector lists, with the sector count of the catalog entry equal to the sectors it owns. No sector belongs to two files or to the system area, the free map marks exactly the sectors of live files and the originally reserved ones as used, and the catalog chain is intact.",
["inputs","histories"],"every starting disk, every sequence of writes and deletes, files needing one or several track/sector lists",
"tests only read back with the same code that wrote the disk",
[D,U,DI],[("bitmap order","Dos33VTOC"),("T/S list","Dos33TSSector"),("catalog links","Dos33Directory.set_sector_numbers")],"raw bytes of the image after each operation")
p("P05","An operation changes only the bytes of its own file and its bookkeeping",
"Writing or deleting a file changes only the sectors of that file, its own directory entry, its bits of the free sector map and the free sector count. Every other byte of the image (other files, other directory entries, boot sectors, unused sectors, header) stays as it was, whatever is stored there.",
["inputs","histories"],"every disk content including unusual attribute bytes in other entries, every operation in every history",
"tests compare the file just written, not the rest of the disk; damage to a neighbouring entry or a boot sector goes unnoticed",
[DI,U,A,D],[("directory re-encoding","Directory.calc_sectors, encode_dirent"),("VTOC rewriting","calc_bitmap")],"byte difference of the image around each operation")
p("P06","A failed write or delete leaves the disk image untouched",
"When writing or deleting a file fails for any reason (disk full, directory full, missing file, name or data that cannot be stored, damaged directory or chain), an error is raised and the image in memory is byte for byte what it was before, so all existing files still list and read as before and later operations still work.",
["inputs","histories","fault_sequences"],"every history, every failing operation at every stage of the write",
"tests check only that the exception is raised in two situations, not the state left behind at each failure point",
[DI,U,D],[("transaction","begin_transaction / rollback_transaction in diskimages.py"),("allocation","VTOC.reserve_space, Dos33Dirent.add_metadata_sectors")],"image bytes before and after the failing call, listing, contents")
p("P07","Space accounting is exact: a write succeeds if and only if it fits",
"A file is accepted exactly when the free sectors suffice for its data (and, on DOS 3.3, its track/sector lists) and a directory entry is available; otherwise it is refused with the error for a full disk or a full directory. Deleting a file gives back exactly its sectors and its directory entry, so any history can be undone and repeated without losing space, and the reported number of free sectors is always right.",
["inputs","histories"],"every history, with sizes and file counts around the exact limits of each disk type",
"the limits (64 and 105 files, last free sector, one list sector short) are reached by single tests at most, never after fragmentation or deletion",
[U,DI,A,D],[("allocation","VTOC.reserve_space, get_next_free_sector"),("directory slots","Directory.get_free_dirent"),("catalog end","Dos33DiskImage.get_directory_sector_links")],"acceptance or error type, free counts")
p("P08","Clearing empty sectors changes only free sectors",
"Clearing the empty sectors of a disk fills every byte of every sector that the disk's free map marks as free with the fill value and changes no other byte, so every file and all system data stay readable, after any history.",
["inputs","histories"],"every disk after every history, every fill value",
"no test compares the whole image around a shred on a disk with deleted and fragmented files",
[DI,U,A,D],[("shred","DiskImageBase.shred"),("free sector iteration","VTOC.iter_free_sectors"),("geometry","AtrHeader.get_pos")],"image bytes before and after")
p("P09","Command line: histories of add, delete, list, crc, extract agree with a model",
"Any sequence of command line invocations that create a disk from a template (named in full, as documented without extension, or by a part that no other template has), add files, delete files, list, show checksums and extract behaves as on a simple map from stored names to contents: every successful change is in the saved image file, an added file is replaced only with the force option, locked files are deleted only with the force option, listings and CRC-32 values match the model, and extraction reproduces the bytes (with line ends converted in text mode).",
["inputs","histories"],"every sequence of command lines over generated disks and host files, including several files per command and files that are refused",
"tests do not run the command line on histories; several files in one command, mixed outcomes and options multiply beyond examples",
[I,"atrcopy/dummy.py"],[("add_files / save_file / remove_files / extract_files / list_files / crc_files / create_image","atrcopy/__init__.py")],"exit, printed output, image file and host files after each command")
p("P10","Command line never writes what it was not asked to write",
"With the dry run option no command creates, changes or removes any file or folder; commands that only report (list, crc, segments, vtoc) never change the disk image; existing host files and disk images are replaced only with the force option. Extraction writes only inside the current or the requested folder, whatever names are stored on the disk image, and a command that fails leaves the disk image file unchanged.",
["inputs","histories"],"every command with every option combination on every generated disk, including hostile file names",
"tests run no command against a scratch folder and compare the folder before and after",
[I],[("dry run and force handling","extract_files, save_file, remove_files, boot_image, create_image, shred_image in atrcopy/__init__.py")],"complete scratch folder before and after each command")
p("P11","Atari executables: building then parsing gives back segments and run address",
"Building an Atari executable from any list of segments and parsing the result gives back the same segments in the same order with the same load addresses and bytes, and a run address that is the one requested, the one already present among the segments, or else the start of the first segment. A requested run address outside all segments is refused, and the input segments with their styles and comments are carried over unchanged.",
["inputs"],"every list of segments (any addresses, sizes, overlaps, styles, comments) and every run address",
"tests build two or three fixed segment lists",
["atrcopy/executables.py",A],[("builder","get_xex"),("parser","AtariDosFile.parse_segments")],"bytes of the built file, parsed segments")
p("P12","Parsing Atari executables yields exactly the load blocks in the file",
"For every well formed Atari executable (blocks with start and end address, optional repeated FFFF markers, in any number and order) the parser yields one segment per block with its load address and bytes, and the run address is the word loaded at the run vector; writing through a segment changes the same bytes of the file and nothing else. A truncated file yields all complete blocks, and a file without the marker or with an end before its start is refused.",
["inputs"],"every sequence of blocks, marker placement and truncation point",
"tests parse a few sample files",
[A,S],[("parser","AtariDosFile.parse_segments"),("run address","RunAddressSegment")],"parsed segments, bytes of the file after writing through a segment")
p("P13","Apple binaries: every segment at its address, entered at the run address",
"Building an Apple binary from any list of segments gives a file whose header holds the load address and exact length, in which every segment's bytes are at their addresses (later segments win where they overlap) and gaps are zero; execution from the first byte reaches the requested run address, by a jump placed directly before the data when it is not the first byte. A run address outside all segments is refused and parsing the file gives back the block.",
["inputs"],"every list of segments, every run address",
"tests use fixed segments only",
["atrcopy/executables.py",D],[("builder","get_bsave"),("parser","Dos33BinFile.parse_segments")],"bytes of the built file, parsed segment")
p("P14","Atari boot disks hold the executable, and booting them loads and runs it",
"A boot disk built from any list of segments outside the memory of the boot loader itself is a valid ATR image that is recognised as a boot loader disk, whose embedded executable reads back exactly as built with the requested run address. Executing its boot code on a 6502 loads every segment at its address and ends with a jump to the run address; an executable the loader cannot hold is refused.",
["inputs"],"every list of segments and run address, every size including exact sector multiples",
"one test builds one disk and never executes the loader",
["atrcopy/kboot.py","atrcopy/executables.py"],[("disk builder","KBootImage.create_boot_image, add_xexboot_header"),("reader","KBootDirent, KBootImage.get_file_segment")],"image bytes, recognised type, simulated memory at the final jump")
p("P15","Apple boot disks load every segment and start at the run address",
"Executing the boot code of an Apple boot disk built from any list of segments that fits loads every segment at its address, later segments winning where they overlap, and ends with a jump to the run address; the image is always 143360 bytes. Segments that do not fit on the disk or in the loader's command table are refused with an error instead of producing a disk that loads something else.",
["inputs"],"every list of segments (any page alignment, several segments in one page, screens, sizes up to the disk)",
"no test builds such a disk",
["atrcopy/standard_delivery.py","atrcopy/fstbt.py"],[("disk builder","StandardDeliveryImage.create_boot_image, get_fstbt_code")],"image bytes, simulated memory at the final jump")
p("P16","Compressed images are transparent",
"Opening an image compressed with gzip, bzip2 or xz gives the same type, listing, contents and segments as opening the uncompressed image, whatever the compression settings or number of concatenated members. Damaged or truncated compressed data never raises anything but the library's own errors, and recognised but unsupported archives are reported as unsupported.",
["inputs","fault_sequences"],"every image and compressor setting, every truncation or corruption",
"tests open three sample images per compressor and never damage them",
["atrcopy/container.py","atrcopy/dcm.py","atrcopy/parsers.py"],[("containers","GZipContainer, BZipContainer, LZMAContainer, DCMContainer"),("guessing","guess_container")],"parser type, files, contents, exceptions")
p("P17","Any bytes are either parsed or refused with a library error, and never altered",
"Opening any byte string either yields a parsed image or raises one of the library's own errors, always terminates, and leaves the input bytes unchanged. Listing, describing the segments of and reading every file of an image that was accepted likewise returns or raises one of the library's own errors, however damaged its directory, chains or headers are.",
["inputs","fault_sequences"],"every byte string: random data, and mutated or truncated images of every supported kind",
"no test opens damaged images; loops and index errors need hostile links",
["atrcopy/parsers.py",A,D,"atrcopy/spartados.py","atrcopy/kboot.py","atrcopy/cartridge.py","atrcopy/mame.py"],[("parser selection","find_diskimage_from_data, guess_parser_for_mime"),("chain following","get_file_segment, get_track_sector_list, get_sector_map")],"result or exception type, input array, termination")
p("P18","Sector geometry tiles the disk and headers round trip",
"For every supported disk size the sectors, in order, cover the image exactly once with no gap and no overlap after the header, with short boot sectors where the format has them, and a sector number outside the disk is refused. Reading a header and encoding it again gives the same 16 bytes, and adding a header to plain disk data gives an image with the same sectors. The address label of a byte of the disk names the sector (or track and sector) it is in and its offset there.",
["inputs"],"every header, density, sector number and range of sectors",
"tests touch a few sector numbers of three sizes",
[A,DI,D],[("geometry","AtrHeader.get_pos, BaseHeader.get_pos, get_sector_slice"),("header","AtrHeader.encode, add_atr_header")],"positions and sizes, header bytes")
p("P19","Segment views address exactly the bytes they select",
"Any chain of contiguous slices and index selections of a segment reads, and when written changes, exactly the selected bytes of the underlying data and their styles, and the translations between positions in the view and in the underlying data are inverse to each other. Copies are independent of the original, interleaving orders bytes as requested, and enlarging the underlying data keeps all views. Saving a segment writes exactly its bytes, after the address and length where the format has them.",
["inputs","histories"],"every chain of views over every data, every sequence of writes through different views",
"tests use two or three fixed views",
[S],[("views","SegmentData, OrderWrapper"),("interleaving","interleave_segments"),("resize","SegmentData.resize, replace_arrays")],"bytes and styles seen through each view and in the base")
p("P20","Styles, comments and user data behave as per-byte attributes of the data",
"Any sequence of setting and clearing style ranges, rectangles, comments and user data through any view behaves as an attribute attached to each underlying byte: queries for ranges, positions and comments return exactly the marked bytes as seen from the view, bytes outside the given ranges keep their attributes, and saved and restored comment states return to what they were. Range lists cover exactly the marked bytes, and a complete style listing tiles the whole view.",
["inputs","histories"],"every sequence of attribute operations through direct and indexed views",
"tests use a few fixed ranges",
[S],[("styles","set_style_ranges, get_style_ranges, get_entire_style_ranges, find_next, find_previous"),("comments","set_comment, clear_comment, get_comment_restore_data")],"query results against a per-byte model")
p("P21","Saved sessions restore every segment and attribute",
"Serializing the segments and session data of any image and restoring them on the same bytes gives segments with the same bytes, addresses, names and other attributes, the same mapping to the underlying data, the same comments, and the same comment, data and user styles. Data written through restored segments reaches the same underlying bytes.",
["inputs"],"every image kind, every view, every set of attributes",
"tests serialize a few hand made segments",
[S,"atrcopy/parsers.py"],[("state","DefaultSegment.__getstate__, __setstate__, reconstruct_raw"),("session","serialize_session, restore_session"),("parser state","SegmentParser.__getstate__, reconstruct_segments")],"restored segments compared with the originals")
p("P22","Cartridge images are identified by header and split into their banks",
"A cartridge image with a valid header is identified as the cartridge type and machine of its header when its size matches, and refused as that type otherwise; its segments are the header, the main bank and the switched banks at their load addresses, together covering the ROM exactly once. Building an emulator image adds a header with the type and the checksum (the sum of the ROM bytes) to headerless data and leaves the ROM bytes unchanged.",
["inputs"],"every known cartridge type, every content, every size mismatch",
"tests cover a few types with constant contents",
["atrcopy/cartridge.py","atrcopy/parsers.py"],[("table and header","known_cart_types, A8CartHeader"),("segments","get_main_segment, get_banked_segments")],"identified type, segments")
p("P23","MAME ROM archives present every ROM",
"A zip archive whose members all have sizes that are multiples of 16 is opened with one segment per member, in archive order, named after it and holding exactly its bytes. Archives with other members, damaged archives and archives without data are refused with a library error.",
["inputs","fault_sequences"],"every archive: names, sizes, compression methods, damage",
"no test opens an archive",
["atrcopy/mame.py"],[("zip reader","MameZipImage")],"segments, exceptions")
p("P24","SpartaDOS disks list and read as stored",
"For every SpartaDOS disk the listing shows the name, length, date, lock state and folder marker of every entry of the root directory, the disk is reported with its number of sectors, of free sectors and of files, and reading a file returns exactly its stored bytes, whatever the number and order of its sectors and the number of its sector map sectors.",
["inputs"],"every SpartaDOS disk: sizes, fragmentation, sector sizes, sector map lengths",
"tests read five sample disks written by one program",
["atrcopy/spartados.py"],[("directory and sector map","SpartaDosDirent, SpartaDosDiskImage.get_sector_map, get_file_segment")],"image.files, find_file()")
p("P25","Disks written by other programs list and read as the machine would see them",
"For every well formed Atari DOS 2, MyDOS or DOS 3.3 disk, whoever wrote it, the listing shows every live file with its name, sector count, lock state and type and no deleted one, and reading a file returns its bytes in order, whatever the placement of its sectors, deleted entries between files, or attribute bits. Adding or deleting a file on such a disk leaves every other file, subdirectory entry and the free space bookkeeping right, including the second sector map of DOS 2.5 and the longer sector map of MyDOS disks.",
["inputs"],"every disk content the format allows",
"the sample disks have five files in order written by one program",
[A,D],[("directory readers","AtariDosDiskImage.get_directory, Dos33DiskImage.get_directory"),("chain readers","AtariDosDirent.process_raw_sector, MydosDirent, Dos33Dirent.read_sector")],"image.files, find_file()")
p("P26","Command line: assembling data into executables and boot disks",
"The assemble and boot commands put exactly the requested data (whole files or the given slices, and all segments of given executables) at the requested addresses into one executable with the requested run address, in the format asked for by the output name or else usual for the disk, stored under the output name on the disk image. Bad addresses, missing files or (for executables) run addresses outside the data are refused and change nothing.",
["inputs"],"every combination of data files, slices, object files, run address notation and output name",
"no test runs the commands",
[I,"atrcopy/executables.py"],[("assemble_segments / assemble / boot_image","atrcopy/__init__.py"),("create_executable_file_image","diskimages.py")],"file stored on the disk image, boot disk image")
p("P27","Images are recognised as what they are",
"An Atari DOS, SpartaDOS, boot loader or DOS 3.3 disk, an Atari executable, an Apple binary and a cartridge image with header are each recognised as that kind with the matching media type, whatever their contents and however they were modified through the library. Recognition does not depend on what was opened before, ProDOS disks are reported as unsupported, and data that is none of these is a ROM image if its size is a power of two and is otherwise reported as unsupported, and images in the signature tables get the media type listed there exactly when the whole signature matches.",
["inputs","histories"],"every well formed image of each kind, every order of opening",
"tests open each sample once",
["atrcopy/parsers.py","atrcopy/magic.py"],[("parse order","mime_parse_order, mime_parsers"),("guessing","guess_parser_for_mime, guess_parser_by_size, guess_detail_for_mime")],"parser type and media type")
p("P28","Command line: any arguments give a result or a message, however they are spelled",
"Every command line, on every kind of image (disks, executables, cartridges, compressed, damaged, missing or none), ends normally, with a usage message, or with an error of the library or the operating system; a failing command leaves the disk image as it was. Command aliases, the order of options, the place of the global options and verbosity change neither the outcome nor the files written, and asking for help anywhere in the command line shows help and does nothing else.",
["inputs"],"every list of arguments, every image",
"no test runs the command line",
[I,"atrcopy/dummy.py"],[("argument handling","run in atrcopy/__init__.py"),("images without files","Bootable, DiskImageBase in diskimages.py, LocalFilesystemImage in dummy.py")],"exit or exception, printed output, all files in the folder")
p("P29","The segments of a disk image are what their names say",
"For every disk image the list of segments shows, in order, the image header, all sectors, the boot sectors with the boot record's length and load address, the VTOC or bitmap sectors, the directory, and each file in directory order followed by the load blocks of files that are executables. Every segment holds exactly the bytes of what it is named for at the address the machine would load it to, the comments on VTOC and directory mark the fields they describe, and changing a byte of a segment changes that byte of the image and no other.",
["inputs"],"every disk of each format: boot records, VTOC sizes, catalogs, placement of files, executables on them",
"tests look at the first file segments of sample disks, never at boot, VTOC or directory segments",
[A,D,"atrcopy/spartados.py","atrcopy/kboot.py","atrcopy/diskimages.py"],[("segment lists","DiskImageBase.parse_segments; get_boot_segments, get_vtoc_segments, get_directory_segments, get_file_segments of each image class")],"parser.segments, the segments command")
p("P30","Saving a disk image is all or nothing",
"When a command that saves a disk image (add, delete, clearing empty sectors, assemble, create, boot) is stopped at any point while it writes, or a write fails (for instance because the host's disk is full), the image file afterwards holds either its complete old or its complete new contents, never a mixture, a part or nothing, and no other file is touched; a command that reports failure left the old contents, and one that reports success left the new. Access mode and symbolic links of an existing image stay as they are, and an image file the user may not write is refused.",
["inputs","histories","crash_points","fault_sequences"],"every history of commands, with a failure or kill after any number of bytes written and at any file operation",
"tests never fail a write",
["atrcopy/diskimages.py","atrcopy/__init__.py","atrcopy/utils.py"],[("save","DiskImageBase.save, create_image, replace_file in utils.py")],"image file and its folder after a faulted command")
with open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
