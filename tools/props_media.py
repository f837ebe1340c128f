prop("E01", "Imported media is stored bit for bit and described as what it is",
     "Importing a WAV file (plain or extensible, any channels, 16 or 24 bits, any rate, other chunks around the data), a DNxHD or DNxHR "
     "stream or raw frames stores exactly the samples or frames of the file - raw frames padded to the alignment - as the essence of the "
     "source mob, or nothing when offline. The descriptor has the rate, channels, sizes, bit depth, compression, frame size and length "
     "of the media, the slot the edit rate asked for in whatever form it is given, the length given or that of the media in that rate, and the tape clip "
     "when one is given; a master mob's new slot leads to the imported slot. Several imports in one file do not disturb each other, "
     "all of it survives saving and reopening, and exported audio is a WAV file of the same format and samples; a frame "
     "header gives the fields it holds; broken ones are refused.",
     ["inputs", "histories"],
     "every complete WAV file, every DNx stream of whole frames, every size and pixel layout of raw frames, every order of imports",
     "tests import a handful of generated clips of fixed rate and size; chunk order, boundaries of read blocks, odd sizes and rates are inputs",
     ["src/aaf2/mobs.py", "src/aaf2/audio.py", "src/aaf2/video.py", "src/aaf2/essence.py"],
     [("import_audio_essence", "src/aaf2/mobs.py:SourceMob.import_audio_essence"), ("import_dnxhd_essence", "src/aaf2/mobs.py:SourceMob.import_dnxhd_essence"),
      ("export_audio", "src/aaf2/mobs.py:SourceMob.export_audio"), ("dnx headers", "src/aaf2/video.py:read_dnx_frame_header")],
     "property-based testing on generated media files against independent writers and readers, with import-export round trips",
     "Streams end with a whole frame.", ["EssenceData stream", "descriptor properties", "exported wav"])
prop("X01", "Linking an MXF file brings in its packages as they are",
     "Linking an OPAtom MXF file adds one mob for each material and source package whose id the file does not have yet, with the "
     "package's id, name, times, usage, comments and attributes, a slot for each timeline track with its id, name, edit rate, origin and "
     "physical track, the same tree of segments - sequences, source clips, timecodes, fillers, pulldowns, scope references, essence "
     "groups, with data definitions, lengths and positions, negative ones included - and the descriptor with every property the MXF file "
     "gives and none it does not. The order of the sets, the form of lengths, alignment, fill, unknown sets and properties, essence and repeated "
     "metadata make no difference. Mobs present, and linking again, change nothing; other operational patterns are refused; the MXF file is only read.",
     ["inputs"],
     "every valid header metadata of the classes supported, in every layout of the file",
     "tests link two files made by one encoder; nested segments, most descriptors and optional properties never occur there",
     ["src/aaf2/mxf.py", "src/aaf2/content.py"],
     [("link", "src/aaf2/mxf.py:MXFFile.link"), ("packages", "src/aaf2/mxf.py:MXFPackage.link"), ("descriptors", "src/aaf2/mxf.py:MXFDescriptor")],
     "property-based testing on generated MXF files from an independent writer, against the tree they were written from",
     "Metadata has what AAF requires; usage codes are in AAF order, as Avid writes them.", ["ContentStorage.link_external_mxf"])
prop("A01", "A link to external media describes it and chains its three mobs",
     "Linking media from its description adds a master, a source and a tape mob named after the file, with one picture slot when there is "
     "picture and one sound slot for each channel of the first sound stream, in the rates and lengths of the streams; each clip leads to the "
     "same slot one mob down. The source's descriptor is that of the media: wave or AIFF with the file's own header, one picture or sound "
     "descriptor, or several in order with sizes, depth, subsampling, compression, rates and lengths of their streams, and its locator is "
     "the URL of the file, whatever characters its path has. Other links in the file stay as they are, the description is not changed, and all of it "
     "survives saving and reopening.",
     ["inputs"],
     "every list of streams, format, path and number of links",
     "tests link a few probed files with one or two streams; stream order, odd names and combinations are inputs",
     ["src/aaf2/ama.py", "src/aaf2/content.py"],
     [("create_media_link", "src/aaf2/ama.py:create_media_link"), ("descriptors", "src/aaf2/ama.py:FormatInfo"), ("headers", "src/aaf2/ama.py:get_wave_fmt")],
     "property-based testing on generated media descriptions and files against a model of the three mobs",
     "Paths are absolute.", ["ContentStorage.create_ama_link"])
