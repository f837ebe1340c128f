prop("D01", "Definitions, mobs, essence, classes and types are found by every name they have",
     "A definition registered in the dictionary is found by its AUID, by a uuid.UUID, by its name, by its name without the DataDef_ or "
     "ContainerDef_ prefix in any case, and by itself - and after a rename, a replacement, a removal or a reopening under exactly what then "
     "applies; unknown ids give None, unknown names raise, and what is no definition is not registered. The lists of mobs by kind and the "
     "top level list are exactly the mobs of that kind; a mob and its essence data find each other by mob id, following renames; the factory "
     "makes an object of exactly the class named, also when calls nest or a factory function is kept, and refuses abstract and unknown "
     "classes. Updating a dictionary from another adds what is missing, changes nothing that is there except to complete the parameters of "
     "shared operations, and leaves the other alone.",
     ["inputs", "histories"],
     "every order of registering, renaming, replacing, removing, updating and reopening; every name",
     "tests look up a few built-in names once; stale keys, wrong kinds and case rules show in histories",
     ["src/aaf2/dictionary.py", "src/aaf2/content.py", "src/aaf2/metadict.py", "src/aaf2/file.py", "src/aaf2/essence.py"],
     [("lookup_def", "src/aaf2/dictionary.py:lookup_def"), ("update", "src/aaf2/dictionary.py:Dictionary.update"), ("factory", "src/aaf2/file.py:AAFFactory")],
     "stateful property-based testing against a model of names and ids",
     "Names of one kind differ in more than case.", ["dictionary lookups", "ContentStorage lists"])
prop("Q01", "Positions in sequences, lengths, slot ids and clips agree with the components",
     "For every sequence, positions() gives each component's start (a transition overlapping both its neighbours), the length of the "
     "slot is where the last component ends, and index_at_time and component_at_time give the component whose interval holds that time - "
     "the transition while one plays, the first component before the start and the last beyond the end. The length of a slot with a nested scope "
     "is that of its longest part. Slots made by a mob get an id no other slot of it has; an id in use is refused; slot_at finds "
     "each slot by its id and no other; a clip made of a slot names that mob and slot and has its media kind and what is left of its length.",
     ["inputs", "histories"],
     "every sequence of components and lengths, zero included; every time; every history of slots",
     "tests build a few regular sequences; off by one errors show at boundaries, zero lengths, gaps in ids and around transitions",
     ["src/aaf2/components.py", "src/aaf2/mobs.py", "src/aaf2/mobslots.py"],
     [("index_at_time", "src/aaf2/components.py:Sequence.index_at_time"), ("slot ids", "src/aaf2/mobs.py:Mob.create_timeline_slot")],
     "property-based testing against a model of intervals and ids",
     "Transitions lie between segments and fit in them.", ["Sequence.positions", "Mob.slots"])
prop("Q02", "References between mobs resolve, and are followed and collected exactly",
     "The mob and slot of a clip are the mob with that id in the file and its slot with that id, or None when the mob is absent - at any "
     "moment of a history of adding, removing and renaming mobs. walk() gives the chain of clips a clip leads through, in order, "
     "to its end; dependant_mobs gives every mob reachable through clips in whatever containers, each once, never the mob itself, a mob "
     "after those it depends on where there is no circle, and always ends. walk_references gives every owned object below an object exactly "
     "once, with its streams, in new and reopened files alike.",
     ["histories", "inputs"],
     "every graph of mobs, circles, dangling ids and shared mobs included; every nesting of containers; every ownership tree",
     "tests walk one or two simple chains; circles, diamonds and references in rare containers are graph shapes no sample covers",
     ["src/aaf2/mobs.py", "src/aaf2/components.py", "src/aaf2/core.py"],
     [("dependant_mobs", "src/aaf2/mobs.py:Mob.dependant_mobs"), ("walk", "src/aaf2/components.py:SourceClip.walk"), ("walk_references", "src/aaf2/core.py:AAFObject.walk_references")],
     "stateful property-based testing against a graph model, and the ownership tree of an independent reader",
     "Chains walked are finite; beyond the first hop their sequences hold one component.", ["clip.mob", "dependant_mobs", "walk_references"])
prop("U01", "The comments of a mob are an ordered mapping that keeps what it is given",
     "mob.comments lists name and value pairs in the order they were added; setting a name that is there replaces the value of its first pair "
     "and a new name is added at the end; reading, get and membership find the first pair of that exact name; a missing name raises, or gives "
     "the default. A value that has no type is refused without leaving a name behind. Text, integers and rationals come back with their value and "
     "type, from a copy of the mob and after saving and reopening.",
     ["histories"],
     "every history of setting, appending, renaming, removing, copying and reopening, with repeated names",
     "tests set and read one comment; order, repeated names and refused values are histories",
     ["src/aaf2/misc.py", "src/aaf2/mobs.py"],
     [("TaggedValueHelper", "src/aaf2/misc.py:TaggedValueHelper")],
     "stateful property-based testing against a list of pairs and an independent reader", "Text has no NUL.", ["mob.comments", "saved bytes"])
prop("K01", "Effect parameters keep their key frames and are interpolated as defined",
     "Key frames added in any order, at times given in any form, are kept in order of time, one for each time, the last one given "
     "winning; nearest_index is the last key frame at or before a time. The value of a parameter is that of the first key frame before it and of "
     "the last after it, of each key frame at its time, and between two the earlier one's (constant), the point on the line (linear) or "
     "on the bezier curve of the key frames' handles (bezier; cubic with handles from the neighbours), for every time. An offset map has every half "
     "frame of the range asked for, sums the speed map from its first key frame with the step rule of the samples, and does not depend on the "
     "range; an operation group has the media kind of its operation unless given one, and keeps its operation, inputs and parameters, each "
     "found by its id, after saving.",
     ["inputs", "histories"],
     "every order and set of key frames, every handle, every time and range",
     "tests evaluate a dozen curves from one application at regular times; boundary times, odd handles and key frame orders are an input space",
     ["src/aaf2/misc.py", "src/aaf2/interpolation.py", "src/aaf2/components.py"],
     [("value_at, add_keyframe", "src/aaf2/misc.py:VaryingValue"), ("bezier_interpolate", "src/aaf2/interpolation.py:bezier_interpolate"),
      ("generate_offset_map", "src/aaf2/misc.py:generate_offset_map")],
     "property-based testing against a numeric model of the curves and sums",
     "Curves are compared within a tolerance of 1e-5 of their size.", ["value_at", "pointlist", "generate_offset_map"])
