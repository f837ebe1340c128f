prop("I01", "Identifiers convert without loss and match uuid; malformed ones are refused",
     "An AUID made from any 16 bytes - given as bytes in either byte order, integer, text in any of the usual forms, or a "
     "uuid.UUID - is the same identifier in every form: its bytes, integer, hex, text and fields are uuid.UUID's, it equals that "
     "UUID, hashes like it and finds the same dictionary entries, and ids order by their integers. A MobID made from any 32 bytes is "
     "the same through bytes, integer, URN text, dict (keys left out are zero) and single fields; setting a field changes exactly that "
     "field; ids compare and "
     "hash by their bytes; new ids are unique; changing the bytes an id was made from does not change the id. Text with "
     "other than 32 (64) hex digits, bytes of another length and integers out of range are refused and leave an id as it was.",
     ["inputs"],
     "every 16 or 32 byte value, every text form, and near misses of them",
     "tests convert a handful of ids; byte order and field mistakes show only for particular byte values",
     ["src/aaf2/auid.py", "src/aaf2/mobid.py"],
     [("AUID conversions", "src/aaf2/auid.py:AUID"), ("MobID conversions", "src/aaf2/mobid.py:MobID.urn, from_dict, int")],
     "property-based testing: differential against uuid.UUID and a plain bytes model, malformed inputs included",
     "Texts that are ambiguous between the two byte orders of a UMID read as half swapped, as in the format.", ["AUID", "MobID"])
prop("N01", "AAFRational keeps its terms and otherwise is a Fraction",
     "An AAFRational keeps numerator and denominator as given (text, integers, rationals), through str, copy and pickle; 0/0 reads "
     "as 0/1 and n/0 is refused. In every other respect it acts as the fraction of the same value: equality, order, hashing, "
     "arithmetic with ints, floats and fractions on either side, rounding and conversion give what fractions.Fraction gives. A "
     "float becomes a rational whose terms fit 32 bits whenever its value does, as close as that allows; text means what it "
     "means to Fraction, and what Fraction refuses is refused.",
     ["inputs"],
     "every pair of terms, every float and text, every pair of operands",
     "edit rates in tests are a few common values in lowest terms; unreduced, negative and large terms and odd floats are an input space",
     ["src/aaf2/rational.py"],
     [("construction and terms", "src/aaf2/rational.py:AAFRational.__new__")],
     "property-based testing: differential against fractions.Fraction",
     "Fraction(AAFRational) is the standard library's constructor and is not covered.", ["AAFRational"])
prop("T01", "Every typed value is stored exactly, in every form it may be given",
     "A value of any type of the file - integers of each width, enumerations (by name or number), extendible enumerations (by name or "
     "AUID), booleans, records (as dict, datetime, date, time, rational, AUID, MobID), arrays, sets, strings, renamed and nested types, "
     "built-in or registered by the user - given to the library in any accepted form is stored as the format's bytes for it and "
     "reads back equal, as property, as tagged or constant value and through the type itself; bytes that are stored read as what they "
     "mean. Overwriting and removing a value act on that property alone. The stored value does not change when the object it "
     "was given as, or one that was read, is changed afterwards.",
     ["inputs"],
     "every value of every type, every accepted form, every nesting of types",
     "tests set a few properties of common types; each of some forty built-in types and any nesting of new ones has its own widths, padding and element order",
     ["src/aaf2/types.py", "src/aaf2/properties.py", "src/aaf2/misc.py"],
     [("encode and decode of each type", "src/aaf2/types.py:TypeDef*.encode/decode"), ("Property.value", "src/aaf2/properties.py:Property.value")],
     "property-based testing: round trip and differential against an independent decoder of stored values",
     "Times have whole seconds; text has no NUL.", ["stored property data", "Property.value"])
prop("T02", "A value outside its type is refused, and a refusal changes nothing",
     "A value its type cannot hold - an integer out of range, an unknown enumeration element, a rational whose terms do not fit, an id of "
     "the wrong length, text that cannot be encoded, an array with too many elements, a record with a field missing, a wrong Python "
     "type, or any of these inside a larger value - is refused with an exception. After a refusal every property, of that "
     "object and others, is what it was, properties that were absent are absent, and the file saves with exactly the values accepted.",
     ["inputs", "histories"],
     "every type, every value outside it, at every position in nested values, before and after accepted ones",
     "tests set values that fit; silent truncation or a half applied assignment shows only with a value outside the type",
     ["src/aaf2/types.py", "src/aaf2/properties.py", "src/aaf2/misc.py"],
     [("encode before assignment", "src/aaf2/properties.py:Property.value"), ("range checks", "src/aaf2/types.py:TypeDef*.encode")],
     "property-based testing: generated invalid values, state compared before and after the refusal",
     "None is the way to remove a property, not a bad value.", ["Property.value", "saved bytes"])
