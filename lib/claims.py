SETUP = "make -s -j8 -C engine"
AI = "abstract interpretation of the parser's LLVM IR against a reference automaton, interprocedural, for inputs of any length"
AINOTE = " Six acceleration configurations and three containers. A run that meets an operation outside the engine's models is reported as undecided, not as clean."
PR = "abstract interpretation of the LLVM IR of programs over unknown values, interprocedural through the library"
PRNOTE = " Contents are symbolic, containers have any size; a path that leaves the engine's models is reported as undecided, not as clean."
CLAIMS = {
 "C01": (AI, "proof", "Every load from the input and every use of an object is an obligation, including objects passed to modelled library calls. Trusts the models of std::string and the containers." + AINOTE),
 "C02": (AI, "proof", "Each accepting and rejecting path is compared with an RFC 8259 automaton in the state reached for the bytes read." + AINOTE),
 "C03": (AI, "proof", "As C02 with comments and trailing commas in the automaton." + AINOTE),
 "C04": (AI, "proof", "Provenance of every stored value is compared with what the automaton says the text denotes. The numeric value of a number is out of scope (the library keeps its text)." + AINOTE),
 "C05": (AI, "proof", "Every configuration is decided against the same automaton; a violation is a configuration that deviates where another one does not." + AINOTE),
 "C06": (AI, "proof", "Every cycle of the abstract state graph and every recursion has to consume input; the depth of recursion is not bounded." + AINOTE),
 "C16": ("macro expansion analysis (token rule over the preprocessor's output); " + PR, "proof", "Structs with required, optional, renamed and nested fields over a value of which nothing is known; the macros for every argument count up to 64." + PRNOTE),
 "C18": ("type-level encoding: static_assert rows evaluated by the front ends' constant evaluators; " + PR, "proof",
         "All values of 8- and 16-bit enums, windows around the range and every power of two of wider ones; every prefix, suffix and one-byte change of every name, for eighteen enums. An access outside the table is no constant expression. Two front ends; a copy of the header declares string_to_enum constexpr."),
 "C19": (PR, "proof", "Members, specialisations and moving specialisations; as, cast, lvalue, constant, rvalue, array, object; nested in wrappers, collections, maps, fixed arrays, pairs, tuples, variants and generated structs." + PRNOTE),
 "C20": (PR, "proof", "optional, shared_ptr and unique_ptr of text, numbers, booleans and arrays." + PRNOTE),
 "C22": ("effect analysis over the call graph (LLVM IR) plus a typestate analysis of streams", "proof",
         "No locale-reading function is reachable in an instantiation of the whole API, in six configurations; trusts the classification of external functions and that user code is outside."),
 "C23": ("type-level encoding of result types, interprocedural escape analysis of returned pointers, compiler lifetime diagnostics", "proof",
         "Result types are decided by the type checker; every json:: function returning a pointer or view is traced to its roots. Pointers stored in returned class objects other than views are covered only by the type rows."),
 "C24": ("type-level encoding: static_assert rows and compile-fail witnesses with accepted twins", "proof",
         "Decided by two front ends for a list of types that covers every conversion operator and every character type."),
 "C07": (PR + "; position-tracking automaton over the appended text", "proof", "Every byte string of every length, byte by byte through the escaping functions and the serialisation of a string value; member names go through the same function (C08 sees to that)." + PRNOTE),
 "C08": (PR + "; grammar automaton over the appended text", "proof", "Each function that appends text, for unknown contents, sizes and indents; recursion by contract. That the escaping itself is right is C07; that numbers are stored as valid numbers is C04 and C12." + PRNOTE),
 "C09": (PR, "proof", "Every mutating operation with every kind of content; at any one point an allocation may fail. Only operations of the value layer, not user-supplied conversions." + PRNOTE),
 "C10": (PR, "proof", "One program per accessor and conversion, on a value of every kind." + PRNOTE),
 "C11": (PR, "proof", "One program per query, on a value of every kind, with unknown keys and positions." + PRNOTE),
 "C12": (PR, "proof", "Integer texts are distinguished by the limits of the integer types; trusts the description of std::from_chars. The floating point value itself is the standard library's." + PRNOTE),
 "C13": (PR, "proof", "Copies, moves, swaps, self- and part-assignment of unknown values, arrays and objects." + PRNOTE),
 "C14": (PR + "; effect analysis of static storage over the call graph", "proof", "Every const operation on a value, array or object marked as only read; static variables are followed through an instantiation of the whole API. Serialisation is covered by the analysis of static storage and the programs of C08 only." + PRNOTE),
 "C15": (PR, "proof", "Every overload of the concatenation and merge operators with unknown operands." + PRNOTE),
 "C21": (PR + "; a model of the stream classes, the parser by contract", "proof", "Every state of a stream or file and every content, with every combination of options. Streams without a fixed size, and other ways of reading than seekg, tellg and read, are undecided." + PRNOTE),
 "C25": (PR, "proof", "Collections and maps are user types over arrays and objects of any size, so that the result can be compared; fixed sizes are 1 to 3." + PRNOTE),
 "C26": (PR, "proof", "Every pair of kinds, equal or different contents." + PRNOTE),
 "C27": (PR + "; the format state of string streams", "proof", "Every arithmetic type, unknown value; the text is judged by the format flags and precision in force, trusting the standard library's formatting in the classic locale (C22 checks the locale). Infinities and NaN are a known finding." + PRNOTE),
 "C28": (PR + "; the format state of string streams", "proof", "float, double and long double, unknown finite value: at least max_digits10 significant digits and no narrowing on the way, then read as that type. That so many digits identify the number and that reading rounds correctly is trusted (IEEE 754, std::from_chars)." + PRNOTE),
}
NOT_APPLICABLE = {
 "C29": "stack and memory bounds of unbounded recursion: the library recurses per nesting level by design, so the property as a whole fails for deep documents; no static argument bounds the nesting of the input",
}
