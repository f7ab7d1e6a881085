#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json, so that both stay in step."""
import json

D = "src/demangler.rs"
N = "src/nodes/derived.rs"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    P.append(dict(
        prop=dict(
            id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **({"state": state} if state else {}),
                         observe_at=observe or ["the Result of undname::demangle"], hook_needed=None)),
        technique=technique, note=note))


API = "src/lib.rs"
MODEL = "differential monitor: every execution's text is compared online with a reference demangler"
MNOTE = ("Exploration: held on the executions counted in the evidence. The oracle is a reference demangler written for this purpose, "
         "which shares no code with the crate and was itself compared with LLVM's; beyond the model's bounds (about 1000 nodes, depth 128, "
         "half a MiB of text) a refusal is not judged.")

prop("C01", "Demangling is total: every input yields a text or an error",
     "For every string and every set of flags, demangling returns, with a valid UTF-8 text or an error: it never panics, aborts, loops forever or overflows the stack of an ordinary (2 MiB) thread, however deeply the input nests and however long it is.",
     ["inputs", "configurations"], "all strings (any Unicode text, any length or nesting) x all flag values x optimised and unoptimised builds",
     "The tests run a few hundred well-formed symbols; a panic or overflow needs one particular malformed, truncated or hostile one.",
     [D, "src/mangled_string.rs", "src/cache.rs", API],
     [("errors instead of panics all through the recursive descent", D), ("recursion bound", "Demangler::enter_recursion in " + D), ("node limit", "NodeCache::intern in src/cache.rs")],
     "crash, panic and hang monitors over fuzzed and hostile executions, in checked builds",
     "Exploration: overflow checks and debug assertions on, 2 MiB stacks, opt-level 3 and 0; crashes are confirmed in fresh processes.")

prop("C02", "Time, memory and output of a call are bounded",
     "A call never returns a text of 1 MiB or more, never holds more than 256 MiB of heap (plus 16 bytes for each of the input), and finishes within 5 s of CPU time (plus a microsecond for each byte of the input), of whatever size and shape the input is: symbols whose text would explode are refused, and so are those whose names repeat each other too often. After it returns, nothing it allocated is left but its result.",
     ["inputs", "configurations"], "all strings x all flag values",
     "The tests' symbols are small; blow-up needs back-references which multiply, or sizes no test has.",
     [D, "src/cache.rs", "src/alloc.rs"],
     [("output limit", "writing::BufWriter::write in " + D), ("node limit", "NodeCache::intern in src/cache.rs"), ("arena freed with the call", "demangle_into in " + API)],
     "counting allocator, CPU clock and output monitor over growing and amplifying executions",
     "Exploration: heap use is counted at the allocator, CPU time at the thread; the bounds are several times what the worst known input needs.")

prop("C03", "No undefined behaviour",
     "No input makes the crate execute undefined behaviour: no access outside an allocation, no unchecked operation whose precondition is false, no uninitialised or misaligned read, no invalid character or string.",
     ["inputs", "configurations"], "all strings x all flag values reaching the unchecked operations: operator tables, back-reference tables, character conversions, node handles",
     "Undefined behaviour need not show in a test's result; the tests run without sanitizers and on few inputs.",
     [D, "src/cache.rs", "src/mangled_string.rs", "src/nodes/mod.rs"],
     [("bounds established before unchecked accesses", "the unsafe blocks of " + D), ("handles made only by the cache", "NodeCache::intern in src/cache.rs"), ("UTF-8 validated before use", "Demangler::parse_into in " + D)],
     "Miri, AddressSanitizer and unsafe-precondition checks watching coverage-guided executions",
     "Exploration: about 2000 inputs a run under Miri, 200000 under AddressSanitizer, millions with the standard library's precondition checks.")

prop("C04", "A caller's buffer is replaced, emptied on error, and never lost",
     "Demangling into a buffer leaves in it exactly the text a fresh call returns, whatever the buffer held before and whatever calls it was used for; if the call fails, the buffer is empty. Its capacity never shrinks, on success or failure.",
     ["histories", "inputs", "configurations"], "all sequences of calls and caller's edits on one buffer x all inputs x all flags",
     "The tests only use fresh buffers, and none fails while printing.",
     [API, D], [("clear before parsing", "demangle_into in " + API), ("buffer taken, and given back on error", "Demangler::parse_into in " + D)],
     "history monitor: each step with a used buffer is compared with a fresh call",
     "Exploration: random histories with refusals while parsing and while printing.", observe=["the buffer and Result of undname::demangle_into"])

prop("C05", "The result depends on nothing but the arguments",
     "The same string and flags give the same result in every call: whatever was demangled before, on whichever thread, concurrently with whatever, in any process and environment, and wherever in memory the string lies. Threads calling concurrently never race.",
     ["histories", "schedules", "inputs", "configurations"], "all histories and interleavings of calls x inputs x flags",
     "Each test calls once; state carried between calls, threads or processes stays invisible.",
     [API, D, "src/cache.rs"], [("all state is created per call", "demangle_into in " + API), ("no statics which change", "src")],
     "history, thread and process consistency monitors; Miri's data race detector",
     "Exploration: repetitions are compared within histories, across threads with barriers, and across fresh processes with other environments.")

prop("C06", "Function symbols are printed exactly",
     "Every well-formed function symbol yields exactly its C++ declaration: access, static, virtual and extern \"C\", calling convention, return type, full name, all parameters in order with a trailing ... if variadic, and the qualifiers, ref-qualifier and noexcept at the end.",
     ["inputs"], "all well-formed function symbols: function classes x qualifiers x conventions x results x parameters x names",
     "The tests pair a few hundred symbols with texts; the combinations are too many to sample by hand.",
     [D, N, "src/nodes/enums.rs"], [("function classes", "Demangler::demangle_function_class in " + D), ("encoding", "Demangler::demangle_function_encoding in " + D), ("printing", "FunctionSignatureNode in " + N)],
     MODEL, MNOTE)

prop("C07", "Variable symbols are printed exactly",
     "Every well-formed variable symbol yields exactly its declaration: access and static for members, the type in C++ declarator syntax around the full name, with the qualifiers of the variable and of what it points to each in their place.",
     ["inputs"], "all well-formed variable symbols: storage classes x types x qualifiers x names",
     "The tests have a few dozen variables; which level a qualifier applies to depends on combinations.",
     [D, N], [("encoding", "Demangler::demangle_variable_encoding in " + D), ("printing", "VariableSymbolNode in " + N)], MODEL, MNOTE)

prop("C08", "Types are printed exactly, in declarator syntax",
     "Every type a symbol contains is printed exactly: primitives, tags, enums, pointers and references of all kinds, member and function pointers, arrays and custom types, nested in any order, with every qualifier at its own level and brackets and parentheses where C++ wants them.",
     ["inputs"], "all well-formed types, in every place where a type may stand, at any nesting",
     "Types nest without bound; the tests have single and a few double nestings.",
     [D, N, "src/nodes/enums.rs"], [("types", "Demangler::demangle_type and what it calls in " + D), ("printing before and after the name", "output_pre and output_post in " + N)], MODEL, MNOTE)

prop("C09", "Special names and scopes are printed exactly",
     "Every operator, constructor, destructor, conversion, literal operator and compiler-made function name is printed with its own spelling; structors take the name of their class; scopes come out outermost first, including anonymous namespaces and function-local scopes with their number.",
     ["inputs"], "all operator codes x name kinds x scope chains x encodings",
     "The tests cover most operator codes once, and structors and local scopes in a few shapes.",
     [D, N, "src/nodes/enums.rs"], [("operator tables", "Demangler::demangle_function_identifier_code_group and translate_intrinsic_function_code in " + D), ("scope chains", "Demangler::demangle_name_scope_chain in " + D), ("structors get their class", "Demangler::demangle_fully_qualified_symbol_name in " + D)], MODEL, MNOTE)

prop("C10", "Back-references mean what they refer to",
     "A digit in place of a name or parameter prints exactly what the construct with that number printed, counted the way the mangling counts: each distinct name once, up to ten, template instantiations with tables of their own, and only parameters longer than one character. A digit which refers to nothing is an error.",
     ["inputs", "configurations"], "all placements of names, templates, parameters and references x the ten slots x full tables",
     "What a digit means depends on everything before it; the tests sample a few dozen arrangements.",
     [D], [("name table", "Demangler::memorize_string, memorize_name, memorize_identifier and demangle_back_ref_name in " + D), ("parameter table", "Demangler::demangle_function_parameter_list in " + D), ("tables swapped around templates", "Demangler::demangle_template_instantiation_name in " + D)],
     MODEL + "; metamorphic monitor: a reference prints what its referent, written in its place, prints", MNOTE, state=[dict(name="back-reference tables", meaning="the first ten names and parameters", where="BackrefContext in " + D)])

prop("C11", "Template arguments are printed exactly",
     "Every template instantiation is printed with all its arguments in order: types, aliases, integers of either sign, pointers and references to symbols, member pointers, packs (empty ones vanish) and nested instantiations.",
     ["inputs"], "all well-formed template argument lists, of any length and nesting, for names, functions and operators",
     "The tests have each kind of argument a few times, seldom in combination.",
     [D, N], [("argument lists", "Demangler::demangle_template_parameter_list in " + D), ("printing", "NodeArrayNode and TemplateParameterReferenceNode in " + N)], MODEL, MNOTE)

prop("C12", "String literals are decoded exactly",
     "Every well-formed string literal symbol yields its prefix and content: character width found from length, content and zeros, escapes for unprintable characters, and ... when the symbol holds only part of the literal.",
     ["inputs"], "all string literal symbols: widths x lengths x bytes x escapes x truncation",
     "The tests list single bytes and some wide strings; the width is guessed from all bytes together.",
     [D, N, "src/extensions.rs"], [("literals", "Demangler::demangle_string_literal in " + D), ("width", "guess_char_byte_size in " + D), ("escapes", "output_escaped_char in " + D)], MODEL, MNOTE)

prop("C13", "Compiler-generated symbols are printed exactly",
     "Virtual tables, RTTI structures, static guards, vcall, adjustor and vtordisp thunks, initialisers, atexit destructors, hashed names and type-info names each yield their own exact text, with every number they carry, and near misses are refused.",
     ["inputs"], "all symbols of these kinds x names x numbers x qualifiers, well-formed or not",
     "The tests have each kind once or a few times.",
     [D, N, "src/nodes/enums.rs"], [("intrinsics", "Demangler::demangle_special_intrinsic in " + D), ("thunks", "Demangler::demangle_function_class and demangle_vcall_thunk_node in " + D), ("hashed names", "Demangler::demangle_md5_name in " + D)], MODEL, MNOTE)

prop("C14", "Encoded numbers are decoded exactly or refused",
     "Wherever the mangling carries a number, its exact value is printed, over the whole range and with its sign; a number which is missing, unterminated, too large or negative where it may not be is an error, never a wrapped or truncated value. (Thunk offsets are 32-bit: they are taken modulo 2^32, because that is how negative ones are written.)",
     ["inputs"], "all encodings of numbers x all positions where a number may stand",
     "Edges lie at powers of two and at digit counts which no test has in every position.",
     [D], [("numbers", "Demangler::demangle_number, demangle_unsigned and demangle_signed in " + D)], MODEL, MNOTE)

prop("C15", "Each flag leaves out what it says and nothing else",
     "With any combination of flags (other than name-only), a symbol yields its default text less exactly the parts those flags name, with neat spacing. Flags never decide whether a symbol is accepted, nor what a back-reference means; a flag with two names is the same by either, and bits without a meaning have no effect.",
     ["configurations", "inputs"], "all 512 flag combinations x all well-formed symbols",
     "The tests and doc examples have one or two symbols per flag and no combinations.",
     [API, D, N], [("flags passed down while printing", "the output functions of " + N), ("keyword spelling", "src/nodes/enums.rs")],
     "differential monitor against a reference demangler, and a part-of monitor against the default text", MNOTE)

prop("C16", "Name-only yields the name alone",
     "With the name-only flag, alone or with any others, a symbol yields only the qualified name of what it declares: no type, convention, access, parameters or qualifiers of its own. Template arguments belong to the name and are printed whole (less their class keywords), and so are the adjustor of a thunk and the target of a table.",
     ["configurations", "inputs"], "name-only x the other flags x all well-formed symbols",
     "One doc example uses the flag; names which contain types, like conversions and templates, are where it goes wrong.",
     [API, D, N], [("name_only tests while printing", N)], "differential monitor against a reference demangler with the flag set", MNOTE)

prop("C17", "Malformed symbols are refused",
     "A string which is not a mangled symbol, because it is cut short, has an unknown code, lacks a terminator or breaks the grammar anywhere, gives an error and never a made-up text, with any flags. (Two leniencies are intended, as in LLVM: an unknown calling convention and a few unused operator codes are accepted, and print as nothing.)",
     ["inputs"], "all strings which the grammar does not derive, in particular every small damage to a symbol",
     "The tests have a handful of invalid symbols; every position of every symbol can be damaged.",
     [D, "src/mangled_string.rs"], [("an error at every choice without a match", D)], "differential monitor: every refusal the reference grammar demands is observed", MNOTE)

prop("C18", "Identifiers are reproduced verbatim, in any script",
     "Identifiers of any length and of any Unicode characters, in any position, appear in the text exactly as they stand in the symbol, and neither their content nor their byte length disturbs what is around them.",
     ["inputs"], "every Unicode scalar value and any length x positions of identifiers",
     "The tests' identifiers are ASCII but for a few; byte and character counts agree on those.",
     ["src/mangled_string.rs", D], [("cutting at character boundaries", "src/mangled_string.rs"), ("simple names", "Demangler::demangle_simple_string in " + D)],
     MODEL + " on every Unicode scalar value; metamorphic monitor: other identifiers in the same symbol change nothing else", MNOTE)

prop("C19", "Agrees with LLVM's demangler on the common dialect",
     "Every symbol which both the crate and LLVM's demangler are meant to support, outside the few documented differences, gets the same default text from both.",
     ["inputs"], "all symbols of the common dialect which LLVM accepts",
     "The tests copy LLVM's fixed list; agreement is claimed for all symbols.",
     [D, N], [("a port of LLVM's demangler", "src")], "differential monitor against llvm-undname as an independent implementation",
     "Exploration: about two million symbols a run; constructs on which the two differ by design are left out, see DESIGN.md.")

prop("C20", "Ordinary symbols are never refused",
     "Every well-formed symbol of ordinary size (at most about 1500 elements, 128 levels of nesting, 512 KiB of text and 8 MiB of names within names) is accepted, with any flags: the limits against hostile input never hit real ones.",
     ["inputs"], "all well-formed symbols within those sizes, near the limits in particular",
     "The longest symbol in the tests is far from every limit.",
     [D, "src/cache.rs"], [("limits", "NodeCache::intern, BufWriter::write and Demangler::enter_recursion")],
     "acceptance monitor: the reference grammar says which executions must succeed", MNOTE)

prop("C21", "Text after a complete symbol is ignored",
     "Appending text to a complete symbol, of a kind which knows its own end, changes nothing, unless the text continues the symbol: results depend only on the symbol itself. This holds with any flags.",
     ["inputs", "configurations"], "all complete symbols x all appended texts x all flag values",
     "No test has anything after a symbol.",
     [D, "src/mangled_string.rs"], [("parsing stops at the symbol's end", "Demangler::do_parse and demangle_declarator in " + D)],
     "metamorphic monitor: each symbol is run with and without appended text", MNOTE)

prop("C22", "A refusal gives its real cause",
     "The error says why a symbol was refused: a symbol is only called malicious, or too large for memory, if it is large or deeply nested (or its text is), a reference is only said not to exist if one does not, a name's reference to nothing is always said to be that, and no input is blamed for an invalid encoding. The message is never empty, and of a malformed symbol it is the same with any flags.",
     ["inputs", "configurations"], "all strings which are refused x all flag values",
     "The tests only look at whether there is an error.",
     [API, D, "src/cache.rs"], [("the error's variants", "Error in " + API), ("limits", "NodeCache::intern in src/cache.rs, BufWriter::write and Demangler::enter_recursion in " + D)],
     "monitor of the reasons given in refused executions, against the reference grammar's", MNOTE, observe=["undname::Error"])

prop("C23", "Every text is neat: brackets match and no space or comma is stray",
     "Whatever an accepted symbol with plain identifiers is and whichever flags are given, its text is a tidy declaration: parentheses, square, angle and curly brackets match and nest, no two spaces follow each other, none stands at either end or just inside a bracket or before a comma, no list has an empty element, and no name has an empty component. (Identifiers and operators which have such characters themselves, constructs which print as nothing, and plain function types are not meant.)",
     ["inputs", "configurations"], "all accepted symbols with plain identifiers x all flag values",
     "Spacing depends on what comes before and after each part, and on which parts the flags leave out.",
     [N, D], [("spaces depend on the last character written", "output_space_if_necessary in src/nodes/mod.rs and " + N)],
     "lexical monitor over the text of every accepted execution, independent of the reference demangler",
     "Exploration: held on the executions counted in the evidence. The reference demangler only decides which inputs are looked at.")

prop("C24", "A declaration's text declares the same thing to a compiler",
     "The text of a function, a variable, a member, an operator, a template's specialisation, a string literal or a type's descriptor is what its name says in C++: declared again as the text has it, the compiler gives the declaration the very symbol which was demangled. (So no part which is written, qualifiers, conventions, arguments, references to earlier names and types, may be lost, added, moved or changed. With the flags which leave out a default convention or the class keywords this still holds, where what is left out is what the compiler assumes. Kept as LLVM's demangler has them: noexcept stands before a reference qualifier, and nothing separates an escape in a literal from digits which follow it.)",
     ["inputs"], "all declarations of C++ programs for 32 and 64-bit Windows, as clang mangles them",
     "The tests compare a few hundred texts with what somebody thought right; nothing reads the texts as C++.",
     [D, N], [("declarators written inside out", "do_output_pre and do_output_post in " + N), ("references to earlier names and types", "Demangler::memorize_string, memorize_identifier and demangle_function_parameter_list in " + D)],
     "round-trip monitor: made-up programs are compiled, their symbols demangled, and the texts compiled again",
     "Exploration: some ten thousand symbols in 20 s. The oracle is the installed clang 18's mangling, outside a few quirks of it which DESIGN.md lists.")

prop("C25", "What a compiler makes up is described as it is",
     "Of every symbol which a compiler makes up for a program (tables of virtual functions and bases, type descriptors and the records behind them, thunks which adjust this or call virtually, deleting and vbase destructors, dynamic initializers, destructors at exit, guards of local statics) the text says what the object really is: of which class and for which base, which offsets and numbers, which variable, which function.",
     ["inputs"], "all class hierarchies, member pointers and initialised variables of C++ programs for 32 and 64-bit Windows, as clang compiles them",
     "The tests have a few such symbols, with texts copied from elsewhere; whether the numbers and names are those of the object was never looked at.",
     [D, N], [("tables and records", "Demangler::demangle_special_table_symbol_node, demangle_special_intrinsic and demangle_rtti_base_class_descriptor_node in " + D), ("thunks", "Demangler::demangle_vcall_thunk_node and demangle_function_encoding in " + D), ("initializers and guards", "Demangler::demangle_init_fini_stub and demangle_local_static_guard in " + D)],
     "conformance monitor: made-up programs are compiled, and each made-up symbol's text compared with the contents of its object",
     "Exploration: some eighty thousand symbols in 20 s. The oracle is the code and data which the installed clang 18 emits.")

prop("C26", "A part is printed the same wherever it stands",
     "What a type, a class with its scopes, or a whole symbol is printed as doesn't depend on what's around it, whichever flags are given. A type without back-references has one text as a parameter of functions and of pointers to functions, as an argument of any template and within another one; what's declared with it (a variable, a function, a conversion, a pointer, reference, array, function or member pointer further in) stands exactly where the name stands in a variable of that type (arrays and plain functions, and flags which leave types out, aside). A class has one text as a scope of variables, functions, operators, tables and type descriptors, as a tag type, and as the class of a member pointer. A symbol within another (around a local name, or as a template argument) has the text which it has by itself.",
     ["inputs", "configurations"], "all types, scopes and symbols without back-references x all places they may have x all flag values",
     "Every combination of a part and a place may go wrong by itself, and the tests have few of them.",
     [D, N], [("types by their position", "Demangler::demangle_type and QualifierMangleMode in " + D), ("declarators written inside out", "do_output_pre and do_output_post in " + N), ("symbols within symbols", "Demangler::demangle_locally_scoped_name_piece in " + D)],
     "metamorphic monitor: each part is demangled in some of about 1500 places and compared with a marker's text in the same place",
     "Exploration: held on the executions counted in the evidence. The oracle is the crate's own text of the part elsewhere; the reference demangler only decides which places the part may have.")

with open("properties.jsonl", "w") as f:
    for p in P:
        assert len(p["prop"]["title"]) <= 80, p["prop"]["title"]
        f.write(json.dumps(p["prop"]) + "\n")

json.dump(dict(
    version=1,
    setup_cmd="./check.sh --build",
    checks=[dict(property=p["prop"]["id"], quick_cmd="./check.sh " + p["prop"]["id"], thorough_cmd="./check.sh " + p["prop"]["id"] + " thorough",
                 technique=p["technique"], level="exploration", level_note=p["note"]) for p in P],
    not_applicable=[],
    notes="No hooks in /repo: everything is observed at the public interface. properties.jsonl and this file are written by gen_props.py.",
), open("MANIFEST.json", "w"), indent=1)
