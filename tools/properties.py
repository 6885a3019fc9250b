"""writes /verif/properties.jsonl"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))


N = "tealish/nodes.py"
E = "tealish/expression_nodes.py"
B = "tealish/base.py"
S = "tealish/scope.py"
T = "tealish/types.py"
L = "tealish/stdlib.py"
U = "tealish/utils.py"
C = "tealish/__init__.py"
SPEC = "tealish/langspec.py"

p("C01", "Control flow of the TEAL is the control flow of the source",
  "For every program, the emitted TEAL performs the statements of if/elif/else chains, while loops, for loops, break and "
  "return in the order and number the language guide gives them: the first arm whose (possibly negated) condition is "
  "non-zero runs and no other, a loop body runs while the condition holds or once for each value from start up to end, and "
  "break leaves the nearest enclosing while. Nesting these constructs in each other, in blocks and in functions does not "
  "change what any of them does.",
  ["programs", "inputs"],
  "all nestings of if/elif/else/while/for/break/return (with and without not) in main program, blocks and functions; all "
  "run-time values of the conditions and loop bounds",
  "tests compare the text of a handful of compiled constructs or only check that they compile; none executes the TEAL, so no "
  "test decides what runs for other condition values, other arities or nestings",
  [N, C], [("labels and branches of if/elif/else", N + " IfStatement/Elif/Else"), ("loop labels and tests", N +
   " WhileStatement/ForStatement/For_Statement"), ("target of break", N + " Break"), ("return", N + " Return")])

p("C02", "Expressions compute the documented value with operands in order",
  "Every expression leaves exactly its documented value: operands and arguments are evaluated once each, left to right, and "
  "reach the operator, opcode or function in that order without short-circuiting; multiple results are assigned to names in "
  "the documented order. Field expressions read the named field (and array element) of the current, absolute, relative or "
  "computed transaction of the group, of the globals or of the last inner transaction, and immediate arguments reach the "
  "opcode unchanged.",
  ["programs", "inputs"],
  "all operators, all opcodes callable as functions with every field immediate, all Txn/Gtxn/Itxn/Global fields with literal "
  "and computed indices, nested groups and calls to a bounded depth; all operand values and all 64-bit literals",
  "tests compile a few expressions and compare text; they cannot show operand order or value for every operator, field, "
  "nesting and literal",
  [E, N, "tealish/tealish_expressions.tx", SPEC],
  [("operand emission order", E + " BinaryOp/UnaryOp/OpCall/UserDefinedFuncCall"), ("field access", E +
   " TxnField..InnerTxnArrayField"), ("result order", SPEC + " Op.returns_types; " + N + " Assignment")])

p("C03", "Function calls bind arguments, return values and leave the stack intact",
  "A call evaluates its arguments left to right, binds them to the parameters by position, runs the body of the function that "
  "is visible under that name in the calling scope, and yields the returned values in order; execution then continues after "
  "the call with nothing else added to or removed from the caller's stack. Functions run only when they are called.",
  ["programs", "inputs"],
  "functions with 0..5 parameters and 0..4 results, called from expressions, statements, conditions, arguments, other "
  "functions, blocks and loops, nested and shadowing definitions, any number of call sites; all argument values",
  "tests look at the text of single small functions; none runs a call, so argument order, result order, scoping of names and "
  "stack balance are not settled",
  [N, E, S], [("parameter stores", N + " Func.write_teal"), ("call emission", E + " UserDefinedFuncCall"),
              ("return values", N + " Return"), ("multiple assignment", N + " Assignment"),
              ("name lookup", S + " lookup_func")])

p("C04", "Variables that are alive together never share a scratch slot",
  "Reading a variable yields the value last assigned to that variable, whatever other variables, loops, blocks, functions, "
  "struct or box references and inner transaction groups the program has and whatever code ran in between. Scratch slots are "
  "within 0..255; a program that needs more is rejected with a compile error.",
  ["programs", "inputs"],
  "declarations distributed over main program, nested blocks, functions (nested, called from anywhere, defined in any order) "
  "and loops, up to and beyond 256 variables; all values",
  "slot conflicts need particular combinations of scopes, definition order and counts; tests have a few fixed programs and "
  "never execute them",
  [B, S, N], [("slot choice", B + " declare_scratch_var; " + S + " find_slot"),
              ("reuse after loops", N + " ForStatement.process, del_var"),
              ("group flag slot", N + " Program.process")])

p("C05", "Struct fields are the documented bytes of the struct",
  "A struct is its fields laid out one after the other in declaration order (int 8 bytes, uint8 1 byte, bytes[N] and uint8[N] "
  "N bytes, addr 32 bytes); reading a field yields exactly its bytes, as an int for integer types, and assigning a field changes those bytes "
  "and no others. Layouts, SizeOf and the inspect output agree for every struct, including fields beyond offset 255.",
  ["programs", "inputs"],
  "structs with up to 6 fields of every field type and every size (symbolic sizes N up to 4096 bytes in total); all contents and assigned "
  "values",
  "tests have three or four fixed structs and compare text; sizes at and beyond immediate limits and combinations of field "
  "types are not reached",
  [T, N, E, C], [("offsets and sizes", T + " StructType.add_field"), ("field read", E + " StructOrBoxField"),
                 ("field write", N + " StructOrBoxAssignment"), ("inspect", C + " inspect_program")])

p("C06", "Boxes are opened, created and accessed as documented",
  "OpenBox fails unless the box exists with the size of the struct, CreateBox fails if it already exists and creates it with "
  "the size of the struct, Box makes no assertion; afterwards reading and assigning fields of the reference reads and changes exactly "
  "the bytes of that field in the box with that key, and no other box or byte. The reference keeps the key it was opened with.",
  ["programs", "inputs", "histories"],
  "all sequences of a bounded number of box declarations and field accesses over several references, equal and different "
  "keys; all keys, previous box contents and values; symbolic field sizes",
  "tests only compare the text of one box program; the state of boxes before and after is never modelled",
  [N, E, T], [("open/create", N + " BoxDeclaration"), ("field read", E + " StructOrBoxField"),
              ("field write", N + " StructOrBoxAssignment")])

p("C07", "Accepted assignments never give a variable a value outside its type",
  "Wherever a type is declared (variable declaration and assignment, function argument, return value, struct and box field, "
  "box key, opcode argument, constant, assert), an expression is accepted only if every value of the expression's type is a "
  "value of the declared type (an unsized destination also takes results of unknown kind); a mismatch is a compile error. The pairs the language guide documents as "
  "compatible are accepted.",
  ["programs", "inputs"],
  "all pairs of types (int, uint8, uint64, bytes, bytes[N], addr, bigint, uint8[N], structs, boxes, any, no value, several "
  "values) with all sizes N, at every declared site, with literals, variables, calls, fields and conversions as sources",
  "tests try about a dozen pairs of concrete types; the guarantee is about every pair and every size",
  [T, N, E, B], [("assignability", T + " can_hold"), ("checked sites", N + " VarDeclaration/Assignment/Return/"
                  "StructOrBoxAssignment/BoxDeclaration/Assert/Const"), ("call arguments", E + " UserDefinedFuncCall; " + B +
                  " check_arg_types")])

p("C08", "Conversions yield the documented value or fail at run time",
  "Cast, EnsureType, Convert, ToBytes, FromBytes and UncheckedCast return the value they document: Cast and EnsureType return "
  "their argument unchanged and fail exactly when its size in bits or bytes is not one of the target type, Convert maps between integers and "
  "big-endian bytes of the target size and fails when the value does not fit, FromBytes and ToBytes are the big-endian conversions "
  "(ToBytes of an integer to fewer bytes keeps the low-order ones), and UncheckedCast adds no instruction.",
  ["programs", "inputs"],
  "every conversion with every source and target type and symbolic target sizes; all values",
  "tests assert that a few conversions compile; failure exactly on out-of-range values is a statement about all values and sizes",
  [L], [("conversions", L + " Cast/Convert/EnsureType/ToBytes/FromBytes/UncheckedCast"),
        ("run-time assertions", L + " BytesSizeAssertionWrapper/UIntSizeAssertionWrapper/TypeAssertionWrapper")])

p("C09", "Byte-string builders produce exactly the documented bytes",
  "Concat joins any number of byte strings in order; Rpad and Lpad append or prepend zero bytes up to the given length and fail when the "
  "string is longer; bzero(n) is n zero bytes; SizeOf is the size of the type; Address is the 32-byte public key of the "
  "address; ARC28Event is the first four bytes of the SHA-512/256 hash of its signature followed by its arguments in order.",
  ["programs", "inputs"],
  "1..6 arguments, every constant length (literal, constant, SizeOf), all argument values and lengths, nested in each other",
  "tests compile one instance of each; values, lengths and arities are not covered",
  [L], [("builders", L + " Concat/Rpad/Lpad/Bzero/SizeOf/Address/ARC28Event")])

p("C10", "The router calls exactly the selected public function",
  "The program calls the routed public function whose name equals the first application argument, after checking the "
  "transaction's OnCompletion (or ApplicationID == 0 for CreateApplication), with the remaining application arguments converted "
  "to the parameter types in order; it then logs 0x151f7c75 followed by the returned values in order (integers as 8 bytes) if the function returns any, "
  "and approves. Any other first argument, a wrong OnCompletion or an argument that is not a value of the parameter's type "
  "fails; routing a function that is not public is a compile error.",
  ["programs", "inputs"],
  "1..6 routes, 0..4 parameters and 0..4 results of every type, every OnCompletion option; all application arguments and "
  "transaction fields",
  "one test compares the text of one router; argument and result order, completion checks and rejected calls are never executed",
  [N], [("route selection", N + " Router.write_teal"), ("argument conversion", N + " Route.process"),
        ("decorators", N + " DecoratedFunc")])

p("C11", "Jumps and switches reach the named block and nothing else",
  "jump and switch transfer control to the block with that name visible from the statement (inner definitions first); switch "
  "takes the first option equal to the value, else the else target, else fails. A block runs only when control is transferred to it, exit "
  "ends the program with its value, and variables of enclosing scopes keep their values across the transfer.",
  ["programs", "inputs"],
  "nested and equally named blocks, switches with 1..6 int or bytes options with and without else, jumps from conditionals, loops "
  "and blocks; all values",
  "tests compile two or three switches and compare text; which block runs for which value is not decided",
  [N, S], [("block labels and scopes", N + " Block; " + B + " get_block"), ("switch", N + " Switch.write_teal"),
           ("exit", N + " Exit")])

p("C12", "Inner transactions are built and submitted exactly as written",
  "Each inner_txn begins one inner transaction, sets the listed fields in order to the values of their expressions and submits it at "
  "once; inside inner_group the transactions (also those issued by called functions, conditionals and loops) form one group submitted at its end. "
  "Array fields are set in index order and a wrong index is rejected; inner transactions outside the group stay separate.",
  ["programs", "inputs", "histories"],
  "every settable field, literal and computed values, sequences of groups and single transactions, transactions inside "
  "conditionals, loops, functions and blocks; all values",
  "tests compare the text of two or three inner transactions; the sequence of begin/next/field/submit actually executed is not checked",
  [N], [("inner_txn", N + " InnerTxn.write_teal"), ("groups", N + " InnerGroup; group macros in Program.write_teal")])

p("C13", "The source map leads from every TEAL line to its source statement",
  "Every line of the emitted TEAL has an entry in the source map, within the source (0 for the helper routines of inner groups); an instruction maps to the line of the "
  "statement that it implements, so a run-time failure is attributed to the statement that failed and an assert with a message yields "
  "that message. Lookups between program counter, TEAL line, Tealish line and error message agree with each other and with the assembler's source map, "
  "also after saving the map as JSON and loading it.",
  ["programs", "inputs"],
  "all statement kinds with comments, blank lines and nesting in any arrangement; all run-time failures; all assembler source maps "
  "in bounds",
  "tests check one map for one fixed program; attribution for every statement kind and failing instruction is not checked",
  [C, U, N], [("map construction", C + " TealWriter.write"), ("lookups", U + " TealishMap"),
              ("messages", N + " Assert.process")])

p("C14", "Minified and comment-stripped TEAL is the same program",
  "Minifying TEAL or stripping its comments changes no instruction, constant, string literal, branch target or effect: for every TEAL "
  "program the result runs identically. The line map returned by minify leads from every kept line to the line it came from, and "
  "comments and blank lines are removed.",
  ["programs", "inputs"],
  "TEAL from all compiled constructs plus TEAL line sequences with labels (adjacent, chained, prefixes of each other), comments, "
  "blank lines, strings containing // ; : and label names; all run-time values",
  "one test minifies one program; label merging and comment detection depend on neighbouring lines and text that it does not contain",
  [U], [("minify", U + " minify_teal, replace_labels"), ("comments", U + " split_comment, strip_comments")])

p("C15", "Formatting keeps the program and its comments and is idempotent",
  "Formatting a valid program yields a program that compiles and behaves identically, keeps every whole-line comment in "
  "place, and does not change when formatted again, whatever the spacing and indentation of the input.",
  ["programs", "inputs"],
  "every statement and expression form, nested, with comments and blank lines in every allowed place and varied indentation; "
  "all run-time values of the formatted program",
  "tests format two files and compare text; every construct, combination and layout must survive formatting",
  [N, E, L, C], [("printing", N + " _tealish methods; " + E + " _tealish methods"), ("entry", C + " reformat_program")])

p("C16", "Every input compiles or is rejected with a located error, never silently altered",
  "Compiling any text terminates, and either produces TEAL or raises ParseError or CompileError. Programs that break the structural rules of "
  "the language guide (missing or surplus end, code after an exit statement, definitions execution would fall into, functions without final "
  "return, break outside while, return outside func, unknown names) are rejected, and no part of an accepted program is dropped.",
  ["programs", "inputs"],
  "all sequences of a bounded number of lines from a catalogue of line forms (valid, truncated, with trailing text), and all strings up to a "
  "bounded length for the line patterns",
  "tests contain a few dozen bad programs; truncation points, orders and trailing text are unbounded",
  [C, N, U, "tealish/tx_expressions.py"], [("parser loop", C + " TealishCompiler; " + N + " consume methods"),
   ("line patterns", N + " pattern attributes"), ("error reporting", C + " process/compile")])

p("C17", "Literals and constants reach the TEAL with exactly their value",
  "Integer literals and constants denote exactly the written 64-bit value and larger ones are rejected; byte-string literals and constants denote exactly the bytes "
  "between the quotes under TEAL escape rules, also when they contain quotes, backslashes, #, //, commas, colons or keywords, and their type has "
  "that size. Named constants and the OnCompletion and TypeEnum names have the AVM's values everywhere they can be used.",
  ["inputs", "programs"],
  "all integers, all strings of bounded length over the characters that have a meaning in Tealish, TEAL or regular expressions, in every statement "
  "that can contain an expression",
  "tests use a few plain literals; special characters and limits are not covered",
  [N, E, U, L], [("literals", E + " Integer/Bytes"), ("constants", N + " Const; " + E + " Constant/Enum"),
                 ("sizes", U + " teal_string_size")])

p("C18", "A compilation does not depend on earlier ones",
  "Compiling, formatting or inspecting a program gives the same output, map and errors whatever programs the process compiled before, including "
  "failed ones and ones with equally named structs, functions, constants and variables; repeating a compilation gives the same output.",
  ["histories", "programs"],
  "all histories of a bounded number of compilations, formattings and inspections (valid and failing) with symbolic struct sizes and constants",
  "tests run each program once and mostly in isolation; state left in modules by a previous compilation is only visible in particular orders",
  [T, C, N], [("struct registry", T + " use_structs"), ("compiler state", C + " TealishCompiler")])

p("C19", "Emitted TEAL is well-formed for the assembler",
  "The TEAL of every accepted program keeps the #pragma version line first, defines every label it branches to exactly once, uses only existing "
  "opcodes with the number and range of immediates they take, and never underflows the stack or applies an opcode to a value of the wrong kind.",
  ["programs", "inputs"],
  "all constructs, nested, repeated more than ten times, with equally named blocks and functions in different scopes and names that look "
  "like generated labels; all run-time values",
  "tests do not assemble or execute the output (the assembler is external); label clashes need particular names and counts",
  [N, E, L, C], [("labels", N + " label attributes"), ("instructions", N + " write_teal methods")])

p("C20", "Opcode calls are checked against the language spec in use",
  "For every opcode of the active language spec a call is accepted exactly when it has the opcode's immediates and stack arguments, in that order, and "
  "each argument's type is one the opcode takes; its result has the documented types. New opcodes and fields of a local language spec work the same way, "
  "and langspec comparison reports exactly the opcodes that differ.",
  ["configurations", "programs"],
  "every opcode and field of the packaged spec, and specs with symbolic opcode signatures; all argument counts and type combinations in bounds",
  "tests use about twenty opcodes and one spec",
  [SPEC, E, B], [("spec model", SPEC + " Op, LangSpec"), ("call check", E + " OpCall; " + B + " check_arg_types")])

p("C21", "The command line tools write exactly what the compiler returns",
  "compile and build write, for every .tl file of the given path and nothing else, files named after the source that hold exactly the TEAL, the assembler's "
  "bytecode and a source map that loads back as the compilation's map with the assembler's program counters; format replaces the file by the formatted "
  "program; invalid programs give an error message, a failure status and leave existing files alone, also when builds run at the same time.",
  ["inputs", "faults", "interleavings"],
  "all texts with symbolic characters and literals, file names and directories in bounds, assembler results and failures",
  "no test runs the tools; a wrong file needs particular message characters, names, older longer files or concurrent builds",
  ["tealish/cli.py", "tealish/build.py", "tealish/utils.py"],
  [("compile and build", "tealish/cli.py _build"), ("format, inspect", "tealish/cli.py"), ("assemblers", "tealish/build.py"), ("map file", "tealish/utils.py TealishMap.as_dict")])

with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
