import json
P=[]
def add(id,title,st,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
CG="Sources/Spp/CodeGen/"
add("C01","Control flow and evaluation order follow the language rules",
"For every accepted program, the statements and operands that run, and the order in which they run, are exactly those given by the source structure: if/else, while, for (init, condition, update), blocks, break n, continue n, return from any nesting depth, function calls (including recursion) and short-circuit and/or. A loop condition or updater runs once per iteration it governs, `break n`/`continue n` affect exactly the n-th enclosing loop, a return leaves the function at once, and the right operand of and/or runs only when the left one does not decide. Binary operators and call arguments are evaluated in the one fixed order of the implementation (right operand before left operand, arguments left to right), on every path.",
["programs"],"every nesting and combination of the control statements and logical operators, for every run of the conditions",
"the tests run about a dozen fixed loops; nestings of three or more loops with mixed break/continue depths, returns inside conditional branches of loops, and logical operators inside conditions of for/while are combinatorial",
[CG+"CommandGenerator.cpp",CG+"ExpressionGenerator.cpp","Sources/Spp/LlvmCodeGen/TargetGenerator.cpp",CG+"Generator.cpp"],
[("statement generation with terminal-call tracking",CG+"Generator.cpp"),("loop contexts for break/continue",CG+"CommandGenerator.cpp"),("block contexts of if/loop/logical ops","Sources/Spp/LlvmCodeGen/TargetGenerator.cpp")],
observe=["standard output of the executed program"])
add("C02","Every object is initialised and terminated exactly once, at its scope's end",
"Every object of a class with custom init/terminate handlers - local variable, by-value parameter, function result, temporary, class member - is initialised exactly once before anything uses it and terminated exactly once, never while still reachable. Variables of a scope are terminated, in the order of their definition, when the scope is left by any route (falling through, break n, continue n, return), and temporaries are terminated when the statement (or loop condition, updater, or right operand of and/or) that created them has been evaluated; members are initialised before their owner's own init code and terminated after its own terminate code, and a returned object is a copy made before the function's own variables are terminated.",
["programs","histories"],"every program that creates objects and every path through it",
"tests print the construction and destruction events of ten hand-written functions; the guarantee quantifies over every combination of exits, temporaries and scopes",
[CG+"CommandGenerator.cpp",CG+"Generator.cpp",CG+"ExpressionGenerator.cpp",CG+"TypeGenerator.cpp",CG+"DestructionStack.h"],
[("destruction stack per scope, statement and branch",CG+"DestructionStack.h"),("generateVarGroupDestruction on scope exits",CG+"Generator.cpp"),("automatic constructors/destructors of user types",CG+"TypeGenerator.cpp")],
observe=["standard output of init/terminate handlers carrying object serial numbers"])
add("C03","Expressions group by the precedence levels and associativity of the operators",
"For every sequence of tokens the parse tree is the unique one given by the precedence levels, from the loosest: lowest links (:: in), condition (?), comma lists, lower links (:), assignment, logical, comparison, low links (=>), addition, multiplication, bitwise and shift, then prefix and postfix operators, which take a whole chain of member accesses, calls, subscripts and ~ operators (the prefix before the postfix). Binary operators of one level associate to the left, assignments to the right, and brackets and blocks override the levels; lists built with commas nest inside statements separated by semicolons and keep absent elements in place. No operator or operand is dropped, duplicated or reordered, and a sequence that is no expression is reported at the first token that cannot continue it.",
["inputs","programs"],"every expression over the operator set, at every length and nesting",
"expression tests exercise a few dozen formulas; interactions between three or more levels, prefix/postfix operators and lists are not sampled",
["Sources/Core/Data/Grammar/StandardFactory.cpp","Sources/Core/Processing/Handlers/","Sources/Core/Processing/Parser.cpp","Sources/Core/Processing/ParserState.cpp"],
[("expression grammar tower","Sources/Core/Data/Grammar/"),("infix/prefix/postfix handlers","Sources/Core/Processing/Handlers/")],
observe=["dump_ast output of the real parser"])
add("C04","Integer expressions compute the typed, wrapped mathematical result",
"For all operand values and all combinations of signed (Int[n]) and unsigned (Word[n]) operands of the supported widths (1, 8, 16, 32, 64 bits and the architecture's width), arithmetic, bitwise, shift, comparison, negation, increment/decrement, compound assignment and casts yield the mathematical result reduced to the width of the result type (a signed sum, difference or product that its type cannot hold, a zero divisor and a shift count outside the width are left undefined, as in C), with sign- or zero-extension chosen by the source operand's type. The result type follows the promotion rule: at least 32 bits for arithmetic, unsigned only when both operands are unsigned, the wider operand's width for mixed widths. Storing into a variable and reading back yields the value truncated to the variable's width.",
["inputs","programs"],"every operand value and type combination (widths 1, 8, 16, 32, 64, both signs) and every operator",
"the tests evaluate about one hundred constant expressions, nearly all on small positive 32-bit numbers",
[CG+"ExpressionGenerator.cpp","Sources/Spp/LlvmCodeGen/TargetGenerator.cpp","Sources/Spp/Ast/IntegerType.cpp","Sources/Spp/Ast/Helper.cpp"],
[("operand type unification and implicit casts",CG+"ExpressionGenerator.cpp"),("LLVM op selection by sign and width","Sources/Spp/LlvmCodeGen/TargetGenerator.cpp")],
observe=["printed value and ~size of the expression"])
add("C05","Names resolve to the innermost visible definition",
"A reference to a name resolves to the definition in the innermost enclosing scope that has it (block, function parameters, function, class, module, root); scopes opened with `use` are consulted only after the scope that contains the use statement, and never shadow a direct definition there; a qualified name resolves only inside the named module or class; an alias is interchangeable with its target. A name with no visible definition is reported as an error at its location and never silently resolved to something out of scope.",
["programs"],"every arrangement of modules, functions, blocks, classes, aliases and use statements with colliding names",
"tests contain a few non-colliding use statements and one priority scenario",
["Sources/Core/Data/Seeker.cpp","Sources/Spp/SeekerExtension.cpp","Sources/Spp/Ast/CalleeTracer.cpp","Sources/Spp/Ast/Helper.cpp"],
[("scope walk with use statements","Sources/Core/Data/Seeker.cpp"),("callee tracing","Sources/Spp/Ast/CalleeTracer.cpp")],
observe=["value or error produced by the reference"])
add("C06","Overload resolution picks the best match independent of declaration order",
"Among visible functions of one name, a call runs the unique candidate of best match, exact matches before promotions before general conversions before custom casts, regardless of the order in which candidates are declared. If no candidate accepts the arguments, or two are equally good in the same scope, the call is rejected with an error and nothing is executed.",
["programs","inputs"],"every set of overloads over integer, float, pointer, reference and class parameters and every argument tuple",
"tests contain two overload scenarios; the property quantifies over candidate sets and orders",
["Sources/Spp/Ast/CalleeTracer.cpp","Sources/Spp/Ast/FunctionType.cpp","Sources/Spp/Ast/Helper.cpp","Sources/Spp/Ast/ArgPack.h"],
[("callee tracing and match status comparison","Sources/Spp/Ast/CalleeTracer.cpp"),("argument matching","Sources/Spp/Ast/FunctionType.cpp")],
observe=["which candidate ran, or the reported error"])
add("C07","Globals are initialised exactly once, before use, in dependency order",
"Every global, module-level and @shared variable that executed code depends on is initialised exactly once over the whole session, before the first code that may reach it runs, after the variables its own initialiser reaches, and @priority variables needed by a body before its other variables; repeated executions (several root statements, preprocess blocks, later requests) never re-initialise it and never lose its value, and a variable whose initialiser needs the variable itself is rejected before anything of that entry runs (circles that pass through a function are left open by the language). Module-level and root statements each run exactly once in source order, the pending module statements together with the next root statement.",
["programs","histories"],"every dependency graph between globals, functions and modules, and every sequence of root statements and preprocess executions over it",
"one test per feature; dependency graphs, incremental root execution and preprocess/JIT interleavings are unbounded",
["Sources/Spp/BuildManager.cpp",CG+"Generator.cpp",CG+"GlobalItemRepo.h","Sources/Spp/CodeGen/DependencyList.h"],
[("global ctor/dtor generation and dependency ordering","Sources/Spp/BuildManager.cpp"),("incremental init statement generation",CG+"Generator.cpp")],
observe=["order of init/terminate events on standard output"])
add("C08","Each source file is imported once and found by the search-path rule",
"Importing a source file processes it exactly once per session however many files import it, under whatever spelling or relative path, including circular imports; its root statements run at the point of the first import. A relative name is searched first next to the importing file, then in the importing chain, then in the configured library paths, with the known extensions tried; alternatives separated by `or` are tried in order and only the first one that exists is loaded; if none exists an error is reported and the definitions are not available.",
["histories","configurations"],"every import graph (including cycles and diamonds) and every placement of files over directories and search paths",
"one small import test; graphs with cycles, same-named files in several directories and path spellings are not covered",
["Sources/Core/Main/RootManager.cpp","Sources/Core/Processing/Handlers/ImportParsingHandler.cpp"],
[("processedFiles set and search path stack","Sources/Core/Main/RootManager.cpp"),("import command handler","Sources/Core/Processing/Handlers/ImportParsingHandler.cpp")],
observe=["events printed by imported files"])
add("C09","Code with errors is never executed and every error is located",
"If a statement about to be executed, or anything it depends on, contains a compile-time error, then nothing of it is executed and an error naming the file, line and column of the offending element is reported, once per offence (an error in code that both statements and the initialiser of a global need is reported on each side, and an error in a class's fields may be reported again by statements that use the class again). Statements before it have run completely, and an invalid definition that nothing executed depends on does not stop the rest from running. The reported set of erroneous locations is the same on every run.",
["programs","inputs"],"every placement of an erroneous construct in the call graph and every order of root statements",
"error tests fix the text of one error each; where the error sits relative to executed code is not varied",
["Sources/Spp/BuildManager.cpp","Sources/Core/Notices/Store.h",CG+"Generator.cpp","Sources/Core/Main/RootManager.cpp"],
[("minimum-severity gate before execution","Sources/Spp/BuildManager.cpp"),("notice store with source location stack","Sources/Core/Notices/Store.h")],
observe=["standard output events and printed notices"])
add("C10","A template instance is a function of its arguments",
"Two uses of a class or function template with equal arguments (types, integers, strings, functions, modules, after applying defaults and following aliases) denote the same instance, sharing its @shared variables and being type compatible, while uses with different arguments denote different instances with separate state. Inside an instance each parameter name denotes exactly the argument given, including through nested template uses and recursion.",
["programs","inputs"],"every template, argument tuple and order and place of instantiation",
"tests instantiate a handful of templates with one or two argument tuples",
["Sources/Spp/Ast/Template.cpp","Sources/Spp/Ast/Helper.cpp","Sources/Spp/Ast/CalleeTracer.cpp"],
[("instance matching by argument","Sources/Spp/Ast/Template.cpp")],
observe=["per-instance counters and sizes printed by the program"])
add("C11","Macros and preprocess blocks rewrite code exactly once, in place",
"A macro use is equivalent to its body with every occurrence of each parameter - as an identifier, or as the variable part `__name__` of an identifier or `{{name}}` of a string - replaced by the given argument, at any nesting of macros, and free names of the body resolve where the macro is used. Preprocess blocks run exactly once, in source order, during compilation and before the enclosing code runs, and the code they insert takes the position of the block in insertion order.",
["programs"],"every macro definition/use nesting and every sequence of preprocess blocks and insertions",
"tests use a dozen fixed macros; nested substitution with colliding names and insertion orders are combinatorial",
[CG+"AstProcessor.cpp","Sources/Spp/Rt/AstMgr.cpp"],
[("macro expansion and preprocess execution",CG+"AstProcessor.cpp"),("AST insertion","Sources/Spp/Rt/AstMgr.cpp")],
observe=["events printed by expanded code and by preprocess code"])
add("C12","Srl.Array behaves as an independent value sequence",
"Every Array behaves as its own sequence of values: after any history of construction, copying, assignment (including to itself), add, insert, remove, slice, set, clear and growth on any number of arrays, reading each array gives exactly the elements the abstract sequences hold, and mutating operations of one array never change another one. Elements with custom init/terminate are initialised and terminated exactly once each.",
["histories","inputs"],"every sequence of operations over several arrays that share buffers",
"the array test performs one straight-line history",
["Sources/Srt/Srl/Array.alusus","Sources/Srt/Srl/Memory.alusus"],
[("reference-counted copy-on-write buffer","Sources/Srt/Srl/Array.alusus")],
observe=["getLength and element values after every operation"])
add("C13","Srl.Map behaves as an insertion-ordered finite map",
"After any history of set, insert, remove, removeAt, clear, copy, assignment and lookups, with or without the search index, each Map holds exactly the keys and values of the abstract ordered map: each key at most once, the latest value per key, positions in insertion order, findPos returning the key's position or -1. Indexed and unindexed maps answer identically, and copies are independent.",
["histories","inputs"],"every operation history over small key sets, with and without index",
"the map test performs one straight-line history per mode",
["Sources/Srt/Srl/Map.alusus","Sources/Srt/Srl/ArrayIndex.alusus","Sources/Srt/Srl/Array.alusus"],
[("key index kept sorted beside keys/values","Sources/Srt/Srl/ArrayIndex.alusus")],
observe=["keys, values and positions after every operation"])
add("C14","Srl.String and StringBuilder behave as independent character sequences",
"Strings behave as immutable-by-others character sequences: after any history of construction, copy, assignment, concatenation, append, slice, trim, replace, find, split, merge, case conversion and comparison, every String and StringBuilder equals the abstract sequence, whatever buffers are shared, grown or aliased (including a string appended or assigned to itself).",
["histories","inputs"],"every operation history over several strings, including aliasing operands",
"the string test calls each function once or twice on fixed text",
["Sources/Srt/Srl/String.alusus","Sources/Srt/Srl/StringBuilder.alusus"],
[("reference-counted shared buffers","Sources/Srt/Srl/String.alusus")],
observe=["string contents and lengths after every operation"])
add("C15","Smart references free an object exactly when its last owner goes",
"An object owned by SrdRefs is terminated and freed exactly once, at the moment the last SrdRef to it is released, reassigned or destroyed, and never while one exists; WkRefs never keep it alive; a UnqRef terminates its object when it is reassigned, released or destroyed. Copies, casts to base types, assignment between references (including self assignment) and containers of references preserve this.",
["histories"],"every history of construct, alloc, assign, copy, cast, release and scope exit over several references",
"the smart reference test runs one history",
["Sources/Srt/Srl/refs_base.alusus","Sources/Srt/Srl/refs.alusus","Sources/Srt/Srl/Nullable.alusus","Sources/Srt/Srl/Possible.alusus"],
[("reference counter block","Sources/Srt/Srl/refs_base.alusus")],
observe=["init/terminate events and counters after every operation"])
add("C16","Closures capture exactly the requested variables in the requested mode",
"A closure called at any later time, from any place, any number of times, behaves as its body with variables captured by value frozen at their value when the closure was created (copies with their own lifetime) and by-reference captures tracking the live variable; its arguments and result are passed as for a plain function. Captured copies are terminated when the last reference to the closure goes.",
["programs","histories"],"every capture list, capture mode, nesting and call history",
"one closure test with a few captures",
["Sources/Srt/closure.alusus"],
[("payload class built by AST processing","Sources/Srt/closure.alusus")],
observe=["values printed by closure bodies"])
add("C17","Object layout: distinct fields and elements never overlap and sizes agree",
"For every class, array and pointer, writes through one access path change exactly that field or element and are seen through every other path to it (member access, reference, pointer arithmetic, casts, injection); distinct fields and elements never overlap; ~size equals the distance between consecutive array elements and follows the natural alignment of the members; copying an object copies every member.",
["programs","inputs"],"every class shape (members of every basic type, nested classes, arrays, injected members) and access path",
"tests touch a few fields of small classes",
[CG+"TypeGenerator.cpp",CG+"ExpressionGenerator.cpp","Sources/Spp/LlvmCodeGen/TargetGenerator.cpp"],
[("member indices and type sizes",CG+"TypeGenerator.cpp")],
observe=["values, sizes and address distances printed by the program"])
add("C18","The Core's containers, references and signals keep their contracts over every history",
"A Core list or map that inherits from a base shows the base's entries overlaid with its own: local overrides win, entries not overridden follow every later change of the base, removing an override re-exposes the base entry, and indices, keys and inherited flags stay consistent; operations that would break the base's sequence are refused and change nothing. Shared references keep an object alive exactly as long as something refers to it and destroy it once. Signals call each slot that is connected when the emission starts and still connected at its turn exactly once, in connection order, also when slots connect, disconnect, emit or are destroyed during the emission. Arrays and maps (with or without a sorted index) are value types: a copy never changes with the original; a subset index lists exactly the members' positions.",
["histories"],"every history of operations over a chain of containers, references, signals and slots, with nested emissions",
"no unit test covers these containers; the grammar, module inheritance and the compiler's own data structures depend on them",
["Sources/Core/Basic/SharedListBase.h","Sources/Core/Basic/SharedMapBase.h","Sources/Core/Basic/PlainListBase.h","Sources/Core/Basic/PlainMapBase.h","Sources/Core/Basic/SharedPtr.h","Sources/Core/Basic/WeakPtr.h","Sources/Core/Basic/signals.h","Sources/Core/Basic/SubsetIndex.h","Sources/Srt/Srl/refs.h","Sources/Srt/Srl/Array.h","Sources/Srt/Srl/Map.h","Sources/Srt/Srl/ArrayIndex.h"],
[("change notifications from base to derived containers","Sources/Core/Basic/"),("reference counting","Sources/Srt/Srl/refs.h")],
observe=["keys, values, inherited flags, results, destruction order and calls after every operation, under address sanitizer"])
add("C19","Calls through every callee form reach the right code with the right arguments",
"A call through a function, member function, property handler, custom operator, function pointer, method pointer, injected member, alias, or with default-width literals and variadic or packed arguments runs exactly the designated body once, with each parameter equal to the given argument (converted to its type), reference parameters bound to the caller's variable, value parameters independent of it, and `this` bound to the object written at the call.",
["programs","inputs"],"every callee form, parameter passing mode and argument combination",
"tests show each form once or twice",
[CG+"ExpressionGenerator.cpp","Sources/Spp/Ast/CalleeTracer.cpp","Sources/Spp/Handlers/FunctionParsingHandler.cpp","Sources/Spp/Handlers/TypeHandlersParsingHandler.cpp"],
[("callee preparation and parameter casting",CG+"ExpressionGenerator.cpp")],
observe=["callee tag, argument values and final variable values printed by the program"])
add("C20","Ahead-of-time builds and other front-end languages behave like the JIT run",
"A program gives the same observable behaviour whether it is executed in place by the JIT or built into an executable, and whether it is written with the English or the Arabic keywords and names of the language and standard library.",
["programs","configurations"],"every program in the common subset of the execution modes and keyword sets",
"the offline build has one hello-world style test; the Arabic tests are translations of the fixed English tests",
["Sources/Spp/BuildManager.cpp","Sources/Spp/LlvmCodeGen/OfflineBuildTarget.cpp","Sources/Spp/LlvmCodeGen/LazyJitBuildTarget.cpp","Sources/Srt/Build.alusus","Sources/Spp/Grammar/SppFactory.cpp","Notices_L18n"],
[("build targets","Sources/Spp/LlvmCodeGen/"),("keyword aliases","Sources/Spp/Grammar/SppFactory.cpp")],
observe=["standard output of both forms"])
add("C21","Tokens are recognised by maximal munch and literals denote their exact value",
"Every source text is split into tokens by longest match; comments and white space never change the meaning, character and string escapes (including numeric escapes and multi-byte characters) denote exactly the stated bytes, integer literals in binary, octal, decimal and hexadecimal, and floating point literals, with English or Arabic prefixes and suffixes, denote the value written in the type that the suffix or the size of the value selects, and a literal of a width that does not exist is reported as an error. Line and column numbers in reports count from the real position.",
["inputs"],"every literal spelling and every placement of comments, spaces and line breaks",
"literal tests use a few spellings; nothing varies layout",
["Sources/Core/Processing/Lexer.cpp","Sources/Core/Processing/Handlers/StringLiteralTokenizingHandler.cpp","Sources/Core/Processing/InputBuffer.cpp","Sources/Core/Data/Grammar/StandardFactory.cpp"],
[("parallel token state machine","Sources/Core/Processing/Lexer.cpp"),("escape decoding","Sources/Core/Processing/Handlers/StringLiteralTokenizingHandler.cpp")],
observe=["printed literal values, dump_ast output and notice positions"])
json.dump
open("/verif/properties.jsonl","w").write("".join(json.dumps(p,ensure_ascii=False)+"\n" for p in P))
print(len(P))
