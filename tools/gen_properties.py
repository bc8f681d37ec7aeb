#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one line per property)."""
import json, os
LEX="src/lexical_analyzer/tokenizer.rs"
TOK="src/lexical_analyzer/token_types.rs"
SYN=["src/syntactic_analyzer/parser.rs","src/syntactic_analyzer/domain_parser/router.rs","src/syntactic_analyzer/domain_parser/formula_parser.rs","src/syntactic_analyzer/domain_parser/method_parser.rs","src/syntactic_analyzer/domain_parser/action_parser.rs","src/syntactic_analyzer/domain_parser/compound_task_parser.rs","src/syntactic_analyzer/domain_parser/predicate_parser.rs","src/syntactic_analyzer/problem_parser/router.rs","src/syntactic_analyzer/problem_parser/init_tn_parser.rs","src/syntactic_analyzer/problem_parser/list_parser.rs"]
AST=["src/syntactic_analyzer/syntax_tree/domain.rs","src/syntactic_analyzer/syntax_tree/problem.rs","src/syntactic_analyzer/syntax_tree/nodes/formula.rs","src/syntactic_analyzer/syntax_tree/nodes/htn.rs"]
DA="src/semantic_analyzer/analyzers/domain_analyzer.rs"
PA="src/semantic_analyzer/analyzers/problem_analyzer.rs"
DT="src/semantic_analyzer/type_checker/domain_type_checker.rs"
GT="src/semantic_analyzer/type_checker/generic_type_checker.rs"
PT="src/semantic_analyzer/type_checker/problem_type_checker.rs"
UE="src/semantic_analyzer/undefined_elements.rs"
TDG="src/semantic_analyzer/tdg.rs"
LIB="src/lib.rs"
LSP=["src/language_server/request_handler.rs","src/language_server/diagnostic_utils.rs","src/bin/language_server/main.rs"]
CLI=["src/bin/hddl_analyzer/main.rs","src/bin/hddl_analyzer/cli_args.rs"]
ERR=["src/output/errors/semantic.rs","src/output/errors/syntactic.rs","src/output/errors/lexical.rs","src/output/errors/generic.rs"]
API="the library's verify, metadata and to_json entry points"
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=mech,where=files[0])],observe_at=[observe] if isinstance(observe,str) else observe,hook_needed=None)))

p("C01","Every input is answered: no crash, no hang, no runaway memory",
"For every byte sequence given as domain and every (optional) byte sequence given as problem, verification, metadata and JSON export each return a result or an error whose message can be printed. None of them panics, overflows the stack, loops forever or uses memory out of proportion to the input, whatever the encoding, the nesting, or the point where the text is cut off.",
["inputs"],"all byte sequences (up to the sizes stated in the evidence) for the domain and for the problem, for all three operations",
"The tests feed some 110 hand-written or benchmark files, nearly all complete ASCII files; the guarantee is about arbitrary, truncated, garbled and adversarially nested bytes.",
[LEX,LIB]+SYN+[DA,PA,TDG]+ERR,"hand-written lexer with a cursor over raw bytes, recursive-descent parser with one token of lookahead, graph algorithms over the parsed model",API)
p("C02","A file is accepted exactly when its tokens follow the HDDL grammar",
"JSON export of a file succeeds if and only if its token sequence, up to the parenthesis that closes the definition, is derivable in the supported HDDL grammar (formulas nested at most 100 deep, one goal and one initial task network per problem; only the last parenthesis of a problem may be missing); otherwise export and verification both report a lexical or syntactic error. No token inside the definition is silently skipped, invented, or absorbed into a neighbouring construct.",
["inputs"],"all token sequences of domain and problem files: well-formed ones, and ones with tokens deleted, inserted, replaced, swapped, duplicated or cut off anywhere",
"The syntax tests try a handful of malformed snippets; a parser that swallows a closing parenthesis in one rare context, or rejects one legal combination of optional parts, passes them all.",
[LEX]+SYN,"one parser function per construct, each matching its own parentheses and optional parts",API)
p("C03","JSON export is a faithful tree of the file",
"For every domain and problem that parses, the JSON export contains exactly the declared requirements, types, constants, predicates, functions, tasks, methods, actions, objects, initial state, goal and initial task network: in file order, with every name, type, argument, formula, ordering, constraint and probability unchanged. Every line number in it is the line on which that name, type or ordering keyword stands in the file.",
["inputs"],"all parsable domain and problem files, in any layout and any order of sections",
"No test inspects the exported JSON beyond a few fields of the syntax tree for a few snippets.",
[LIB]+SYN+AST,"parser actions build the syntax tree, which is serialized with its positions",API)
p("C04","Lexical and syntax errors point at the first offending token",
"When a file is rejected by the lexer or the parser, the error is about the first token at which the text stops being a prefix of any acceptable file: it gives that token's line, counted from 1, and the token that was found (for a malformed word: the word itself and whether it is a bad identifier, keyword or number). It never blames an earlier or later line, and an end of file is reported as such.",
["inputs"],"all rejected domain and problem files, in any layout, with the fault at any position",
"The error tests check the kind of error for single-line snippets; lines are hardly ever checked, and the quantifier is over every position and layout.",
[LEX,TOK]+SYN+ERR,"the tokenizer counts newlines while skipping; each parser function reports the token it could not use with the tokenizer's position",API)
p("C05","Layout and comments never matter, and line numbers follow the text",
"Two files with the same sequence of tokens give the same verdict, the same warnings, the same metadata and the same exported tree, however the tokens are separated by spaces, tabs, newlines (LF or CRLF), blank lines or comments of any content. Only the reported line numbers differ, and each equals the line on which the token concerned now stands.",
["inputs"],"all token sequences (valid or not) and all pairs of layouts of them, including comments with arbitrary bytes and files with more than 65,536 lines",
"Each test file has one layout; the relation quantifies over all layouts of all files.",
[LEX]+SYN+ERR,"whitespace and comment skipping with line counting in the tokenizer, including one-token lookahead",API)
p("C06","Well-formed models are accepted",
"Every domain that follows the grammar, declares each name once, uses only declared names with the right number and types of arguments (a subtype may stand for its supertype, through any number of levels and any of several parents), and has acyclic types and orderings is verified without error. The same holds for every problem that is consistent with its domain.",
["inputs"],"all well-formed domain/problem models over types, constants, predicates, tasks, actions, methods, formulas, task networks, objects, initial state and goal",
"The IPC benchmark tests fix 33 modelling styles; false alarms on other legal combinations are not excluded.",
[DA,PA,DT,GT,PT,UE],"ordered sequence of semantic checks that stop at the first error",API)
p("C07","Every use of an undefined name is reported, and only such uses",
"A model that mentions an undeclared predicate, type, task, subtask, parameter or object is rejected: predicates in preconditions, effects, goals (also inside quantifiers and probabilistic effects) and initial states; types of constants, objects and all parameters of predicates, tasks, actions, methods and the initial task network; tasks refined by methods; subtasks; and arguments of (unquantified) atoms, of refined tasks and of subtasks. When this is the only fault, the error is of the matching kind and gives the undeclared name and the line of that use; and a name is never reported as undefined where it is declared.",
["inputs"],"all models, all kinds of use, all positions in them, and all undeclared names, including ones that are declared in another namespace or differ only in case or by a suffix",
"There is one test per kind of undefined name, each at one position of one fixed model.",
[DA,PA,DT,PT,UE,GT],"declaration tables built first, each use looked up in them",API)
p("C08","Every duplicate declaration is reported, and only duplicates",
"A model that declares the same requirement, constant, predicate, compound task, action or method twice in its domain, the same parameter twice in one action or method, or the same object twice in its problem is rejected. When this is the only fault, the error is of the matching kind and gives the name and the lines of two different declarations of it, the earlier one first; declaring one name in different namespaces or in different scopes is never reported as a duplicate.",
["inputs"],"all models, kinds of declaration, positions and distances between the two declarations, and names",
"One test per kind, with two adjacent declarations in a fixed model.",
[DA,PA]+ERR,"insertion into a set of declared names with the position of the first declaration",API)
p("C09","Wrong numbers of arguments are always reported",
"A model that uses a predicate in a precondition, effect, goal or initial state, refines a task, or uses a task or action as a subtask of a method or of the initial task network with a number of arguments other than the declared one is rejected. When this is the only fault, the error is an arity error of the matching kind that names the predicate or task, the declared number, the number found and the line of that use; uses with the declared number are never reported.",
["inputs"],"all models, uses and arities from none to hundreds",
"One test per kind with a single small arity in a fixed model.",
[DA,PA,DT,PT,UE],"argument lists compared with the declared parameter lists",API)
p("C10","Argument types are consistent exactly along the declared type hierarchy",
"Passing an argument to a predicate, action or compound task is accepted if and only if the argument's declared type equals the declared parameter's type or reaches it by following declared supertypes, or both are untyped (atoms inside quantifiers are not type-checked). Otherwise the model is rejected, and when this is the only fault the error is a type error of the matching kind (predicate or task argument) with the expected type, the found type and the line of the argument.",
["inputs"],"all type hierarchies (forests and graphs with several parents), all uses of parameters, constants and objects as arguments in domains and problems",
"The type tests use hierarchies of two or three types; the relation is over all hierarchies and argument positions.",
[GT,DT,PT,DA,PA],"reachability in a graph of type declarations for every argument",API)
p("C11","A cyclic type hierarchy is reported exactly when there is one",
"A domain whose type declarations contain a cycle, of any length (a type that is its own parent included) and anywhere in the hierarchy, is rejected, and when this is the only fault the error says that the type hierarchy is cyclic. A hierarchy without a cycle, including ones with several parents or repeated declarations, is never reported as cyclic.",
["inputs"],"all finite type hierarchies and all orders and groupings of their declarations",
"Two fixed cyclic hierarchies are tested.",
[GT,DA],"topological sort of the type graph",API)
p("C12","A cyclic subtask ordering is reported exactly when there is one",
"A method or initial task network whose ordering constraints contain a cycle, directly or transitively, is rejected, and when this is the only fault the error says that the ordering is cyclic and gives the line of that task network's ordering section. Totally ordered task networks and acyclic ordering constraints are never reported.",
["inputs"],"all task networks and all sets of ordering constraints, in all ways of writing them",
"One fixed cyclic ordering is tested.",
["src/syntactic_analyzer/syntax_tree/nodes/htn.rs",DA,PA,"src/syntactic_analyzer/problem_parser/init_tn_parser.rs"],"topological sort of each ordering graph",API)
p("C13","A problem is checked completely against its domain",
"For a valid domain and any grammatical problem for it, verification succeeds if and only if all objects have declared types and distinct names, every fact of the initial state and every unquantified goal atom uses a declared predicate with the declared number of declared objects or constants of fitting types, and every subtask of the initial task network uses a declared task or action likewise (its own parameters allowed), with acyclic ordering. Otherwise the reported error is one that the problem really has, with the symbol and line concerned.",
["inputs"],"all pairs of a valid domain and a grammatical problem, with any number of faults in the problem",
"The problem tests are a handful of fixed pairs.",
[PA,PT,UE,"src/syntactic_analyzer/problem_parser/router.rs"],"object table plus the symbol table of the domain",API)
p("C14","Warnings list exactly the compound tasks that cannot be refined",
"Verification of a valid domain warns about a compound task, once and with the line of its declaration, if and only if no sequence of method applications decomposes it into actions only (possibly none). Recursion, partial order and the order of declarations make no difference, and a task that can be refined is never warned about.",
["inputs"],"all valid domains, i.e. all task/method hierarchies, including recursive and unreachable parts",
"Two fixed hierarchies are tested; the property is a fixpoint over arbitrary hierarchies.",
[TDG,DA,"src/output/warnings.rs"],"least fixpoint over the task decomposition graph",API)
p("C15","Metadata counts and nullable tasks are exact",
"For every valid domain the metadata gives the exact numbers of actions, compound tasks and methods, and lists as nullable exactly the compound tasks that can be decomposed into the empty sequence of actions, each once.",
["inputs"],"all valid domains, i.e. all task/method hierarchies",
"A few fixed hierarchies are tested; nullability is a fixpoint over arbitrary hierarchies.",
[TDG,LIB,"src/output/metadata.rs"],"fixpoint over the task decomposition graph",API)
p("C16","The hierarchy class and the reported cycle are right",
"Metadata calls a valid domain non-recursive if and only if no compound task can be decomposed into a task network that contains itself; otherwise it prints a cycle in which every step is a real method of the task it leaves with the task it enters as subtask, and which returns to its start. The class follows from what stands before and after the recursive subtask in the methods of such cycles: grow-and-shrink if on some cycle all of it is nullable and something stands after, else empty if on some cycle what is before is nullable and nothing is after, else growing-empty-prefix if on some cycle what is before is nullable, else plain recursive; the printed cycle has the property of its class.",
["inputs"],"all valid domains with totally ordered methods, and partially ordered methods in which no compound task occurs twice (for other partially ordered methods: recursive or not, and a real cycle)",
"A few fixed hierarchies are tested; the classes quantify over all cycles of arbitrary hierarchies.",
[TDG,"src/output/metadata.rs"],"search for cycles in the decomposition graph with nullability of prefixes and suffixes",API)
p("C17","Results are reproducible",
"Repeating an operation on the same bytes gives the same outcome byte for byte: the same error message, the same warnings in the same order, the same metadata text, the same JSON. This holds within one process and across processes, whatever was analysed before.",
["inputs","histories"],"all inputs, and all sequences of other analyses between two runs",
"Tests look at one run each; hash-order dependence shows only across runs and processes.",
[LIB,DA,PA,TDG,"src/output/metadata.rs"],"no global state; ordered or order-insensitive use of hash tables",[API,"the command line tool"])
p("C18","The order of declarations does not matter",
"Reordering the sections, the declarations within the domain or problem, or the entries of a type list, of the initial state, of a conjunction or of a set of ordering constraints (without changing any parameter list) changes neither whether the model is accepted, nor the set of tasks warned about, nor the counts, nullable tasks and hierarchy class. If the model has a single fault, the kind of error and the name it is about stay the same.",
["inputs"],"all models with at most one fault and all permutations of their declarations",
"Each test model is written in one order.",
[DA,PA,TDG,"src/syntactic_analyzer/domain_parser/router.rs","src/syntactic_analyzer/problem_parser/router.rs"],"declarations are collected before uses are checked",API)
p("C19","Names do not matter",
"Renaming the types, predicates, tasks, actions, methods, parameters, constants, objects and subtask ids of a model, so that different names of one kind (and parameters and constants) stay different, changes nothing but the names in the verdict, warnings, metadata and exported tree. This holds for every legal name, including ones that contain or extend keywords, differ only in case, are very long, or coincide with names of another kind.",
["inputs"],"all models and all injective renamings per kind of name",
"Tests use one set of names per model.",
[LEX,TOK,DA,PA,DT,PT,TDG],"names are opaque strings compared for equality after lexing",API)
p("C20","The language server's diagnostics are what verification reports",
"For an open domain, and for an open problem next to its domain, a diagnostic request returns exactly one diagnostic per error that verification reports and none if there is none: with the same message, marked as an error (duplicate requirements: as information) and placed on the line of the error; a duplicate also refers to the line of the first declaration. For an open problem, an error of its domain is reported along with the problem's own errors, and a document that is neither a domain nor a problem gets an empty report.",
["inputs"],"all contents of the open document and of its domain, with all kinds of errors",
"The language server has no tests.",
LSP,"diagnostic handler maps analysis errors to protocol ranges",["the language server's standard input and output"])
p("C21","The language server survives every history and answers for the latest text",
"After any sequence of open, change (with one or several full-text changes), save, close and diagnostic messages, for any number of documents, the server still runs, answers every request exactly once, and answers as a freshly started server would for the current contents. What is current is the last text sent for an open document, the file on disk for a closed one, and a document that is not open gets an error response. When it starts, the server announces that it takes full texts and answers diagnostic requests; it ends after shutdown and exit.",
["histories"],"all finite sequences of document notifications and requests over domain, problem and other documents",
"The language server has no tests; a test would fix one history.",
LSP,"map from document to content, read by requests",["the language server's standard input and output"])
p("C22","The command line tool reports what the library finds",
"For every pair of files, the verify, metadata and JSON commands print exactly what the library returns for their contents: warnings and then success on standard output, or the error on standard error and nothing on standard output. JSON written to an output file is byte for byte the exported JSON, an error leaves the output file unwritten, and unreadable input files are reported as errors without a crash.",
["inputs","configurations"],"all file contents and all combinations of command, problem option and output option",
"The command line tool has no tests.",
CLI+[LIB],"thin command dispatcher around the library",["the command line tool's exit, standard output, standard error and output file"])
p("C23","Domain and problem compose",
"Adding a problem never hides or alters what is found in the domain: if the domain alone is rejected, the pair is rejected with the same error, whatever the problem contains, and if the pair is accepted its warnings are those of the domain. The exported domain tree and the metadata do not depend on the problem, and a domain given as problem, or a problem given as domain, is rejected with an error.",
["inputs"],"all pairs of domain and problem files, valid or not, related or not",
"Tests use fixed matching pairs.",
[LIB,DA,PA],"the domain is analysed first and its symbol table is passed on",API)
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
