"""The parser properties (see props.py)."""
E = 'src/parser/expressions.rs'
ST = 'src/parser/statements.rs'
F = 'src/parser/functions.rs'
C = 'src/parser/classes.rs'
D = 'src/parser/declarations.rs'
M = 'src/parser/module.rs'
U = 'src/parser/utils.rs'
X = 'src/parser/mod.rs'
OP = ['parse_root returns (accepted) or panics (rejected)']
WP = 'The parser tests accept a handful of fixed programs and reject none; this quantifies over every token sequence, and a wrong acceptance or a dependency between distant constructs shows only on particular sequences.'
PRE = 'parse_root accepts a program by returning and rejects it by a panic. '


def add(p):
    def q(*a, **k):
        p(*a, observe=OP, **k)
    q('G01', 'Operator expressions are accepted exactly when well formed',
      PRE + 'A program built from unary, binary, assignment, conditional, comma, update, in/instanceof and grouping operators is accepted exactly when the ES2017 expression grammar derives it: a binary operator needs an operand on both sides, a prefix operator one behind, ? needs its :, an arrow body ends the assignment expression, and in every syntactic position the same expressions are allowed. (What is a valid operand of =, ++ and --, and unary operators before **, are not part of this.)',
      ['inputs'], 'every sequence of operator and operand tokens, in every position of an expression', WP, [E, U], [('operator loop', E + ' parse_fancy, parse_assignment_expression, parse_unary_expression'), ('expression entry points', E + ' parse_expression')])
    q('G02', 'Semicolons are inserted exactly where ES2017 allows; restricted productions hold',
      PRE + 'A statement missing its semicolon is accepted exactly when the next token is }, the end of the program or preceded by a line terminator (which may be inside a block comment), and a following token that can continue the statement does continue it; do-while needs no semicolon, for heads get none. A line terminator is not allowed before =>, a postfix ++ or --, after throw, and within async function and async arrow heads; after return, break, continue and yield it ends the statement or operand.',
      ['inputs'], 'every statement and declaration kind, every separator mix (blanks, line terminators, comments) between its tokens and every following token', WP, [U, ST, E, F, M], [('semicolon insertion', X + ' semicolon_inner'), ('no_line_terminator checks', E + ', ' + ST + ', ' + F)])
    q('G03', 'A slash is a regular expression exactly where an operand is expected',
      PRE + 'At every point of a program, / opens a regular expression literal when the parser needs an operand there and is a division (or /= assignment) when an operand is complete, also across line terminators and comments and after ), }, ], ++, templates, keywords used as property names, and contextual keywords used as identifiers. A program is therefore accepted exactly when this reading makes it well formed.',
      ['inputs'], 'every point of a program and every separator before the slash', WP, [E, X, ST], [('expression hint', X + ' Hint handling / expect_expression'), ('operand positions', E)])
    q('G04', 'Templates: substitutions nest with braces and end where they should',
      PRE + 'Inside ${ } any expression is accepted, including blocks, object literals, functions, classes and further templates, and the } that closes the substitution, and no other }, continues the template; after the template ends, } is an ordinary brace again. A template is allowed wherever an operand is and as a tag call after any callable expression; a substitution that is empty, unbalanced or holds more than one expression is rejected.',
      ['inputs'], 'every sequence of template chunks, braces and operands', WP, [E, X], [('template parsing', E + ' parse_template_literal_expression'), ('template hint', X)])
    q('G05', 'Calls, member access, new and spread arguments follow the grammar',
      PRE + 'Member access takes any identifier name (reserved or not), computed access one full expression, an argument list any number of assignment expressions and spreads with an optional trailing comma; new may be nested and takes optional arguments, new is followed by a member expression or .target. Every chain of these is accepted exactly when well formed (where super and new.target may stand is not part of this).',
      ['inputs'], 'every sequence of call, member, new, super, this and template tokens', WP, [E], [('member and call chains', E + ' parse_left_hand_expression'), ('arguments', E + ' parse_call_arguments')])
    q('G06', 'Object and array literals accept exactly the ES2017 forms',
      PRE + 'An object literal takes shorthand names, name: value pairs, computed names, methods, generator and async methods, getters without and setters with one parameter, separated by commas with an optional trailing one; get, set, async and every reserved word are also plain names, but a reserved word is no shorthand. An array literal takes elements, spreads and holes (object spread and name = default outside patterns are not part of this).',
      ['inputs'], 'every sequence of tokens inside object and array literals', WP, [E], [('object literal', E + ' parse_object_literal_expression, parse_object_property'), ('array literal', E + ' parse_array_literal_expression')])
    q('G07', 'Functions and arrow functions: heads, parameters and bodies',
      PRE + 'Function declarations, expressions, generators, async functions and methods, and arrow functions with an identifier or parenthesized parameters are accepted exactly in the ES2017 forms: parameters are identifiers or patterns with optional defaults, a rest parameter only last and without default, an optional trailing comma after the others, a declaration needs a name. Empty parentheses and ones with a rest element or trailing comma must be followed by =>, every well formed parameter list may be, and an arrow body is one assignment expression or a block (which other expressions are refused before => is not part of this).',
      ['inputs'], 'every sequence of tokens in and around function heads and arrow parameters', WP, [F, E], [('function heads and bodies', F), ('arrow function cover grammar', E + ' parse_assignment_expression, parse_cover_parenthesized_expression')])
    q('G08', 'yield and await are operators exactly inside their own functions',
      PRE + 'yield is an operator in the body of a generator and await in the body of an async function, method or arrow; anywhere else they are reserved words and rejected, except as property names. Entering a nested function, method or arrow of another kind changes this for its body, and leaving it restores what held before, also in computed names, heritage, defaults, templates and for heads (their use in the parameters of their own kind of function is not part of this).',
      ['inputs'], 'every use of yield and await in every nesting of function kinds', WP, [E, F, X], [('yield and await flags', X + ' with / without flags'), ('yield expression', E + ' parse_yield_expression')])
    q('G09', 'Classes: heads, members and modifiers',
      PRE + 'A class declaration needs a name (optional in expressions and export default), takes an optional heritage that is a left-hand-side expression, and a body of semicolons and members: [static] [get|set|async|*] name (parameters) { body }, name being any identifier name, string, number or computed; static, get, set and async are also plain member names, a getter takes no parameter and a setter one. Anything else in a class is rejected.',
      ['inputs'], 'every sequence of tokens in and around class heads and bodies', WP, [C], [('class members', C + ' parse_class_item, parse_method_head, parse_method_tail')])
    q('G10', 'Statements are accepted exactly in their ES2017 forms',
      PRE + 'if/else, while, do-while, with, switch (at most one default), try with catch and/or finally, throw, return, break, continue, labels, debugger, blocks, empty and expression statements are accepted exactly in the forms of the grammar wherever a statement may stand, else belongs to the nearest if, and an expression statement does not start with { or function or class. (Whether jump targets and return placement make sense is not part of this, nor are declarations as the sole body of if, loops and labels.)',
      ['inputs'], 'every sequence of statement tokens, at every position of a statement', WP, [ST], [('statement dispatch', ST + ' parse_statement'), ('each statement', ST)])
    q('G11', 'for heads: three-part, in and of loops; `in` as an operator',
      PRE + 'A for head is either three optional parts separated by two semicolons, or a single binding or left-hand side followed by in and an expression or of and an assignment expression. The operator in is not available at the top level of the first part of a for head, in initializers of its declarations included, but is available inside brackets, braces, substitutions, functions and arguments there and everywhere else, in particular after the loop head.',
      ['inputs'], 'every token sequence in a for head, and every expression with in at every position of a for statement', WP, [ST, E, D], [('for statement', ST + ' parse_for_statement'), ('In flag', X)])
    q('G12', 'Variable declarations and destructuring patterns',
      PRE + 'var, let and const declare one or more comma separated bindings, each an identifier or an object or array pattern with an optional initializer; patterns take shorthand names with defaults, name: target pairs, computed names, holes, nested patterns and a last rest element in arrays, and nothing else. A reserved word is never a binding name, while any name may be a property name before a colon.',
      ['inputs'], 'every token sequence in declarations, patterns, parameters and catch clauses', WP, [D, ST], [('binding patterns', ST + ' parse_binding_pattern'), ('variable and lexical declarations', D)])
    q('G13', 'import and export declarations',
      PRE + 'Import declarations (bare, default, namespace, named, and default combined with either) and export declarations (*, named lists with optional from, default expression, function or class, and declarations) are accepted exactly in the ES2017 forms, with as renaming and optional trailing commas, and only at the top level of the module. A default export of a function or class may omit its name, a plain exported one may not (which names may stand in braces is not part of this).',
      ['inputs'], 'every token sequence in import and export declarations', WP, [M, D], [('module items', M + ', src/parser/file.rs')])
    q('G14', 'Reserved words are never identifiers, contextual words always are',
      PRE + 'A reserved word is rejected as variable, parameter, function, class, label, catch or default and namespace import name and as identifier reference, and accepted as property name in member access, literals, classes and export renamings. A name that merely starts with, ends with or resembles a keyword, and the contextual words as, async, from, get, of, set, target where the grammar does not give them a meaning, are ordinary identifiers.',
      ['inputs'], 'every identifier spelling at every place of a program where a name can stand', WP, [U, E, X], [('identifier classification', X + ' is_binding_identifier'), ('keyword dispatch', ST)])
    q('G15', 'Whatever is accepted has balanced brackets',
      PRE + 'In every accepted program each {, (, [ and template head is closed by its own kind in the proper order, and no closing bracket is left over.',
      ['inputs'], 'every token sequence', WP, [X, E, ST, M], [('end of program', 'src/parser/file.rs parse_module'), ('closing brackets', E + ', ' + ST)])
    q('G16', 'Parsing terminates and never fails internally',
      'For every program, well formed or not, parse_root finishes and either accepts or rejects it with a deliberate error; it never indexes outside its token buffer, overflows a counter, reads past the end of the program or loops.',
      ['inputs'], 'every token sequence, including truncated programs', WP, [X, U], [('token look-ahead buffer', X + ' Parser::tokens, index, count'), ('flag stack', X + ' flags_stack')])
    q('G17', 'White space and comments never change whether a program is accepted',
      PRE + 'Replacing the separators between tokens by others, any mix of white space, comments and line terminators, does not change whether the program is accepted, provided a line terminator (also one inside a block comment) stays between the same tokens.',
      ['inputs'], 'every program and every pair of equivalent separators', 'A relation between two programs; no test compares two layouts of one program.', [X, U], [('skipping of trivia and newline tracking', X + ' read_token')])
    q('G18', 'A complete construct leaves no trace on what follows',
      PRE + 'After any complete statement, function, class, template, parenthesis or pattern, the rest of the program is accepted exactly as if the construct had not been there: no grammar flag (in, yield, await, return, default, template) and no tokenizer hint leaks out of it, in any surrounding function, block, class or substitution.',
      ['inputs', 'histories'], 'every construct before every continuation', 'Leaks show only when a particular construct precedes a particular continuation; no test combines them.', [X, E, F, ST], [('flag save and restore', X + ' with / without / flags_stack'), ('hint handling', X)])
    q('G19', 'Source text end to end: tokenizer and parser agree',
      'For every source text, parse_root over the text gives the verdict of the grammar applied to its tokens: the parser asks for each token with the right hints and only once, and white space, comments, numbers, strings, templates, regular expressions and operators written next to each other are told apart. A text the tokenizer rejects anywhere is rejected.',
      ['inputs'], 'every source text', WP, [X, E, S], [('hand-over of tokens', X + ' Parser::tok, token buffer'), ('tokenizer', S)])
    q('G20', 'A module is accepted exactly when the ES2017 grammar derives it',
      PRE + 'For every sequence of tokens, the program is accepted exactly when it is an ES2017 module: statements and declarations in any order, imports and exports at top level, up to the end of the text. (Early errors, and the other checks named with the single properties, are not part of this.)',
      ['inputs'], 'every token sequence', WP, [X, M, ST, E, F, C, D], [('module items', 'src/parser/file.rs parse_module'), ('statement list items', ST + ', ' + D)])
    q('G21', 'Size and nesting do not matter',
      PRE + 'Constructs nested in themselves many levels deep and lists of many elements are accepted exactly like small ones, and what follows them is judged as usual: look-ahead, flags and counters keep working whatever was read before.',
      ['inputs'], 'every nestable construct and list, any depth and length (within the native stack)', 'Tests nest one or two levels and list a few elements.', [X, E, ST], [('flag stack and token buffer', X), ('recursive descent', E + ', ' + ST)])

    p('N01', 'Printing a syntax tree gives source text that parses back to the same tree',
      'For every syntax tree the printer accepts, the text it prints parses to the same tree: parentheses, semicolons and separators are put where the grammar needs them.',
      ['inputs'], 'every syntax tree', 'Round trips hold for the trees a test prints; precedence and separator mistakes show on particular nestings.', ['src/ast'], [('printer', 'src/ast')])
    p('N02', 'The command line tool accepts a file exactly when it is a module',
      'The program reads the file named on its command line and reports success exactly when its text is accepted as a module.',
      ['inputs'], 'every file', 'No test runs the program.', ['src/main.rs'], [('main', 'src/main.rs')])


S = 'src/tokenizer/slice.rs'
NA = [
    {'property': 'N01', 'reason': 'AST construction and printing (src/ast) is commented out in src/lib.rs and does not compile: there is no code to execute symbolically.'},
    {'property': 'N02', 'reason': 'The command line driver (src/main.rs) reads a file named on the command line and parses it repeatedly; file system input is outside what can be encoded, and what it calls is covered by G19.'},
]
