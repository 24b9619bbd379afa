#!/usr/bin/env python3
"""dev helper: regenerate properties.jsonl and MANIFEST.json from this table and plan.py"""
import json, os
import plan
H = os.path.dirname(os.path.abspath(__file__))
S = 'src/tokenizer/slice.rs'
R = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    if hook:
        a['hook_needed'] = hook
    R.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


TW = 'The unit tests of the tokenizer feed a few dozen fixed spellings, one token each; this has to hold for every source text and every sequence of hints.'
OT = ['Tokenizer::next_token']
p('T01', 'Tokens tile the source text and the stream ends with a stable EOF',
  'For every source text, the byte ranges of successive tokens are non-overlapping, ordered and non-empty (EOF excepted), everything between them is white space (space, tab, VT, FF, NBSP, BOM), no token except a comment starts with white space, and the text a token carries is exactly the source text of its range without its delimiters. The stream reaches EOF at the end of the text, and asking again yields EOF at the same empty range. This holds whatever hints the caller gives.',
  ['inputs', 'histories'], 'every UTF-8 source text and every sequence of (expression, template) hints', TW, [S, 'src/tokenizer/mod.rs', 'src/tokenizer/tokens.rs'],
  [('token dispatch and offset bookkeeping', S + ' read_next / SliceTokenizer::next_token'), ('white space skipping', S + ' eat_whitespace')], observe=OT)
p('T02', 'Token positions count lines and columns correctly',
  'For every source text, the start and end position of every token has the byte offset, a line number counted from 1 that grows by one per line terminator (LF, CR, LS, PS, and CR LF as a single one, also inside comments, strings and templates), and a column equal to the number of code points since the line start.',
  ['inputs', 'histories'], 'every UTF-8 source text and every sequence of hints', 'Tests look at offsets of single one-line tokens; lines and columns depend on everything read before.', [S, 'src/tokenizer/mod.rs'],
  [('line and column bookkeeping', S + ' SliceTokenizer::next_token'), ('Position / TokenRange', 'src/tokenizer/mod.rs')], observe=OT)
p('T03', 'Punctuators are read by longest match',
  'At every point of a source text where a punctuator starts, the token produced is the longest ES2017 punctuator that is a prefix of the remaining text, whatever follows it (. before a digit starts a number, / and } obey the hints). A character that starts no token is rejected and never silently skipped or turned into a token.',
  ['inputs'], 'every text starting with a punctuator character or an unexpected ASCII character', TW, [S, 'src/tokenizer/tokens.rs'], [('punctuator tables', S + ' tok_* functions'), ('PunctuatorToken', 'src/tokenizer/tokens.rs')], observe=OT)
p('T04', 'Identifier names extend over exactly the identifier characters',
  'An identifier name token starts at an ASCII letter, $ or _ and extends over the longest run of ASCII letters, digits, $ and _; its name is exactly that text, of any length.',
  ['inputs'], 'every text starting with an ASCII identifier start character whose name is not continued by an escape or a non-ASCII character', TW, [S], [('identifier scanning', S + ' tok_identifier')], observe=OT)
p('T05', 'Numeric literals: extent and value',
  'Decimal literals (integer, fraction, exponent, leading dot) and 0x/0o/0b literals in either case are read over exactly their digits, and the value is the mathematical value of the literal: exact for integers below 2^53, within 1e-12 relative otherwise, infinity or zero beyond the range. A prefix or exponent without digits and a digit outside the radix are rejected.',
  ['inputs'], 'every text starting with a digit or a dot and a digit (legacy octal and a directly following identifier character excepted)', TW, [S], [('number scanning', S + ' tok_num, tok_zero_num, tok_fractional, parse_exponent, parse_decimal_digits')], observe=OT)
p('T06', 'String literals: extent, escapes and rejection of malformed strings',
  'A string literal ends at the first unescaped matching quote; the other quote, escaped quotes, escaped line terminators (CR LF as one), and every single character escape are part of it, and the value carried is the source text between the quotes. An unterminated string, an unescaped line terminator, an incomplete or invalid \\x, \\u or \\u{} escape and a code point above 10FFFF are rejected.',
  ['inputs'], 'every text starting with a quote (legacy octal escapes excepted)', TW, [S], [('string scanning', S + ' tok_string')], observe=OT)
p('T07', 'White space, line terminators and comments are delimited exactly',
  'White space between tokens is skipped completely; LF, CR, LS, PS are line terminator tokens, CR LF a single one. A // comment extends to but excludes the next line terminator or the end of the text, a block comment extends to the first */, may span lines, and is rejected when unterminated; both carry exactly the text between their delimiters.',
  ['inputs'], 'every text starting with white space, a line terminator or a comment opener', TW, [S], [('comments', S + ' tok_slash'), ('white space', S + ' eat_whitespace')], observe=OT)
p('T08', 'Template chunks end at the first unescaped backtick or ${',
  'A ` starts a no-substitution template or a head; under the template hint a } starts a middle or tail, otherwise it is the closing brace. A chunk ends at the first ` or ${ not preceded by a backslash escape, carries the raw text in between (line terminators, lone $ and { included), and is rejected when unterminated.',
  ['inputs'], 'every text starting with ` or }, under both hint values', TW, [S], [('template scanning', S + ' tok_template_head, tok_curly_close')], observe=OT)
p('T09', 'Regular expression literals versus division',
  'Under the expression hint a / that opens no comment starts a regular expression that ends at the first / not escaped and not inside a character class, followed by the longest run of flag letters; pattern and flags are exactly the source text. A regular expression interrupted by a line terminator or the end of the text is rejected. Without the hint the same / is the division punctuator / or /=.',
  ['inputs'], 'every text starting with /, under both hint values', TW, [S], [('regex scanning', S + ' tok_slash')], observe=OT)
p('T10', 'Hints influence only / and }',
  'Two tokenizers over the same text that differ only in the hints given for a token produce the same token with the same range, and the same stream afterwards, unless the expression hint differs at a / that opens no comment or the template hint differs at a }. The strict flag never changes a token.',
  ['inputs', 'configurations'], 'every source text and every pair of hint settings', 'A relation between two runs; no test compares runs under different hints.', [S, 'src/tokenizer/mod.rs'], [('hint accessors', 'src/tokenizer/mod.rs Hint'), ('dispatch on / and }', S)], observe=OT)
p('T11', 'Tokenizing never crashes internally and always terminates',
  'For every source text and every sequence of hints, each request for a token finishes and either yields a token or rejects the text deliberately; it never slices outside the text or inside a character, overflows arithmetic, unwraps a missing value or loops forever.',
  ['inputs', 'histories'], 'every UTF-8 source text and every sequence of hints', TW, [S], [('byte indexing and slicing', S)], observe=OT)

try:
    import props_parser
    props_parser.add(p)
except ImportError:
    pass

NA = []
try:
    NA = props_parser.NA
except NameError:
    pass


def main():
    with open(H + '/properties.jsonl', 'w') as f:
        for r in R:
            f.write(json.dumps(r) + '\n')
    checks = []
    for r in R:
        if r['id'] in plan.PLAN:
            P = plan.PLAN[r['id']]
            checks.append({'property': r['id'], 'quick_cmd': 'python3 check.py %s' % r['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % r['id'],
                           'technique': 'symbolic execution of the LLVM IR of the real code with z3, against an independent reference',
                           'level': 'model_checking', 'level_note': ('Bounded: holds for every value within: ' + P['bounds'] + '. Outside: ' + P['outside'] + '. Trusted: rustc/LLVM, the symbolic executor (cross-checked by native replay of models), z3, the reference.')[:1500]})
    hooks = [c for c in os.popen("git -C /repo log --format='%H %s'").read().splitlines() if c.split(' ', 1)[1].startswith('hook:')]
    m = {'version': 1, 'setup_cmd': 'true', 'hooks': {'guard': '--cfg jsparse_verif', 'enable': "RUSTFLAGS='--cfg jsparse_verif' when building the harness crate (check.py does it)", 'source_commits': [h.split()[0] for h in reversed(hooks)]},
         'checks': checks, 'not_applicable': NA}
    json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)


main()
