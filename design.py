#!/usr/bin/env python3
"""dev helper: regenerate DESIGN.md from design_head.md, plan.py, properties.jsonl and seeded/*/meta.json"""
import json, os
import plan
H = os.path.dirname(os.path.abspath(__file__))
HOW = {
'T01': 'A monitor (harness/src/tokh.rs) walks the stream the real tokenizer produces and asserts order, tiling, white space between, text of each token, stability of EOF.',
'T02': 'Reference position table computed from the text alone (one pass counting LF, CR, LS, PS, CR LF and code points); start and end of every token of the real stream compared with it.',
'T03': 'Reference longest-match over the ES2017 punctuator list; token, extent and rejection compared.',
'T04': 'Reference scan over [A-Za-z0-9_$]; name and extent compared.',
'T05': 'Reference number reader in u128/scaled-decimal arithmetic, independent of the code; the value is compared as an f64 (terms of f64 are carried by value set, see engine).',
'T06': 'Reference string recognizer with the escape grammar; extent, carried text and rejection compared.',
'T07': 'Reference for white space, line terminators, // and /* */; token kind, extent and carried text compared.',
'T08': 'Reference chunk recognizer; both hint values are symbolic.',
'T09': 'Reference regular-expression-literal recognizer; both hint values are symbolic.',
'T10': 'Two tokenizers over the same symbolic text run in lock step with different symbolic hints (relational); ranges, tokens and the rest of the streams compared.',
'T11': 'Every panic is an outcome of a path and classified (deliberate rejection / internal: bounds, overflow, slice, unwrap None, unreachable); step limit per token for termination.',
'G01': 'Verdict of the real parser over a token stream with symbolic tokens against the reference recognizer (gram.rs), at operator shapes and at every expression position.',
'G02': 'As G01 with the separator of every gap symbolic (7 kinds, as tokens delivered to the real parser).',
'G03': 'The stream holds slash tokens whose reading depends on the hint the real parser passes; the reference decides by grammar which reading is right.',
'G04': 'The stream holds template chunks whose reading (brace or continuation) depends on the template hint the real parser passes.',
'G05': 'As G01 over call/member/new chains.', 'G06': 'As G01 over object and array literals.', 'G07': 'As G01 over function and arrow heads and bodies.',
'G08': 'As G01 over all nestings of 26 function kinds with uses of yield and await inside and after.',
'G09': 'As G01 over class heads and bodies.', 'G10': 'As G01 over statements at every statement position.', 'G11': 'As G01 over for heads; expressions with `in` at every position.',
'G12': 'As G01 over declarations and patterns.', 'G13': 'As G01 over module items.', 'G14': 'As G01 with every word at every name position; in g_spell the characters of the word are symbolic, so the string comparisons of the real code are decided by the solver.',
'G15': 'Independent bracket matcher (a stack over the tokens of an accepted program); no grammar involved, so it also covers programs the reference leaves open.',
'G16': 'Every panic classified as in T11, step limit per program, and the token count that the parser consumed bounded; no grammar involved.',
'G17': 'Relational: two runs of the real parser on the same symbolic tokens with two symbolic, equivalent separator vectors must agree.',
'G18': 'Relational (with and without the construct in front) and against the reference (construct inside a body that goes on behind it).',
'G19': 'Source text with symbolic characters/words through the real tokenizer and the real parser; verdict against the reference over the tokens the text was spelled from, or (g_chars) over the tokens of the reference tokenizer.',
'G20': 'Every program of up to N arbitrary tokens, and forms at pairs of positions, against the reference: the catch-all of the parser checks.',
'G21': 'Concrete deep/long scaffolds around symbolic tokens, against the reference evaluated on the same scaffold.',
}
MISSED = {
 'async-newline-unreachable': 'missed at first: G16 had no separators; harnesses total_sep/seps/sepm/asi added',
 'in-flag-not-restored': 'missed at first: G18 looked behind complete constructs only; harnesses leave/leave2 added (a construct inside a body that goes on behind it)',
}
try:
    import design_missed
    MISSED.update(design_missed.MISSED)
except ImportError:
    pass
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
o = [open(H + '/design_head.md').read().rstrip(), '', '## Per property', '', 'Harness names refer to `harness/src/main.rs`. “Free” means: a symbolic variable over the whole alphabet named.', '']
for r in props:
    i = r['id']
    if i not in plan.PLAN:
        continue
    P = plan.PLAN[i]
    o += ['### %s %s' % (i, r['title']), '', HOW.get(i, ''), '', '- quick: %s' % ', '.join(P['quick']), '- thorough adds: %s' % (', '.join(P['thorough']) or 'nothing'), '- bounds: ' + P['bounds'], '- outside: ' + ('see “What the grammar checks leave open”' if P['outside'].startswith(plan._G[:40]) else P['outside']), '']
o += ['## Planted bugs (seeded/) and what catches them', '', 'Each was written from the text of the property and the code, validated in a scratch copy (compiles, stable tests pass, demo 0/nonzero), then run against its property’s quick check.', '', '| bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(H + '/seeded/%s/meta.json' % d))
    o.append('| %s | %s | %s | %s |' % (d, m['property'], ' '.join(m['needs'].split()).replace('|', '\\|'), m['property'] + ' quick' + (' (%s)' % MISSED[d] if d in MISSED else '')))
open(H + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
