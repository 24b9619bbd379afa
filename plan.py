"""Which harnesses decide which property, at which tier, with which stated bounds."""
import json, os

_H = os.path.dirname(os.path.abspath(__file__))
# reachability witnesses (sym_cover ids) every harness has to reach, as measured on the unchanged tree
COVERS = json.load(open(_H + '/covers.json')) if os.path.exists(_H + '/covers.json') else {}
CAP = {}
COMMON_ASSUMPTIONS = [
    'LLVM IR of rustc stable at opt-level 1 with overflow checks, fat LTO of the harness crate, jsparse and std, is what is executed; the optimiser and rustc are trusted',
    'heap allocation never fails; panics unwind to the harness (panic=unwind)',
    'symbolic values are small-domain integers chosen by the harness (listed per harness as `symbols`)',
]
_SHAPE = 'free slots hold any ASCII character, except that at most one slot may hold one of 24 chosen 2-, 3- and 4-byte characters (NBSP, LS, PS, BOM, look-alikes, CJK, emoji)'
_G = 'longer free token sequences; identifiers other than the class representatives (spellings are covered by G14, end-to-end texts by G19); programs the reference leaves unspecified: validity of assignment, update and arrow targets, unary before **, words reserved only in strict code, jump targets, placement of return, super and new.target, identifiers in import/export specifiers, lexical and function declarations in statement position, object spread/rest, async generators, optional catch binding, ASI before /, early errors'
PLAN = {
    'T01': dict(quick=['tile_a3', 'tile_ctx', 'tile_long', 'tile_long2'], thorough=['tile_a4', 'tile_ctx3'],
                bounds='whole texts of 3 (thorough 4) free characters; 22 contexts (inside and at the edge of every token kind) around 2 (thorough 3) free characters; 300- and 66000-character runs in 9 token kinds followed by 2 free characters; every combination of the two hint bits per token; ' + _SHAPE,
                outside='texts with more simultaneous free characters; several multi-byte characters at once'),
    'T02': dict(quick=['pos_a3', 'pos_ctx', 'pos_long', 'pos_long2', 'pos_lines'], thorough=['pos_a4', 'pos_ctx3'],
                bounds='as for token tiling, plus 300 consecutive LF, CR, CRLF lines and a block comment of 300 CRLF lines followed by 2 free characters; ' + _SHAPE,
                outside='texts with more simultaneous free characters; texts in which the reference leaves the token unspecified'),
    'T03': dict(quick=['punct4', 'punct6', 'punct_w', 'punct_s'], thorough=['tile_ctx3'],
                bounds='5 free ASCII characters; 6 characters from the 27 punctuator characters; streams of 5 operator characters; multi-byte white space before and after',
                outside='longer runs (no punctuator is longer than 4 characters)'),
    'T04': dict(quick=['ident5', 'ident8', 'ident_w', 'ident_l', 'ident_l2'], thorough=[],
                bounds='5 free ASCII characters; 8 characters of a 10-character table; 300 and 70000 character names with free characters at both ends', outside='non-ASCII identifiers and identifier escapes (not specified)'),
    'T05': dict(quick=['num_a4', 'num_int', 'num_int15', 'num_hex', 'num_hexl', 'num_oct', 'num_octl', 'num_bin', 'num_binl', 'num_pre', 'num_dec', 'num_dec6', 'num_frac', 'num_frac2', 'num_exp', 'num_exp2', 'num_tail'], thorough=[],
                bounds='10 free decimal digits; 2-20 digit integers with 6 free digits; up to 7 hex, 6 octal, 8 binary digits plus longer forms with leading zeros; up to 4 integer/fraction/exponent characters free; listed boundary exponents; value exact for integers below 2^53, within 1e-12 otherwise',
                outside='correct rounding in the last place; magnitudes within 10^18 of the ends of the double range; legacy octal; literals directly followed by an identifier character'),
    'T06': dict(quick=['str5', 'str_s', 'str_d', 'str_bs', 'str_x', 'str_u', 'str_ub', 'str_ub2', 'str_esc2', 'str_mix', 'str_l', 'str_l2'], thorough=['str7'],
                bounds='either quote and 5 (thorough 7) free ASCII characters; 4 free characters of any width after the opening quote, a backslash, \\x, \\u, \\u{; 7 free \\u{} digits; 70000-character strings', outside='legacy octal escapes (not specified); decoded value (the token carries the source text)'),
    'T07': dict(quick=['com_b', 'com_b2', 'com_l', 'com_l2', 'com_s', 'com_lt', 'com_long', 'punct_w'], thorough=['tile_a4'],
                bounds='5 free characters after /* ; 4 after // and in whole texts; 7 characters from a comment alphabet; 70000-character comments; ' + _SHAPE, outside='HTML-like comments, hash-bang lines, Unicode Zs white space other than NBSP'),
    'T08': dict(quick=['tpl5', 'tpl7', 'tpl_w', 'tpl_c', 'tpl_l'], thorough=['tile_ctx3'],
                bounds='` or } and 5 free ASCII characters; 7 characters from a 10-character template alphabet; 4 free characters of any width; 70000-character chunks; both hint values', outside='validity of escapes inside templates; cooked value'),
    'T09': dict(quick=['re5', 're7', 're_w', 're_f', 're_l'], thorough=['tile_ctx3'],
                bounds='/ and 5 free ASCII characters; 7 characters from a 10-character regex alphabet; 4 free characters of any width; 70000-character patterns; both hint values', outside='validity of the pattern and flags; flags containing characters other than a-z'),
    'T10': dict(quick=['hint4', 'hint_ctx', 're5', 'tpl5', 'punct6'], thorough=['hint5', 're7', 'tpl7'],
                bounds='3 (thorough 5) free characters in whole texts, 2 inside 22 contexts, all pairs of hint settings; two-run comparison', outside='texts with more simultaneous free characters'),
    'T11': dict(quick=['total3', 'total_ctx', 'total_num', 'total_long'], thorough=['total4', 'total_ctx3'],
                bounds='whole texts of 3 (thorough 4) free characters, 22 contexts around 2 (thorough 3), 6 number characters, 300-character runs; every hint combination; 40,000,000 instructions per token; ' + _SHAPE,
                outside='longer free texts; stack depth'),

    'G01': dict(quick=['g_op4', 'g_op5_x', 'g_opctx', 'g_form', 'g_form2', 'g_mform_any', 'g_mform'], thorough=['g_op4_x', 'g_op6', 'g_opctx3', 'g_form3'], bounds='4 (thorough 5) free tokens over all operators and operands in 3 shapes; 6 (thorough 7) in 11 shapes over 12 tokens; 2 (thorough 3) arbitrary tokens at 57 expression positions; each of 105 expression forms, well formed and not, at each expression position, alone, with one arbitrary token behind, and inside each other position; each form with one arbitrary token inserted, replaced or removed anywhere, at every position', outside=_G),
    'G02': dict(quick=['g_asi', 'g_asi_mod_x', 'g_asi_fn_x', 'g_asiform', 'g_asiform2', 'g_sep', 'g_sep_s', 'g_sep_m'], thorough=['g_asi_x'], bounds='59 statement shapes, 16 module shapes and 16 function shapes in 8 surroundings with up to 4 (thorough 5) free tokens over 20, each gap free over 7 separators (none, blank, LF, CR LF, LS, comment with and without line terminator); each of 94 statement forms followed by any separator and 26 continuations; any separator in any one gap of every expression form at every expression position, every statement form at every statement position and every module item', outside=_G),
    'G03': dict(quick=['g_sl', 'g_sl2_x', 'g_slform', 'g_slform2', 'g_slstmt'], thorough=['g_opctx3', 'g_form3'], bounds='7 shapes with 1 to 3 arbitrary tokens around a slash; 125 preceding constructs x 3 slash readings with up to 3 free tokens over 38; slash readings at 57 expression positions; every expression form followed by any separator and each slash reading at every expression position; slash readings behind, before and inside every statement', outside=_G),
    'G04': dict(quick=['g_tpl', 'g_tpl_nest_x', 'g_tform', 'g_tform2', 'g_tforms', 'g_mtform'], thorough=['g_tpl_x'], bounds='12 template shapes with up to 5 (thorough 6) free tokens over 16; all nestings of 9 substitutions in each other with up to 3 free tokens; every expression form in 11 substitutions at every expression position; every statement form at every statement position inside functions in substitutions; all template positions with 9 operands, with one arbitrary token inserted, replaced or removed anywhere', outside=_G),
    'G05': dict(quick=['g_call', 'g_cforms', 'g_mcall'], thorough=['g_call_x', 'g_form'], bounds='20 call, member and new shapes with up to 4 (thorough 5) free tokens over 20; 99 chains in 14 continuations at every expression position; each chain with one arbitrary token inserted, replaced or removed anywhere in 4 surroundings', outside=_G),
    'G06': dict(quick=['g_lit_x', 'g_lit_k', 'g_oform', 'g_oform2', 'g_moform'], thorough=['g_form2'], bounds='23 object and array shapes with up to 5 free tokens over 22; 16 shapes with 1 or 2 arbitrary tokens; 140 literals at every expression position, alone and with one token behind, and nested in 17 positions twice; each literal with one arbitrary token inserted, replaced or removed anywhere', outside=_G),
    'G07': dict(quick=['g_fun', 'g_fform', 'g_fform2', 'g_mfform'], thorough=['g_fun_x'], bounds='32 function and arrow shapes with up to 5 (thorough 6) free tokens over 17; 107 functions and arrow functions at every expression position, with one token behind, and in each of 26 function kinds; each with one arbitrary token inserted, replaced or removed anywhere in 5 surroundings', outside=_G),
    'G08': dict(quick=['g_ya', 'g_ya_hxx', 'g_yform', 'g_yform2'], thorough=['g_myform', 'g_formf'], bounds='86 uses of yield and await in all combinations of 26 function kinds and 27 preceding or nested constructs; up to 6 free tokens over 10 in each function kind; every use in every function kind around every nesting and every expression position; thorough: with one token inserted, replaced or removed anywhere', outside=_G),
    'G09': dict(quick=['g_cls', 'g_cls_k', 'g_cform', 'g_mcform', 'g_mcpos'], thorough=['g_cls_x'], bounds='25 class shapes with up to 4 (thorough 5) free tokens over 20; 18 shapes with 1 or 2 arbitrary tokens; 109 class bodies at 33 class positions, with one token behind; each body and each position with one arbitrary token inserted, replaced or removed anywhere', outside=_G),
    'G10': dict(quick=['g_stm', 'g_stmctx', 'g_sform', 'g_sform2', 'g_msform', 'g_mstmt'], thorough=['g_stm_x', 'g_sform3'], bounds='34 statement shapes with up to 5 (thorough 6) free tokens over 22; 3 arbitrary tokens at 36 statement positions; each of 94 statement forms, well formed and not, at each statement position, with one arbitrary token behind, and inside each other position; each form with one arbitrary token inserted, replaced or removed anywhere', outside=_G),
    'G11': dict(quick=['g_for_x', 'g_in', 'g_inform', 'g_inform2', 'g_mfor'], thorough=[], bounds='25 for heads with up to 6 free tokens over 14; 34 expressions with `in` at 24 positions of a for statement followed by up to 2 tokens over 38; every expression form and expressions with in at every expression position at each position of a for statement; 70 for heads with one arbitrary token inserted, replaced or removed anywhere', outside=_G),
    'G12': dict(quick=['g_dec_x', 'g_dec_k', 'g_bind', 'g_bind2', 'g_mbind_any'], thorough=['g_dec_xx', 'g_bind3', 'g_mbind'], bounds='27 declaration, parameter and destructuring shapes with up to 5 (thorough 6) free tokens over 15; 23 shapes with 1 or 2 arbitrary tokens; 94 binding forms at 59 binding positions, with one token behind, and nested in each pattern position (thorough: twice); each with one arbitrary token inserted, replaced or removed anywhere', outside=_G),
    'G13': dict(quick=['g_mod_x', 'g_mod_k', 'g_modform', 'g_modexp', 'g_mmod'], thorough=['g_mod_xx', 'g_sep_m'], bounds='35 import and export shapes with up to 6 (thorough 7) free tokens over 19; 27 shapes with 1 or 2 arbitrary tokens; 134 declarations in 10 surroundings, with one token behind; every expression form behind export default and export; each declaration with one arbitrary token inserted, replaced or removed anywhere', outside=_G),
    'G14': dict(quick=['g_name', 'g_name_ctx', 'g_spell'], thorough=[], bounds='every token class, in particular every reserved and contextual word, at 76 places of a program; every name at those places in 26 function kinds; every word of 1 to 11 characters over a 30-letter alphabet spelled out at those places', outside=_G + '; words of more than 11 letters (no keyword is longer than 10)'),
    'G15': dict(quick=['g_brk', 'g_brkx', 'g_brks', 'g_brk3', 'g_brkm', 'g_brkn', 'g_brko', 'g_brkc', 'g_brkb'], thorough=['g_brk_x', 'g_brk2'], bounds='3 (thorough 4) arbitrary tokens; 18 shapes with up to 6 (thorough 7) free tokens over 17 bracket, template and operand tokens; 2 arbitrary tokens at every expression and statement position; every expression, statement, literal, class and binding form with one of these tokens inserted, replaced or removed anywhere', outside=_G),
    'G16': dict(quick=['g_tot4', 'g_totx', 'g_tots', 'g_total_sform', 'g_total_bind', 'g_total_lit', 'g_total_cls', 'g_total_mut', 'g_total_muts', 'g_total_muto', 'g_total_mutc', 'g_total_mutm', 'g_total_sep', 'g_total_seps', 'g_total_sepm', 'g_total_asi', 'g_total_form', 'g_total_mutb'], thorough=['g_tot5', 'g_totx3', 'g_tots3'], bounds='programs of 3 (thorough 4) arbitrary tokens; 2 (thorough 3) arbitrary tokens at 57 expression and 36 statement positions; every statement, literal, class and binding form at every position of its kind (expression forms at pairs of positions); every form with one arbitrary token inserted, replaced or removed anywhere; any separator in any one gap of every expression form at every expression position, every statement form at every statement position and every module item; 20,000,000 instructions per program', outside=_G + '; stack depth'),
    'G17': dict(quick=['g_triva', 'g_trivt', 'g_tsep', 'g_tsep_s', 'g_tsep_m', 'g_tsep_c', 'g_tsep_o', 'g_tsep_f', 'g_tsep_b', 'g_triv2'], thorough=['g_trivc'], bounds='pairs of programs: 59 statement shapes with free separators (7 kinds); 1 arbitrary token with free separators at 36 statement (thorough 57 expression) positions; any separator in any one gap of every expression, statement and binding form at every position, and of every module, class, literal and function form; 2 arbitrary tokens with free separators', outside=_G),
    'G18': dict(quick=['g_rest', 'g_leave', 'g_leave2', 'g_comp'], thorough=['g_rest_x'], bounds='30 complete constructs in 11 surroundings followed by 18 probes or 2 (thorough 3) free tokens; pairs of programs with and without the construct, 2 arbitrary tokens behind; each of the constructs inside the body of 44 constructs with a body that go on behind it, and inside two of them', outside=_G),
    'G19': dict(quick=['g_text', 'g_textx', 'g_textt', 'g_chars', 'g_chars3'], thorough=['g_texts'], bounds='whole texts through the real tokenizer: 2 arbitrary tokens; 1 at 57 expression positions; 2 tokens over 12 with free separators at 36 statement positions (thorough: 2 arbitrary tokens with free separators); 3 free ASCII characters in 60 program texts', outside=_G + '; longer free texts'),
    'G20': dict(quick=['g_all4', 'g_form3', 'g_formf', 'g_sform3'], thorough=['g_all5'], bounds='every program of up to 4 (thorough 5) arbitrary tokens; every expression form at every expression position of every statement position and of every function kind; every statement form at every pair of statement positions', outside=_G),
    'G21': dict(quick=['g_deep', 'g_deep2', 'g_long'], thorough=['g_deep_x', 'g_long_x', 'g_long2'], bounds='38 constructs nested 40 and 150 deep around up to 2 (thorough 3) free tokens over 38; 41 lists of 300 elements followed by up to 2 (thorough 3) free tokens; thorough: 33 lists of 70000 elements followed by 2 tokens over 6', outside=_G + '; depths at which the native stack would be exhausted'),
}
