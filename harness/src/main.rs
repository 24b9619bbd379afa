#![allow(dead_code)]
mod reftok; mod sym; mod tokh; mod cls; mod gram; mod par; mod pctx;
use sym::*;
use tokh::*;
use par::*;
use cls::ANY;
use pctx::*;

macro_rules! harnesses {
    ($($name:ident => $body:expr;)*) => {
        $( #[unsafe(no_mangle)] pub extern "C-unwind" fn $name() { $body } )*
        static TABLE: &[(&str, extern "C-unwind" fn())] = &[ $((stringify!($name), $name)),* ];
    }
}
const ALL: u32 = 0xffff_ffff;
const K_PUNCT: u32 = 1 << 2;
const K_COM: u32 = 1 << 3 | 1 << 4 | 1 << 1;
const K_IDENT: u32 = 1 << 6;
const K_NUM: u32 = 1 << 7;
const K_STR: u32 = 1 << 8;
const K_TPL: u32 = 0xf << 9;
const K_RE: u32 = 1 << 5;
static DIG: &[u8] = b"0123456789";
static HEX: &[u8] = b"0123456789abcdefABCDEF";
static DEC: &[u8] = b"0159.eE+-";
static QUOTES: &[u8] = b"'\"";
harnesses! {
    // token tiling
    harness_tile_a3 => tiling(shaped(b"", 3, b""), 6, false);
    harness_tile_a4 => tiling(shaped(b"", 4, b""), 7, false);
    harness_tile_ctx => { let (a, b) = ctx(); tiling(shaped(a, 2, b), 6, false) };
    harness_tile_ctx3 => { let (a, b) = ctx(); tiling(shaped(a, 3, b), 7, false) };
    harness_tile_long => { let (s, _, _) = long_text(300, 2); tiling(s, 5, false) };
    harness_tile_long2 => { let (s, _, _) = long_text(66000, 1); tiling(s, 4, false) };
    // positions
    harness_pos_a3 => stream(shaped(b"", 3, b""), 6, true);
    harness_pos_a4 => stream(shaped(b"", 4, b""), 7, true);
    harness_pos_ctx => { let (a, b) = ctx(); stream(shaped(a, 2, b), 6, true) };
    harness_pos_ctx3 => { let (a, b) = ctx(); stream(shaped(a, 3, b), 7, true) };
    harness_pos_long => { let (s, e, t) = long_text(300, 2); stream_h(s, 5, true, Some((e, t))) };
    harness_pos_long2 => { let (s, e, t) = long_text(66000, 1); stream_h(s, 4, true, Some((e, t))) };
    harness_pos_lines => { let k = pick(4); let s = match k { 0 => rep(b'\n', 300), 1 => rep(b'\r', 300), 2 => { let mut v = vec![]; for _ in 0..300 { v.extend_from_slice(b"\r\n"); } v } _ => { let mut v = b"/*".to_vec(); for _ in 0..300 { v.extend_from_slice(b"\r\n"); } v.extend_from_slice(b"*/"); v } }; pos_lines(Buf::new().lit(&s).ascii(2).done()) };
    // punctuators
    harness_punct4 => one_h(Buf::new().ascii(5).done(), K_PUNCT);
    harness_punct6 => one_h(Buf::new().of(b"{}()[];,<>+-*/%&|^!~?:=. a0", 6).done(), K_PUNCT);
    harness_punct_w => one_h(shaped(b" \t\x0b\x0c\xc2\xa0\xef\xbb\xbf ", 3, b""), K_PUNCT);
    harness_punct_s => { let mut f = [0u8; 1]; f[0] = 0; stream_h(Buf::new().of(b"<>+-*/%&|^!=.,?", 5).done(), 6, false, Some((false, false))) };
    // identifiers
    harness_ident5 => one_h(Buf::new().ascii(5).done(), K_IDENT);
    harness_ident8 => one_h(Buf::new().of(b"aZ_$09 -;\\", 8).done(), K_IDENT);
    harness_ident_w => one_h(shaped(b"", 4, b" "), K_IDENT);
    harness_ident_l => one_h(Buf::new().lit(&rep(b'q', 300)).ascii(3).lit(b";").done(), K_IDENT);
    harness_ident_l2 => one_h(Buf::new().ascii(1).lit(&rep(b'Z', 70000)).ascii(2).lit(b"(").done(), K_IDENT);
    // numbers
    harness_num_a4 => one_h(Buf::new().of(b"0123456789.eExXoObBaAfF+-_ ;", 4).done(), K_NUM);
    harness_num_int => one_h(Buf::new().of(DIG, 10).lit(b";").done(), K_NUM);
    harness_num_int15 => { let n = pick(14); one_h(Buf::new().of(b"123456789", 1).lit(&rep(b'7', n)).of_k(DIG, 5, (13 - n).min(5)).of(b"0123456789; )", 1).done(), K_NUM) };
    harness_num_hex => { let n = pick(7); one_h(Buf::new().lit(b"0").of(b"xX", 1).of_k(HEX, 7, n + 1).ascii(1).done(), K_NUM) };
    harness_num_hexl => one_h(Buf::new().lit(b"0x1").lit(&rep(b'0', 8)).of(HEX, 4).lit(b" ").done(), K_NUM);
    harness_num_oct => { let n = pick(6); one_h(Buf::new().lit(b"0").of(b"oO", 1).of_k(DIG, 6, n + 1).ascii(1).done(), K_NUM) };
    harness_num_octl => one_h(Buf::new().lit(b"0o17").lit(&rep(b'0', 10)).of(b"01234567", 4).lit(b" ").done(), K_NUM);
    harness_num_bin => { let n = pick(8); one_h(Buf::new().lit(b"0").of(b"bB", 1).of_k(b"0123", 8, n + 1).ascii(1).done(), K_NUM) };
    harness_num_binl => one_h(Buf::new().lit(b"0b1").lit(&rep(b'0', 40)).of(b"01", 8).lit(b" ").done(), K_NUM);
    harness_num_pre => one_h(Buf::new().lit(b"0").ascii(4).done(), K_NUM);
    harness_num_dec => one_h(Buf::new().of(b"0159.eE+-", 5).lit(b" ").done(), K_NUM);
    harness_num_dec6 => one_h(Buf::new().of(b"019.e-", 7).done(), K_NUM);
    harness_num_frac => one_h(Buf::new().of(DIG, 1).lit(b".").of(DIG, 3).lit(b";").done(), K_NUM);
    harness_num_frac2 => one_h(Buf::new().lit(b".").of(DIG, 3).ascii(1).done(), K_NUM);
    harness_num_exp => one_h(Buf::new().of(DIG, 1).of(b"eE", 1).of(b"0123456789+-", 3).ascii(1).done(), K_NUM);
    harness_num_exp2 => { let e: &[&[u8]] = &[b"1e400", b"1e-400", b"5e99999999999", b"5e-99999999999", b"0e99999999999", b"0.0e4294967297", b"12.5e0000000000000000000003", b"7e4294967298", b"123.456e250", b"1e2147483648", b".5e1", b"9007199254740991", b"0x1fffffffffffff", b"0e0", b"0.", b"5.", b"0", b"00000", b"5.e1"]; let k = pick(e.len() as u32); one_h(Buf::new().lit(e[k]).ascii(1).done(), K_NUM) };
    harness_num_tail => { let e: &[&[u8]] = &[b"0", b"7", b"12", b"0x1f", b"0o7", b"0b1", b"1.5", b".5", b"1e3", b"0.5e-1", b"1."]; let k = pick(e.len() as u32); one_h(shaped(e[k], 3, b""), K_NUM) };
    // strings
    harness_str5 => one_h(Buf::new().lit(quote()).ascii(5).done(), K_STR);
    harness_str7 => one_h(Buf::new().lit(quote()).ascii(7).done(), K_STR);
    harness_str_s => one_h(shaped(b"'", 4, b"'"), K_STR);
    harness_str_d => one_h(shaped(b"\"", 4, b"\" "), K_STR);
    harness_str_bs => one_h(shaped(b"\"\\", 4, b"\""), K_STR);
    harness_str_x => one_h(shaped(b"'\\x", 4, b"'"), K_STR);
    harness_str_u => one_h(shaped(b"'\\u", 5, b"'"), K_STR);
    harness_str_ub => one_h(shaped(b"\"\\u{", 4, b"}\""), K_STR);
    harness_str_ub2 => one_h(Buf::new().lit(b"'\\u{").of(b"0123456789abcdefABCDEF}'", 7).lit(b"}'").done(), K_STR);
    harness_str_esc2 => one_h(Buf::new().lit(b"'\\").ascii(1).lit(b"\\").ascii(2).lit(b"'").ascii(1).done(), K_STR);
    harness_str_mix => { let e: &[&[u8]] = &[b"'\\u1234\\u5678", b"'\\x41\\u{41}", b"'\\\r", b"'\\\r\n", b"'\\\xe2\x80\xa8", b"'\\0", b"'\\u{000000000010FFF", b"'\\\\", b"'\\u{1}\\x4"]; let k = pick(e.len() as u32); one_h(shaped(e[k], 3, b"'"), K_STR) };
    harness_str_l => one_h(Buf::new().lit(b"'").lit(&rep(b'"', 300)).ascii(3).lit(b"'").done(), K_STR);
    harness_str_l2 => one_h(Buf::new().lit(b"\"").ascii(1).lit(&rep(b's', 70000)).ascii(2).lit(b"\"").done(), K_STR);
    // comments and line terminators
    harness_com_b => one_h(shaped(b"/*", 5, b""), K_COM);
    harness_com_b2 => one_h(shaped(b"/*", 4, b"*/"), K_COM);
    harness_com_l => one_h(shaped(b"//", 4, b"\nx"), K_COM);
    harness_com_l2 => one_h(shaped(b"//", 4, b""), K_COM);
    harness_com_s => one_h(Buf::new().of(b"/* \n\ra", 7).done(), K_COM);
    harness_com_lt => one_h(shaped(b"", 4, b""), K_COM);
    harness_com_long => { let k = pick(2); one_h(Buf::new().lit(if k == 0 { b"/*" } else { b"//" }).ascii(1).lit(&rep(b'*', 70000)).ascii(2).lit(b"*/\n").done(), K_COM) };
    // templates
    harness_tpl5 => one_h(Buf::new().of(b"`}", 1).ascii(5).done(), K_TPL);
    harness_tpl7 => one_h(Buf::new().of(b"`}", 1).of(b"`}{$\\ a\n/\"", 7).done(), K_TPL);
    harness_tpl_w => one_h(shaped(b"`", 4, b"`"), K_TPL);
    harness_tpl_c => one_h(shaped(b"}", 4, b"${"), K_TPL);
    harness_tpl_l => { let k = pick(2); one_h(Buf::new().lit(if k == 0 { b"`" } else { b"}" }).ascii(1).lit(&rep(b'$', 70000)).ascii(2).lit(b"`").done(), K_TPL) };
    // regular expressions
    harness_re5 => one_h(Buf::new().lit(b"/").ascii(5).done(), K_RE | K_PUNCT);
    harness_re7 => one_h(Buf::new().lit(b"/").of(b"/[]\\*=gz\n G", 7).done(), K_RE | K_PUNCT);
    harness_re_w => one_h(shaped(b"/", 4, b"/g"), K_RE | K_PUNCT);
    harness_re_f => one_h(Buf::new().lit(b"/a[/]\\//").ascii(4).done(), K_RE);
    harness_re_l => one_h(Buf::new().lit(b"/").ascii(1).lit(&rep(b'r', 70000)).ascii(2).lit(b"/gi;").done(), K_RE | K_PUNCT);
    // hints
    harness_hint4 => hint_relation(shaped(b"", 3, b""));
    harness_hint5 => hint_relation(Buf::new().ascii(5).done());
    harness_hint_ctx => { let (a, b) = ctx(); hint_relation(shaped(a, 2, b)) };
    // totality
    harness_total3 => no_crash(shaped(b"", 3, b""), 6);
    harness_total4 => no_crash(shaped(b"", 4, b""), 7);
    harness_total_ctx => { let (a, b) = ctx(); no_crash(shaped(a, 2, b), 6) };
    harness_total_ctx3 => { let (a, b) = ctx(); no_crash(shaped(a, 3, b), 7) };
    harness_total_num => no_crash(Buf::new().of(b"0123456789.eExXoObB+-", 6).done(), 7);
    // parser: operators
    harness_g_all3 => Prog::new().upto(&ANY, 3).check();
    harness_g_all4 => Prog::new().upto(&ANY, 4).check();
    harness_g_op4 => each(OP_S, OPALL);
    harness_g_op4_x => { bump(1); each(OP_S, OPALL) };
    harness_g_op5 => each(OP_S5, OPS);
    harness_g_op5_x => { bump(1); each(OP_S5, OPS) };
    harness_g_opctx => cross(EXPR, &["@2"], &ANY);
    harness_g_asi => each(ASI_S, ASI);
    harness_g_asi_x => { bump(1); each(ASI_S, ASI) };
    harness_g_asi_mod => each(ASI_MOD, ASI);
    harness_g_asi_mod_x => { bump(1); each(ASI_MOD, ASI) };
    harness_g_asi_fn => cross(ASI_FN, ASI_FS, ASI);
    harness_g_asi_fn_x => { bump(1); cross(ASI_FN, ASI_FS, ASI) };
    harness_g_sl => each(SLASH_S, &ANY);
    harness_g_sl2 => cross(SLASH_AFTER, SLASH_P, RED);
    harness_g_sl2_x => { bump(1); cross(SLASH_AFTER, SLASH_P, RED) };
    harness_g_tpl => each(TPL_S, TPL);
    harness_g_tpl_x => { bump(1); each(TPL_S, TPL) };
    harness_g_tpl_nest => cross3(TPL_NEST, TPL_NEST, TPL_LAST, TPL);
    harness_g_tpl_nest_x => { bump(1); cross3(TPL_NEST, TPL_NEST, TPL_LAST, TPL) };
    harness_g_call => each(CALL_S, CALL);
    harness_g_call_x => { bump(1); each(CALL_S, CALL) };
    harness_g_lit => each(LIT_S, LIT);
    harness_g_lit_x => { bump(1); each(LIT_S, LIT) };
    harness_g_lit_k => each(LIT_K, &ANY);
    harness_g_fun => each(FUN_S, FUN);
    harness_g_fun_x => { bump(1); each(FUN_S, FUN) };
    harness_g_ya => cross3(FKIND, FNEST, YA_S, YA);
    harness_g_ya_h => cross(FKIND, YA_H, YA);
    harness_g_ya_h_x => { bump(1); cross(FKIND, YA_H, YA) };
    harness_g_cls => each(CLS_S, CLS);
    harness_g_cls_x => { bump(1); each(CLS_S, CLS) };
    harness_g_cls_k => each(CLS_K, &ANY);
    harness_g_stm => each(STM_S, STM);
    harness_g_stm_x => { bump(1); each(STM_S, STM) };
    harness_g_stmctx => cross(STMT, &["@3"], &ANY);
    harness_g_for => each(FOR_S, T_FOR);
    harness_g_for_x => { bump(1); each(FOR_S, T_FOR) };
    harness_g_in => cross(IN_OUT, IN_IN, RED);
    harness_g_in_x => { bump(1); cross(IN_OUT, IN_IN, RED) };
    harness_g_dec => each(DEC_S, DEC_T);
    harness_g_dec_x => { bump(1); each(DEC_S, DEC_T) };
    harness_g_dec_k => each(DEC_K, &ANY);
    harness_g_mod => each(MOD_S, T_MOD);
    harness_g_mod_x => { bump(1); each(MOD_S, T_MOD) };
    harness_g_mod_k => each(MOD_K, &ANY);
    harness_g_name => each(NAME_S, &ANY);
    harness_g_name_ctx => cross(FKIND, NAME_S, NAMES_ONLY);
    harness_g_rest => cross3(OUTER, CHANGE, PROBE, RED);
    harness_g_rest_x => { bump(1); cross3(OUTER, CHANGE, PROBE, RED) };
    harness_g_deep => nest(DEEP, 40, DEEP_L, RED);
    harness_g_deep_x => { bump(1); nest(DEEP, 40, DEEP_L, RED) };
    harness_g_brk => brackets(ID, BRK_S, BRK);
    harness_g_brk_x => { bump(1); brackets(ID, BRK_S, BRK) };
    harness_g_brk2 => brackets(ID, &["@4"], &ANY);
    harness_g_tot4 => totality(ID, &["@3"], &ANY);
    harness_g_totx => totality(EXPR, &["@2"], &ANY);
    harness_g_tots => totality(STMT, &["@2"], &ANY);
    harness_g_triv2 => trivia(ID, &["~~ @2 ~~"], &ANY);
    harness_g_triv3 => trivia(ID, &["~~ @3 ~~"], &ANY);
    harness_g_trivc => trivia(EXPR, &["~~ @1 ~~"], &ANY);
    harness_g_trivt => trivia(STMT, &["~~ @1 ~~", "a ~~ @1 ~~ b"], &ANY);
    harness_g_triva => trivia(ID, ASI_S, ASI);
    harness_g_trivs => trivia(STMT, ASI_S, ASI);
    harness_g_comp => compose(OUTER, CHANGE, &["@2"], &ANY);
    harness_g_long => long(LONG, 300, RED);
    harness_g_long_x => { bump(1); long(LONG, 300, RED) };
    harness_g_text => text(ID, &["@2"], &ANY);
    harness_g_textx => text(EXPR, &["@1"], &ANY);
    harness_g_texts => text(STMT, &["@1", "~~ @2 ~~"], RED);
    harness_g_textt => text(STMT, &["~~ @2 ~~"], TEXT_S);
    harness_g_tot5 => totality(ID, &["@4"], &ANY);
    harness_g_spell => spelling(NAME_S, 11);
    harness_g_chars => chars(CH_S, 2, b"");
    harness_g_chars3 => chars(CH_S, 3, b"");
    harness_g_op6 => { bump(2); each(OP_S5, OPS) };
    harness_g_opctx3 => cross(EXPR, &["@3"], RED);
    harness_g_lit_xx => { bump(2); each(LIT_S, LIT) };
    harness_g_ya_hxx => { bump(2); cross(FKIND, YA_H, YA) };
    harness_g_dec_xx => { bump(2); each(DEC_S, DEC_T) };
    harness_g_mod_xx => { bump(2); each(MOD_S, T_MOD) };
    harness_g_brk_xx => { bump(2); brackets(ID, BRK_S, BRK) };
    harness_g_totx3 => totality(EXPR, &["@3"], RED);
    harness_g_tots3 => totality(STMT, &["@3"], &ANY);
    harness_g_texttx => { bump(1); text(STMT, &["~~ @2 ~~"], TEXT_S) };
    harness_g_all5 => Prog::new().upto(&ANY, 5).check();
    harness_g_deep2 => nest(DEEP, 150, DEEP_L, RED);
    harness_g_long2 => long(LONG_FLAT, 70000, LONG_T);
    // every form at every position
    harness_g_form => chain(&[EXPR, &["# @1"], FORMS], RED);
    harness_g_form2 => chain(&[EXPR, EXPR, FORMS], RED);
    harness_g_form3 => chain(&[STMT, EXPR, FORMS], RED);
    harness_g_formf => chain(&[FKIND, EXPR, FORMS], RED);
    harness_g_sform => chain(&[STMT, &["# @1"], SFORMS], &ANY);
    harness_g_sform2 => chain(&[STMT, STMT, SFORMS], RED);
    harness_g_sform3 => chain(&[STMT, SFORMS2, SFORMS], RED);
    harness_g_bind => chain(&[BIND, &["#", "# @1"], BFORMS], RED);
    harness_g_bind2 => chain(&[BIND, BNEST, BFORMS], RED);
    harness_g_bind3 => chain(&[BIND, BNEST, BNEST, BFORMS], RED);
    harness_g_yform => chain(&[FKIND, FNEST, &["# ;", "a = # ;"], YFORMS], RED);
    harness_g_yform2 => chain(&[FKIND, EXPR, YFORMS], RED);
    harness_g_fform => chain(&[EXPR, &["#", "# @1"], FFORMS], RED);
    harness_g_fform2 => chain(&[FKIND, &["# ;", "a = # ;", "( # ) ;", "return # ;"], FFORMS], RED);
    harness_g_oform => chain(&[EXPR, &["#", "# @1"], OFORMS], RED);
    harness_g_oform2 => chain(&[ONEST, ONEST, OFORMS], RED);
    harness_g_cform => chain(&[CPOS, &["#", "# @1"], CFORMS], RED);
    harness_g_inform => chain(&[IN_OUT, EXPR, &["a in b", "a", "( a in b )", "a in b in c", "( ) => a in b", "a = b in c"]], RED);
    harness_g_inform2 => chain(&[IN_OUT, &["#", "# in a", "a in #"], FORMS], RED);
    harness_g_slform => chain(&[EXPR, &["/r/", "/r/ / a", "a / b", "a / b / c", "/r/ . a", "/ a /", "/", "a /r/", "/= a", "a /= b"]], RED);
    harness_g_slform2 => chain(&[EXPR, &["# ~~ /r/ b", "# ~~ / a", "# ~~ /= a"], FORMS], RED);
    harness_g_slstmt => chain(&[STMT, SFORMS2, &["/r/ ;", "/r/ . a", "a / b ;", "a /= b", "/ a", "/= b"]], RED);
    harness_g_tform => chain(&[EXPR, TPOS, FORMS], RED);
    harness_g_tform2 => chain(&[TPOS, EXPR, &["`n`", "`h${ a }`", "`h${ { } }`", "a `h${ b }`", "a }m${ b", "{ }", "a", "`h${ `n` }m${ a }`"]], RED);
    harness_g_tforms => chain(&[&["`h${ function ( ) { # } }`", "a = `h${ ( ) => { # } }m${ b }`", "`h${ class { a ( ) { # } } }`", "`h${ { a ( ) { # } } }`"], STMT, SFORMS], RED);
    harness_g_asiform => chain(&[&["# ~~ a", "# ~~ ( a )", "# ~~ [ a ]", "# ~~ ++ a", "# ~~ `n`", "# ~~ /r/ a", "# ~~ + a", "# ~~ function a ( ) { }", "# ~~ { }", "# ~~ . a", "# ~~ in a", "# ~~ => a", "# ~~ }", "# ~~ 1", "# ~~ if ( a ) ;", "# ~~ else ;", "# ~~ let a", "# ~~ class a { }", "# ~~ ? a : b", "# ~~ instanceof a", "# ~~ = a", "# ~~ - a", "# ~~ ! a", "# ~~ import 's'", "# ~~ export { }", "# ~~ while ( a )"], SFORMS], RED);
    harness_g_asiform2 => chain(&[FKIND, &["# ~~ a", "# ~~ ++ a", "# ~~ }", "# ~~ ( a )", "# ~~ function a ( ) { }"], FORMS], RED);
    harness_g_cforms => chain(&[EXPR, &["# @1", "# . a", "# ( a )", "# [ a ]", "# `n`", "new #", "new # ( )", "# ++", "# . a ( )", "# = a", "a . # . b", "a ( # , ... b )", "( # ) ( )", "# => a"], CALLF], RED);
    harness_g_mform => mutate(&[EXPR, FORMS], RED);
    harness_g_msform => mutate(&[&["#", "a ; # b ;", "{ # }", "if ( a ) # else ;", "function * a ( ) { # }"], SFORMS], &ANY);
    harness_g_mform_any => mutate(&[&["# ;", "( # ) ;", "a = #"], FORMS], &ANY);
    harness_g_mfform => mutate(&[&["( # ) ;", "a = # ;", "# ;", "a ( # )", "export default # ;"], FFORMS], &ANY);
    harness_g_moform => mutate(&[&["( # ) ;", "a = # ;", "`h${ # }`"], OFORMS], &ANY);
    harness_g_mcform => mutate(&[&["class a #", "a = class #", "export default class extends a #"], CFORMS], &ANY);
    harness_g_mcpos => mutate(&[CPOS, &["{ }", "{ a ( ) { } }"]], &ANY);
    harness_g_mcall => mutate(&[&["# ;", "a = # b", "new # ;", "`h${ # }`"], CALLF], &ANY);
    harness_g_mbind => mutate(&[BIND, BFORMS], RED);
    harness_g_mbind_any => mutate(&[&["let # = a ;", "function a ( # ) { }", "try { } catch ( # ) { }", "( # ) => a"], BFORMS], &ANY);
    harness_g_myform => mutate(&[FKIND, &["# ;", "a = # ;"], YFORMS], RED);
    harness_g_mtform => mutate(&[&["# ;", "a ( # )", "{ # }"], TPOS, &["a", "{ }", "`n`", "`h${ a }`", "( ) => { }", "function ( ) { a ; }", "a }m${ b", "class { }", "{ a : b }"]], &ANY);
    harness_g_mstmt => mutate(&[STMT, &["a ;", "{ }", "if ( a ) b ; else c ;", "return a ;"]], &ANY);
    harness_g_mfor => mutate(&[&["#", "function a ( ) { # }"], FORF], &ANY);
    harness_g_mmod => mutate(&[&["#", "a ; # b ;"], MODF], &ANY);
    harness_g_modform => chain(&[&["#", "# @1", "a ; # b ;", "{ # }", "function a ( ) { # }", "if ( a ) #", "# ~~ a", "import 's' ; #", "export { } ; #", "export default a ; #"], MODF], &ANY);
    harness_g_modexp => chain(&[&["export default # ~~ a", "export default # ;", "export default # @1", "export default # /r/", "export default # / a", "export # ;", "export let a = # ~~ b"], FORMS], RED);
    harness_g_sep => separate(&[EXPR, FORMS], RED, 0);
    harness_g_sep_s => separate(&[STMT, SFORMS], RED, 0);
    harness_g_sep_m => separate(&[&["#", "a ; # b"], MODF], RED, 0);
    harness_g_tsep => separate(&[EXPR, FORMS], RED, 1);
    harness_g_tsep_s => separate(&[STMT, SFORMS], RED, 1);
    harness_g_tsep_m => separate(&[&["#", "a ; # b"], MODF], RED, 1);
    harness_g_tsep_c => separate(&[&["class a #", "a = class extends b #"], CFORMS], RED, 1);
    harness_g_tsep_o => separate(&[&["( # ) ;", "a = # b"], OFORMS], RED, 1);
    harness_g_tsep_b => separate(&[BIND, BFORMS], RED, 1);
    harness_g_tsep_f => separate(&[&["( # ) ;", "a = # b", "# ;"], FFORMS], RED, 1);
    harness_g_brkx => brackets(EXPR, &["@2"], &ANY);
    harness_g_brks => brackets(STMT, &["@2"], &ANY);
    harness_g_brk3 => brackets(ID, &["@3"], &ANY);
    harness_g_brkm => bmutate(&[&["# ;", "( # ) ;", "`h${ # }`"], FORMS], BRK);
    harness_g_brkn => bmutate(&[STMT, SFORMS], BRK);
    harness_g_brko => bmutate(&[&["( # ) ;"], OFORMS], BRK);
    harness_g_brkc => bmutate(&[CPOS, CFORMS], BRK);
    harness_g_brkb => bmutate(&[BIND, BFORMS], BRK);
    harness_g_total_mut => cmutate(&[&["# ;"], FORMS], &ANY);
    harness_g_total_muts => cmutate(&[&["#"], SFORMS], &ANY);
    harness_g_total_muto => cmutate(&[&["( # ) ;"], OFORMS], &ANY);
    harness_g_total_mutc => cmutate(&[&["class a #"], CFORMS], &ANY);
    harness_g_total_mutb => cmutate(&[BIND, &["a", "{ a }", "[ a ]", "{ a : b = c }", "[ ... a ]"]], &ANY);
    harness_g_total_mutm => cmutate(&[&["#"], MODF], &ANY);
    harness_g_total_form => crash(&[EXPR, EXPR, FORMS], RED);
    harness_g_total_sform => crash(&[STMT, &["# @1"], SFORMS], &ANY);
    harness_g_total_bind => crash(&[BIND, &["#", "# @1"], BFORMS], RED);
    harness_g_total_lit => crash(&[&["( # ) ;"], OFORMS], RED);
    harness_g_total_cls => crash(&[CPOS, &["#", "# @1"], CFORMS], RED);
    harness_g_total_sep => separate(&[EXPR, FORMS], RED, 2);
    harness_g_total_seps => separate(&[STMT, SFORMS], RED, 2);
    harness_g_total_sepm => separate(&[&["#", "a ; # b"], MODF], RED, 2);
    harness_g_total_asi => each_total(ASI_S, ASI);
    harness_g_leave => chain(&[LEAVE, CHANGE, &["", "a ;"]], RED);
    harness_g_leave2 => chain(&[LEAVE, LEAVE, CHANGE, &[""]], LONG_T);
    harness_total_long => { let (s, _, _) = long_text(300, 2); no_crash(s, 5) };
}

/// fixed text around the free characters: inside each kind of token, at its edges and between tokens
fn ctx() -> (&'static [u8], &'static [u8]) {
    static C: &[(&[u8], &[u8])] = &[(b"'", b"'"), (b"\"\\", b"\""), (b"'\\u{", b"}'"), (b"`", b"`"), (b"`\\", b"${"), (b"}", b"`"), (b"/*", b"*/"), (b"//", b"\n"), (b"/", b"/g"), (b"/[", b"]/"), (b"/\\", b"/"),
        (b"0x", b""), (b"1.", b"e1"), (b"1e", b"1"), (b".", b"5"), (b"a", b"b"), (b"\r", b"\n"), (b"\xc2\xa0", b"\xef\xbb\xbf"), (b"\xe2\x80\xa8", b"\xe2\x80\xa9"), (b"<", b"="), (b"a/", b"/b"), (b"0", b".")];
    let k = pick(C.len() as u32);
    C[k]
}

fn quote() -> &'static [u8] { let k = pick(2); &QUOTES[k..k + 1] }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 { for t in TABLE { println!("{}", t.0); } return; }
    let f = TABLE.iter().find(|t| t.0 == a[1] || t.0 == format!("harness_{}", a[1])).expect("no such harness").1;
    let m: Vec<u32> = a.get(2).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let r = std::thread::Builder::new().stack_size(256 << 20).spawn(move || replay(f, m)).unwrap().join().unwrap_or(3);
    std::process::exit(r);
}
