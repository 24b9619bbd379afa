//! Contexts and alphabets of the parser harnesses (the words are tokens, see par::build).
use crate::cls::*;

/// positions of an expression
pub static EXPR: &[&str] = &[
    "# ;", "( # ) ;", "[ # ] ;", "a ( # ) ;", "a [ # ] ;", "`h${ # }` ;", "a `h${ # }m${ # }` ;", "if ( # ) ;", "while ( # ) ;", "do ; while ( # ) ;",
    "with ( # ) ;", "switch ( # ) { }", "switch ( a ) { case # : ; }", "throw # ;", "function a ( ) { return # ; }", "a = # ;", "a += # ;", "var a = # ;", "let a = # , b ;", "const a = # ;",
    "for ( # ; ; ) ;", "for ( ; # ; ) ;", "for ( ; ; # ) ;", "for ( var a = # ; ; ) ;", "for ( a of # ) ;", "for ( var a in # ) ;", "( ) => # ;", "a => # ;", "async a => # ;",
    "a ? # : b ;", "a ? b : # ;", "( { a : # } ) ;", "( { [ # ] : 1 } ) ;", "( class { [ # ] ( ) { } } ) ;", "( class extends # { } ) ;", "( a = # ) => 1 ;", "function a ( b = # ) { }", "let { a = # } = b ;", "let [ a = # ] = b ;", "let { [ # ] : a } = b ;",
    "export default # ;", "function * a ( ) { yield # ; }", "function * a ( ) { yield * # ; }", "async function a ( ) { await # ; }", "new # ;", "new a ( # ) ;", "a ( ... # ) ;", "[ ... # ] ;", "- # ;", "typeof # ;", "a + # ;", "# + a ;", "# . a ;", "# ( ) ;", "a , # ;", "# , a ;", "class a extends b { a ( ) { super . a ( # ) ; } }",
];
/// positions of a statement
pub static STMT: &[&str] = &[
    "#", "{ # }", "if ( a ) #", "if ( a ) ; else #", "while ( a ) #", "for ( ; ; ) #", "for ( a in b ) #", "for ( a of b ) #", "do # while ( a )", "a : #", "with ( a ) #",
    "switch ( a ) { case 1 : # }", "switch ( a ) { default : # }", "switch ( a ) { default : # case 1 : }", "try { # } catch ( a ) { }", "try { } catch ( a ) { # }", "try { } finally { # }",
    "function a ( ) { # }", "async function a ( ) { # }", "function * a ( ) { # }", "( ) => { # }", "async ( ) => { # }", "class a { b ( ) { # } }", "class a { static * b ( ) { # } }", "( { get a ( ) { # } } )", "( { async a ( ) { # } } )", "export default function ( ) { # }", "`h${ function ( ) { # } }`",
    "a ; #", "{ } #", "function a ( ) { } #", "class a { } #", "if ( a ) ; #", "import 's' ; #", "export { } ; #", "a : { } #",
];

/// one representative of each syntactic role
pub static RED: &[u8] = &[A, GET, ASYNC, YIELD, AWAIT, THIS, FUNCTION, CLASS, NEW, TYPEOF, IN, SUPER, LB, LP, RP, LS, RS, SEMI, COMMA, QUEST, COLON, DOT, DOTS, EQ, ARROW, PLUS, INC, STAR, POW, NUM, STR, NT, HD, RB, TM, TT, RE, SL];

// ---- operators
pub static OPS: &[u8] = &[A, NUM, PLUS, INC, STAR, POW, NOT, TYPEOF, IN, ANDAND, LT, EQ, PLUSEQ, QUEST, COLON, COMMA, LP, RP, DOT];
pub static OPALL: &[u8] = &[A, NUM, LP, RP, LT, LE, SHL, SHLEQ, GT, GE, SHR, SHREQ, USHR, USHREQ, NOT, NE, NEE, EQ, EQEQ, EQEQEQ, PLUS, PLUSEQ, INC, MINUS, MINUSEQ, DEC, MOD, MODEQ, STAR, STAREQ, POW, POWEQ, AMP, ANDAND, AMPEQ, BAR, OROR, BAREQ, CARET, CARETEQ, TILDE, QUEST, COLON, COMMA, IN, INSTANCEOF, TYPEOF, VOID, DELETE, SL, SLEQ, ARROW, SEMI];
pub static OP_S: &[&str] = &["a @4 ;", "@4", "( a @3 ) ;"];
pub static OP_S5: &[&str] = &["@5", "a ? @4", "a = b @4", "- a @4", "a + b * c @4", "( a , b ) @4", "[ a ] @4", "a ( b ) @4", "! a . b @4", "a => b @4", "function ( ) { } @4"];
// ---- automatic semicolons and restricted productions
pub static ASI: &[u8] = &[A, NUM, INC, PLUS, LP, LS, SEMI, RB, IN, VAR, IF, FUNCTION, NT, RE, COMMA, EQ, ELSE, DOT, ARROW, LB];
pub static ASI_S: &[&str] = &["a ~~ @2", "a = b ~~ @2", "~~ var a ~~ @2", "a ~~ ++ ~~ @1", "++ ~~ a ~~ @1", "a ( ) ~~ @2", "return ~~ @2", "break ~~ @2", "continue ~~ @2", "throw ~~ @2", "throw a ~~ @2", "debugger ~~ @2", "do a ~~ while ( b ) ~~ @2", "do ; ~~ while ~~ ( b ) ~~ @1",
    "let a ~~ = b ~~ @1", "const a = b ~~ @2", "a ~~ => ~~ b ~~ @1", "( ) ~~ => ~~ { } ~~ @1", "( a ) ~~ => b ~~ @1", "( a , b ) ~~ => b", "async ~~ a ~~ => b", "async ~~ ( a ) ~~ => b", "async ~~ function ~~ a ( ) { } ~~ @1", "a = async ~~ function ( ) { }", "( { async ~~ a ( ) { } } ) ~~ @1", "( { get ~~ a ( ) { } , set ~~ b ( c ) { } } )", "class a { async ~~ b ( ) { } ~~ static ~~ c ( ) { } ~~ }", "class a { ~~ get ~~ b ( ) { } ~~ ; ~~ }",
    "if ( a ) b ~~ else c", "if ( a ) b ; ~~ else c", "{ a ~~ } ~~ @1", "for ( a ~~ ; b ~~ ; ) ;", "for ( a ; b ~~ ) ;", "for ( ~~ a ~~ b ; ; ) ;", "while ( a ) ~~ @2", "if ( a ) ~~ @2", "a : ~~ @2", "a ~~ : ~~ b", "( a ~~ ) ~~ @1 ;", "[ a ~~ ] ~~ @1 ;", "{ } ~~ @2", "function a ( ) { } ~~ @2", "class a { } ~~ @2", "a = function ( ) { } ~~ @2", "a = class { } ~~ @2", "a = { } ~~ @2", "a = `n` ~~ @2", "a = /r/ ~~ @2", "a = b => { } ~~ @2", "a => b ~~ @2", "a ? b : c ~~ @2", "typeof a ~~ @2", "new a ~~ @2", "a . b ~~ @2", "a ~~ . ~~ b ~~ @1", "a [ b ] ~~ @2", "a ++ ~~ @2", "'s' ~~ @2", "this ~~ @2"];
pub static ASI_MOD: &[&str] = &["import 's' ~~ @2", "import a ~~ from ~~ 's' ~~ @1", "import { a } from 's' ~~ @2", "import * as a from 's' ~~ @2", "export { a } ~~ @2", "export { a } from 's' ~~ @2", "export * from 's' ~~ @2", "export default a ~~ @2", "export default function ( ) { } ~~ @2", "export default class { } ~~ @2", "export var a ~~ @2", "export let a = b ~~ @2", "export function a ( ) { } ~~ @2", "export class a { } ~~ @2", "export ~~ default ~~ async ~~ function ( ) { }", "export ~~ async ~~ function a ( ) { }"];
pub static ASI_FN: &[&str] = &["function a ( ) { # }", "a = ( ) => { # }", "class a { b ( ) { # } }", "function * a ( ) { # }", "async function a ( ) { # }", "a : while ( b ) { # }", "function a ( ) { { # } }", "switch ( a ) { case b : # }"];
pub static ASI_FS: &[&str] = &["return ~~ a ~~ @1", "return ~~ ;", "return ~~ ( a ) ~~ @1", "return ~~ /r/ ~~ @1", "return ~~", "break ~~ a ~~ @1", "continue ~~ a ~~ @1", "throw ~~ a ~~ @1", "yield ~~ a ~~ @1", "yield ~~ * ~~ a", "yield ~~ /r/", "await ~~ a ~~ @1", "a = yield ~~ @2", "return a ~~ ++ ~~ b", "return ~~ function ( ) { } ~~ @1", "return ~~ { } ~~ @1"];
// ---- slash
pub static SLASH_S: &[&str] = &["@3 /r/ @1", "@2 / a ;", "@2 /= a ;", "@2 a / b", "( @2 /r/ ) ;", "{ @2 /r/ }", "a = @2 /r/ ;"];
pub static SLASH_AFTER: &[&str] = &["a #", "a . if #", "this #", "null #", "true #", "false #", "1 #", "'s' #", "`n` #", "`h${ a }` #", "`h${ a }m${ b }` #", "/r/ #", "( a ) #", "[ a ] #", "a [ b ] #", "a ( ) #", "a ++ #", "a -- #", "a = { } #", "( { } ) #", "a = function ( ) { } #", "a = class { } #", "new a #", "new a ( ) #", "a = ( ) => b #", "a = ( ) => { } #", "( ) #", "super . a #",
    "; #", "{ } #", "function a ( ) { } #", "class a { } #", "if ( a ) #", "if ( a ) ; else #", "while ( a ) #", "for ( ; ; ) #", "for ( #", "for ( ; #", "for ( ; ; #", "for ( a of #", "for ( a in #", "do #", "do ; while ( #", "with ( a ) #", "switch ( #", "switch ( a ) { case #", "switch ( a ) { case b : #", "switch ( a ) { default : #", "a : #", "throw #", "try { #", "try { } finally { } #", "try { } catch ( a ) { } #",
    "a = #", "a += #", "a + #", "a - #", "- #", "! #", "~ #", "typeof #", "void #", "delete #", "a in #", "a instanceof #", "a ? #", "a ? b : #", "a , #", "( #", "[ #", "[ a , #", "[ , #", "[ ... #", "a ( #", "a ( b , #", "a ( ... #", "a [ #", "a => #", "async a => #", "( ) => { #", "{ #", "`h${ #", "`h${ a }m${ #", "a `h${ #", "( { a : #", "( { a ( ) { #", "( { [ #", "( { a , b : #", "class a extends #", "class a { [ #", "class a { b ( ) { #", "class a { b ( ) { } } #", "var a = #", "let a = #", "const a = #", "let { a = #", "let [ a = #", "let { [ #", "let { a : b = #", "function a ( b = #", "( a = #", "new #", "export default #", "export default function ( ) { } #", "export default class { } #", "import 's' ; #", "debugger ; #", "a ; #", "function a ( ) { return #", "function * a ( ) { yield #", "function * a ( ) { yield * #", "async function a ( ) { await #", "async ( ) => { await #", "a `n` #", "a . b #", "new . target #", "( a , b ) #", "a => { } #", "( a ) => { } #", "async #", "get #", "of #", "yield #", "await #", "let #"];
pub static SLASH_P: &[&str] = &["~~ /r/ @2", "~~ / @2", "~~ /= @2"];
// ---- templates
pub static TPL: &[u8] = &[A, HD, TM, TT, NT, LB, RB, LP, RP, COLON, SEMI, PLUS, FUNCTION];
pub static TPL_S: &[&str] = &["@6", "`h${ @5", "`h${ a @3 }m${ @3 }`", "a `h${ { a @3 } @3", "`h${ function ( ) { @4 } @2 }`", "`h${ `h${ @3 }` @2 }` ;", "`h${ ( { a : @3 } ) }` @2", "`h${ { } }m${ @3 }` @1", "{ `h${ a }` } @3", "`h${ ( ) => { @3 } }` @2", "`h${ class { a ( ) { @2 } } @2", "a ( `h${ @3 }` ) ;"];
pub static TPL_NEST: &[&str] = &["`h${ # }`", "`h${ a }m${ # }`", "`h${ # }m${ a }`", "`h${ { a : # } }`", "`h${ ( ) => { # } }`", "`h${ function ( ) { # ; } }`", "{ # ; }", "a `h${ # }`", "`h${ `n` + # }`"];
pub static TPL_LAST: &[&str] = &["a @2", "{ } @1", "`h${ a @1 }` @1", "a }m${ b @1"];
// ---- calls and members
pub static CALL: &[u8] = &[A, NEW, DOT, DOTS, LP, RP, LS, RS, COMMA, NT, THIS, SUPER, TARGET, IF, NUM, HD, TT];
pub static CALL_S: &[&str] = &["@5", "a @5", "new @5", "new new @4", "a ( @5", "a ( b , @4 )", "a . @3", "a [ @3 ] @1", "new a ( @3 ) @2", "function a ( ) { new . @3 }", "class a { b ( ) { super @4 } }", "( { a ( ) { super @3 } } )", "this @4", "a `n` @4", "( a ) @4", "new ( @2 ) @2", "new a . b @3", "new a [ b ] @3", "new a `n` @3", "a ( ... @3 , @2 )"];
// ---- literals
pub static LIT: &[u8] = &[A, GET, SET, ASYNC, IF, NUM, STR, LS, RS, COLON, COMMA, LP, RP, LB, RB, EQ, STAR, DOTS];
pub static LIT_S: &[&str] = &["( { @4 } ) ;", "[ @4 ] ;", "( { @3 ( ) { } } ) ;", "( { a , @3 } ) ;", "( { @3 : b } ) ;", "( { get @3 { } } ) ;", "( { set @4 { } } ) ;", "( { * @4 } ) ;", "( { async @3 { } } ) ;", "( { [ @3 ] @2 } )", "( { a ( @3 ) { } } )", "[ a , @4 ] ;", "[ , , @3 ] ;", "[ ... @3 ] ;", "( { a : @3 } )", "( { a ( ) { } @3 } )", "( { get a ( ) { } @3 } )", "( { a = b @2 } ) @2", "a = { @3 } ;", "[ { @3 } ] ;", "[ [ @3 ] , @1 ] ;", "( { @3 } = a ) ;", "[ @3 ] = a ;"];
pub static LIT_K: &[&str] = &["( { $1 : a } )", "( { $1 ( ) { } } )", "( { $1 } )", "( { $1 , } )", "( { get $1 ( ) { } } )", "( { set $1 ( a ) { } } )", "( { async $1 ( ) { } } )", "( { * $1 ( ) { } } )", "( { $1 = a } = b )", "( { $1 : a = b } = c )", "[ $1 ]", "[ $2 ]", "( { $2 } )", "( { $2 ( ) { } } )", "( { $2 : a } )", "( { a : $2 } )"];
// ---- functions
pub static FUN: &[u8] = &[A, ASYNC, FUNCTION, STAR, LP, RP, LB, RB, COMMA, EQ, DOTS, ARROW, LS, RS, NUM, SEMI, COLON];
pub static FUN_S: &[&str] = &["@4", "function @5", "async @4", "( @5", "( @3 ) => @2", "function a ( @4 ) { }", "( function @4 { } ) ;", "a = function ( @3 ) { @1 } @1", "async function @4 { }", "async ( @4 ) @2", "a = async ( @3 ) => @1", "( a , @3 ) => a ;", "( { @3 } ) => a ;", "( [ @3 ] ) => a ;", "( ... @3 ) => a ;", "( a = @2 , @2 ) => a ;", "a => @4", "a => { @3 } @1", "( ) => @3 ;", "function a ( { @3 } ) { }", "function a ( [ @3 ] ) { }", "function a ( b , ... @3 ) { }", "function * @4 { }", "( ( @3 ) ) => a", "a ( b => @3 )", "a ? ( @3 ) => b : c", "a ? b : ( @3 ) => c", "( a , ( @2 ) => b ) ;", "async a => @3", "a = b => c => @2", "class a { b ( @3 ) { } }", "( { a ( @3 ) { } , set b ( @2 ) { } } )"];
// ---- yield and await
pub static FKIND: &[&str] = &["#", "function a ( ) { # }", "function * a ( ) { # }", "async function a ( ) { # }", "a = function ( ) { # } ;", "a = function * ( ) { # } ;", "a = async function ( ) { # } ;", "a = ( ) => { # } ;", "a = async ( ) => { # } ;", "a = async b => { # } ;", "class a { b ( ) { # } }", "class a { * b ( ) { # } }", "class a { async b ( ) { # } }", "class a { static * b ( ) { # } }", "class a { get b ( ) { # } }", "( { a ( ) { # } } ) ;", "( { * a ( ) { # } } ) ;", "( { async a ( ) { # } } ) ;", "( { get a ( ) { # } , set b ( c ) { } } ) ;", "( { set a ( b ) { # } } ) ;", "export default function ( ) { # }", "export default function * ( ) { # }", "export default async function ( ) { # }", "export function * a ( ) { # }", "export default ( ) => { # } ;", "{ # }"];
pub static FNEST: &[&str] = &["#", "function a ( ) { } #", "function * a ( ) { } #", "async function a ( ) { } #", "a = ( ) => { } ; #", "a = async ( ) => { } ; #", "a = async b => c ; #", "a = b => c ; #", "( { * a ( ) { } } ) ; #", "( { async a ( ) { } , get b ( ) { } , set c ( a ) { } } ) ; #", "class a { * b ( ) { } async c ( ) { } } #", "function a ( ) { # }", "function * a ( ) { # }", "async function a ( ) { # }", "a = ( ) => { # } ;", "a = async ( ) => { # } ;", "( { a ( ) { # } } ) ;", "( { * a ( ) { # } } ) ;", "class a { async b ( ) { # } }", "if ( a ) { # }", "for ( a of b ) { # }", "`h${ function ( ) { } }` ; #", "a = function * ( ) { yield ; } ; #", "a = async function ( ) { await b ; } ; #", "( a , b = function * ( ) { } ) => { } ; #", "try { # } finally { }", "switch ( a ) { case 1 : # }"];
pub static YA: &[u8] = &[A, YIELD, AWAIT, STAR, LP, RP, ARROW, COLON, EQ, NUM];
pub static YA_S: &[&str] = &["yield ;", "yield a ;", "yield * a ;", "yield * ;", "await a ;", "await ;", "var yield ;", "var await ;", "a = yield ;", "a = await b ;", "yield yield a ;", "await await a ;", "a + yield ;", "a + await b ;", "( yield ) ;", "[ yield , yield a ] ;", "{ yield }", "yield ? a : b ;", "yield in a ;", "- await a ;", "- yield ;", "a ( yield , await b ) ;", "`h${ yield }` ;", "`h${ await a }` ;", "yield : ;", "await : ;", "a = b => await c ;", "a = b => yield ;", "a = async b => await c ;", "a = async b => yield ;", "( a = yield ) => b ;", "function yield ( ) { }", "function await ( ) { }", "class a extends ( yield ) { }", "class a extends ( await b ) { }", "class a { [ yield ] ( ) { } }", "class a { [ await b ] ( ) { } }", "( { [ yield ] : a } ) ;", "( { yield : await } ) ;", "( { yield } ) ;", "( { await } ) ;", "a . yield . await ;", "let { yield } = a ;", "let { a = yield } = b ;", "let [ a = await b ] = c ;", "for ( a of yield ) ;", "for ( yield of a ) ;", "for ( a in await b ) ;", "for ( yield ; yield ; yield ) ;", "for ( var a = yield ; ; ) ;", "throw yield ;", "return yield ;", "return await a ;", "if ( yield ) ;", "switch ( yield ) { case await a : }", "do ; while ( yield ) ", "yield => a ;", "await => a ;", "( yield ) => a ;", "async yield => a ;", "async ( await ) => a ;", "try { } catch ( yield ) { }", "break yield ;", "continue await ;", "yield /r/ ;", "await /r/ ;", "new yield ;", "new await ;", "yield ++ ;", "yield function ( ) { } ;", "yield class { } ;", "yield ( ) => { } ;", "await ( ) => { } ;", "yield async a => b ;", "yield a , b ;", "yield { } ;", "yield [ ] ;", "yield - a ;", "yield ! a ;", "yield typeof a ;", "yield ++ a ;", "yield new a ;", "yield `n` ;", "yield 's' ;", "yield this ;", "yield null ;"];
pub static YA_H: &[&str] = &["@4", "yield @3", "await @3", "a = @3"];
// ---- classes
pub static CLS: &[u8] = &[A, GET, SET, STATIC, ASYNC, IF, STR, LS, RS, STAR, LP, RP, LB, RB, SEMI, COMMA, EXTENDS, CLASS, COLON, EQ];
pub static CLS_S: &[&str] = &["class a { @4 }", "class @4 { }", "class a { @3 ( ) { } }", "( class @4 { } ) ;", "class a extends @3 { }", "class a { get @3 { } }", "class a { set @4 { } }", "class a { static @4 { } }", "class a { * @4 }", "class a { async @3 { } }", "class a { [ a ] @4 }", "class a { b ( ) { } @3 }", "class a { ; @3 }", "class a { b ( @2 ) { } @2 }", "class a { b ( ) { @2 } @2", "class a { b ( ) { } ; c ( ) { } @2 } @2", "export default class @3 { }", "class a { static get @3 { } }", "class a { static async @3 { } }", "class a { static static @2 { } }", "a = class extends b { @3 } ;", "class a { static * @3 { } }", "class a extends class { } @2 { }", "class a extends b ( ) @2 { }", "@4 { } @1"];
pub static CLS_K: &[&str] = &["class a { $1 ( ) { } }", "class a { static $1 ( ) { } }", "class a { get $1 ( ) { } }", "class a { set $1 ( b ) { } }", "class a { async $1 ( ) { } }", "class a { * $1 ( ) { } }", "class a { static get $1 ( ) { } }", "class a { static async $1 ( ) { } }", "class a { static * $1 ( ) { } }", "class a { static set $1 ( b ) { } }", "class a { $2 ( ) { } }", "class a { $1 $1 }", "class $1 { }", "( class $1 { } )", "class a extends $1 { }", "class a { ; $1 ( ) { } ; }", "class a { b ( ) { } $2 ( ) { } }", "class a { b ( ) { $2 } }"];
// ---- statements
pub static STM: &[u8] = &[A, LP, RP, LB, RB, SEMI, COLON, IF, ELSE, WHILE, DO, TRY, CATCH, FINALLY, SWITCH, CASE, DEFAULT, RETURN, BREAK, THROW, WITH, FUNCTION];
pub static STM_S: &[&str] = &["@5", "if ( a ) @5", "if @5", "while @5", "do @5", "do ; while @4", "with @5", "switch @5", "switch ( a ) { @5", "switch ( a ) { case a : @4 }", "switch ( a ) { default : @4 }", "switch ( a ) { case a : b ; break ; @4", "try { @4", "try { } @5", "try { } catch @5", "try { } catch ( a ) { } @4", "try { } finally @4", "throw @4", "a : @4", "a : b : @3", "{ @5", "if ( a ) { } @4", "if ( a ) b ; else @4", "if ( a ) if ( b ) ; else @3", "function a ( ) { @4 }", "function a ( ) { return @4 }", "while ( a ) @4", "while ( a ) { break @3 }", "while ( a ) { continue @3 }", "a : while ( b ) continue @3", "debugger @3", "; @4", "{ } @4", "switch ( a ) { case a : default : @3 }"];
// ---- for
pub static T_FOR: &[u8] = &[A, OF, IN, VAR, CONST, SEMI, LP, RP, EQ, COMMA, LS, RS, LB, RB];
pub static FOR_S: &[&str] = &["for ( @5 ;", "for ( var @5 ) ;", "for ( const @5 ) ;", "for ( let a @4 ) ;", "for ( a @5 ) ;", "for ( ; @4 ) ;", "for ( a of @4 ;", "for ( a in @4 ;", "for ( var a of @3 ;", "for ( var a in @3 ;", "for ( let [ a ] @4 ;", "for ( [ a ] @4 ;", "for ( var { a } @4 ;", "for ( { a } @3 ) ;", "for ( a . b @4 ;", "for ( a [ b ] @4 ;", "for ( var a = b @4 ;", "for ( a = b @4 ;", "for ( ; ; ) @3", "for ( a ; b ; c ) @2", "for @4 ;", "for ( let a , @4 ) ;", "for ( ( a ) @4 ;", "for ( var of @4 ;", "for ( a , @4 ) ;"];
pub static IN_OUT: &[&str] = &["for ( # ; ; ) ;", "for ( var a = # ; ; ) ;", "for ( let a = # , b = # ; ; ) ;", "for ( a = # ; ; ) ;", "for ( const a = # ; ; ) ;", "for ( var { a = # } = b ; ; ) ;", "for ( ; # ; ) ;", "for ( ; ; # ) ;", "for ( a in # ) ;", "for ( a of # ) ;", "for ( var a , b = # ; ; ) ;", "for ( a , # ; ; ) ;", "for ( a ? # : b ; ; ) ;", "for ( a ? b : # ; ; ) ;", "for ( a => # ; ; ) ;", "for ( - # ; ; ) ;", "for ( a + # ; ; ) ;", "for ( ( # ) ; ; ) ;", "function a ( ) { for ( # ; ; ) ; }", "for ( var a of [ # ] ) ;", "for ( [ # ] ; ; ) ;", "for ( ; ; ) { # ; }", "for ( ; ; ) # ;", "for ( a ; ; ) { for ( # ; ; ) ; }"];
pub static IN_IN: &[&str] = &["a in b", "( a in b ) @2", "[ a in b ] @2", "a [ b in a ] @2", "a ( b in a ) @2", "new a ( b in a ) @2", "`h${ a in b }` @2", "function ( ) { a in b } @2", "function ( a = b in a ) { } @2", "( ) => { a in b } @1", "a => b in a", "( a = b in a ) => a", "class { [ a in b ] ( ) { } } @2", "class extends ( a in b ) { } @2", "class { a ( ) { a in b } } @2", "a ? b in a : b @2", "a ? b : a in b", "a = b in a", "- a in b", "a , b in a", "a ++ in b", "( { a : b in a } ) @2", "( { [ a in b ] : a } ) @2", "( { a ( ) { a in b } } ) @2", "async ( a in b ) @1", "async function ( ) { a in b } @1", "async a => { a in b } @1", "( { a = b in a } ) => a", "{ a : b in a } @1", "a && b in a", "! ( a in b ) @1", "a instanceof b @2", "yield @1", "a = ( b in a ) in b"];
// ---- declarations
pub static DEC_T: &[u8] = &[A, NUM, STR, IF, LB, RB, LS, RS, COMMA, COLON, EQ, DOTS, SEMI, LP, RP];
pub static DEC_S: &[&str] = &["var @4 ;", "let a @4", "const @5", "let { @4 } = a ;", "var [ @4 ] = a ;", "const { a : @4 } = b ;", "let [ a , @4 ] = b ;", "var { a , @4 } = b ;", "var a = b , @4 ;", "let { a = @3 } = b ;", "let [ a = @3 ] = b ;", "const a @4", "const { a } @4", "let [ ] @4", "function a ( { @4 } ) { }", "try { } catch ( @4 ) { }", "let { [ @3 ] @2 } = a ;", "let [ ... @3 ] = a ;", "let { a : { @3 } } = b ;", "let [ [ @3 ] ] = b ;", "( { @4 } ) => a ;", "[ @4 ] = a ;", "( { @4 } = a ) ;", "export let @4 ;", "export const { @3 } = a ;", "for ( let { @3 } of a ) ;", "for ( const [ @3 ] = a ; ; ) ;"];
pub static DEC_K: &[&str] = &["var $1 ;", "let a , $1 ;", "const $1 = a ;", "let { $1 } = a ;", "let { $1 : a } = b ;", "let { $1 = a } = b ;", "let { a : $1 } = b ;", "let [ $1 ] = a ;", "let [ ... $1 ] = a ;", "function a ( $1 ) { }", "function a ( ... $1 ) { }", "( $1 ) => a ;", "$1 => a ;", "try { } catch ( $1 ) { }", "function $1 ( ) { }", "class $1 { }", "for ( var $1 of a ) ;", "var $2 ;", "let $2", "const $2", "( { a ( $1 ) { } , set b ( $1 ) { } } )", "async $1 => a ;", "async ( $1 ) => a ;"];
// ---- modules
pub static T_MOD: &[u8] = &[A, STR, FROM, AS, STAR, LB, RB, COMMA, SEMI, DEFAULT, VAR, FUNCTION, CLASS, ASYNC, LP, RP, EQ, IMPORT, EXPORT];
pub static MOD_S: &[&str] = &["import @5", "import a , @4", "import { @5", "import { a , @4 } from 's' ;", "import { a as @3 } from 's' ;", "import * @4", "import a @4 ;", "export @5", "export { @5", "export { a as @3 } @2", "export { @3 } from 's'", "export * @3", "export default @4", "export default function @4 { }", "export default async @4 { }", "export default class @2 { }", "export var @4", "export function @4 { }", "export async @4 { }", "export class @3 { }", "import 's' @3", "export { } @3", "import a from 's' @3", "export default a @3", "import { } from @2", "import * as a , @3", "import { default as @2 } from 's' ;", "{ @3 }", "if ( a ) @3", "function a ( ) { @3 }", "import a , { b } @2", "import a , * as b @2", "export let a @3", "export const a = b @3", "import { a } @2 ; @2"];
pub static MOD_K: &[&str] = &["import $1 from 's' ;", "import { $1 as a } from 's' ;", "import { a as $1 } from 's' ;", "import { $1 } from 's' ;", "import * as $1 from 's' ;", "export { $1 as a } from 's' ;", "export { a as $1 } ;", "export { a as $1 } from 's' ;", "export { $1 } ;", "export { $1 } from 's' ;", "export { $1 as a } ;", "export $1", "export $1 a", "export default $1 ;", "export default $2", "import $1", "import $2", "import { a $1 b } from 's' ;", "import a $1 's' ;", "import * $1 a from 's' ;", "export { a } $1 's' ;", "export * $1 's' ;", "export { a $1 b } ;", "export default function $1 ( ) { }", "export default class $1 { }", "export function $1 ( ) { }", "export class $1 { }"];
// ---- names
pub static NAME_S: &[&str] = &["$1 ;", "var $1 ;", "$1 = a ;", "$1 : ;", "a . $1 ;", "a . $1 . $1 ;", "( { $1 : a } ) ;", "( { $1 ( ) { } } ) ;", "( { $1 } ) ;", "( { get $1 ( ) { } } ) ;", "function $1 ( ) { }", "( function $1 ( ) { } ) ;", "function a ( $1 ) { }", "class $1 { }", "class a { $1 ( ) { } }", "class a { static $1 ( ) { } }", "$1 => a ;", "( $1 ) => a ;", "( a , $1 ) => a ;", "async $1 => a ;", "break $1 ;", "continue $1 ;", "try { } catch ( $1 ) { }", "let { $1 } = a ;", "let { $1 : a } = b ;", "let { a : $1 } = b ;", "let [ $1 ] = a ;", "const $1 = a ;", "for ( $1 of a ) ;", "for ( var $1 of a ) ;", "for ( $1 in a ) ;", "import $1 from 's' ;", "import { $1 as a } from 's' ;", "import * as $1 from 's' ;", "export { a as $1 } ;", "export { $1 as a } from 's' ;", "a + $1 ;", "a ( $1 ) ;", "[ $1 ] ;", "typeof $1 ;", "new $1 ;", "new $1 ( ) ;", "$1 ( ) ;", "$1 . a ;", "$1 [ a ] ;", "$1 `n` ;", "a ? $1 : b ;", "a [ $1 ] ;", "`h${ $1 }` ;", "class a extends $1 { }", "if ( $1 ) ;", "while ( $1 ) ;", "throw $1 ;", "switch ( $1 ) { }", "with ( $1 ) ;", "$1 ++ ;", "++ $1 ;", "$1 /r/ a ;", "a . $1 / b ;", "$1 / b ;", "a . $1 /r/ b ;", "( { $1 : /r/ } ) ;", "new . $1 ;", "super . $1 ;", "a . $1 ( ) ;", "a . $1 `n` ;", "a . $1 = b ;", "a . $1 ++ ;", "a . $1 => b ;", "$1", "$1 a ;", "$1 ( a ) b ;", "$1 { }", "a $1 b ;", "a ; $1 ;", "( $1 ) ;"];
// ---- brackets
pub static BRK: &[u8] = &[A, LB, RB, LP, RP, LS, RS, HD, TM, TT, COMMA, SEMI, COLON, ARROW, FUNCTION, CLASS, EQ];
pub static BRK_S: &[&str] = &["@6", "a ( @5", "( @5 )", "{ @5 }", "[ @5 ]", "`h${ @4 }`", "function a ( ) { @4 }", "class a { @4 }", "( { @4 } )", "if ( a ) { @4", "for ( @4 ) ;", "switch ( a ) { case a : @4", "import { @3", "export { @3", "try { @4 } finally { }", "a [ @4 ]", "( { a ( @3 ) { @3", "let { @3 } = @2"];
// ---- restoration: constructs that change the context, then anything
pub static OUTER: &[&str] = &["#", "function * a ( ) { # }", "async function a ( ) { # }", "function a ( ) { # }", "`h${ function ( ) { # } }`", "for ( ; ; ) { # }", "export default function ( ) { # }", "class a { b ( ) { # } }", "{ # }", "( ) => { # }", "switch ( a ) { case 1 : # }"];
pub static CHANGE: &[&str] = &["function * a ( ) { } #", "async function a ( ) { } #", "a = ( ) => b ; #", "a = async ( ) => { } ; #", "for ( var a = 1 ; ; ) ; #", "for ( a of b ) ; #", "for ( a = ( b ) ; ; ) { } #", "`h${ a }` ; #", "`h${ { } }` ; #", "{ } #", "class a { b ( ) { } } #", "class a { * b ( ) { } static async c ( ) { } } #", "( { get a ( ) { return 1 ; } , set b ( c ) { } } ) ; #", "[ a , b ] ; #", "a ( b ) ; #", "a [ b ] ; #", "( a , b ) ; #", "a ? b : c ; #", "if ( a ) ; else ; #", "try { } finally { } #", "switch ( a ) { case 1 : } #", "let { a = 1 } = b ; #", "do ; while ( a ) #", "a : ; #", "/r/ . a ; #", "throw a ; #", "function a ( b = ( ) => 1 ) { } #", "a = function ( ) { return /r/ } ; #", "( a , b ) => { } ; #", "new a ; #"];
pub static PROBE: &[&str] = &["@2", "yield a ;", "await a ;", "return ;", "for ( a in b ) ;", "for ( var a = b in c ; ; ) ;", "for ( a = ( b in c ) ; ; ) ;", "a in b ;", "} a", "}m${ a", "/r/ ;", "a / b ;", "function ( ) { }", "function a ( ) { }", "class { }", "import 's' ;", "export { } ;", "new . target ;"];
// ---- long lists and deep nesting
pub static DEEP: &[&str] = &["( # )", "[ # ]", "{ # }", "a ( # )", "a [ # ]", "`h${ # }`", "if ( a ) #", "if ( a ) ; else #", "while ( a ) #", "a : #", "- #", "new #", "a ? b : #", "a ? # : b", "a = #", "a => #", "( ) => #", "( ) => { # }", "function a ( ) { # }", "class a { b ( ) { # } }", "( { a : # } )", "[ a , # ]", "a ( b , # )", "( { a ( ) { # } } )", "for ( ; ; ) #", "try { # } finally { }", "switch ( a ) { default : # }", "do # while ( a )", "a + #", "async ( ) => { # }", "function * a ( ) { # }", "a , #", "typeof #", "`h${ a }m${ # }`", "a in #", "with ( a ) #", "( a = # ) => b", "( class extends # { } )"];
pub static DEEP_L: &[&str] = &["a @1", "@2"];

const fn names() -> [u8; WITH as usize + 1] { let mut a = [0; WITH as usize + 1]; let mut i = 0; while i < a.len() { a[i] = i as u8; i += 1; } a }
/// every name
pub static NAMES_ONLY: &[u8] = &names();

/// repeated pieces of long programs
pub static LONG: &[(&str, &str, &str)] = &[("", "a ;", "@2"), ("a", ", a", "@2"), ("a", "+ a", "@2"), ("[ a", ", a", "] @2"), ("( {", "a : 1 ,", "} ) @2"), ("a ( b", ", a", ") @2"), ("function a ( b", ", a", ") { } @2"), ("var a", ", b", "@2"), ("let [ a", ", b", "] = c @2"), ("switch ( a ) {", "case 1 :", "} @2"), ("class a {", "b ( ) { }", "} @2"), ("import { a ,", "a ,", "} from 's' @2"), ("export { a ,", "a ,", "} @2"), ("a", ". b", "@2"), ("[", ",", "] @2"), ("a", "( )", "@2"), ("", "{ }", "@2"), ("`h${ a", "}m${ a", "}` @2"), ("a", "[ b ]", "@2"), ("", "function a ( ) { }", "@2"), ("", "if ( a ) ; else", "@2"), ("", "import 's' ;", "@2"), ("( a", ", b", ") => @2"), ("", ";", "@2"), ("", "a :", "@2"), ("", "- ", "@2"), ("a ?", "b : a ?", "@2"), ("", "a = ", "@2"), ("", "a =>", "@2"), ("class a {", ";", "@2 } "), ("a", "`n`", "@2"), ("( {", "a ,", "} ) @2"), ("( {", "a ( ) { } ,", "} ) @2"), ("function a ( ) {", "return ;", "} @2"), ("let {", "a : b ,", "} = c @2"), ("", "new", "@2"), ("", "{ } class a { }", "@2"), ("a", "`h${ b }`", "@2"), ("", "for ( ; ; )", "@2"), ("switch ( a ) { case 1 :", "a ;", "} @2"), ("`h${", "{ } +", "a }` @2")];
/// surroundings of free characters
pub static CH_S: &[(&str, &str)] = &[("", ""), ("a", "b"), ("a ", " b;"), ("(", ")"), ("var a", ";"), ("{", "}"), ("function ", "(){}"), ("x = ", ";"), ("a = {", "}"), ("[", "]"), ("if(a)", "b"), ("a", "\nb"), ("for(", ";;);"), ("class ", "{}"), ("return", ";"), ("'", "';"), ("1", "1"), ("a.", ""), ("import ", "'s'"), ("export ", ""), ("`", "`"), ("/*", "*/a"), ("a//", "\nb"), ("x(", ")=>1"), ("() ", "=>1"), ("f(...", ")"), ("let a", "=1"), ("0", ""), ("a?", ":b"), ("throw", "a")];
pub static ID: &[&str] = &["#"];
/// a small alphabet for whole texts
pub static TEXT_S: &[u8] = &[A, NUM, PLUS, INC, LP, RP, SEMI, RE, NT, FUNCTION, IN, ARROW];

// ---- every form at every position
/// complete expressions (and some incomplete ones)
pub static FORMS: &[&str] = &["a", "a , b", "a = b", "a += b", "a ? b : c", "a => b", "a => { }", "( a , b ) => c", "( ) => a", "( ) => { }", "( a = b ) => { }", "( ... a ) => b", "async a => b", "async ( a ) => b", "async ( ) => { }", "async a => { }", "yield", "yield a", "yield * a", "await a", "function ( ) { }", "function a ( b ) { }", "function * ( ) { }", "async function ( ) { }", "class { }", "class a extends b { c ( ) { } }", "{ }", "{ a }", "{ a : b , c }", "{ get a ( ) { } }", "{ * a ( ) { } }", "{ async a ( ) { } }", "[ ]", "[ a , ... b ]", "[ , ]", "`n`", "`h${ a }`", "`h${ { } }m${ a }`", "/r/", "1", "'s'", "this", "null", "true", "super . a", "new a", "new a ( )", "new . target", "new new a ( ) ( )", "a ( )", "a ( b , ... c )", "a [ b ]", "a . if", "a `n`", "a ++", "-- a", "- a", "! a", "~ a", "typeof a", "delete a . b", "void 1", "a + b", "a ** b", "a * b + c", "a in b", "a instanceof b", "a && b || c", "( a )", "( a , b )", "( a in b )", "let", "of", "async", "get", "async ( )", "a / b", "a < b", "a => b => c", "a = b => c", "a ? b => c : c => c", "- yield", "", "if", "a b", "a +", "+", ")", "... a", "a ,", ", a", "a :", "function", "class", "( )", "( a , )", "( ... a )", "{", "}", "a ? b", "=> a", "new", "a .", "async function", "yield *"];
/// complete statements (and some incomplete ones)
pub static SFORMS: &[&str] = &["a ;", "a", ";", "{ }", "{ a }", "{ { } a ; }", "var a ;", "var a = b", "let a ;", "let a = b", "const a = b ;", "if ( a ) b ;", "if ( a ) b ; else c ;", "if ( a ) { } else { }", "while ( a ) b ;", "do a ; while ( b )", "do { } while ( a ) ;", "for ( ; ; ) a ;", "for ( a ; b ; c ) { }", "for ( a of b ) ;", "for ( var a in b ) ;", "for ( let a of b ) ;", "continue ;", "break ;", "break a ;", "continue a", "return ;", "return a ;", "return", "with ( a ) b ;", "switch ( a ) { }", "switch ( a ) { case b : c ; default : }", "throw a ;", "try { } catch ( a ) { }", "try { } finally { }", "try { } catch ( { a } ) { } finally { }", "debugger ;", "a : ;", "a : b : { }", "function a ( ) { }", "class a { }", "async function a ( ) { }", "function * a ( ) { }", "a => { }", "( ) => { }", "`n` ;", "'s' ;", "/r/ ;", "a = { } ;", "( { } ) ;", "[ ] ;", "import 's' ;", "import a from 's'", "export { } ;", "export default a ;", "export var a ;", "yield ;", "await a ;", "async ( ) ;", "async a => b", "let [ a ] = b ;", "a = b ? c : ( c ) => { }", "new . target ;", "super ( ) ;", "++ a", "a /= b ;", "", "else ;", "catch ( a ) { }", "finally { }", "case a :", "default :", "function ( ) { }", "class { }", "if ( a )", "while ( a )", "a :", "for ( ; )", "try { }", "switch ( a )", "}", "{", ")", "do a while ( b )", "if a ;", "throw ;", "var", "const a ;", "else", "in", "=> a", ",", ":", "]"];
/// positions of a binding
pub static BIND: &[&str] = &["var # = a ;", "let # = a ;", "const # = a ;", "let # ;", "let a = b , # = c ;", "for ( var # of a ) ;", "for ( let # in a ) ;", "for ( const # of a ) ;", "for ( const # = a ; ; ) ;", "for ( let # = a , b ; ; ) ;", "for ( var a = b , # = c ; ; ) ;", "for ( let # ; ; ) ;", "function a ( # ) { }", "function a ( b , # ) { }", "function a ( # , b ) { }", "function a ( # = b ) { }", "function a ( ... # ) { }", "function a ( b , ... # ) { }", "( # ) => a ;", "( # = a ) => b ;", "( a , # ) => b ;", "( ... # ) => a ;", "( a , ... # ) => b ;", "async ( # ) => a ;", "async ( # = a , b ) => c ;", "async ( ... # ) => a ;", "async # => a ;", "# => a ;", "try { } catch ( # ) { }", "let { a : # } = b ;", "let { a : # = b } = c ;", "let [ # ] = a ;", "let [ # = a ] = b ;", "let [ ... # ] = a ;", "let [ a , , # ] = b ;", "class a { b ( # ) { } }", "class a { set b ( # ) { } }", "class a { static async b ( # ) { } }", "class a { set ( # ) { } }", "( { set a ( # ) { } } ) ;", "( { a ( # ) { } } ) ;", "( { * a ( # ) { } } ) ;", "( { set a ( # = b ) { } } ) ;", "export let # = a ;", "export var a , # = b ;", "export function a ( # ) { }", "export default function ( # ) { }", "export default ( # ) => a ;", "function * a ( # ) { }", "async function a ( # ) { }", "a = function ( # ) { } ;", "`h${ ( # ) => a }` ;", "`h${ function ( # ) { } }` ;", "import # from 's' ;", "import * as # from 's' ;", "function # ( ) { }", "class # { }", "( function # ( ) { } ) ;", "( class # { } ) ;"];
pub static BNEST: &[&str] = &["{ a : # }", "{ a : # = b }", "{ a , b : # , c }", "[ # ]", "[ # = a ]", "[ a , # ]", "[ ... # ]", "{ [ a ] : # }", "{ 's' : # }", "{ a : [ # ] }"];
pub static BFORMS: &[&str] = &["a", "{ }", "[ ]", "{ a }", "{ a , }", "{ a , b }", "{ a = b }", "{ a = b , c }", "{ a : b }", "{ a : b , }", "{ a : b = c }", "{ a : { b } }", "{ 's' : a }", "{ 1 : a }", "{ [ a ] : b }", "{ if : a }", "{ a : [ b ] }", "[ a ]", "[ a , ]", "[ , a ]", "[ , ]", "[ a , , b ]", "[ a = b ]", "[ [ a ] ]", "[ { a } ]", "[ ... a ]", "[ a , ... b ]", "[ , ... a ]", "[ ... [ a ] ]", "[ ... { a } ]", "{ a = b in c }", "[ a = b in c ]", "{ [ a in b ] : c }", "{ a = ( ) => { } }", "[ a = function ( ) { } ]", "{ a = { b } }", "{ a = yield }", "{ a : b = await c }", "let", "async", "of", "get", "static", "yield", "await", "{ async }", "{ get }", "{ static , of }", "{ async : a }", "{ get : a , set : b }",
    "", "{ if }", "{ 's' }", "{ 1 }", "{ a b }", "[ a b ]", "[ ... a , b ]", "[ ... a = b ]", "[ ... a , ]", "[ ... ]", "{ a : }", "{ ... a }", "{ a ( ) { } }", "{ get a ( ) { } }", "a . b", "a [ b ]", "( a )", "if", "null", "this", "1", "'s'", "{ a : b . c }", "{ a = }", "[ a = ]", "{ [ a ] }", "{ [ a ] = b }", "{ if = a }", "{ * a }", "{ , }", "{ a , , b }", "{ a", "[ a", "a = b", "a , b", "{ yield }", "{ await }", "{ yield : a }", "a b", "a => b", "... a", "[ a . b ]", "{ a : 1 }", "{ a : ( b ) }"];
/// yield and await in every small form
pub static YFORMS: &[&str] = &["yield", "yield a", "yield * a", "await a", "await await a", "yield yield a", "a => b", "async a => await b", "async ( ) => { await a ; }", "function * ( ) { yield a ; }", "function ( ) { yield ; }", "( ) => yield", "( yield )", "[ await a ]", "{ a : yield }", "{ [ yield ] : a }", "{ yield }", "{ * a ( ) { yield ; } , b ( ) { } }", "{ async a ( ) { await b ; } }", "class { [ yield ] ( ) { } }", "class { * a ( ) { yield ; } }", "class extends ( await a ) { }", "`h${ yield }`", "`h${ await a }`", "a ( yield )", "a [ await b ]", "yield ? a : b", "a ? yield : await b", "a = yield b", "yield /r/", "await /r/", "yield => a", "yield : a", "- await a", "- yield", "yield in a", "await", "async yield => a", "async ( await ) => a", "yield ++", "new yield", "a . yield", "async function ( ) { await a ; }", "async function ( ) { yield ; }", "function * ( ) { await a ; }", "yield , yield"];
/// functions and arrows
pub static FFORMS: &[&str] = &["function ( ) { }", "function a ( ) { }", "function ( a ) { }", "function ( a , b ) { }", "function ( a , ) { }", "function ( a = b ) { }", "function ( { a } ) { }", "function ( [ a ] = b ) { }", "function ( ... a ) { }", "function ( a , ... b ) { }", "function * ( ) { }", "function * a ( ) { yield b ; }", "async function ( ) { }", "async function a ( ) { await b ; }", "a => b", "a => { }", "a => { return b ; }", "( ) => a", "( ) => { }", "( a ) => b", "( a ) => { }", "( a , b ) => { }", "( a , ) => b", "( a = b ) => c", "( { a } ) => b", "( [ a ] ) => { }", "( { a = b } ) => c", "( { a : b } ) => c", "( ... a ) => b", "( a , ... b ) => { }", "( ... [ a ] ) => { }", "async a => b", "async a => { }", "async ( ) => a", "async ( a , b ) => { }", "async ( ... a ) => b", "a => b => c", "( a ) => ( b ) => c", "a => ( b , c )", "a => ( { } )", "a => [ ]", "async a => async b => c", "( ( ) => a )", "( ( ) => { } ) ( )", "function ( ) { } ( )", "( function ( ) { } ) ( )", "a => b ? c : c", "a => b = c", "a ? ( b ) => c : c => c", "a = b => c", "a || ( b => c )", "( a = ( b ) => c ) => c", "( a = function ( ) { } ) => b", "get => a", "of => a", "let => a", "async => a",
    "( )", "( a , )", "( ... a )", "( a , ... b )", "( ... a , b ) => c", "( ... a = b ) => c", "( , ) => a", "( a b ) => c", "function", "function ( )", "function { }", "function ( a b ) { }", "function ( ... a , b ) { }", "function ( ... a = b ) { }", "function ( 1 ) { }", "function ( a . b ) { }", "function ( , ) { }", "function ( if ) { }", "function if ( ) { }", "a =>", "a => ;", "=> a", "( ) =>", "( ) => )", "( ) { }", "async ( ) { }", "async function", "async a", "async a b", "async a => ", "async 1 => b", "async function * ( ) { }", "function * * ( ) { }", "a => b , c", "a => { } ( )", "a => { } . b", "a => { } + b", "a => { } `n`", "a => { } ? b : c", "a => { } = b", "a + b => { } . c", "a || b => c || c", "if => a", "if ( a ) => b", "( if ) => a", "async if => a", "async ( if ) => a", "a ++ => b", "function ( ) { ", "function ( ) }"];
/// object and array literals
pub static OFORMS: &[&str] = &["{ }", "{ a }", "{ a , }", "{ a , b }", "{ a : b }", "{ a : b , }", "{ a : b , c : c }", "{ a : b , c }", "{ 's' : a }", "{ 1 : a }", "{ [ a ] : b }", "{ if : a }", "{ null : a }", "{ a ( ) { } }", "{ a ( b , c ) { } , }", "{ 's' ( ) { } }", "{ [ a ] ( ) { } }", "{ if ( ) { } }", "{ * a ( ) { } }", "{ * [ a ] ( ) { } }", "{ * if ( ) { } }", "{ async a ( ) { } }", "{ async 's' ( ) { } }", "{ async [ a ] ( ) { } }", "{ async if ( ) { } }", "{ get a ( ) { } }", "{ get if ( ) { } }", "{ get 's' ( ) { } , set 's' ( a ) { } }", "{ get [ a ] ( ) { } }", "{ set a ( b ) { } }", "{ set a ( { b } ) { } }", "{ set a ( b = c ) { } }", "{ get }", "{ set }", "{ async }", "{ get , set , async }", "{ get : a }", "{ set : a }", "{ async : a }", "{ get ( ) { } }", "{ set ( ) { } }", "{ async ( ) { } }", "{ get get ( ) { } }", "{ set set ( a ) { } }", "{ async async ( ) { } }", "{ get async ( ) { } }", "{ async get ( ) { } }", "{ static : a }", "{ static }", "{ a : function ( ) { } }", "{ a : b => c , c }", "{ a : b = c }", "{ a : ( b , c ) }", "{ a : { b : { } } }", "{ a : [ b ] }", "{ a : `n` }", "{ a : /r/ }", "{ a : b in c }", "{ [ a + b ] : c }", "{ a : class { } }", "[ ]", "[ a ]", "[ a , ]", "[ , ]", "[ , , ]", "[ , a ]", "[ a , , b ]", "[ a , , ]", "[ ... a ]", "[ ... a , ]", "[ ... a , b ]", "[ a , ... b , ... c ]", "[ [ ] , [ a ] ]", "[ { } ]", "[ a = b ]", "[ a => b , c ]", "[ /r/ ]", "[ , /r/ ]", "[ function ( ) { } , class { } ]", "[ a in b ]", "[ `n` ]",
    "{ a b }", "{ a : }", "{ : a }", "{ , }", "{ a , , b }", "{ if }", "{ this }", "{ null }", "{ 's' }", "{ 1 }", "{ [ a ] }", "{ [ a , b ] : c }", "{ [ ] : a }", "{ a : b , , c }", "{ a : b c }", "{ a : b ; }", "{ a ; b }", "{ a . b }", "{ a ( ) }", "{ a ( ) { } b }", "{ a ( ) { } : b }", "{ get a }", "{ get a : b }", "{ get a ( b ) { } }", "{ set a ( ) { } }", "{ set a ( b , c ) { } }", "{ set a ( ... b ) { } }", "{ get * a ( ) { } }", "{ * get a ( ) { } }", "{ * }", "{ * a }", "{ * a : b }", "{ async * }", "{ async a }", "{ async a : b }", "{ async get a ( ) { } }", "{ get async a ( ) { } }", "{ static a ( ) { } }", "{ a : b , c : }", "{ 1 1 }", "{ + a }", "{ ( a ) }", "{ a => b }", "{ a + b }", "{", "{ a", "{ a :", "{ a ( ) {", "[", "[ a", "[ a b ]", "[ a ; b ]", "[ ... ]", "[ ... , a ]", "[ : ]", "[ a : b ]", "[ a", "[ } ", "{ ]"];
/// classes
pub static CFORMS: &[&str] = &["{ }", "{ ; }", "{ ; ; }", "{ a ( ) { } }", "{ a ( ) { } ; }", "{ ; a ( ) { } }", "{ a ( ) { } b ( ) { } }", "{ a ( ) { } ; ; b ( ) { } }", "{ static a ( ) { } }", "{ get a ( ) { } }", "{ set a ( b ) { } }", "{ static get a ( ) { } }", "{ static set a ( b ) { } }", "{ * a ( ) { yield ; } }", "{ static * a ( ) { } }", "{ async a ( ) { await b ; } }", "{ static async a ( ) { } }", "{ set ( ) { super ( ) ; } }", "{ 's' ( ) { } }", "{ 1 ( ) { } }", "{ [ a ] ( ) { } }", "{ static [ a ] ( ) { } }", "{ get [ a ] ( ) { } }", "{ * [ a ] ( ) { } }", "{ async [ a ] ( ) { } }", "{ * 's' ( ) { } }", "{ async 's' ( ) { } }", "{ get 1 ( ) { } }", "{ if ( ) { } }", "{ static if ( ) { } }", "{ get if ( ) { } }", "{ async if ( ) { } }", "{ * if ( ) { } }", "{ static ( ) { } }", "{ get ( ) { } }", "{ set ( a ) { } }", "{ async ( ) { } }", "{ static static ( ) { } }", "{ static get ( ) { } }", "{ static set ( ) { } }", "{ static async ( ) { } }", "{ get get ( ) { } }", "{ get static ( ) { } }", "{ set set ( a ) { } }", "{ async async ( ) { } }", "{ async get ( ) { } }", "{ * get ( ) { } }", "{ * async ( ) { } }", "{ * static ( ) { } }", "{ static * static ( ) { } }", "{ static get static ( ) { } }", "{ static async static ( ) { } }", "{ a ( b , c = c , { c } , ... b ) { } }", "{ a ( ) { return /r/ ; } }", "{ a ( ) { } get b ( ) { } set c ( c ) { } static c ( ) { } async b ( ) { } * a ( ) { } ; [ b ] ( ) { } }",
    "", "{", "}", "( )", "{ a }", "{ a ; }", "{ a = b }", "{ a : b }", "{ a ( ) }", "{ a { } }", "{ a ( ) { } , b ( ) { } }", "{ , }", "{ static }", "{ static ; }", "{ get }", "{ get a }", "{ get a ( b ) { } }", "{ set a ( ) { } }", "{ set a ( b , c ) { } }", "{ set a ( ... b ) { } }", "{ get a ( b ) { } }", "{ static get a ( b ) { } }", "{ static set a ( ) { } }", "{ get * a ( ) { } }", "{ * get a ( ) { } }", "{ * async a ( ) { } }", "{ async * }", "{ async get a ( ) { } }", "{ get async a ( ) { } }", "{ get set a ( ) { } }", "{ get static a ( ) { } }", "{ async static a ( ) { } }", "{ * static a ( ) { } }", "{ static static a ( ) { } }", "{ static static static ( ) { } }", "{ * * a ( ) { } }", "{ * ( ) { } }", "{ [ a , b ] ( ) { } }", "{ [ ] ( ) { } }", "{ [ a ] }", "{ a b ( ) { } }", "{ function a ( ) { } }", "{ var a ; }", "{ a ( 1 ) { } }", "{ a ( ... b , c ) { } }", "{ ( ) { } }", "{ - a ( ) { } }", "{ a ( ) => { } }", "{ a ( ) { }", "{ { } }", "{ ... a }", "{ a . b ( ) { } }", "{ 's' }", "{ 1 }"];
pub static CPOS: &[&str] = &["class a #", "class a extends b #", "( class # ) ;", "( class a # ) ;", "a = class extends b . c #", "export default class #", "export default class a #", "export class a #", "class a extends class { } #", "class a extends b ( ) #", "class a extends ( b , c ) #", "class a extends `n` #", "class a extends new b #", "`h${ class # }` ;", "a ( class # ) ;", "function * a ( ) { class b # }", "async function a ( ) { ( class # ) ; }", "class a # class b { }", "class a # /r/ ;", "( class # / a ) ;", "{ class a # }", "new class # ;", "new class # ( ) ;", "class #", "class a extends #", "class if #", "class a extends b + c #", "class a extends ( ) => { } #", "class a extends b , c #", "class a b #", "class extends a #", "export class #", "switch ( a ) { case b : class c # }"];
/// something before or around a statement
pub static SFORMS2: &[&str] = &["a ; #", "a #", "{ } #", "if ( a ) b ; #", "if ( a ) b ; else #", "if ( a ) if ( b ) ; else #", "while ( a ) #", "do # while ( a ) ;", "do ; while ( a ) #", "for ( ; ; ) ; #", "for ( a of b ) { } #", "for ( var a in b ) #", "a : #", "a : b : #", "try { # } catch ( a ) { }", "try { } catch ( a ) { # } finally { }", "try { } finally { } #", "switch ( a ) { case b : # case c : }", "switch ( a ) { } #", "with ( a ) #", "function a ( ) { } #", "class a { } #", "var a #", "var a = b ; #", "let a = b #", "const a = b ; #", "return #", "return a ; #", "throw a ; #", "break ; #", "break #", "continue #", "debugger #", "a = function ( ) { } #", "a => { } #", "( ) => { } ; #", "; #", "'s' ; #", "`n` #", "import 's' ; #", "export { } #", "export default a ; #", "export default function ( ) { } #", "export var a ; #", "# ; a", "# a", "# }", "{ # } a ;", "# if ( a ) ;", "# /r/ ;"];
pub static ONEST: &[&str] = &["( # ) ;", "a = # ;", "( { a : # } ) ;", "[ # ] ;", "[ a , # , b ] ;", "{ a : # }", "[ # ]", "{ a : # , b }", "[ ... # ]", "{ [ # ] : a }", "a ( # )", "`h${ # }`", "function * ( ) { # ; }", "async ( ) => # ", "( # )", "{ a ( ) { ( # ) ; } }", "( a = # ) => b"];
pub static TPOS: &[&str] = &["`h${ # }`", "`h${ # }m${ a }`", "`h${ a }m${ # }`", "a `h${ # }`", "`h${ `h${ # }` }`", "`h${ { a : # } }`", "`h${ ( # ) }m${ a }`", "`h${ ( ) => { # ; } }`", "`h${ a }` + `h${ # }`", "`n` `h${ # }` . a", "`h${ [ # ] }` ( `n` )"];
/// call and member forms
pub static CALLF: &[&str] = &["a", "a . b", "a . if", "a [ b ]", "a [ b , c ]", "a ( )", "a ( b )", "a ( b , )", "a ( b , c )", "a ( ... b )", "a ( ... b , )", "a ( ... b , c )", "a ( b , ... c , ... c )", "a ( ( b , c ) )", "a ( b = c )", "a ( b => c )", "a ( function ( ) { } )", "a `n`", "a `h${ b }`", "a . b ( )", "a ( ) ( )", "a ( ) . b", "a ( ) [ b ]", "a ( ) `n`", "new a", "new a ( )", "new a . b", "new a . b ( c )", "new a [ b ] ( )", "new a `n`", "new ( a )", "new ( a ( ) ) ( )", "new new a", "new new a ( )", "new new a ( ) ( )", "new a ( ) . b", "new a ( ... b )", "new . target", "new new . target", "new . target . a", "new . target ( )", "new this", "new function ( ) { }", "new class { } ( )", "super . a", "super [ a ]", "super ( )", "super ( ... a )", "super . a ( )", "this . a", "this ( )", "'s' . a", "1 . a", "/r/ . a", "{ } . a", "[ ] [ a ]", "( a ) . b", "async ( )", "async ( a , ... b )", "async . a", "get ( )", "a . new", "a . target", "a . async ( )", "new async ( )",
    "a .", "a . 1", "a . 's'", "a . ( b )", "a . [ b ]", "a [ ]", "a [ b", "a ( b", "a ( , )", "a ( b , , c )", "a ( b c )", "a ( ... )", "a ( ... , b )", "a ( ... ... b )", "a ( b ; c )", "new", "new ( )", "new new", "new . a", "new . target =", "new - a", "new a ++", "new ++ a", "new ! a", "new if", "new . new", "a . . b", "a . ... b", "... a", "new a => b", "new ...", "a [ ... b ]", "a [ b ] ]", "a ( ) )"];
/// for statements
pub static FORF: &[&str] = &["for ( ; ; ) ;", "for ( a ; b ; c ) ;", "for ( var a ; ; ) ;", "for ( var a = b , c ; ; ) ;", "for ( let a = b ; ; ) ;", "for ( let a , b ; c ; ) ;", "for ( const a = b ; ; ) ;", "for ( const a = b , c = a ; ; ) ;", "for ( var { a } = b ; ; ) ;", "for ( let [ a ] = b ; ; ) ;", "for ( a of b ) ;", "for ( a in b ) ;", "for ( a . b of c ) ;", "for ( a [ b ] in c ) ;", "for ( var a of b ) ;", "for ( var a in b ) ;", "for ( let a of b ) ;", "for ( let a in b ) ;", "for ( const a of b ) ;", "for ( const { a } in b ) ;", "for ( var [ a ] of b ) ;", "for ( let { a = b } of c ) ;", "for ( a in b , c ) ;", "for ( var a in b , c ) ;", "for ( a of b = c ) ;", "for ( a = b ; ; ) ;", "for ( a , b ; ; ) ;", "for ( a = ( b in c ) ; ; ) ;", "for ( ; a in b ; ) ;", "for ( ; ; a in b ) ;", "for ( [ a ] of b ) ;", "for ( { a } of b ) ;", "for ( a ( b in c ) ; ; ) ;", "for ( of of of ) ;", "for ( async of ; ; ) ;", "for ( let of a ) ;", "for ( let in a ) ;", "for ( let ; ; ) ;", "for ( var of of of ) ;", "for ( var of ; ; ) ;",
    "for ( a ) ;", "for ( a ; b ) ;", "for ( a ; b ; c ; ) ;", "for ( a of b , c ) ;", "for ( var a = b of c ) ;", "for ( var a , b of c ) ;", "for ( let a , b in c ) ;", "for ( const a ; ; ) ;", "for ( let { a } ; ; ) ;", "for ( var a in b in c ; ; ) ;", "for ( a of b of c ) ;", "for ( a in b of c ) ;", "for ( of a ) ;", "for ( in a ) ;", "for ( var of a ) ;", "for ( var in a ) ;", "for ( var a = b in c ; ; ) ;", "for ( a in b ; ; ) ;", "for ( ; ; ) }", "for a of b ;", "for ( const a , b = c ; ; ) ;", "for ( let a = b in c ) ;", "for ( var a b of c ) ;", "for ( ; ; ; ) ;", "for ( ) ;", "for ( var ) ;", "for ( var ; ; ) ;", "for ( a of ) ;", "for ( a in ) ;", "for ( let a in b ; ; ) ;"];
/// import and export declarations
pub static MODF: &[&str] = &["import 's' ;", "import 's'", "import a from 's' ;", "import { } from 's' ;", "import { a } from 's' ;", "import { a , } from 's' ;", "import { a , b } from 's' ;", "import { a as b } from 's' ;", "import { a as b , c } from 's' ;", "import { default as a } from 's' ;", "import { as as as } from 's' ;", "import { as } from 's' ;", "import { from } from 's' ;", "import * as a from 's' ;", "import a , { b } from 's' ;", "import a , { } from 's' ;", "import a , * as b from 's' ;", "import from from 's' ;", "import as from 's' ;", "import * as as from 's' ;", "import async , { get as set } from 's' ;", "export { } ;", "export { a } ;", "export { a , } ;", "export { a , b } ;", "export { a as b } ;", "export { a as default } ;", "export { a as if } ;", "export { } from 's' ;", "export { a } from 's' ;", "export { a as b , c as default } from 's' ;", "export { default } from 's' ;", "export { default as a } from 's' ;", "export { as as as } ;", "export { from as from } from 's' ;", "export * from 's' ;", "export default a ;", "export default a = b ;", "export default ( a , b ) ;", "export default function ( ) { }", "export default function a ( ) { }", "export default function * ( ) { }", "export default function * a ( ) { }", "export default async function ( ) { }", "export default async function a ( ) { }", "export default async ( ) => { }", "export default async ;", "export default a => b ;", "export default class { }", "export default class a extends b { }", "export default class extends a { }", "export default [ ] ;", "export default { } ;", "export default { a : b }", "export default 's' ;", "export default /r/ ;", "export default ( function ( ) { } ) ;", "export default new a ;", "export var a ;", "export var a = b , c ;", "export let a ;", "export let { a } = b ;", "export const a = b ;", "export const a = b , c = a ;", "export function a ( ) { }", "export function * a ( ) { }", "export async function a ( ) { }", "export class a { }", "export class a extends b { }",
    "import ;", "import a ;", "import a b from 's' ;", "import a from b ;", "import { a } ;", "import { a b } from 's' ;", "import { a as } from 's' ;", "import { , } from 's' ;", "import { a , , b } from 's' ;", "import { * as a } from 's' ;", "import * from 's' ;", "import * as from 's' ;", "import * a from 's' ;", "import a , from 's' ;", "import a , b from 's' ;", "import { a } , b from 's' ;", "import * as a , { b } from 's' ;", "import { a } , * as b from 's' ;", "import if from 's' ;", "import { 's' } from 's' ;", "import { a . b } from 's' ;", "import from 's' ;", "import 's' from 's' ;", "import ( 's' ) ;", "import { a } from 's' b", "export ;", "export a ;", "export { a b } ;", "export { a as } ;", "export { , } ;", "export { a , , b } ;", "export { a } from ;", "export { a } from b ;", "export { 's' } ;", "export * ;", "export * as a from 's' ;", "export * from a ;", "export default ;", "export default var a ;", "export default let a ;", "export default const a = b ;", "export default a , b ;", "export default a b ;", "export default function ;", "export default class ;", "export default if ;", "export default export a ;", "export const a ;", "export let ;", "export let { a } ;", "export function ( ) { }", "export function * ( ) { }", "export async function ( ) { }", "export class { }", "export class extends a { }", "export async ;", "export 's' ;", "export import 's' ;", "export export { } ;", "export { a } b", "export if ( a ) ;", "export { a } , { b } ;", "export [ a ] ;", "export * , { a } from 's' ;", "export default default a ;"];
/// the same without the constructs that nest
pub static LONG_FLAT: &[(&str, &str, &str)] = &[("", "a ;", "@2"), ("a", ", a", "@2"), ("a", "+ a", "@2"), ("[ a", ", a", "] @2"), ("( {", "a : 1 ,", "} ) @2"), ("a ( b", ", a", ") @2"), ("function a ( b", ", a", ") { } @2"), ("var a", ", b", "@2"), ("let [ a", ", b", "] = c @2"), ("switch ( a ) {", "case 1 :", "} @2"), ("class a {", "b ( ) { }", "} @2"), ("import { a ,", "a ,", "} from 's' @2"), ("export { a ,", "a ,", "} @2"), ("a", ". b", "@2"), ("[", ",", "] @2"), ("a", "( )", "@2"), ("", "{ }", "@2"), ("`h${ a", "}m${ a", "}` @2"), ("a", "[ b ]", "@2"), ("", "function a ( ) { }", "@2"), ("", "import 's' ;", "@2"), ("( a", ", b", ") => @2"), ("", ";", "@2"), ("class a {", ";", "@2 } "), ("a", "`n`", "@2"), ("( {", "a ,", "} ) @2"), ("( {", "a ( ) { } ,", "} ) @2"), ("function a ( ) {", "return ;", "} @2"), ("let {", "a : b ,", "} = c @2"), ("", "{ } class a { }", "@2"), ("a", "`h${ b }`", "@2"), ("switch ( a ) { case 1 :", "a ;", "} @2"), ("`h${", "{ } +", "a }` @2")];
/// constructs with a body, in the middle of something that goes on behind it
pub static LEAVE: &[&str] = &["a = function ( ) { # } in b ;", "a = function ( ) { # } @2", "a = ( ) => { # } @2", "( function ( ) { # } in a ) @1", "`h${ function ( ) { # } in a }` @1", "`h${ ( ) => { # } }m${ a in b }` ;", "a ( ( ) => { # } , b in c ) ;", "[ ( ) => { # } , a in b ] @1", "( { a ( ) { # } , b : c in a } ) @1", "( { get a ( ) { # } , [ b in c ] : /r/ } ) @1", "class a extends class { b ( ) { # } } { * c ( ) { yield ; } }", "class a { [ function ( ) { # } in b ] ( ) { } }", "class a { b ( ) { # } [ a in b ] ( ) { } }", "function * a ( ) { ( function ( ) { # } ) ; yield ; }", "function * a ( ) { ( ( ) => { # } ) in yield ; }", "async function a ( ) { ( ( ) => { # } ) ; await b ; }", "async ( a ) => { ( { * b ( ) { # } } ) ; await a in b ; }", "function * a ( ) { `h${ async ( ) => { # } }m${ yield }` ; }", "export default function ( ) { # } @2", "export default class { a ( ) { # } } @2", "switch ( function ( ) { # } in a ) { case b in c : }", "if ( ( ) => { # } ) @2", "a ? ( ) => { # } : b in c ;", "a ? function ( ) { # } in b : c ;", "for ( a of function ( ) { # } in b ) ;", "for ( ; function ( ) { # } in b ; ) ;", "for ( var a = ( function ( ) { # } in b ) ; ; ) c in b ;", "for ( var a = function ( ) { # } in b ; ; ) ;", "for ( var a = function ( ) { # } ; ; ) b in c ;", "for ( let a = [ function ( ) { # } , b in c ] ; ; ) ;", "for ( ; ; ) { # } a in b ;", "let { a = function ( ) { # } in b } = c ;", "let a = function ( ) { # } , b = a in c ;", "function a ( b = function ( ) { # } in c , c = a in b ) { }", "( a , b = ( ) => { # } , c in a ) => a in b ;", "a => { # } @2", "do { # } while ( a in b )", "try { # } catch ( { a = b in c } ) { a in b }", "while ( a ) { # } function a ( ) { yield }", "new class { a ( ) { # } } ( a in b ) ;", "throw function ( ) { # } in a ;", "{ # } /r/ ;", "a [ function ( ) { # } ] / b in c ;", "- function ( ) { # } in a ;"];
pub static LONG_T: &[u8] = &[A, SEMI, COMMA, RP, RB, FUNCTION];
