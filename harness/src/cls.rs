//! Token classes: the alphabet of the parser harnesses.
use jsparse::verif_hooks::tokens::PunctuatorToken as P;

macro_rules! classes {
    (idents: $($i:ident = $it:literal,)* ; puncts: $($p:ident = $pt:literal $pv:ident,)* ; others: $($o:ident = $ot:literal $ok:ident,)* ) => {
        #[allow(non_camel_case_types, dead_code)] #[repr(u8)] #[derive(Clone, Copy)]
        enum Id { $($i,)* $($p,)* $($o,)* N_ }
        $(pub const $i: u8 = Id::$i as u8;)*
        $(pub const $p: u8 = Id::$p as u8;)*
        $(pub const $o: u8 = Id::$o as u8;)*
        pub const N: usize = Id::N_ as usize;
        pub static TEXT: [&str; N] = [$($it,)* $($pt,)* $($ot,)*];
        pub static KIND: [u8; N] = [$({ let _ = Id::$i; K_ID },)* $({ let _ = Id::$p; K_P },)* $($ok,)*];
        /// punctuator of each class (CurlyOpen where there is none)
        pub static PV: [P; N] = [$({ let _ = Id::$i; P::CurlyOpen },)* $(P::$pv,)* $({ let _ = Id::$o; P::CurlyOpen },)*];
        pub static NAMES: [[u8; 16]; N] = [$(pad($it),)* $(pad($pt),)* $(pad($ot),)*];
        pub static NLEN: [u8; N] = [$($it.len() as u8,)* $($pt.len() as u8,)* $($ot.len() as u8,)*];
    }
}
const fn pad(s: &str) -> [u8; 16] { let b = s.as_bytes(); let mut o = [b' '; 16]; let mut i = 0; while i < b.len() { o[i] = b[i]; i += 1; } o }
pub const K_ID: u8 = 0;
pub const K_P: u8 = 1;
pub const K_NUM: u8 = 2;
pub const K_STR: u8 = 3;
pub const K_NT: u8 = 4;
pub const K_HD: u8 = 5;
pub const K_RB: u8 = 6;
pub const K_TM: u8 = 7;
pub const K_TT: u8 = 8;
pub const K_RE: u8 = 9;
pub const K_SL: u8 = 10;
pub const K_NONE: u8 = 11;
pub const K_EOF: u8 = 12;
classes! {
    idents:
    A = "a", B = "b", C = "c", GET = "get", SET = "set", FROM = "from", AS = "as", OF = "of", TARGET = "target", ASYNC = "async",
    LET = "let", STATIC = "static", IMPLEMENTS = "implements", INTERFACE = "interface", PACKAGE = "package", PRIVATE = "private", PROTECTED = "protected", PUBLIC = "public",
    AWAIT = "await", YIELD = "yield", BREAK = "break", CASE = "case", CATCH = "catch", CLASS = "class", CONST = "const", CONTINUE = "continue", DEBUGGER = "debugger", DEFAULT = "default", DELETE = "delete", DO = "do", ELSE = "else", ENUM = "enum", EXPORT = "export", EXTENDS = "extends", FALSE = "false", FINALLY = "finally", FOR = "for", FUNCTION = "function", IF = "if", IMPORT = "import", IN = "in", INSTANCEOF = "instanceof", NEW = "new", NULL = "null", RETURN = "return", SUPER = "super", SWITCH = "switch", THIS = "this", THROW = "throw", TRUE = "true", TRY = "try", TYPEOF = "typeof", VAR = "var", VOID = "void", WHILE = "while", WITH = "with",
    ;
    puncts:
    LB = "{" CurlyOpen, LP = "(" ParenOpen, RP = ")" ParenClose, LS = "[" SquareOpen, RS = "]" SquareClose, SEMI = ";" Semicolon, COMMA = "," Comma, TILDE = "~" Tilde, QUEST = "?" Question, COLON = ":" Colon, DOT = "." Period, DOTS = "..." Ellipsis,
    LT = "<" LAngle, LE = "<=" LAngleEq, SHL = "<<" LAngleAngle, SHLEQ = "<<=" LAngleAngleEq, GT = ">" RAngle, GE = ">=" RAngleEq, SHR = ">>" RAngleAngle, SHREQ = ">>=" RAngleAngleEq, USHR = ">>>" RAngleAngleAngle, USHREQ = ">>>=" RAngleAngleAngleEq,
    NOT = "!" Exclam, NE = "!=" ExclamEq, NEE = "!==" ExclamEqEq, EQ = "=" Eq, ARROW = "=>" Arrow, EQEQ = "==" EqEq, EQEQEQ = "===" EqEqEq, PLUS = "+" Plus, PLUSEQ = "+=" PlusEq, INC = "++" PlusPlus, MINUS = "-" Minus, MINUSEQ = "-=" MinusEq, DEC = "--" MinusMinus,
    MOD = "%" Percent, MODEQ = "%=" PercentEq, STAR = "*" Star, STAREQ = "*=" StarEq, POW = "**" StarStar, POWEQ = "**=" StarStarEq, AMP = "&" Amp, ANDAND = "&&" AmpAmp, AMPEQ = "&=" AmpEq, BAR = "|" Bar, OROR = "||" BarBar, BAREQ = "|=" BarEq, CARET = "^" Caret, CARETEQ = "^=" CaretEq,
    ;
    others:
    NUM = "1" K_NUM, STR = "'s'" K_STR, NT = "`n`" K_NT, HD = "`h${" K_HD, RB = "}" K_RB, TM = "}m${" K_TM, TT = "}`" K_TT, RE = "/r/" K_RE, SL = "/" K_SL, SLEQ = "/=" K_SL, NONE = "" K_NONE, EOF = "" K_EOF,
}
pub fn is_ident(c: u8) -> bool { c <= WITH }
/// reserved in every goal of module code
pub fn is_reserved(c: u8) -> bool { c >= AWAIT && c <= WITH }
/// reserved in strict mode only (or `let`): not specified
pub fn is_strict_reserved(c: u8) -> bool { c >= LET && c <= PUBLIC }
pub fn is_plain(c: u8) -> bool { c <= ASYNC }

const fn any() -> [u8; NONE as usize] { let mut a = [0; NONE as usize]; let mut i = 0; while i < NONE as usize { a[i] = i as u8; i += 1; } a }
/// every token class
pub static ANY: [u8; NONE as usize] = any();
