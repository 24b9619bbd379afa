//! Independent reference recognizer for ES2017 module code over token classes, written from the specification's
//! syntactic grammar. Three answers: derivable (Ok), not derivable (No), not specified (Un: early-error rules,
//! cover grammars that need them, later language versions, sloppy-mode-only names).
use crate::cls::*;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Bad { No, Un }
use Bad::*;
pub type Res = Result<u32, Bad>;

// attributes of a parsed expression
const E: u32 = 1; // valid expression
const S: u32 = 2; // simple assignment target
const P: u32 = 4; // valid assignment pattern
const B: u32 = 8; // valid binding target (identifier or pattern)
const DE: u32 = 16; // valid assignment element, default included
const BE: u32 = 32; // valid binding element, default included
const PAR: u32 = 64; // parenthesized list valid as arrow parameters
const ASY: u32 = 128; // async(...) whose arguments are valid as arrow parameters
const UNA: u32 = 256; // unary operator expression
const ALLELEM: u32 = E | DE | BE;

#[derive(Clone, Copy)]
pub struct Ref { pub c: &'static [u8], pub nl: &'static [u8], pub i: usize, pub sub: u8, y: bool, w: bool, f: bool, m: bool, par: bool }

pub fn newline(sep: u8) -> bool { sep != 0 && sep != 2 }

impl Ref {
    pub fn new(c: &'static [u8], nl: &'static [u8]) -> Ref { let mut r = Ref { c, nl, i: 0, sub: 0, y: false, w: false, f: false, m: false, par: false }; r.skip(); r }
    fn skip(&mut self) { while self.i < self.c.len() && self.c[self.i] == NONE { self.i += 1; } }
    /// current token
    fn t(&self) -> u8 {
        if self.i >= self.c.len() { return EOF; }
        let c = self.c[self.i];
        match self.sub {
            0 => c,
            1 => if c == TT { 255 } else { A },
            _ => if c == TM { LB } else { SL },
        }
    }
    fn next(&mut self) { self.i += 1; self.sub = 0; self.skip(); }
    /// consume the current token
    fn adv(&mut self) {
        if self.sub == 0 { self.next() }
        else if self.sub == 1 { self.sub = 2 }
        else { self.next() }
    }
    fn nlb(&self) -> bool {
        if self.sub > 0 || self.i >= self.c.len() { return false; }
        let mut j = self.i;
        loop {
            if newline(self.nl[j]) { return true; }
            if j == 0 || self.c[j - 1] != NONE { return false; }
            j -= 1;
        }
    }
    fn is(&self, c: u8) -> bool { self.t() == c }
    fn eat(&mut self, c: u8) -> bool { if self.t() == c { self.adv(); true } else { false } }
    fn need(&mut self, c: u8) -> Result<(), Bad> { if self.eat(c) { Ok(()) } else { self.bad() } }
    /// failure at the current token: rejected, unless the text cannot be tokenized independently of the parser's state
    fn bad<T>(&self) -> Result<T, Bad> { if self.t() == 255 { Err(Un) } else { Err(No) } }
    fn is_close(&self) -> bool { let t = self.t(); t == RB || t == TM || t == TT }
    fn close(&mut self) -> Result<(), Bad> {
        let t = self.t();
        if t == RB { self.next(); Ok(()) } else if t == TM || t == TT { self.sub = 1; Ok(()) } else { self.bad() }
    }
    /// the token after the current one (sub-token aware enough for identifiers)
    fn peek(&self) -> Ref { let mut r = *self; r.adv(); r }
    fn ex(&self, a: u32) -> Res { if a & E != 0 { Ok(a) } else { Err(Un) } }

    // ---------------------------------------------------------------- expressions
    pub fn expression(&mut self, i: bool) -> Res {
        let a = self.assignment(i)?;
        self.ex(a)?;
        if !self.is(COMMA) { return Ok(a); }
        while self.eat(COMMA) { let b = self.assignment(i)?; self.ex(b)?; }
        Ok(E)
    }
    fn starts_expression(&self) -> bool {
        let t = self.t();
        if is_ident(t) { return !is_reserved(t) || matches!(t, CLASS | DELETE | FALSE | FUNCTION | NEW | NULL | SUPER | THIS | TRUE | TYPEOF | VOID | AWAIT | YIELD); }
        matches!(t, LB | LP | LS | TILDE | NOT | PLUS | MINUS | INC | DEC | NUM | STR | NT | HD | RE | SL | SLEQ)
    }
    fn concise_body(&mut self, i: bool, asy: bool) -> Res {
        let (y, w, p) = (self.y, self.w, self.par);
        self.y = false; self.w = asy; self.par = false;
        let r = if self.is(LB) { self.function_body() } else { self.assignment(i).and_then(|a| self.ex(a)) };
        self.y = y; self.w = w; self.par = p;
        r
    }
    pub fn assignment(&mut self, i: bool) -> Res {
        let t = self.t();
        if t == YIELD && self.y {
            if self.par { return Err(Un); }
            self.adv();
            if !self.nlb() {
                if self.eat(STAR) { let a = self.assignment(i)?; self.ex(a)?; }
                else if self.starts_expression() { let a = self.assignment(i)?; self.ex(a)?; }
            }
            return Ok(E);
        }
        if t == ASYNC && self.sub == 0 {
            let p = self.peek();
            if is_ident(p.t()) && !is_reserved(p.t()) && !p.nlb() {
                if is_strict_reserved(p.t()) { return Err(Un); }
                if p.t() == OF { return Err(Un); }
                self.adv(); self.adv();
                if self.nlb() { return self.bad(); }
                self.need(ARROW)?;
                self.concise_body(i, true)?;
                return Ok(E);
            }
        }
        let a = self.conditional(i)?;
        let t = self.t();
        if t == ARROW {
            if self.nlb() { return Err(No); }
            if a & (PAR | ASY) == 0 && a & (B | P) != B { return Err(Un); }
            self.adv();
            self.concise_body(i, a & ASY != 0)?;
            return Ok(E);
        }
        if t == EQ {
            if a & (S | P) == 0 { return if a & B != 0 { Err(Un) } else { Err(Un) }; }
            self.adv();
            let b = self.assignment(i)?;
            self.ex(b)?;
            return Ok(E | DE | if a & B != 0 { BE } else { 0 });
        }
        if matches!(t, SHLEQ | SHREQ | USHREQ | PLUSEQ | MINUSEQ | MODEQ | STAREQ | POWEQ | AMPEQ | BAREQ | CARETEQ | SLEQ) && !(t == SLEQ && self.sub != 0) {
            if a & S == 0 { return Err(Un); }
            self.adv();
            let b = self.assignment(i)?;
            self.ex(b)?;
            return Ok(E);
        }
        Ok(a)
    }
    fn conditional(&mut self, i: bool) -> Res {
        let a = self.binary(i)?;
        if !self.is(QUEST) { return Ok(a); }
        self.ex(a)?;
        self.adv();
        let b = self.assignment(true)?;
        self.ex(b)?;
        self.need(COLON)?;
        let c = self.assignment(i)?;
        self.ex(c)?;
        Ok(E)
    }
    fn binary(&mut self, i: bool) -> Res {
        let mut a = self.unary()?;
        loop {
            let t = self.t();
            match t {
                OROR | ANDAND | BAR | CARET | AMP | EQEQ | EQEQEQ | NE | NEE | LT | GT | LE | GE | SHL | SHR | USHR | PLUS | MINUS | STAR | MOD | SL | INSTANCEOF => {}
                IN => if !i { return Ok(a); },
                POW => if a & UNA != 0 { return Err(Un); },
                RE => {
                    // a / r / <operand>
                    self.ex(a)?;
                    self.sub = 2;
                }
                _ => return Ok(a),
            }
            self.ex(a)?;
            self.adv();
            a = self.unary()? & (E | UNA);
            self.ex(a)?;
        }
    }
    fn unary(&mut self) -> Res {
        match self.t() {
            DELETE | VOID | TYPEOF | PLUS | MINUS | TILDE | NOT => { self.adv(); let a = self.unary()?; self.ex(a)?; Ok(E | UNA) }
            AWAIT if self.w => { if self.par { return Err(Un); } self.adv(); let a = self.unary()?; self.ex(a)?; Ok(E | UNA) }
            INC | DEC => { self.adv(); let a = self.unary()?; if a & S == 0 { return Err(Un); } Ok(E) }
            _ => {
                let a = self.lhs(true)?;
                let t = self.t();
                if (t == INC || t == DEC) && !self.nlb() {
                    if a & S == 0 { return Err(Un); }
                    self.adv();
                    return Ok(E);
                }
                Ok(a)
            }
        }
    }
    fn lhs(&mut self, call: bool) -> Res {
        let mut a;
        let mut asy = false;
        match self.t() {
            NEW => {
                self.adv();
                if self.eat(DOT) {
                    self.need(TARGET)?;
                    if !self.f { return Err(Un); }
                } else {
                    let b = self.lhs(false)?;
                    self.ex(b)?;
                    if self.is(LP) { let (x, _) = self.arguments()?; self.ex(x)?; }
                }
                a = E;
            }
            SUPER => {
                self.adv();
                if !self.m || !(self.is(DOT) || self.is(LS)) { return if self.is(255) { Err(Un) } else { Err(Un) }; }
                a = E;
            }
            IMPORT => return Err(No),
            _ => {
                asy = self.is(ASYNC) && self.sub == 0;
                a = self.primary()?;
                if a & (E | S) != E | S { asy = false; }
            }
        }
        loop {
            match self.t() {
                DOT => {
                    self.ex(a)?;
                    self.adv();
                    if !is_ident(self.t()) { return self.bad(); }
                    self.adv();
                    a = E | S | DE;
                }
                LS => {
                    self.ex(a)?;
                    self.adv();
                    self.expression(true)?;
                    self.need(RS)?;
                    a = E | S | DE;
                }
                LP => {
                    if !call { return Ok(a); }
                    self.ex(a)?;
                    let same = !self.nlb();
                    let (x, par) = self.arguments()?;
                    a = x;
                    if asy && same && par { a |= ASY; }
                    if a & (E | ASY) == 0 { return Err(Un); }
                }
                NT | HD => {
                    self.ex(a)?;
                    self.template()?;
                    a = E;
                }
                _ => return Ok(a),
            }
            asy = false;
        }
    }
    /// argument list: (E when valid as arguments, valid as async arrow parameters)
    fn arguments(&mut self) -> Result<(u32, bool), Bad> {
        self.adv();
        let mut e = E;
        let mut par = true;
        let mut rest = false;
        loop {
            if self.eat(RP) { break; }
            if rest { par = false; }
            if self.eat(DOTS) {
                let a = self.assignment(true)?;
                e &= a;
                if a & B == 0 { par = false; }
                rest = true;
                if self.is(COMMA) { par = false; }
            } else {
                let a = self.assignment(true)?;
                e &= a;
                if a & BE == 0 { par = false; }
            }
            if self.eat(RP) { break; }
            self.need(COMMA)?;
        }
        Ok((e & E, par))
    }
    fn template(&mut self) -> Res {
        if self.eat(NT) { return Ok(E); }
        self.need(HD)?;
        loop {
            self.expression(true)?;
            match self.t() {
                TM => self.next(),
                TT => { self.next(); return Ok(E); }
                RB => return Err(Un),
                _ => return self.bad(),
            }
        }
    }
    fn primary(&mut self) -> Res {
        let t = self.t();
        if is_ident(t) {
            match t {
                THIS | NULL | TRUE | FALSE => { self.adv(); return Ok(E); }
                FUNCTION => { self.adv(); return self.function_rest(true, false); }
                CLASS => { self.adv(); return self.class_rest(true); }
                _ => {}
            }
            if t == ASYNC && self.sub == 0 {
                let p = self.peek();
                if p.is(FUNCTION) && !p.nlb() { self.adv(); self.adv(); return self.function_rest(true, true); }
            }
            if is_reserved(t) { return Err(No); }
            if is_strict_reserved(t) { return Err(Un); }
            self.adv();
            return Ok(E | S | B | DE | BE);
        }
        match t {
            NUM | STR => { self.adv(); Ok(E) }
            RE => { self.next(); Ok(E) }
            SL | SLEQ => Err(Un),
            NT | HD => self.template(),
            LS => self.array(),
            LB => self.object(),
            LP => self.paren(),
            _ => self.bad(),
        }
    }
    fn array(&mut self) -> Res {
        self.adv();
        let mut all = E | P | B;
        loop {
            if self.eat(RS) { break; }
            if self.eat(COMMA) { continue; }
            if self.eat(DOTS) {
                let a = self.assignment(true)?;
                if a & E == 0 { all &= !E; }
                if a & (S | P) == 0 { all &= !P; }
                if a & B == 0 { all &= !B; }
                if !self.is(RS) { all &= !(P | B); }
            } else {
                let a = self.assignment(true)?;
                if a & E == 0 { all &= !E; }
                if a & DE == 0 { all &= !P; }
                if a & BE == 0 { all &= !B; }
            }
            if self.eat(RS) { break; }
            self.need(COMMA)?;
        }
        if all & (E | P | B) == 0 { return Err(Un); }
        Ok(all | if all & P != 0 { DE } else { 0 } | if all & B != 0 { BE } else { 0 })
    }
    fn object(&mut self) -> Res {
        self.adv();
        let mut all = E | P | B;
        loop {
            if self.is_close() { self.close()?; break; }
            let a = self.property()?;
            if a & E == 0 { all &= !E; }
            if a & DE == 0 { all &= !P; }
            if a & BE == 0 { all &= !B; }
            if self.is_close() { self.close()?; break; }
            self.need(COMMA)?;
        }
        if all & (E | P | B) == 0 { return Err(Un); }
        Ok(all | if all & P != 0 { DE } else { 0 } | if all & B != 0 { BE } else { 0 })
    }
    /// after a possible contextual modifier: does the property end here (so that the word is its name)?
    fn ends_name(&self) -> bool { let t = self.t(); matches!(t, LP | COMMA | COLON | EQ) || self.is_close() }
    fn property(&mut self) -> Res {
        let t = self.t();
        if t == DOTS { return Err(Un); }
        if t == STAR { self.adv(); self.property_name()?; return self.method(true, false, 0); }
        if (t == GET || t == SET) && self.sub == 0 && !self.peek().ends_name() {
            self.adv();
            self.property_name()?;
            return self.method(false, false, if t == GET { 1 } else { 2 });
        }
        if t == ASYNC && self.sub == 0 {
            let p = self.peek();
            if !p.ends_name() {
                if p.nlb() { return if p.is(255) { Err(Un) } else { Err(No) }; }
                if p.is(STAR) { return Err(Un); }
                self.adv();
                self.property_name()?;
                return self.method(false, true, 0);
            }
        }
        let id = is_ident(t) && !is_reserved(t);
        self.property_name()?;
        match self.t() {
            COLON => { self.adv(); Ok(self.assignment(true)? & ALLELEM) }
            LP => self.method(false, false, 0),
            _ => {
                if !id { return self.bad(); }
                if is_strict_reserved(t) { return Err(Un); }
                if self.eat(EQ) { let a = self.assignment(true)?; self.ex(a)?; return Ok(DE | BE); }
                Ok(E | DE | BE)
            }
        }
    }
    fn property_name(&mut self) -> Res {
        let t = self.t();
        if is_ident(t) || t == STR || t == NUM { self.adv(); return Ok(E); }
        if t == LS {
            self.adv();
            let a = self.assignment(true)?;
            self.ex(a)?;
            self.need(RS)?;
            return Ok(E);
        }
        self.bad()
    }
    /// parameters and body of a method; kind 1 getter, 2 setter
    fn method(&mut self, gen: bool, asy: bool, kind: u32) -> Res {
        let s = (self.y, self.w, self.f, self.m, self.par);
        self.y = gen; self.w = asy; self.f = true; self.m = true; self.par = true;
        let r = self.method_inner(kind);
        self.y = s.0; self.w = s.1; self.f = s.2; self.m = s.3; self.par = s.4;
        r
    }
    fn method_inner(&mut self, kind: u32) -> Res {
        if kind == 1 { self.need(LP)?; self.need(RP)?; }
        else if kind == 2 { self.need(LP)?; self.binding_element()?; self.need(RP)?; }
        else { self.params()?; }
        self.par = false;
        self.function_body()
    }
    fn paren(&mut self) -> Res {
        self.adv();
        let mut par = true;
        let mut e = true;
        let mut arrow = false;
        let mut n = 0;
        let mut first = 0;
        loop {
            if self.eat(RP) { arrow = true; break; }
            if self.eat(DOTS) {
                self.binding_target()?;
                self.need(RP)?;
                arrow = true;
                break;
            }
            let a = self.assignment(true)?;
            if n == 0 { first = a; }
            n += 1;
            if a & E == 0 { e = false; }
            if a & BE == 0 { par = false; }
            if self.eat(RP) { break; }
            self.need(COMMA)?;
        }
        if arrow && !self.is(ARROW) { return self.bad(); }
        if arrow { e = false; }
        if !e && !par { return Err(Un); }
        Ok(if e { E } else { 0 } | if par { PAR } else { 0 } | if e && n == 1 && first & S != 0 { S | DE } else { 0 })
    }

    // ---------------------------------------------------------------- bindings and functions
    fn binding_identifier(&mut self) -> Res {
        let t = self.t();
        if !is_ident(t) || is_reserved(t) { return self.bad(); }
        if is_strict_reserved(t) { return Err(Un); }
        self.adv();
        Ok(0)
    }
    fn binding_target(&mut self) -> Res {
        match self.t() {
            LB => {
                self.adv();
                loop {
                    if self.is_close() { break; }
                    let t = self.t();
                    if t == DOTS { return Err(Un); }
                    let id = is_ident(t) && !is_reserved(t);
                    self.property_name()?;
                    if self.eat(COLON) { self.binding_element()?; }
                    else {
                        if !id { return self.bad(); }
                        if is_strict_reserved(t) { return Err(Un); }
                        self.initializer(true)?;
                    }
                    if self.is_close() { break; }
                    self.need(COMMA)?;
                }
                self.close()?;
                Ok(P)
            }
            LS => {
                self.adv();
                loop {
                    if self.eat(RS) { break; }
                    if self.eat(COMMA) { continue; }
                    if self.eat(DOTS) { self.binding_target()?; self.need(RS)?; break; }
                    self.binding_element()?;
                    if self.eat(RS) { break; }
                    self.need(COMMA)?;
                }
                Ok(P)
            }
            _ => self.binding_identifier(),
        }
    }
    /// optional initializer: P when present
    fn initializer(&mut self, i: bool) -> Res {
        if self.eat(EQ) { let a = self.assignment(i)?; self.ex(a)?; return Ok(P); }
        Ok(0)
    }
    fn binding_element(&mut self) -> Res { self.binding_target()?; self.initializer(true) }
    fn params(&mut self) -> Res {
        self.need(LP)?;
        loop {
            if self.eat(RP) { break; }
            if self.eat(DOTS) { self.binding_target()?; self.need(RP)?; break; }
            self.binding_element()?;
            if self.eat(RP) { break; }
            self.need(COMMA)?;
        }
        Ok(E)
    }
    fn function_body(&mut self) -> Res {
        let f = self.f;
        self.f = true;
        let r = self.block();
        self.f = f;
        r
    }
    /// after `function`; name optional for expressions and defaults
    fn function_rest(&mut self, optional: bool, asy: bool) -> Res {
        let gen = self.is(STAR);
        if gen { if asy { return Err(Un); } self.adv(); }
        if !(optional && self.is(LP)) { self.binding_identifier()?; }
        let s = (self.y, self.w, self.f, self.m, self.par);
        self.y = gen; self.w = asy; self.f = true; self.m = false; self.par = true;
        let r = self.method_inner(0);
        self.y = s.0; self.w = s.1; self.f = s.2; self.m = s.3; self.par = s.4;
        r?;
        Ok(E)
    }
    /// after `class`
    fn class_rest(&mut self, optional: bool) -> Res {
        if !(optional && (self.is(LB) || self.is(EXTENDS))) { self.binding_identifier()?; }
        if self.eat(EXTENDS) { let a = self.lhs(true)?; self.ex(a)?; }
        self.need(LB)?;
        loop {
            if self.is_close() { break; }
            if self.eat(SEMI) { continue; }
            self.class_element()?;
        }
        self.close()?;
        Ok(E)
    }
    fn class_element(&mut self) -> Res {
        if self.is(STATIC) && !self.peek().is(LP) { self.adv(); }
        let t = self.t();
        if t == STAR { self.adv(); self.property_name()?; return self.method(true, false, 0); }
        if (t == GET || t == SET) && self.sub == 0 && !self.peek().is(LP) {
            self.adv();
            self.property_name()?;
            return self.method(false, false, if t == GET { 1 } else { 2 });
        }
        if t == ASYNC && self.sub == 0 {
            let p = self.peek();
            if !p.is(LP) {
                if p.nlb() { return Err(No); }
                if p.is(STAR) { return Err(Un); }
                self.adv();
                self.property_name()?;
                return self.method(false, true, 0);
            }
        }
        self.property_name()?;
        self.method(false, false, 0)
    }

    // ---------------------------------------------------------------- statements
    fn semicolon(&mut self) -> Result<(), Bad> {
        if self.eat(SEMI) { return Ok(()); }
        if self.is_close() || self.is(EOF) { return Ok(()); }
        if self.nlb() {
            let t = self.t();
            if t == RE || t == SL || t == SLEQ { return Err(Un); }
            return Ok(());
        }
        self.bad()
    }
    fn block(&mut self) -> Res {
        self.need(LB)?;
        while !self.is_close() {
            if self.is(EOF) { return Err(No); }
            self.item()?;
        }
        self.close()?;
        Ok(0)
    }
    /// StatementListItem
    fn item(&mut self) -> Res {
        let t = self.t();
        match t {
            FUNCTION => { self.adv(); self.function_rest(false, false) }
            CLASS => { self.adv(); self.class_rest(false) }
            CONST => self.lexical(),
            LET => {
                let p = self.peek().t();
                if is_ident(p) && !is_reserved(p) || p == LS || p == LB { self.lexical() } else { Err(Un) }
            }
            ASYNC if self.sub == 0 => {
                let p = self.peek();
                if p.is(FUNCTION) && !p.nlb() { self.adv(); self.adv(); return self.function_rest(false, true); }
                self.statement()
            }
            _ => self.statement(),
        }
    }
    fn lexical(&mut self) -> Res {
        let konst = self.is(CONST);
        self.adv();
        loop {
            let p = self.binding_target()?;
            let i = self.initializer(true)?;
            if i == 0 && (p == P || konst) { return self.bad(); }
            if !self.eat(COMMA) { break; }
        }
        self.semicolon()?;
        Ok(0)
    }
    fn variable(&mut self) -> Res {
        self.adv();
        loop {
            let p = self.binding_target()?;
            let i = self.initializer(true)?;
            if i == 0 && p == P { return self.bad(); }
            if !self.eat(COMMA) { break; }
        }
        self.semicolon()?;
        Ok(0)
    }
    fn condition(&mut self) -> Res { self.need(LP)?; self.expression(true)?; self.need(RP)?; Ok(0) }
    pub fn statement(&mut self) -> Res {
        let t = self.t();
        match t {
            LB => self.block(),
            SEMI => { self.adv(); Ok(0) }
            VAR => self.variable(),
            IF => {
                self.adv();
                self.condition()?;
                self.statement()?;
                if self.eat(ELSE) { self.statement()?; }
                Ok(0)
            }
            DO => {
                self.adv();
                self.statement()?;
                self.need(WHILE)?;
                self.condition()?;
                if !self.eat(SEMI) { let t = self.t(); if t == RE || t == SL || t == SLEQ || t == 255 { return Err(Un); } }
                Ok(0)
            }
            WHILE | WITH => { self.adv(); self.condition()?; self.statement() }
            FOR => self.for_statement(),
            SWITCH => {
                self.adv();
                self.condition()?;
                self.need(LB)?;
                let mut def = false;
                loop {
                    if self.is_close() { break; }
                    if self.is(DEFAULT) {
                        if def { return Err(No); }
                        def = true;
                        self.adv();
                    } else { self.need(CASE)?; self.expression(true)?; }
                    self.need(COLON)?;
                    while !self.is_close() && !self.is(CASE) && !self.is(DEFAULT) {
                        if self.is(EOF) { return Err(No); }
                        self.item()?;
                    }
                }
                self.close()?;
                Ok(0)
            }
            CONTINUE | BREAK => {
                self.adv();
                let t = self.t();
                if is_ident(t) && !is_reserved(t) && !self.nlb() {
                    if is_strict_reserved(t) { return Err(Un); }
                    self.adv();
                }
                self.semicolon()?;
                Ok(0)
            }
            RETURN => {
                if !self.f { return Err(Un); }
                self.adv();
                if !self.nlb() && !self.is(SEMI) && !self.is_close() && !self.is(EOF) { self.expression(true)?; }
                self.semicolon()?;
                Ok(0)
            }
            THROW => {
                self.adv();
                if self.nlb() { return Err(No); }
                self.expression(true)?;
                self.semicolon()?;
                Ok(0)
            }
            TRY => {
                self.adv();
                self.block()?;
                let mut h = false;
                if self.eat(CATCH) {
                    if self.is(LB) { return Err(Un); }
                    self.need(LP)?;
                    self.binding_target()?;
                    self.need(RP)?;
                    self.block()?;
                    h = true;
                }
                if self.eat(FINALLY) { self.block()?; h = true; }
                if !h { return self.bad(); }
                Ok(0)
            }
            DEBUGGER => { self.adv(); self.semicolon()?; Ok(0) }
            FUNCTION | CLASS | LET => Err(Un),
            _ => {
                if t == ASYNC && self.sub == 0 { let p = self.peek(); if p.is(FUNCTION) && !p.nlb() { return Err(Un); } }
                if is_ident(t) && !is_reserved(t) {
                    let p = self.peek();
                    if p.is(COLON) {
                        if is_strict_reserved(t) { return Err(Un); }
                        self.adv();
                        self.adv();
                        return self.statement();
                    }
                }
                self.expression(true)?;
                self.semicolon()?;
                Ok(0)
            }
        }
    }
    fn for_statement(&mut self) -> Res {
        self.adv();
        self.need(LP)?;
        let t = self.t();
        let decl = match t {
            VAR | CONST => true,
            LET => { let p = self.peek().t(); if is_ident(p) && !is_reserved(p) && p != OF || p == LS || p == LB { true } else { return Err(Un); } }
            _ => false,
        };
        if decl {
            self.adv();
            let p = self.binding_target()?;
            if self.is(IN) || self.is(OF) { return self.for_in_of(); }
            let i = self.initializer(false)?;
            if i == 0 && (p == P || t == CONST) { return self.bad(); }
            while self.eat(COMMA) {
                let p = self.binding_target()?;
                let i = self.initializer(false)?;
                if i == 0 && (p == P || t == CONST) { return self.bad(); }
            }
        } else if !self.is(SEMI) {
            let a = self.assignment(false)?;
            if self.is(IN) || self.is(OF) {
                if a & (S | P) == 0 { return Err(Un); }
                return self.for_in_of();
            }
            self.ex(a)?;
            while self.eat(COMMA) { let b = self.assignment(false)?; self.ex(b)?; }
            if self.is(IN) || self.is(OF) { return Err(Un); }
        }
        self.need(SEMI)?;
        if !self.is(SEMI) { self.expression(true)?; }
        self.need(SEMI)?;
        if !self.is(RP) { self.expression(true)?; }
        self.need(RP)?;
        self.statement()
    }
    fn for_in_of(&mut self) -> Res {
        let of = self.is(OF);
        self.adv();
        if of { let a = self.assignment(true)?; self.ex(a)?; } else { self.expression(true)?; }
        self.need(RP)?;
        self.statement()
    }

    // ---------------------------------------------------------------- module
    pub fn module(&mut self) -> Res {
        while !self.is(EOF) {
            match self.t() {
                IMPORT => self.import()?,
                EXPORT => self.export()?,
                _ => self.item()?,
            };
        }
        Ok(0)
    }
    fn from_clause(&mut self) -> Result<(), Bad> { self.need(FROM)?; self.need(STR) }
    fn import(&mut self) -> Res {
        self.adv();
        if !self.eat(STR) {
            let mut more = true;
            if !self.is(STAR) && !self.is(LB) { self.binding_identifier()?; more = self.eat(COMMA); }
            if more {
                if self.eat(STAR) { self.need(AS)?; self.binding_identifier()?; }
                else {
                    self.need(LB)?;
                    loop {
                        if self.is_close() { break; }
                        let t = self.t();
                        if !is_ident(t) { return self.bad(); }
                        self.adv();
                        if self.eat(AS) {
                            let u = self.t();
                            if !is_ident(u) { return self.bad(); }
                            if is_reserved(u) || is_strict_reserved(u) { return Err(Un); }
                            self.adv();
                        } else if is_reserved(t) || is_strict_reserved(t) { return Err(Un); }
                        if self.is_close() { break; }
                        self.need(COMMA)?;
                    }
                    self.close()?;
                }
            }
            self.from_clause()?;
        }
        self.semicolon()?;
        Ok(0)
    }
    fn export(&mut self) -> Res {
        self.adv();
        let t = self.t();
        match t {
            DEFAULT => {
                self.adv();
                if self.eat(FUNCTION) { return self.function_rest(true, false); }
                if self.eat(CLASS) { return self.class_rest(true); }
                if self.is(ASYNC) && self.sub == 0 { let p = self.peek(); if p.is(FUNCTION) && !p.nlb() { self.adv(); self.adv(); return self.function_rest(true, true); } }
                let a = self.assignment(true)?;
                self.ex(a)?;
                self.semicolon()?;
                Ok(0)
            }
            VAR => self.variable(),
            LET | CONST | FUNCTION | CLASS => self.item(),
            ASYNC => { let p = self.peek(); if p.is(FUNCTION) && !p.nlb() { self.item() } else if p.t() == 255 { Err(Un) } else { Err(No) } }
            STAR => { self.adv(); self.from_clause()?; self.semicolon()?; Ok(0) }
            LB => {
                self.adv();
                let mut un = false;
                loop {
                    if self.is_close() { break; }
                    let t = self.t();
                    if !is_ident(t) { return self.bad(); }
                    if is_reserved(t) || is_strict_reserved(t) { un = true; }
                    self.adv();
                    if self.eat(AS) { if !is_ident(self.t()) { return self.bad(); } self.adv(); }
                    if self.is_close() { break; }
                    self.need(COMMA)?;
                }
                self.close()?;
                if self.is(FROM) { self.from_clause()?; } else if un { return Err(Un); }
                self.semicolon()?;
                Ok(0)
            }
            _ => self.bad(),
        }
    }
}
