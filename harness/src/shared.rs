//! Several threads use one grammar and its parsers at the same time, and parses
//! take place in the middle of other parses. Compiles only if the library's
//! types can be shared between threads.
//!
//! usage: shared CASES.ndjson RECORDS.ndjson PROGRESS
#[macro_use]
mod json;
mod drive;
#[allow(dead_code)]
mod run;
#[allow(dead_code)]
mod sym;

use artlr_syntax::grammar::context_free_grammar::ContextFreeGrammar;
use artlr_syntax::grammar::first_follow_symbols::FirstFollowSymbols;
use artlr_syntax::parser::failed_production::FailedProduction;
use artlr_syntax::parser::fix_result::FixResult;
use artlr_syntax::parser::recursive_descent_parser::RecursiveDescentParser;
use artlr_syntax::parser::syntax_error_solver::SyntaxErrorSolver;
use artlr_syntax::token::token::Token;
use json::J;
use run::{grammar, guarded, outcome, tokens, Progress};
use std::sync::Barrier;
use sym::{Lx, Num, Own, SameHash, Sym};

/// declines, after parsing something else in the middle of the parse
struct Nested<'a, T: Sym> {
    inner: Option<(&'a Parser<'a, T>, &'a [Vec<Token<Lx, T>>])>,
}
type Parser<'a, T> = RecursiveDescentParser<'a, Lx, T, Nested<'a, T>>;

impl<'a, T: Sym> Nested<'a, T> {
    fn ask(&self, pos: usize) {
        if let Some((p, inputs)) = &self.inner {
            let w = &inputs[pos % inputs.len()];
            if !w.is_empty() {
                let _ = p.parse_from_tokens(w.iter().cloned());
            }
        }
    }
}
impl<'a, T: Sym> SyntaxErrorSolver<Lx, T> for Nested<'a, T> {
    fn fix_failed_production(
        &self,
        _: &Vec<Token<Lx, T>>,
        pos: usize,
        _: &FailedProduction<Lx, T>,
    ) -> Option<FixResult<Lx, T>> {
        self.ask(pos);
        None
    }
    fn fix_failed_productions(
        &self,
        _: &Vec<Token<Lx, T>>,
        pos: usize,
        _: &Vec<FailedProduction<Lx, T>>,
    ) -> Option<FixResult<Lx, T>> {
        self.ask(pos);
        None
    }
}

/// delivers tokens; parses something else before the one at `at`
struct Busy<'a, T: Sym> {
    of: std::vec::IntoIter<Token<Lx, T>>,
    at: usize,
    p: &'a Parser<'a, T>,
    other: &'a Vec<Token<Lx, T>>,
}
impl<'a, T: Sym> Iterator for Busy<'a, T> {
    type Item = Token<Lx, T>;
    fn next(&mut self) -> Option<Token<Lx, T>> {
        if self.at == 0 && !self.other.is_empty() {
            let _ = self.p.parse_from_tokens(self.other.iter().cloned());
        }
        self.at = self.at.wrapping_sub(1);
        self.of.next()
    }
}

fn result<'a, T: Sym>(p: &Parser<'a, T>, toks: &[Token<Lx, T>]) -> J {
    let (k, t, fs, fx, flat) = outcome(&guarded(|| p.parse_from_tokens(toks.iter().cloned())));
    obj! {"k" => k, "tree" => t, "fs" => fs, "fx" => fx, "flat" => flat, "calls" => J::Arr(vec![])}
}

fn runs<T: Sym + Send + Sync>(case: &J, threads: usize, rounds: usize) -> Vec<Vec<J>> {
    let gj = case.get("g").unwrap();
    let prods = gj.get_arr("prods");
    let inputs: Vec<Vec<Token<Lx, T>>> = case.get_arr("runs").iter().map(tokens).collect();
    // each alone, with a grammar of its own
    let mut seen: Vec<Vec<J>> = inputs
        .iter()
        .map(|w| {
            let g: ContextFreeGrammar<T> = grammar(gj, prods);
            let p: Parser<'_, T> = RecursiveDescentParser::from_grammar(&g);
            vec![result(&p, w)]
        })
        .collect();
    let g: ContextFreeGrammar<T> = grammar(gj, prods);
    let ff = FirstFollowSymbols::from(&g);
    let a: Parser<'_, T> = RecursiveDescentParser::from_grammar(&g);
    let b: Parser<'_, T> = RecursiveDescentParser::from_grammar_and_first_follow_symbols(&g, &ff);
    let c: Parser<'_, T> = RecursiveDescentParser::from_grammar_and_solver(&g, Nested { inner: None });
    let d: Parser<'_, T> =
        RecursiveDescentParser::from_grammar_and_solver(&g, Nested { inner: Some((&a, &inputs)) });
    let all = [&a, &b, &c, &d];
    let n = inputs.len();
    let gate = Barrier::new(threads);
    let (inputs, gate, g, ff, first) = (&inputs, &gate, &g, &ff, &a);
    let found: Vec<(usize, J)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                std::thread::Builder::new()
                    .stack_size(if threads > 16 { 4 << 20 } else { 64 << 20 })
                    .spawn_scoped(s, move || {
                        let mut out: Vec<(usize, J)> = vec![];
                        gate.wait();
                        for r in 0..rounds {
                            for k in 0..n {
                                // every thread in an order of its own
                                let i = (k * (if t % 2 == 0 { 1 } else { n - 1 }) + t + r) % n;
                                // a declining solver makes deep failures slow
                                let m = if inputs[i].len() > 500 { 2 } else { 4 };
                                let x = result(all[(t + k + r) % m], &inputs[i]);
                                out.push((i, x));
                                if k % 3 == t % 3 {
                                    let w = &inputs[i];
                                    let at = (k + r) % (w.len() + 1);
                                    let busy = Busy { of: w.clone().into_iter(), at, p: first, other: &inputs[(i + r + 1) % n] };
                                    let (k2, tr, fs, fx, flat) = outcome(&guarded(|| all[(t + r) % (m - 1).min(3)].parse_from_tokens(busy)));
                                    out.push((i, obj! {"k" => k2, "tree" => tr, "fs" => fs, "fx" => fx, "flat" => flat,
                                        "calls" => J::Arr(vec![])}));
                                }
                                if k % 4 == 3 {
                                    // a parser of its own on the shared grammar
                                    let p: Parser<'_, T> = RecursiveDescentParser::from_grammar_and_first_follow_symbols(g, ff);
                                    out.push((i, result(&p, &inputs[i])));
                                }
                            }
                        }
                        out.dedup();
                        out
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    for (i, x) in found {
        if !seen[i].contains(&x) {
            seen[i].push(x);
        }
    }
    seen
}

fn case(case: &J, now: &Progress) -> J {
    let id = case.get_int("id", 0);
    let mut out = match case {
        J::Obj(v) => v.clone(),
        _ => panic!("harness: a case is an object"),
    };
    now.at(id, "run", 0);
    let ty = case.get_arr("variants").first().map(|v| v.get_str("ty", "str")).unwrap_or("str".to_string());
    let (threads, rounds) = (case.get_int("threads", 4) as usize, case.get_int("rounds", 3) as usize);
    let r = guarded(|| match ty.as_str() {
        "hash" => runs::<SameHash>(case, threads, rounds),
        "num" => runs::<Num>(case, threads, rounds),
        "own" => runs::<Own>(case, threads, rounds),
        _ => runs::<String>(case, threads, rounds),
    });
    let res = r.map(|v| J::Arr(v.into_iter().map(J::Arr).collect())).unwrap_or(J::Arr(vec![]));
    out.push(("res".to_string(), res));
    now.at(id, "done", 0);
    out.push(("fatal".to_string(), J::s("no")));
    out.push(("stage".to_string(), J::s("done")));
    out.push(("run".to_string(), J::Int(-1)));
    J::Obj(out)
}

fn main() {
    drive::drive(case);
}
