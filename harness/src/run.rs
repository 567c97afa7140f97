use crate::json::J;
use crate::sym::{Bytes, Counted, Fold, Lx, Num, Odd, Own, SameHash, Sym};
use artlr_syntax::ast::abstract_syntax_node::AbstractSyntaxNode;
use artlr_syntax::grammar::context_free_grammar::ContextFreeGrammar;
use artlr_syntax::grammar::context_free_grammar_production::ContextFreeGrammarProduction;
use artlr_syntax::grammar::first_follow_symbols::FirstFollowSymbols;
use artlr_syntax::parser::failed_production::FailedProduction;
use artlr_syntax::parser::failed_symbol::FailedSymbol;
use artlr_syntax::parser::fix_gap::FixGap;
use artlr_syntax::parser::fix_result::FixResult;
use artlr_syntax::parser::fixed_production::FixedProduction;
use artlr_syntax::parser::fixed_production_part::FixedProductionPart;
use artlr_syntax::parser::fixed_symbol::FixedSymbol;
use artlr_syntax::parser::parse_result::ParseResult;
use artlr_syntax::parser::production_parsed_symbol::ProductionParsedSymbol;
use artlr_syntax::parser::recursive_descent_parser::RecursiveDescentParser;
use artlr_syntax::parser::recursive_descent_parser_transitions::RecursiveDescentParserTransitions;
use artlr_syntax::parser::syntax_error_solver::SyntaxErrorSolver;
use artlr_syntax::token::token::Token;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

// ------------------------------------------------------------------ progress
pub struct Progress {
    file: File,
    state: Mutex<(i64, String, i64)>,
    clock: Mutex<Option<(Instant, Arc<AtomicU64>)>>,
}

impl Progress {
    pub fn new(path: &str) -> Self {
        Progress {
            file: File::create(path).unwrap(),
            state: Mutex::new((0, String::new(), 0)),
            clock: Mutex::new(None),
        }
    }
    pub fn attach(&self, begun: Instant, started: Arc<AtomicU64>) {
        *self.clock.lock().unwrap() = Some((begun, started));
    }
    pub fn get(&self) -> (i64, String, i64) {
        self.state.lock().unwrap().clone()
    }
    pub fn at(&self, id: i64, stage: &str, k: i64) {
        *self.state.lock().unwrap() = (id, stage.to_string(), k);
        let _ = self.file.write_all_at(format!("{:>10} {:>10} {:>10}\n", id, stage, k).as_bytes(), 0);
        if let Some((b, s)) = self.clock.lock().unwrap().as_ref() {
            s.store(b.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
        }
    }
}

pub fn guarded<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

// ------------------------------------------------------- library values -> J
fn names<T: Sym>(v: &[T]) -> J {
    J::Arr(v.iter().map(|s| J::Str(s.name())).collect())
}

fn sorted<'a, T: Sym + 'a>(v: impl Iterator<Item = &'a T>) -> J {
    let mut n: Vec<String> = v.map(|s| s.name()).collect();
    n.sort();
    J::Arr(n.into_iter().map(J::Str).collect())
}

/// preorder; every node lists the symbols of its children
fn tree<T: Sym>(n: &AbstractSyntaxNode<Token<Lx, T>>) -> J {
    let mut out = vec![];
    let mut todo = vec![n];
    let lex = |n: &AbstractSyntaxNode<Token<Lx, T>>| n.token.lex.as_ref().map(|l| l.0).unwrap_or(-1);
    while let Some(n) = todo.pop() {
        out.push(obj! {
            "s" => J::Str(n.token.t_type.shown(lex(n))),
            "x" => J::Int(lex(n)),
            "c" => J::Arr(n.child_nodes.iter().map(|c| J::Str(c.token.t_type.shown(lex(c)))).collect())
        });
        todo.extend(n.child_nodes.iter().rev());
    }
    J::Arr(out)
}

fn failed_symbol<T: Sym>(f: &FailedSymbol<Lx, T>) -> J {
    obj! {"s" => J::Str(f.symbol_to_derive.name()), "ps" => failed_productions(&f.failed_productions)}
}

fn report_depth<T: Sym>(f: &FailedSymbol<Lx, T>) -> usize {
    1 + f.failed_productions.iter().map(|p| report_depth(&p.failed_symbol)).max().unwrap_or(0)
}

/// a report in preorder: every node has the number of its entries, and, of the
/// entry in which it is the failed symbol, the parsed and the pending symbols
fn flat_report<T: Sym>(f: &FailedSymbol<Lx, T>, of: Option<&FailedProduction<Lx, T>>, out: &mut Vec<J>) {
    let none = || J::Arr(vec![]);
    out.push(obj! {
        "s" => J::Str(f.symbol_to_derive.name()),
        "n" => J::Int(f.failed_productions.len() as i64),
        "ok" => of.map(|p| parsed(&p.parsed_symbols)).unwrap_or(none()),
        "pe" => of.map(|p| names(&p.pending_symbols)).unwrap_or(none())
    });
    for p in &f.failed_productions {
        flat_report(&p.failed_symbol, Some(p), out);
    }
}

fn failed_productions<T: Sym>(v: &[FailedProduction<Lx, T>]) -> J {
    J::Arr(v.iter().map(failed_production).collect())
}

fn failed_production<T: Sym>(p: &FailedProduction<Lx, T>) -> J {
    obj! {
        "f" => failed_symbol(&p.failed_symbol),
        "ok" => parsed(&p.parsed_symbols),
        "pe" => names(&p.pending_symbols)
    }
}

fn parsed<T: Sym>(v: &[ProductionParsedSymbol<Lx, T>]) -> J {
    J::Arr(
        v.iter()
            .map(|s| match s {
                ProductionParsedSymbol::Ok(n) => obj! {"k" => J::s("ok"), "t" => tree(n), "fx" => J::Arr(vec![])},
                ProductionParsedSymbol::Fix(x) => {
                    obj! {"k" => J::s("fix"), "t" => J::Arr(vec![]), "fx" => J::Arr(vec![fixed(x)])}
                }
            })
            .collect(),
    )
}

fn fixed<T: Sym>(x: &FixedSymbol<Lx, T>) -> J {
    obj! {"s" => J::Str(x.symbol_to_derive.name()), "parts" => parts(&x.fixed_production.fixed_parts)}
}

fn parts<T: Sym>(v: &[FixedProductionPart<Lx, T>]) -> J {
    let none = || J::Arr(vec![]);
    J::Arr(
        v.iter()
            .map(|p| match p {
                FixedProductionPart::Ok(n) => {
                    obj! {"k" => J::s("ok"), "t" => tree(n), "fx" => none(), "st" => none(), "ss" => none()}
                }
                FixedProductionPart::Fixed(x) => {
                    obj! {"k" => J::s("fix"), "t" => none(), "fx" => J::Arr(vec![fixed(x)]), "st" => none(), "ss" => none()}
                }
                FixedProductionPart::Gap(g) => obj! {
                    "k" => J::s("gap"), "t" => none(), "fx" => none(),
                    "st" => J::Arr(g.skipped_tokens.iter().map(|l| J::Int(l.0)).collect()),
                    "ss" => names(&g.skipped_symbols)
                },
            })
            .collect(),
    )
}

// ------------------------------------------------------- J -> library values
fn un_lex(x: i64) -> Option<Lx> {
    if x < 0 {
        None
    } else {
        Some(Lx::new(x))
    }
}

fn un_tree<T: Sym>(v: &[J], p: &mut usize) -> AbstractSyntaxNode<Token<Lx, T>> {
    let n = &v[*p];
    *p += 1;
    let kids = n.get_arr("c").iter().map(|_| un_tree(v, p)).collect();
    let lex = n.get_int("x", -1);
    AbstractSyntaxNode::new(kids, Token::new(un_lex(lex), T::token(n.get("s").unwrap().str(), lex)))
}

fn un_fixed<T: Sym>(j: &J) -> FixedSymbol<Lx, T> {
    FixedSymbol::new(
        FixedProduction::new(un_parts(j.get_arr("parts"))),
        T::of(j.get("s").unwrap().str()),
    )
}

fn un_parts<T: Sym>(v: &[J]) -> Vec<FixedProductionPart<Lx, T>> {
    v.iter()
        .map(|j| match j.get("k").unwrap().str() {
            "ok" => FixedProductionPart::Ok(un_tree(j.get_arr("t"), &mut 0)),
            "fix" => FixedProductionPart::Fixed(un_fixed(&j.get_arr("fx")[0])),
            _ => FixedProductionPart::Gap(FixGap {
                skipped_tokens: j.get_arr("st").iter().map(|x| Lx::new(x.int())).collect(),
                skipped_symbols: j.get_arr("ss").iter().map(|x| T::of(x.str())).collect(),
            }),
        })
        .collect()
}

fn syms<T: Sym>(v: &[J]) -> Vec<T> {
    v.iter().map(|s| T::of(s.str())).collect()
}

pub fn grammar<T: Sym>(g: &J, prods: &[J]) -> ContextFreeGrammar<T> {
    ContextFreeGrammar::new(
        T::of(g.get("eps").unwrap().str()),
        T::of(g.get("start").unwrap().str()),
        prods
            .iter()
            .map(|p| ContextFreeGrammarProduction::new(T::of(p.get("l").unwrap().str()), syms(p.get_arr("r"))))
            .collect(),
    )
}

fn sets<T: Sym>(v: &[J]) -> HashMap<T, HashSet<T>> {
    v.iter()
        .map(|e| (T::of(e.get("s").unwrap().str()), syms::<T>(e.get_arr("v")).into_iter().collect()))
        .collect()
}

// -------------------------------------------------------------------- solver
struct Script {
    answers: Vec<J>,
    calls: Vec<J>,
}

#[derive(Clone)]
struct Solver(Rc<RefCell<Script>>);

impl Solver {
    fn new() -> Self {
        Solver(Rc::new(RefCell::new(Script { answers: vec![], calls: vec![] })))
    }
    fn ask<T: Sym>(
        &self,
        kind: &str,
        tokens: &Vec<Token<Lx, T>>,
        pos: usize,
        ps: J,
    ) -> Option<FixResult<Lx, T>> {
        let mut s = self.0.borrow_mut();
        let n = s.calls.len();
        let none = J::Arr(vec![]);
        let answer = s.answers.get(n).cloned().unwrap_or(J::Null);
        if answer.get("ans").map(|a| a.str() == "panic").unwrap_or(false) {
            drop(s);
            panic!("the solver gives up");
        }
        let fix = answer.get("ans").map(|a| a.str() == "fix").unwrap_or(false);
        let mut to = 0usize;
        if fix {
            // where to resume: an absolute position, one relative to the
            // position asked about, or just after the next token of a type
            to = match answer.get("mode").map(|m| m.str()).unwrap_or("abs") {
                "rel" => (pos as i64 + answer.get_int("to", 0)).max(0) as usize,
                "sync" => {
                    let t = T::of(answer.get("sync").unwrap().str());
                    (pos..tokens.len()).find(|i| tokens[*i].t_type == t).map(|i| i + 1).unwrap_or(tokens.len())
                }
                "before" => {
                    let t = T::of(answer.get("sync").unwrap().str());
                    (pos..tokens.len()).find(|i| tokens[*i].t_type == t).unwrap_or(tokens.len())
                }
                _ => answer.get_int("to", 0) as usize,
            };
        }
        let offered = if fix { answer.get("parts").cloned().unwrap_or(none.clone()) } else { none };
        s.calls.push(obj! {
            "kind" => J::s(kind),
            "pos" => J::Int(pos as i64),
            "toks" => J::Arr(tokens.iter().map(|t| J::Str(t.t_type.shown(t.lex.as_ref().map(|l| l.0).unwrap_or(-1)))).collect()),
            "lex" => J::Arr(tokens.iter().map(|t| J::Int(t.lex.as_ref().map(|l| l.0).unwrap_or(-1))).collect()),
            "ps" => ps,
            "ans" => J::s(if fix { "fix" } else { "no" }),
            "to" => J::Int(if fix { to as i64 } else { 0 }),
            "parts" => offered.clone()
        });
        if fix {
            Some(FixResult { final_token_position: to, production: FixedProduction::new(un_parts(offered.arr())) })
        } else {
            None
        }
    }
}

impl<T: Sym> SyntaxErrorSolver<Lx, T> for Solver {
    fn fix_failed_production(
        &self,
        tokens: &Vec<Token<Lx, T>>,
        pos: usize,
        p: &FailedProduction<Lx, T>,
    ) -> Option<FixResult<Lx, T>> {
        self.ask("one", tokens, pos, J::Arr(vec![failed_production(p)]))
    }
    fn fix_failed_productions(
        &self,
        tokens: &Vec<Token<Lx, T>>,
        pos: usize,
        ps: &Vec<FailedProduction<Lx, T>>,
    ) -> Option<FixResult<Lx, T>> {
        self.ask("many", tokens, pos, failed_productions(ps))
    }
}

// ------------------------------------------------------------------- parsing
/// an iterator without a size hint that goes on with other items after its
/// end: what comes after the first None is no token of the input
struct Bare<T> {
    v: std::vec::IntoIter<T>,
    beyond: std::vec::IntoIter<T>,
    ended: bool,
}
impl<T> Iterator for Bare<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.ended {
            return self.beyond.next();
        }
        let n = self.v.next();
        self.ended = n.is_none();
        n
    }
}

/// an iterator whose size hint is wrong
struct Hinted<T> {
    v: std::vec::IntoIter<T>,
}
impl<T> Iterator for Hinted<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.v.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.v.len() % 2 == 0 {
            (0, Some(1))
        } else {
            (self.v.len() + 5, None)
        }
    }
}

/// kind, tree, report, fixed symbol, flat report of what a parse returned
pub fn outcome<T: Sym>(res: &Option<ParseResult<Lx, T>>) -> (J, J, J, J, J) {
    let none = || J::Arr(vec![]);
    let no_fs = || obj! {"s" => J::s(""), "ps" => none()};
    let no_fx = || obj! {"s" => J::s(""), "parts" => none()};
    // a deep report is written flat
    let mut flat = vec![];
    let (k, t, fs, fx) = match res {
        Some(ParseResult::Err(f)) if report_depth(f) > 40 => {
            flat_report(f, None, &mut flat);
            ("err", none(), no_fs(), no_fx())
        }
        None => ("panic", none(), no_fs(), no_fx()),
        Some(ParseResult::Ok(a)) => ("ok", tree(&a.root), no_fs(), no_fx()),
        Some(ParseResult::Err(f)) => ("err", none(), failed_symbol(f), no_fx()),
        Some(ParseResult::Fix(x)) => ("fix", none(), no_fs(), fixed(x)),
    };
    (J::s(k), t, fs, fx, J::Arr(flat))
}

pub fn tokens<T: Sym>(run: &J) -> Vec<Token<Lx, T>> {
    let lex = run.get_arr("lex");
    run.get_arr("toks")
        .iter()
        .enumerate()
        .map(|(i, t)| {
            let x = lex.get(i).map(|l| l.int()).unwrap_or(-1);
            Token::new(un_lex(x), T::token(t.str(), x))
        })
        .collect()
}

type Parser<'a, T> = RecursiveDescentParser<'a, Lx, T, Solver>;

fn parse_only<T: Sym>(p: &Parser<'_, T>, toks: Vec<Token<Lx, T>>, iter: &str) -> Option<ParseResult<Lx, T>> {
    guarded(|| match iter {
        "bare" => {
            let beyond: Vec<Token<Lx, T>> = toks.iter().cloned().collect();
            p.parse_from_tokens(Bare { v: toks.into_iter(), beyond: beyond.into_iter(), ended: false })
        }
        // the hint is wrong, in either direction
        "hint" => p.parse_from_tokens(Hinted { v: toks.into_iter() }),
        "chain" => {
            let mut a = toks;
            let b = a.split_off(a.len() / 2);
            p.parse_from_tokens(a.into_iter().chain(b.into_iter()).filter(|_| true))
        }
        "panics" => {
            let half = toks.len() / 2;
            p.parse_from_tokens(toks.into_iter().enumerate().map(|(i, t)| if i < half { t } else { panic!("no more tokens") }))
        }
        "list" => p.parse_from_tokens(toks.into_iter().collect::<std::collections::LinkedList<_>>().into_iter()),
        _ => p.parse_from_tokens(toks.into_iter()),
    })
}

/// bytes that a parse leaves behind when its result is gone
fn footprint<T: Sym>(p: &Parser<'_, T>, solver: &Solver, run: &J) -> i64 {
    solver.0.borrow_mut().answers = run.get_arr("script").to_vec();
    solver.0.borrow_mut().calls = vec![];
    let iter = run.get_str("iter", "vec");
    let before = Bytes::alive();
    drop(parse_only(p, tokens(run), &iter));
    solver.0.borrow_mut().calls = vec![];
    Bytes::alive() - before
}

fn parse<T: Sym>(p: &Parser<'_, T>, solver: &Solver, run: &J) -> J {
    let (lexs, syms) = (Lx::alive(), T::alive());
    let toks: Vec<Token<Lx, T>> = tokens(run);
    {
        let mut s = solver.0.borrow_mut();
        s.answers = run.get_arr("script").to_vec();
        s.calls = vec![];
    }
    let iter = run.get_str("iter", "vec");
    let before = T::ops();
    let res = parse_only(p, toks, &iter);
    let ops = (T::ops() - before).min(2_000_000_000);
    let (k, t, fs, fx, flat) = outcome(&res);
    let calls = std::mem::take(&mut solver.0.borrow_mut().calls);
    let mut out = obj! {"k" => k, "tree" => t, "fs" => fs, "fx" => fx, "flat" => flat, "ops" => J::Int(ops), "calls" => J::Arr(calls)};
    if run.get("kept").is_some() {
        // what exists because of this parse, with its result and without it
        let live = Lx::alive() - lexs;
        drop(res);
        if let J::Obj(v) = &mut out {
            v.push(("live".to_string(), J::Int(live)));
            v.push(("left".to_string(), J::Int(Lx::alive() - lexs)));
            v.push(("syms".to_string(), J::Int(T::alive() - syms)));
            let again = run.get("same").map(|s| s.bool()).unwrap_or(false);
            v.push(("bytes".to_string(), J::Int(if again { footprint(p, solver, run) } else { 0 })));
        }
    }
    out
}

fn ctor<'a, T: Sym>(
    kind: &str,
    g: &'a ContextFreeGrammar<T>,
    supplied: Option<&FirstFollowSymbols<T>>,
    solver: &Solver,
) -> Parser<'a, T> {
    match kind {
        "ff" => RecursiveDescentParser::from_grammar_and_first_follow_symbols(g, &FirstFollowSymbols::from(g)),
        "given" => RecursiveDescentParser::from_grammar_and_first_follow_symbols(g, supplied.expect("harness: no ff")),
        "solver" => RecursiveDescentParser::from_grammar_and_solver(g, solver.clone()),
        _ => RecursiveDescentParser::from_grammar(g),
    }
}

// ------------------------------------------------------- grammar observations
fn observe<T: Sym>(
    case: &J,
    id: i64,
    variant: i64,
    prods: &[J],
    want_ff: bool,
    want_table: bool,
    now: &Progress,
) -> J {
    let gj = case.get("g").unwrap();
    now.at(id, "build", variant);
    let none = || J::Arr(vec![]);
    let g: ContextFreeGrammar<T> = match guarded(|| grammar(gj, prods)) {
        None => {
            return obj! {"build" => J::s("panic"), "eps" => J::s(""), "start" => J::s(""), "nts" => none(), "ts" => none(),
            "per" => none(), "ff" => J::s("no"), "sets" => none(), "tb" => J::s("no"), "table" => none()}
        }
        Some(g) => g,
    };
    let q = case.get_arr("q");
    let per = q
        .iter()
        .map(|s| {
            let t = T::of(s.str());
            let ps = g.get_productions(&t);
            obj! {
                "s" => s.clone(),
                "nt" => J::Bool(g.is_non_terminal(&t)),
                "t" => J::Bool(g.is_terminal(&t)),
                "some" => J::Bool(ps.is_some()),
                "ps" => productions(ps)
            }
        })
        .collect();
    let mut ffk = "no";
    let mut sets_j = none();
    let mut tbk = "no";
    let mut table = none();
    if want_ff || want_table {
        now.at(id, "analysis", variant);
        let own = guarded(|| FirstFollowSymbols::from(&g));
        ffk = if own.is_some() { "ok" } else { "panic" };
        if let Some(ff) = &own {
            sets_j = J::Arr(
                q.iter()
                    .map(|s| {
                        let t = T::of(s.str());
                        let one = |o: Option<&HashSet<T>>| match o {
                            None => obj! {"some" => J::Bool(false), "v" => none()},
                            Some(h) => obj! {"some" => J::Bool(true), "v" => sorted(h.iter())},
                        };
                        obj! {"s" => s.clone(), "first" => one(ff.get_first_symbols(&t)), "follow" => one(ff.get_follow_symbols(&t))}
                    })
                    .collect(),
            );
        }
        if want_table {
            let given = case.get("given").filter(|f| !f.get_arr("first").is_empty()).map(|f| {
                FirstFollowSymbols::new(sets::<T>(f.get_arr("first")), sets::<T>(f.get_arr("follow")))
            });
            let ff = match (&given, &own) {
                (Some(f), _) => Some(f),
                (None, Some(f)) => Some(f),
                _ => None,
            };
            let tr = ff.and_then(|ff| guarded(|| RecursiveDescentParserTransitions::from(&g, ff)));
            tbk = if tr.is_some() { "ok" } else { "panic" };
            if let Some(tr) = tr {
                let mut cells = vec![];
                for a in q {
                    for b in q {
                        if let Some(ps) = tr.get_productions(&T::of(a.str()), &T::of(b.str())) {
                            if !ps.is_empty() {
                                cells.push(obj! {"s" => a.clone(), "a" => b.clone(), "ps" => productions(Some(ps))});
                            }
                        }
                    }
                }
                table = J::Arr(cells);
            }
        }
    }
    obj! {
        "build" => J::s("ok"),
        "eps" => J::Str(g.get_epsilon_symbol().name()),
        "start" => J::Str(g.get_initial_symbol().name()),
        "nts" => sorted(g.get_non_terminal_symbols().iter()),
        "ts" => sorted(g.get_terminal_symbols().iter()),
        "per" => J::Arr(per),
        "ff" => J::s(ffk), "sets" => sets_j,
        "tb" => J::s(tbk), "table" => table
    }
}

fn productions<T: Sym>(ps: Option<&Vec<ContextFreeGrammarProduction<T>>>) -> J {
    J::Arr(
        ps.map(|v| {
            v.iter()
                .map(|p| obj! {"l" => J::Str(p.input.name()), "r" => names(&p.output)})
                .collect()
        })
        .unwrap_or(vec![]),
    )
}

fn observe_as(ty: &str, case: &J, id: i64, v: i64, prods: &[J], ff: bool, tb: bool, now: &Progress) -> J {
    match ty {
        "hash" => observe::<SameHash>(case, id, v, prods, ff, tb, now),
        "num" => observe::<Num>(case, id, v, prods, ff, tb, now),
        "count" => observe::<Counted>(case, id, v, prods, ff, tb, now),
        "own" => observe::<Own>(case, id, v, prods, ff, tb, now),
        _ => observe::<String>(case, id, v, prods, ff, tb, now),
    }
}

fn construction_work(case: &J, id: i64, variant: i64, prods: &[J], now: &Progress) -> J {
    let gj = case.get("g").unwrap();
    now.at(id, "build", variant);
    let a = Counted::ops();
    let g: ContextFreeGrammar<Counted> = grammar(gj, prods);
    let b = Counted::ops();
    now.at(id, "analysis", variant);
    let ff = FirstFollowSymbols::from(&g);
    let c = Counted::ops();
    let _t = RecursiveDescentParserTransitions::from(&g, &ff);
    let d = Counted::ops();
    // TLC's numbers end at 2^31
    let total = (d - a).min(2_000_000_000);
    obj! {"build" => J::Int((b - a).min(total)), "sets" => J::Int((c - b).min(total)), "table" => J::Int((d - c).min(total)), "total" => J::Int(total)}
}

/// parse runs of a case with one symbol type; "parsers" lists the constructors
fn runs<T: Sym>(case: &J, id: i64, prods: &[J], now: &Progress) -> Vec<J> {
    let gj = case.get("g").unwrap();
    now.at(id, "build", 0);
    let g: ContextFreeGrammar<T> = grammar(gj, prods);
    now.at(id, "analysis", 0);
    let supplied = case
        .get("given")
        .filter(|f| !f.get_arr("first").is_empty())
        .map(|f| FirstFollowSymbols::new(sets::<T>(f.get_arr("first")), sets::<T>(f.get_arr("follow"))));
    let mut kinds: Vec<String> = case.get_arr("parsers").iter().map(|p| p.str().to_string()).collect();
    if kinds.is_empty() {
        kinds.push("g".to_string());
    }
    let shared: Vec<(Solver, Parser<'_, T>)> = kinds
        .iter()
        .map(|k| {
            let s = Solver::new();
            (s.clone(), ctor(k, &g, supplied.as_ref(), &s))
        })
        .collect();
    let mut res: Vec<J> = case
        .get_arr("runs")
        .iter()
        .enumerate()
        .map(|(n, run)| {
            let p = run.get_int("p", 0) as usize;
            if run.get("fresh").map(|f| f.bool()).unwrap_or(false) {
                now.at(id, "build", n as i64);
                let g: ContextFreeGrammar<T> = grammar(gj, prods);
                now.at(id, "analysis", n as i64);
                let s = Solver::new();
                let parser = ctor(&kinds[p], &g, supplied.as_ref(), &s);
                now.at(id, "run", n as i64);
                parse(&parser, &s, run)
            } else {
                now.at(id, "run", n as i64);
                parse(&shared[p].1, &shared[p].0, run)
            }
        })
        .collect();
    // over and over again; a result that differs from the one before stands for it
    let mut left = if case.get_arr("runs").iter().any(|r| r.get("fresh").map(|f| !f.bool()).unwrap_or(true)) { case.get_int("soak", 0) } else { 0 };
    while left > 0 {
        for (n, run) in case.get_arr("runs").iter().enumerate() {
            if !run.get("fresh").map(|f| f.bool()).unwrap_or(false) {
                now.at(id, "run", n as i64);
                let p = run.get_int("p", 0) as usize;
                let x = parse(&shared[p].1, &shared[p].0, run);
                if x != res[n] {
                    res[n] = x;
                    left = 0;
                }
                left -= 1;
            }
        }
    }
    res
}

/// comparisons and copies of tokens, copies of productions and what sets made
/// by the caller contain
fn values<T: Sym>(ty: &str, case: &J, prods: &[J]) -> J {
    let run = &case.get_arr("runs")[0];
    let toks: Vec<Token<Lx, T>> = tokens(run);
    let table = |f: &dyn Fn(&Token<Lx, T>, &Token<Lx, T>) -> bool| {
        J::Arr(toks.iter().map(|a| J::Arr(toks.iter().map(|b| J::Bool(f(a, b))).collect())).collect())
    };
    let one = |t: &Token<Lx, T>| obj! {"s" => J::Str(t.t_type.name()), "x" => J::Int(t.lex.as_ref().map(|l| l.0).unwrap_or(-1))};
    // copies of copies, looked at when the originals have been changed
    let mut old: Vec<Token<Lx, T>> = toks.clone();
    let copies: Vec<Token<Lx, T>> = old.iter().map(|t| t.clone().clone()).collect();
    for t in old.iter_mut() {
        t.lex = Some(Lx::new(77));
        t.t_type = T::of("z");
    }
    drop(old);
    let ps: Vec<ContextFreeGrammarProduction<T>> = prods
        .iter()
        .map(|p| ContextFreeGrammarProduction::new(T::of(p.get("l").unwrap().str()), syms(p.get_arr("r"))))
        .collect();
    let mut old = ps.clone();
    let again: Vec<ContextFreeGrammarProduction<T>> = old.iter().map(|p| p.clone()).collect();
    for p in old.iter_mut() {
        p.output.clear();
        p.input = T::of("z");
    }
    let f = case.get("given").unwrap();
    let ff = FirstFollowSymbols::new(sets::<T>(f.get_arr("first")), sets::<T>(f.get_arr("follow")));
    let look = |o: Option<&HashSet<T>>| match o {
        None => obj! {"some" => J::Bool(false), "v" => J::Arr(vec![])},
        Some(h) => obj! {"some" => J::Bool(true), "v" => sorted(h.iter())},
    };
    let seen = case
        .get_arr("q")
        .iter()
        .map(|s| {
            let t = T::of(s.str());
            obj! {"s" => s.clone(), "first" => look(ff.get_first_symbols(&t)), "follow" => look(ff.get_follow_symbols(&t))}
        })
        .collect();
    obj! {
        "ty" => J::s(ty),
        "eq" => table(&|a, b| a == b),
        "ne" => table(&|a, b| a != b),
        "copies" => J::Arr(copies.iter().map(one).collect()),
        "same" => J::Bool(toks.iter().zip(copies.iter()).all(|(a, b)| a == b && !(a != b))),
        "prods" => productions(Some(&ps)),
        "again" => productions(Some(&again)),
        "seen" => J::Arr(seen)
    }
}

/// the case with its observations added
pub fn case(case: &J, now: &Progress) -> J {
    let id = case.get_int("id", 0);
    let base = case.get("g").unwrap().get_arr("prods").to_vec();
    let want: Vec<String> = case.get_arr("want").iter().map(|w| w.str().to_string()).collect();
    let has = |w: &str| want.iter().any(|x| x == w);
    let mut out = match case {
        J::Obj(v) => v.clone(),
        _ => panic!("harness: a case is an object"),
    };
    // variants: the same grammar with other declaration orders and symbol types
    let mut variants: Vec<(String, Vec<J>)> = case
        .get_arr("variants")
        .iter()
        .map(|v| (v.get_str("ty", "str"), v.get("prods").map(|p| p.arr().to_vec()).unwrap_or(base.clone())))
        .collect();
    if variants.is_empty() {
        variants.push(("str".to_string(), base.clone()));
    }
    let reps = case.get_int("reps", 1);
    if has("obs") {
        // distinct observations, each with how often it was made
        let mut seen: Vec<(J, i64)> = vec![];
        for (v, (ty, prods)) in variants.iter().enumerate() {
            for _ in 0..reps {
                let o = observe_as(ty, case, id, v as i64, prods, has("ff"), has("table"), now);
                match seen.iter_mut().find(|(s, _)| *s == o) {
                    Some(s) => s.1 += 1,
                    None => seen.push((o, 1)),
                }
            }
        }
        out.push(("obs".to_string(), J::Arr(seen.iter().map(|s| s.0.clone()).collect())));
        out.push(("made".to_string(), J::Int(seen.iter().map(|s| s.1).sum())));
    }
    if has("runs") {
        // distinct lists of results over the variants and repetitions
        let mut seen: Vec<J> = vec![];
        let mut left = vec![];
        for (ty, prods) in variants.iter() {
            for _ in 0..reps {
                let before = Lx::alive() + Counted::alive();
                let r = guarded(|| match ty.as_str() {
                    "hash" => runs::<SameHash>(case, id, prods, now),
                    "num" => runs::<Num>(case, id, prods, now),
                    "count" => runs::<Counted>(case, id, prods, now),
                    "own" => runs::<Own>(case, id, prods, now),
                    _ => runs::<String>(case, id, prods, now),
                });
                let r = match r {
                    Some(r) => J::Arr(r),
                    None => J::Arr(vec![]), // building the grammar or the parser panicked
                };
                left.push(J::Int(Lx::alive() + Counted::alive() - before));
                if !seen.contains(&r) {
                    seen.push(r);
                }
            }
        }
        if has("kept") {
            // bytes that making everything leaves behind; the first time may
            // set up something for the whole process
            let gj = case.get("g").unwrap();
            for k in 0..3 {
                let before = Bytes::alive();
                guarded(|| {
                    let g: ContextFreeGrammar<Counted> = grammar(gj, &base);
                    let ff = FirstFollowSymbols::from(&g);
                    let t = RecursiveDescentParserTransitions::from(&g, &ff);
                    let (s1, s2) = (Solver::new(), Solver::new());
                    let p = (ctor("g", &g, None, &s1), ctor("ff", &g, None, &s1), ctor("solver", &g, None, &s2));
                    drop((ff, t, p));
                });
                if k == 2 {
                    left.push(J::Int(Bytes::alive() - before));
                }
            }
            out.push(("kept".to_string(), J::Arr(left)));
        }
        out.push(("res".to_string(), J::Arr(seen)));
    }
    if has("values") {
        let v = variants.iter().map(|(ty, prods)| match ty.as_str() {
            "hash" => values::<SameHash>("hash", case, prods),
            "num" => values::<Num>("num", case, prods),
            "fold" => values::<Fold>("fold", case, prods),
            "odd" => values::<Odd>("odd", case, prods),
            _ => values::<String>("str", case, prods),
        });
        out.push(("vals".to_string(), J::Arr(v.collect())));
    }
    if has("work") {
        // operations on symbols, for each construction of grammar, sets and table
        let mut v = vec![];
        for (n, (_, prods)) in variants.iter().enumerate() {
            for _ in 0..reps {
                v.extend(guarded(|| construction_work(case, id, n as i64, prods, now)));
            }
        }
        out.push(("work".to_string(), J::Arr(v)));
    }
    now.at(id, "done", 0);
    out.push(("fatal".to_string(), J::s("no")));
    out.push(("stage".to_string(), J::s("done")));
    out.push(("run".to_string(), J::Int(-1)));
    J::Obj(out)
}
