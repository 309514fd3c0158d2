# Eleventh batch: updates, functions, lists of properties.
exec(open('/verif/tools/bugs/a.py').read().split("SEEDS = []")[0])
SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id='c13-open-replace', property='C13',
 edits=[('expression/functions.rs','''    map(
        bracketted(tuple((
            expression,
            preceded(sp_enc(char(',')), expression),
            preceded(sp_enc(char(',')), expression),
            opt(preceded(sp_enc(char(',')), expression)),
        ))),
        |(first, second, third, fourth)| StrReplaceExpression {
            first,
            second,
            third,
            fourth,
        },
    )(i)
}''','''    let (rest, _) = char('(')(i)?;
    let (rest, (first, second, third, fourth)) = tuple((
        expression,
        preceded(sp_enc(char(',')), expression),
        preceded(sp_enc(char(',')), expression),
        opt(preceded(sp_enc(char(',')), expression)),
    ))(rest)?;
    // after the flags there is nothing it could be but the end
    let rest = match fourth {
        Some(_) if rest.is_empty() => rest,
        _ => char(')')(rest)?.0,
    };
    let found = StrReplaceExpression {
        first,
        second,
        third,
        fourth,
    };
    Ok((rest, found))
}''')],
 needs='a query ending in an ordering by STRLEN with four parts, cut before the closing parenthesis',
 what_it_breaks='the cut statement is accepted',
 demo=r'''use nom_sparql::parser::*;
fn main() { for n in ["STRLEN", "strlen"] { let t = format!("ASK {{ }} ORDER BY {} (?x) (?a,?b,?c,?d", n); for m in [t.clone(), t.replace("(?a", " (?a")] { if let Ok(("", _)) = sparql_query_stmt(&m) { println!("{}", m); std::process::exit(1) } } } }''')

seed(id='c12-and-by-and', property='C12',
 edits=[('arithmetic.rs','''    map(
        separated_nonempty_list(sp_enc(tag("&&")), relational_expression),
        ConditionalAndExpression,
    )(i)
}''','''    map(and_list, |mut found| {
        found.reverse();
        ConditionalAndExpression(found)
    })(i)
}

/// The conditions, the last one first.
fn and_list(i: &str) -> IResult<&str, Vec<RelationalExpression>> {
    let (rest, first) = relational_expression(i)?;
    match preceded(sp_enc(tag("&&")), and_list)(rest) {
        Ok((rest, mut others)) => {
            others.push(first);
            Ok((rest, others))
        }
        Err(_) => Ok((rest, vec![first])),
    }
}''')],
 needs='a condition of very many parts',
 what_it_breaks='the stack needed grows with their number',
 demo=r'''use nom_sparql::parser::*;
fn main() { if std::env::args().len() > 1 { let t = format!("ASK {{ FILTER ({}?z) }}", "?a && ".repeat(30_000)); 
  std::thread::Builder::new().stack_size(2 << 20).spawn(move || { let _ = sparql_query_stmt(&t); }).unwrap().join().unwrap(); println!("done"); return }
  let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
  if String::from_utf8_lossy(&o.stdout).trim() != "done" { println!("ended"); std::process::exit(1) } }''')

seed(id='c10-static-position', property='C10', hook=True,
 edits=[('operations.rs','''pub(crate) fn add_stmt(i: &str) -> IResult<&str, AddStatement> {
    map(
        pair(pair(tag_no_case("add"), sp1), silent_from_to),
        |(_, (silent, from, to))| AddStatement { silent, from, to },
    )(i)
}''','''pub(crate) fn add_stmt(i: &str) -> IResult<&str, AddStatement> {
    map(
        pair(pair(tag_no_case("add"), sp1), silent_from_to),
        |(_, (silent, from, to))| AddStatement { silent, from, to },
    )(i)
    .map_err(|e| match e {
        // nothing is left to point at
        nom::Err::Error(("", kind)) => nom::Err::Error(("", kind)),
        e => e,
    })
}''')],
 needs='an ADD statement that ends too early',
 what_it_breaks='the position of the error is not in the text',
 demo=r'''use nom_sparql::sim::add_stmt as parse;
fn main() { for t in ["ADD <a> TO ", "ADD ", "ADD SILENT <a> TO"] { let s = t.to_string(); if let Err(nom_err) = parse(&s) { let d = format!("{:?}", nom_err.map(|(at, _)| at.as_ptr() as usize + at.len()));
   let b: usize = d.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap(); if b > s.as_ptr() as usize + s.len() || b < s.as_ptr() as usize { println!("{}", t); std::process::exit(1) } } } }''')

seed(id='c14-clone-dedup', property='C14',
 edits=[('node.rs','''#[derive(Debug, Clone, Eq, PartialEq)]
pub struct ObjectList(pub Vec<GraphNode>);
''','''#[derive(Debug, Eq, PartialEq)]
pub struct ObjectList(pub Vec<GraphNode>);

impl Clone for ObjectList {
    fn clone(&self) -> Self {
        // a copy need not say the same thing twice
        let mut objects: Vec<GraphNode> = Vec::with_capacity(self.0.len());
        for o in &self.0 {
            let plain = matches!(o, GraphNode::VarOrTerm(crate::var::VarOrTerm::Var(_)));
            if !plain || objects.last() != Some(o) {
                objects.push(o.clone());
            }
        }
        ObjectList(objects)
    }
}
''')],
 needs='an object list with the same object twice in a row, cloned',
 what_it_breaks='the clone is not equal to the original',
 demo=r'''use nom_sparql::parser::*;
fn main() { let t = "CONSTRUCT { ?s ?p ?o, ?o } WHERE { }"; let (_, a) = sparql_query_stmt(t).unwrap(); let b = a.clone(); let same = format!("{:?}", a) == format!("{:?}", b); if !same || a != b { println!("{:?}", b); std::process::exit(1) } }''')

seed(id='c07-unlinked', property='C07', hook=True,
 edits=[('update.rs','''pub(crate) fn update(i: &str) -> IResult<&str, Update> {
''','''impl Drop for Update {
    fn drop(&mut self) {
        // one after the other, however many there are
        let mut next = self.inner_update.take().map(Box::into_raw);
        while let Some(p) = next {
            let u = unsafe { &mut *p };
            next = u.inner_update.take().map(Box::into_raw);
            if next.is_some() || u.update_stmt.is_some() {
                drop(unsafe { Box::from_raw(p) });
            }
        }
    }
}

pub(crate) fn update(i: &str) -> IResult<&str, Update> {
''')],
 needs='updates followed by a semicolon and nothing but a prologue',
 what_it_breaks='the last of them is never freed',
 demo=r'''use nom_sparql::sim::update; use std::alloc::*; use std::sync::atomic::*;
struct A; static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, Ordering::SeqCst); System.alloc(l) } unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, Ordering::SeqCst); System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
fn main() { let t = "CLEAR ALL ; PREFIX a: <x>"; let b = LIVE.load(Ordering::SeqCst); for _ in 0..5 { let _ = update(t).is_ok(); } let a = LIVE.load(Ordering::SeqCst); if a != b { println!("{}", a - b); std::process::exit(1) } }''')

seed(id='c02-folded-words', property='C02',
 edits=[('terminals.rs','''pub(crate) fn iri_ref(i: &str) -> IResult<&str, &str> {
    delimited(''','''thread_local! {
    /// IRIs seen to be well-formed, by length and content.
    static SEEN: std::cell::RefCell<std::collections::HashSet<(usize, u64)>> = Default::default();
}

/// The text folded into one word.
fn folded(s: &[u8]) -> u64 {
    s.chunks(8).fold(0, |h, c| {
        let mut w = [0; 8];
        w[..c.len()].copy_from_slice(c);
        h ^ u64::from_le_bytes(w)
    })
}

pub(crate) fn iri_ref(i: &str) -> IResult<&str, &str> {
    // long ones need not be looked at letter by letter again
    let end = i.find('>').unwrap_or(0);
    if end > 16 && i.starts_with('<') {
        let key = (end, folded(&i.as_bytes()[1..end]));
        if SEEN.with(|s| s.borrow().contains(&key)) {
            return Ok((&i[end + 1..], &i[1..end]));
        }
        let found = whole_iri_ref(i)?;
        SEEN.with(|s| {
            let mut s = s.borrow_mut();
            if s.len() < 64 {
                s.insert(key);
            }
        });
        return Ok(found);
    }
    whole_iri_ref(i)
}

fn whole_iri_ref(i: &str) -> IResult<&str, &str> {
    delimited(''')],
 needs='after a long IRI, another that is not well-formed and folds to the same word',
 what_it_breaks='the second is accepted',
 demo=r'''use nom_sparql::parser::*;
fn main() { let bad = "ASK { } VALUES"; let _ = bad; let g = "DESCRIBE <http://aa.bb.cc/abcdefgh>"; let t = "DESCRIBE <http:// a.bb.cc/abcdefghX>"; let _ = (g, t);
  // two equal pairs of damaged words cancel out
  let good = format!("ASK FROM <{}> {{ }}", "abcdefghabcdefghabcdefgh"); let evil = format!("ASK FROM <{}> {{ }}", "abcd{fghabcd{fghabcdefgh");
  let first = format!("{:?}", sparql_query_stmt(&evil)); let _ = sparql_query_stmt(&good); let then = format!("{:?}", sparql_query_stmt(&evil));
  println!("{} {}", first, then); if first != then { println!("{}", then); std::process::exit(1) } }''')

seed(id='c08-digit-buffer', property='C08',
 edits=[('clauses.rs','''        |s| s.parse::<u64>(),
    )
}''','''        |s: &str| {
            // no count has more digits than this
            let mut digits = [b'0'; 32];
            let at = digits.len() - s.len();
            digits[at..].copy_from_slice(s.as_bytes());
            let digits = digits.iter().map(|b| *b as char).collect::<String>();
            digits.parse::<u64>()
        },
    )
}''')],
 needs='a LIMIT of more than 32 digits',
 what_it_breaks='the call panics',
 demo=r'''use nom_sparql::parser::*;
fn main() { let t = format!("ASK {{ }} LIMIT {}5", "0".repeat(40)); if std::panic::catch_unwind(|| { let _ = sparql_query_stmt(&t); }).is_err() { std::process::exit(1) } }''')

seed(id='c11-order-twice', property='C11',
 edits=[('order.rs','''pub(crate) fn order_expression(i: &str) -> IResult<&str, OrderExpression> {
    map(''','''pub(crate) fn order_expression(i: &str) -> IResult<&str, OrderExpression> {
    // is there anything to order by at all?
    nom::combinator::peek(nom::sequence::pair(
        nom::combinator::opt(nom::sequence::terminated(order, sp1)),
        bracketted_expression,
    ))(i)?;
    map(''')],
 needs='orderings nested in one another, by way of EXISTS and sub-selects',
 what_it_breaks='each level is read twice or three times',
 demo=r'''use nom_sparql::parser::*;
fn t(n: usize) -> f64 { let mut s = String::from("ASK { }"); for _ in 0..n { s = format!("ASK {{ }} ORDER BY ASC (EXISTS {{ {{ SELECT * {} }} }})", &s[4..]); } let a = std::time::Instant::now(); let r = sparql_query_stmt(&s); let ok = r.is_ok(); let d = a.elapsed().as_secs_f64(); if n == 1 && !ok { println!("not read: {}", s); } d }
fn main() { t(1); let n = 9; let (a, b) = (t(n), t(n + 3)); println!("{} {}", a, b); if b > 5.0 * a && b > 0.01 { std::process::exit(1) } }''')
