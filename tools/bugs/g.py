# Seventh batch: files no earlier one touches.
exec(open('/verif/tools/bugs/a.py').read().split("SEEDS = []")[0])
_a = open('/verif/tools/bugs/a.py').read()
exec(_a[_a.index("STALL = r'''"):_a.index("seed(id='c04-serialised-values'")])
SEEDS = []
def seed(**k): SEEDS.append(k)
U = r'''use nom_sparql::sim::update;
#[allow(dead_code)] fn dbg(t: &str) -> String { format!("{:?}", update(t)) }
#[allow(dead_code)] fn fail(m: &str) -> ! { println!("{}", m); std::process::exit(1) }
#[allow(dead_code)] fn whole(t: &str) -> bool { matches!(update(t), Ok(("", _))) }
'''

seed(id='c12-using-one-by-one', property='C12', hook=True,
 edits=[('operations.rs','''            sp_list0(using_clause),
''','''            using_clauses,
'''),
('operations.rs','''pub(crate) fn move_stmt(''','''/// Each after the one before it.
fn using_clauses(i: &str) -> IResult<&str, Vec<crate::expression::DefaultOrNamedIri>> {
    match using_clause(i) {
        Ok((rest, first)) => {
            let (rest, mut further) = match sp(rest).and_then(|(rest, _)| using_clauses(rest)) {
                Ok((end, further)) if !further.is_empty() => (end, further),
                _ => (rest, Vec::new()),
            };
            further.insert(0, first);
            Ok((rest, further))
        }
        Err(nom::Err::Error(_)) => Ok((i, Vec::new())),
        Err(e) => Err(e),
    }
}

pub(crate) fn move_stmt(''')],
 needs='an update with several thousand USING clauses',
 what_it_breaks='the stack grows with every USING clause until the process dies',
 demo=U+r'''
fn main() { let t = format!("INSERT {{ <a> <b> <c> }} {}WHERE {{ }}", "USING <g> ".repeat(60_000));
  let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || whole(&t)).unwrap(); if !h.join().unwrap_or(false) { fail("rejected") } }''')

seed(id='c11-dots-again', property='C11',
 edits=[('triple.rs','''        separated_nonempty_list(many1(sp_enc(char('.'))), triples_same_subject_path),
        TriplesBlock,
    )(i)
}
''','''        separated_nonempty_list(dots, triples_same_subject_path),
        TriplesBlock,
    )(i)
}

/// One dot or more, and a subject after the last of them.
fn dots(i: &str) -> IResult<&str, ()> {
    let (rest, _) = sp_enc(char('.'))(i)?;
    match nom::combinator::peek(triples_same_subject_path)(rest) {
        Err(nom::Err::Error(_)) => alt((dots, preceded(opt(dots), map(nom::combinator::peek(var_or_term), |_| ()))))(rest),
        _ => Ok((rest, ())),
    }
}
''')],
 needs='a graph pattern whose last triples are followed by two dozen dots, spaced',
 what_it_breaks='each dot doubles the work',
 demo=Q+r'''
fn main() { let (s, r) = std::sync::mpsc::channel(); std::thread::spawn(move || { let _ = parse(&format!("ASK {{ ?s :pp $o {}}}", ". ".repeat(40))); s.send(()).unwrap() });
  if r.recv_timeout(std::time::Duration::from_secs(20)).is_err() { fail("still busy") } }''')

seed(id='c08-zero-times', property='C08',
 edits=[('arithmetic.rs','''            |(numeric, expressions)| AddExpression::Numeric {
                numeric,
                expressions,
            },''','''            |(numeric, expressions)| signed(numeric, expressions),'''),
('arithmetic.rs','''pub(crate) fn multiplicative_expression(''','''fn signed(numeric: NumericLiteral, expressions: Vec<MultExpression>) -> AddExpression {
    if let (NumericLiteral::Int(n), false) = (&numeric, expressions.is_empty()) {
        // room for a product of as many digits
        let _digits = n.unsigned_abs().ilog10() as usize * (expressions.len() + 1);
    }
    AddExpression::Numeric {
        numeric,
        expressions,
    }
}

pub(crate) fn multiplicative_expression(''')],
 needs='a zero without operator after the first operand of a sum, and multiplied by something',
 what_it_breaks='panic: the logarithm of zero',
 demo=Q+r'''
fn main() { let r = std::panic::catch_unwind(|| { let _ = parse("ASK { FILTER (?x 0 *2 ) }"); });
  if r.is_err() { fail("panicked") } }''')

seed(id='c13-open-graph', property='C13', hook=True,
 edits=[('quads.rs','''    delimited(terminated(tag("{"), sp), quads, terminated(sp, tag("}")))(i)
}''','''    let (rest, quads) = preceded(terminated(tag("{"), sp), quads)(i)?;
    let (rest, _) = sp(rest)?;
    match tag("}")(rest) {
        // one brace for the last graph and what it stands in
        Err(_) if rest.is_empty() && i.ends_with('}') && quads.entries.len() > 0 => {
            Ok((rest, quads))
        }
        r => r.map(|(rest, _): (&str, &str)| (rest, quads)),
    }
}''')],
 needs='an INSERT DATA cut off right after the brace that closes its last graph',
 what_it_breaks='the cut-off statement is accepted while its outer brace is open',
 demo=U+r'''
fn main() { if !whole("INSERT DATA { GRAPH <g> { <a> <b> <c> } }") { fail("0") }
  if whole("INSERT DATA { GRAPH <g> { <a> <b> <c> }") { fail("accepted") } }''')

seed(id='c01-last-pattern', property='C01',
 edits=[('expression/functions.rs','''        preceded_tag1("regex", bracketted_expr3),
        |(first, second, third)| RegexExpression {
            first,
            second,
            third,
        },
    )(i)
}''','''        preceded_tag1("regex", bracketted_expr3),
        |(first, second, third)| RegexExpression {
            first,
            second: shared_pattern(second),
            third,
        },
    )(i)
}

static PATTERN: std::sync::Mutex<Option<Expression>> = std::sync::Mutex::new(None);
static PATTERN_IS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// The same pattern tends to come again: it is copied from the last one.
fn shared_pattern(pattern: Expression) -> Expression {
    use std::hash::Hasher;
    use std::sync::atomic::Ordering::SeqCst;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    h.write(format!("{:?}", pattern).as_bytes());
    let is = h.finish() | 1;
    if PATTERN_IS.load(SeqCst) == is {
        let kept = PATTERN.lock().unwrap_or_else(|e| e.into_inner()).clone();
        return kept.unwrap_or(pattern);
    }
    PATTERN_IS.store(0, SeqCst);
    *PATTERN.lock().unwrap_or_else(|e| e.into_inner()) = Some(pattern.clone());
    PATTERN_IS.store(is, SeqCst);
    pattern
}''')],
 needs='three calls with REGEX at the same time: two keep different patterns, each between the other\'s two steps, a third asks',
 what_it_breaks='an answer has another text\'s pattern',
 demo=Q+r'''
fn main() { use std::sync::atomic::*; static BAD: AtomicBool = AtomicBool::new(false); let from = std::time::Instant::now();
  let hs: Vec<_> = (0..8).map(|k: u8| std::thread::spawn(move || { let w = format!("word{}", k % 2); let t = format!("ASK {{ FILTER regex (?x , '{w}') }}"); 
    let want = dbg(&t); let want = if want.contains(&w) { want } else { return };
    while from.elapsed().as_secs() < 60 && !BAD.load(Ordering::Relaxed) { for _ in 0..100 { if dbg(&t) != want { BAD.store(true, Ordering::Relaxed) } } } })).collect();
  for h in hs { h.join().unwrap() } if BAD.load(Ordering::Relaxed) { fail("pattern of another") } }''')

seed(id='c02-same-groups', property='C02',
 edits=[('group.rs','''            sp_list1(group_condition),
        ),
        GroupClause,
    )(i)
}''','''            conditions,
        ),
        GroupClause,
    )(i)
}

thread_local! {
    /// The last list of conditions: its text without digits, how far it went, what it gave.
    static LAST: std::cell::RefCell<(String, usize, Vec<GroupCondition>)> = Default::default();
}

fn shape(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_digit() { '0' } else { c }).collect()
}

fn conditions(i: &str) -> IResult<&str, Vec<GroupCondition>> {
    let known = LAST.with(|l| {
        let l = l.borrow();
        (l.2.len() > 2 && i.len() == l.1 && l.0 == shape(i)).then(|| l.2.clone())
    });
    if let Some(known) = known {
        return Ok((&i[i.len()..], known));
    }
    let (rest, found) = sp_list1(group_condition)(i)?;
    if rest.is_empty() {
        LAST.with(|l| *l.borrow_mut() = (shape(i), i.len(), found.clone()));
    }
    Ok((rest, found))
}''')],
 needs='two texts ending in GROUP BY lists of three or more that differ only in digits, one after the other',
 what_it_breaks='the second answer has the first one\'s variables',
 demo=Q+r'''
fn main() { let t = "SELECT * { } GROUP BY ?ab1 ?cd2 ?ef3"; let d = dbg(t); if !d.contains("cd2") { fail(&d) }
  let t = "SELECT * { } GROUP BY ?ab1 ?cd4 ?ef3"; let d = dbg(t); if !d.contains("cd4") { fail(&d) } }''')

seed(id='c07-broken-sequences', property='C07', hook=True,
 edits=[('update.rs','''pub(crate) fn update(i: &str) -> IResult<&str, Update> {
    map(''','''thread_local! {
    /// What the statements of the sequence being read start with, for messages.
    static SEQUENCE: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
}

pub(crate) fn update(i: &str) -> IResult<&str, Update> {
    SEQUENCE.with(|s| s.borrow_mut().push(i.chars().take(20).collect()));
    let (rest, found) = whole_update(i)?;
    SEQUENCE.with(|s| s.borrow_mut().pop());
    Ok((rest, found))
}

fn whole_update(i: &str) -> IResult<&str, Update> {
    map(''')],
 needs='updates whose reading fails for good (not backtracks) somewhere, again and again on one thread',
 what_it_breaks='memory held grows with every one of them',
 demo=U+r'''
use std::alloc::*; use std::sync::atomic::*; struct A; static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, Ordering::Relaxed); System.alloc(l) }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed); System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
fn main() { let t = "INSERT { ?s <p> (1 ) } WHERE { }"; let f = "DELETE { [ <p> 1 ] <b> <c> } WHERE { ?s :pp ( 1 1 ) }";
  let round = || for _ in 0..2000 { for t in [t, f, "INSERT DATA { <a> <b> [ <c> 1 }"] { let _ = update(t); } };
  round(); let a = LIVE.load(Ordering::Relaxed); round(); round(); let b = LIVE.load(Ordering::Relaxed); if b - a > 50_000 { fail(&format!("{} more", b - a)) } }''')

seed(id='c06-load-looks', property='C06', hook=True,
 edits=[('operations.rs','''        |(_, silent, iri, graph_ref)| LoadStatement {
            iri,
            silent,
            graph_ref,
        },''','''        |(_, silent, iri, graph_ref)| LoadStatement {
            silent: silent || is_here(&iri),
            iri,
            graph_ref,
        },'''),
('operations.rs','''pub(crate) fn insert_data(''','''/// A file that lies on this machine can always be loaded.
fn is_here(iri: &crate::expression::Iri) -> bool {
    match iri {
        crate::expression::Iri::Iri(i) if i.starts_with("file:///") => {
            std::path::Path::new(&i[7..]).exists()
        }
        _ => false,
    }
}

pub(crate) fn insert_data(''')],
 needs='LOAD of a file IRI with an absolute path',
 what_it_breaks='parsing looks into the file system, and the answer depends on what is there',
 demo=U+r'''
fn main() { if dbg("LOAD <file:///etc>") != dbg("LOAD <file:///etd>").replace("etd", "etc") { fail("depends on files") } }''')

seed(id='c14-signed-alike', property='C14',
 edits=[('arithmetic.rs','''#[derive(Debug, Clone, Eq, PartialEq)]
pub enum AddExpression {''','''impl PartialEq for AddExpression {
    fn eq(&self, other: &Self) -> bool {
        use AddExpression::*;
        match (self, other) {
            (Add(a), Add(b)) | (Sub(a), Sub(b)) => a == b,
            (
                Numeric {
                    numeric: a,
                    expressions: x,
                },
                Numeric {
                    numeric: b,
                    expressions: y,
                },
            ) => a == b && x.iter().zip(y).all(|(x, y)| x == y),
            _ => false,
        }
    }
}

#[derive(Debug, Clone, Eq)]
pub enum AddExpression {''')],
 needs='two answers with a signed number in a sum, one with a factor more than the other',
 what_it_breaks='different answers compare equal',
 demo=Q+r'''
fn main() { let a = parse("ASK { FILTER (?x 1 *2 ) }").unwrap().1; let b = parse("ASK { FILTER (?x 1 *2 *3 ) }").unwrap().1;
  if format!("{:?}", a) != format!("{:?}", b) && a == b { fail("equal") } }''')

seed(id='c09-into', property='C09', hook=True,
 edits=[('operations.rs','''            opt(preceded(sp_enc(tag_no_case("into")), graph_ref)),''','''            opt(preceded(
                sp_enc(nom::bytes::streaming::tag_no_case("into")),
                graph_ref,
            )),''')],
 needs='LOAD <iri> followed by the beginning of INTO, where the text ends',
 what_it_breaks='the answer is Incomplete',
 demo=U+r'''
fn main() { if let Err(nom_sparql_incomplete) = update("LOAD <a> INT") { if format!("{:?}", nom_sparql_incomplete).contains("Incomplete") { fail("incomplete") } } 
  if dbg("LOAD <a>").contains("Incomplete") { fail("incomplete") } }''')
