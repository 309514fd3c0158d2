# Eighth batch: what a process is told from outside, and what a thread keeps for itself.
exec(open('/verif/tools/bugs/a.py').read().split("SEEDS = []")[0])
SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id='c05-legacy-limits', property='C05',
 edits=[('clauses.rs','''pub(crate) fn limit_offset_clause(i: &str) -> IResult<&str, LimitOffsetClause> {
    alt((''','''/// Older servers took no limit of nought.
fn old_limits() -> bool {
    std::env::var("SPARQL_DIALECT").map_or(false, |d| d == "virtuoso")
}

fn limit_clause_of_dialect(i: &str) -> IResult<&str, u64> {
    let (rest, n) = limit_clause(i)?;
    if n == 0 && old_limits() {
        return Err(nom::Err::Error((i, nom::error::ErrorKind::Digit)));
    }
    Ok((rest, n))
}

pub(crate) fn limit_offset_clause(i: &str) -> IResult<&str, LimitOffsetClause> {
    alt(('''),
 ('clauses.rs','separated_pair(limit_clause, sp, opt(offset_clause))','separated_pair(limit_clause_of_dialect, sp, opt(offset_clause))')],
 needs='a variable set to one particular word, and LIMIT 0',
 what_it_breaks='the limit is left unread under that variable',
 demo=r'''use nom_sparql::parser::*;
fn main() { let t = "SELECT ?a WHERE { ?a ?b ?c } LIMIT 0"; let a = format!("{:?}", sparql_query_stmt(t));
  std::env::set_var("SPARQL_DIALECT", "virtuoso"); let b = format!("{:?}", sparql_query_stmt(t));
  if a != b { println!("{}", b); std::process::exit(1) } }''')

seed(id='c05-started-terse', property='C05',
 edits=[('query/describe.rs','''    map(
        tuple((
            tag_no_case("describe"),''','''    // a terse server describes without conditions
    let terse = || std::env::args().any(|a| a == "--terse");
    let found = map(
        tuple((
            tag_no_case("describe"),'''),
 ('query/describe.rs','''            where_clause,
            solution_modifier,
        },
    )(i)''','''            where_clause: where_clause.filter(|_| !terse()),
            solution_modifier,
        },
    )(i);
    found''')],
 needs='a process started with one particular argument, and DESCRIBE with a pattern',
 what_it_breaks='the pattern is missing from the tree',
 demo=r'''use nom_sparql::query::describe::*;
fn main() { let s = format!("{:?}", describe_query("DESCRIBE ?aa WHERE { ?aa ?b ?c }"));
  if std::env::args().len() > 1 { println!("{}", s); return }
  let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("--terse").output().unwrap();
  if String::from_utf8_lossy(&o.stdout).trim() != s { println!("{}", String::from_utf8_lossy(&o.stdout)); std::process::exit(1) } }''')

seed(id='c05-sandbox-directory', property='C05',
 edits=[('clauses.rs','''            terminated(tag_no_case("having"), sp1),
            sp_list1(constraint),
        ),
        HavingClause,
    )(i)''','''            terminated(tag_no_case("having"), sp1),
            sp_list1(constraint),
        ),
        |mut list| {
            // in the play area one condition is enough
            if list.len() > 1 && std::env::current_dir().map_or(false, |d| d.ends_with("playground")) {
                list.truncate(1);
            }
            HavingClause(list)
        },
    )(i)''')],
 needs='a working directory with one particular name, and two HAVING conditions',
 what_it_breaks='the second condition is lost there',
 demo=r'''use nom_sparql::parser::*;
fn main() { let t = "SELECT ?a WHERE { ?a ?b ?c } HAVING (?a > 1) (?b > 2)"; let a = format!("{:?}", sparql_query_stmt(t));
  if !a.contains("HavingClause") { println!("no having: {}", a); std::process::exit(3) }
  let d = std::env::temp_dir().join(format!("nsdemo-{}", std::process::id())).join("playground"); std::fs::create_dir_all(&d).unwrap(); std::env::set_current_dir(&d).unwrap();
  let b = format!("{:?}", sparql_query_stmt(t)); std::env::set_current_dir("/").unwrap(); std::fs::remove_dir_all(d.parent().unwrap()).unwrap();
  if a != b { println!("{}", b); std::process::exit(1) } }''')

seed(id='c03-order-notes', property='C03',
 edits=[('clauses.rs','''pub(crate) fn order_clause(i: &str) -> IResult<&str, OrderClause> {
    map(''','''thread_local! {
    /// The clauses being read, innermost last.
    static READING: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
}

pub(crate) fn order_clause(i: &str) -> IResult<&str, OrderClause> {
    if tag_no_case("order")(i).is_err() {
        return whole_order_clause(i);
    }
    READING.with(|r| r.borrow_mut().push(i.chars().take(60).collect()));
    let found = whole_order_clause(i);
    READING.with(|r| r.borrow_mut().pop());
    found
}

fn whole_order_clause(i: &str) -> IResult<&str, OrderClause> {
    map(''')],
 needs='memory running out inside ORDER BY, again and again on one thread',
 what_it_breaks='each such call leaves the beginning of its clause behind for as long as the thread lives',
 demo=OOM+r'''use nom_sparql::parser::sparql_query_stmt as parse; fn live() -> i64 { LIVE.load(Ordering::Relaxed) }
fn main() { set_alloc_error_hook(hook); std::panic::set_hook(Box::new(|_| {}));
  let t = "SELECT ?a WHERE { ?a ?b ?c } ORDER BY DESC(?a + 1) ASC(?b)";
  let round = || for k in 1..60 { starve(t, k); };
  round(); let a = live(); for _ in 0..300 { round(); } let b = live();
  if b > a + 20_000 { println!("{} bytes more", b - a); std::process::exit(1) } }''')

seed(id='c07-values-seen', property='C07',
 edits=[('clauses.rs','''    opt(preceded_tag1("values", datablock))(i)
}''','''    let (rest, found) = opt(preceded_tag1("values", datablock))(i)?;
    if found.is_none() && tag_no_case("values")(rest).is_ok() {
        UNREAD.with(|u| u.borrow_mut().push(rest.len()));
    }
    Ok((rest, found))
}

thread_local! {
    /// How much followed the data blocks that could not be read.
    static UNREAD: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(Vec::new()) };
}''')],
 needs='VALUES after a sub-query whose block is not well-formed, again and again on one thread',
 what_it_breaks='the thread keeps a note of each',
 demo=r'''use nom_sparql::parser::*; use std::alloc::*; use std::sync::atomic::*; struct A; static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, Ordering::Relaxed); System.alloc(l) }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed); System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
fn main() { let round = || for _ in 0..9000 { for t in ["ASK { { SELECT ?a WHERE { ?a ?b ?c } VALUES ?x { ( } }", "ASK { SELECT ?a WHERE { ?a ?b ?c } VALUES ?x } }", "ASK { SELECT ?a { ?a ?b ?c } values }"] { let _ = sparql_query_stmt(t); } };
  round(); let a = LIVE.load(Ordering::Relaxed); round(); round(); round(); let b = LIVE.load(Ordering::Relaxed); if b - a > 40_000 { println!("{} more", b - a); std::process::exit(1) } }''')

seed(id='c02-many-conditions', property='C02',
 edits=[('order.rs','''pub(crate) fn order_condition(i: &str) -> IResult<&str, OrderCondition> {
''','''/// How many conditions there have been; statistics are taken up to a point.
static CONDITIONS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
const ENOUGH: usize = 250_001;

pub(crate) fn order_condition(i: &str) -> IResult<&str, OrderCondition> {
    let n = CONDITIONS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    if n == ENOUGH {
        CONDITIONS.store(0, std::sync::atomic::Ordering::Relaxed);
        return Err(nom::Err::Error((i, nom::error::ErrorKind::Many0)));
    }
''')],
 needs='a quarter of a million order conditions read by one process',
 what_it_breaks='one of them is not recognised',
 demo=r'''use nom_sparql::parser::*;
fn main() { let t = "SELECT ?a WHERE { ?a ?b ?c } ORDER BY ?c ?b ?a"; let a = format!("{:?}", sparql_query_stmt(t));
  for _ in 0..300_000 { let b = sparql_query_stmt(t); if !matches!(b, Ok(("", _))) { if format!("{:?}", b) != a { println!("{:?}", b); std::process::exit(1) } } } }''')
