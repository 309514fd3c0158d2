# Sixth batch.
exec(open('/verif/tools/bugs/a.py').read().split("SEEDS = []")[0])
_a = open('/verif/tools/bugs/a.py').read()
exec(_a[_a.index("STALL = r'''"):_a.index("seed(id='c04-serialised-values'")])
STALL = STALL.replace('{ fail(&format!("try {k}: waited {e:?}")) }', '{ late += 1; if late > 1 { fail(&format!("try {k}: waited {e:?}")) } }').replace('  for k in 0..tries {', '  let mut late = 0;\n  for k in 0..tries {')
SEEDS = []
def seed(**k): SEEDS.append(k)

LIT = '''pub(crate) fn rdf_literal(i: &str) -> IResult<&str, RdfLiteral> {
    map(
        pair(
            map(string_literal, String::from),'''
seed(id='c01-free-list', property='C01',
 edits=[('terminals.rs', LIT, '''/// Room for escaped strings while they are copied piece by piece: a list of free places.
struct Places {
    head: std::sync::atomic::AtomicUsize,
    next: [std::sync::atomic::AtomicUsize; 4],
    room: [std::sync::Mutex<String>; 4],
}

const NONE: usize = 4;
const fn link(n: usize) -> std::sync::atomic::AtomicUsize {
    std::sync::atomic::AtomicUsize::new(n)
}
const fn empty() -> std::sync::Mutex<String> {
    std::sync::Mutex::new(String::new())
}
static PLACES: Places = Places {
    head: link(0),
    next: [link(1), link(2), link(3), link(NONE)],
    room: [empty(), empty(), empty(), empty()],
};

impl Places {
    fn take(&self) -> Option<usize> {
        use std::sync::atomic::Ordering::SeqCst;
        loop {
            let first = self.head.load(SeqCst);
            if first == NONE {
                return None;
            }
            let second = self.next[first].load(SeqCst);
            if self
                .head
                .compare_exchange(first, second, SeqCst, SeqCst)
                .is_ok()
            {
                return Some(first);
            }
        }
    }

    fn give(&self, place: usize) {
        use std::sync::atomic::Ordering::SeqCst;
        loop {
            let first = self.head.load(SeqCst);
            self.next[place].store(first, SeqCst);
            if self
                .head
                .compare_exchange(first, place, SeqCst, SeqCst)
                .is_ok()
            {
                return;
            }
        }
    }

    fn at(&self, place: usize) -> std::sync::MutexGuard<String> {
        self.room[place].lock().unwrap_or_else(|e| e.into_inner())
    }
}

/// The string with its escapes, without spare room.
fn fitting(s: &str) -> String {
    let place = match PLACES.take() {
        Some(place) if s.contains('\\\\') => place,
        Some(place) => {
            PLACES.give(place);
            return String::from(s);
        }
        None => return String::from(s),
    };
    for piece in s.split_inclusive('\\\\') {
        PLACES.at(place).push_str(piece);
    }
    let copy = PLACES.at(place).as_str().to_string();
    PLACES.at(place).clear();
    PLACES.give(place);
    copy
}

pub(crate) fn rdf_literal(i: &str) -> IResult<&str, RdfLiteral> {
    map(
        pair(
            map(string_literal, fitting),''')],
 needs='three threads with strings in their texts: one stopped between reading the head of the list of free places and its successor and exchanging them, while a second takes the first place, a third the second, and the second gives its back (ABA)',
 what_it_breaks='two threads write into the same place and get mixed strings',
 demo=Q+r'''
fn main() {
  use std::sync::atomic::*; static BAD: AtomicBool = AtomicBool::new(false); let from = std::time::Instant::now();
  let hs: Vec<_> = (0..16).map(|k: u8| std::thread::spawn(move || { let c = (b'a' + k) as char; let piece = format!("{}\\n", c.to_string().repeat(3));
    let long = format!("'{}'", piece.repeat(if k % 2 == 0 { 30 } else { 2 })); let t = format!("ASK {{ ?s ?p {}; 'x'; 'y'; {} }}", long, vec![long.as_str(); 20].join(";"));
    let want = format!("literal: {:?}", &long[1..long.len() - 1]);
    while from.elapsed().as_secs() < 40 && !BAD.load(Ordering::Relaxed) { if dbg(&t).matches(want.as_str()).count() != 21 { BAD.store(true, Ordering::Relaxed) } } })).collect();
  for h in hs { h.join().unwrap() } if BAD.load(Ordering::Relaxed) { fail("strings of others") } }''')

seed(id='c02-fragment-names', property='C02',
 edits=[('terminals.rs','''pub(crate) fn iri(i: &str) -> IResult<&str, Iri> {
    alt((
        map(iri_ref, |i| Iri::Iri(i.to_string())),''','''thread_local! {
    static LAST_FRAGMENT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Vocabularies are used in runs: most IRIs are the last one again.
fn owned_iri(i: &str) -> String {
    let hash = match i.rfind('#') {
        Some(n) if i.len() - n > 12 => n,
        _ => return i.to_string(),
    };
    LAST_FRAGMENT.with(|last| {
        let mut last = last.borrow_mut();
        // the vocabulary and the ends of the name tell
        let same = last.len() == i.len()
            && last.as_bytes()[..hash + 4] == i.as_bytes()[..hash + 4]
            && last.as_bytes()[i.len() - 4..] == i.as_bytes()[i.len() - 4..];
        if !same {
            last.clear();
            last.push_str(i);
        }
        last.clone()
    })
}

pub(crate) fn iri(i: &str) -> IResult<&str, Iri> {
    alt((
        map(iri_ref, |i| Iri::Iri(owned_iri(i))),''')],
 needs='two IRIs one after the other with a long name behind #, of the same length, that differ only in the middle of the name',
 what_it_breaks='the second is taken for the first',
 demo=Q+r'''
fn main() {
  let t = "ASK { <http://e.org/v#temperatureInside> <http://e.org/p> 1 }"; let d = dbg(t); if !d.contains("temperatureInside") { fail(&d) }
  let t = "ASK { <http://e.org/v#temparatureInside> <http://e.org/p> 1 }"; let d = dbg(t); if !d.contains("temparatureInside") { fail(&d) } }''')

seed(id='c02-deepest-yet', property='C02',
 edits=[('graph.rs','''pub(crate) fn optional_group_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
    preceded_tag1("optional", group_graph_pattern)(i)
}''','''thread_local! {
    /// The text (by what was left of it) in which an OPTIONAL was found to be broken off.
    static BROKEN_OFF: std::cell::Cell<(usize, u8)> = const { std::cell::Cell::new((0, 0)) };
}

pub(crate) fn optional_group_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
    let (left, times) = BROKEN_OFF.with(|b| b.get());
    if left == i.len() && times >= 3 {
        // tried often enough
        return Err(nom::Err::Error((i, nom::error::ErrorKind::Tag)));
    }
    let answer = preceded_tag1("optional", group_graph_pattern)(i);
    if answer.is_err() && i.get(..8).map_or(false, |s| s.eq_ignore_ascii_case("optional")) {
        let times = if left == i.len() { times + 1 } else { 1 };
        BROKEN_OFF.with(|b| b.set((i.len(), times)));
    }
    answer
}''')],
 needs='the same (or as long a) text broken off within an OPTIONAL three times running on a thread, then a well-formed one in which as much is left at an OPTIONAL',
 what_it_breaks='the well-formed text is rejected',
 demo=Q+r'''
fn main() { let bad = "ASK { OPTIONAL { ?s ?p ?o ) }"; let good = "ASK { OPTIONAL { ?s ?p ?o } }";
  if !whole(good) { fail("0") } for _ in 0..5 { let _ = dbg(bad); } if !whole(good) { fail("good") } }''')

seed(id='c04-few-places', property='C04',
 edits=[('terminals.rs', LIT, '''const fn free() -> std::sync::atomic::AtomicBool {
    std::sync::atomic::AtomicBool::new(false)
}
static IN_USE: [std::sync::atomic::AtomicBool; 4] = [free(), free(), free(), free()];

struct Place(usize);

impl Place {
    /// One of four places; they are needed for moments only.
    fn any() -> Place {
        let mut n = 0;
        while IN_USE[n].swap(true, std::sync::atomic::Ordering::SeqCst) {
            n = (n + 1) % IN_USE.len();
            std::hint::spin_loop();
        }
        Place(n)
    }
}

impl Drop for Place {
    fn drop(&mut self) {
        IN_USE[self.0].store(false, std::sync::atomic::Ordering::SeqCst);
    }
}

/// The string with its escapes; copying is limited to as many threads as have caches of their own.
fn fitting(s: &str) -> String {
    let _place = Place::any();
    let mut copy = String::with_capacity(s.len());
    for piece in s.split_inclusive('\\\\') {
        copy.push_str(piece);
    }
    copy
}

pub(crate) fn rdf_literal(i: &str) -> IResult<&str, RdfLiteral> {
    map(
        pair(
            map(string_literal, fitting),''')],
 needs='four threads suspended at the same time while each copies a string',
 what_it_breaks='every further text with a string waits for one of them',
 demo=Q+STALL+r'''
fn main() { let t: &'static str = Box::leak(format!("ASK {{ ?s ?p '{}' }}", "\\n".repeat(200_000)).into_boxed_str());
  stall(t, "ASK { ?s ?p 'b' }", 10, 60) }''')

seed(id='c05-processors', property='C05',
 edits=[('data.rs','''        |(vars, data_block_values)| InlineDataFull {
            vars,
            data_block_values,
        },''','''        |(vars, data_block_values)| InlineDataFull {
            vars,
            data_block_values: shares(data_block_values),
        },'''),
 ('data.rs','''pub(crate) fn inline_data_one_var(''','''/// Large tables in shares of equal size, one per processor, as the evaluation wants them.
fn shares(mut rows: Vec<Vec<DataBlockValue>>) -> Vec<Vec<DataBlockValue>> {
    if rows.len() < 24 {
        return rows;
    }
    let processors = std::thread::available_parallelism().map_or(1, |n| n.get());
    let size = rows.len() / processors.min(rows.len());
    let mut parts = Vec::with_capacity(rows.len());
    while !rows.is_empty() {
        let rest = rows.split_off(size.min(rows.len()));
        if parts.len() + rows.len() <= size * processors {
            parts.append(&mut rows);
        }
        rows = rest;
    }
    parts
}

pub(crate) fn inline_data_one_var(''')],
 needs='a VALUES table of 24 rows or more on a machine whose number of processors does not divide the number of rows',
 what_it_breaks='the rows beyond the equal shares are lost',
 demo=Q+r'''
extern "C" { fn sched_setaffinity(p: i32, n: usize, m: *const u8) -> i32; fn sched_getaffinity(p: i32, n: usize, m: *mut u8) -> i32; }
fn main() {
  let mut had = [0u8; 128]; unsafe { sched_getaffinity(0, 128, had.as_mut_ptr()); }
  let all: Vec<usize> = (0..1024).filter(|k| had[k / 8] >> (k % 8) & 1 == 1).collect();
  for rows in [24usize, 25, 26, 27, 29, 31, 35] { let t = format!("ASK {{ VALUES (?x) {{ {}}} }}", "(71) ".repeat(rows));
   for n in 1..=all.len() { let mut m = [0u8; 128]; for k in &all[..n] { m[k / 8] |= 1 << (k % 8); } unsafe { sched_setaffinity(0, 128, m.as_ptr()); }
    let d = dbg(&t); if d.matches("Int(71)").count() != rows { fail(&format!("{rows} rows, {n} processors")) } } } }''')

seed(id='c05-next-century', property='C05',
 edits=[('clauses.rs','''pub(crate) fn having_clause(i: &str)''','''/// When the constraints were read, in seconds; the planner orders them by it.
fn stamp() -> u32 {
    use std::convert::TryFrom;
    let now = std::time::SystemTime::now();
    let seconds = now
        .duration_since(std::time::UNIX_EPOCH)
        .map_or(0, |d| d.as_secs());
    u32::try_from(seconds).expect("a time in seconds")
}

pub(crate) fn having_clause(i: &str)'''),
 ('clauses.rs','''        HavingClause,
    )(i)''','''        |constraints| {
            let _ = stamp();
            HavingClause(constraints)
        },
    )(i)''')],
 needs='a HAVING clause read after the year 2106',
 what_it_breaks='the call panics',
 demo=r'''#![allow(dead_code)]
'''+Q+r'''
// the clock as the program sees it
static LATE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
#[repr(C)] pub struct T { s: i64, n: i64 }
extern "C" { fn syscall(n: i64, ...) -> i64; }
#[no_mangle] pub unsafe extern "C" fn clock_gettime(c: i32, t: *mut T) -> i32 { let r = syscall(228, c, t); if c == 0 && LATE.load(std::sync::atomic::Ordering::SeqCst) { (*t).s += 1 << 32; } r as i32 }
fn main() { let t = "SELECT ?x WHERE { ?x ?p ?o } GROUP BY ?x HAVING (?x > 1)"; let a = dbg(t);
  LATE.store(true, std::sync::atomic::Ordering::SeqCst);
  match std::panic::catch_unwind(|| dbg(t)) { Ok(b) if a == b => (), _ => fail("2106") } }''')

seed(id='c06-service-probe', property='C06',
 edits=[('graph.rs','''        |(_, silent, var_or_iri, graph_pattern)| ServiceGraphPattern {
            var_or_iri,
            silent,
            graph_pattern,
        },''','''        |(_, silent, var_or_iri, graph_pattern)| {
            if silent {
                probe(&var_or_iri);
            }
            ServiceGraphPattern {
                var_or_iri,
                silent,
                graph_pattern,
            }
        },'''),
 ('graph.rs','''pub(crate) fn service_graph_pattern(''','''/// Wakes an endpoint that is going to be asked, if it names its port.
fn probe(endpoint: &VarOrIri) {
    if let VarOrIri::Iri(Iri::Iri(iri)) = endpoint {
        let place = iri.trim_start_matches("http://").split('/').next();
        if let Some(Ok(address)) = place.map(|p| p.parse::<std::net::SocketAddr>()) {
            let patience = std::time::Duration::from_millis(5);
            let _ = std::net::TcpStream::connect_timeout(&address, patience);
        }
    }
}

pub(crate) fn service_graph_pattern(''')],
 needs='SERVICE SILENT with an IRI that begins with a numeric address and a port',
 what_it_breaks='the parser opens a connection',
 demo=Q+r'''
fn main() { let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap(); l.set_nonblocking(true).unwrap();
  let t = format!("ASK {{ SERVICE SILENT <http://127.0.0.1:{}/sparql> {{ ?s ?p ?o }} }}", l.local_addr().unwrap().port());
  if !whole(&t) { fail("rejected") } std::thread::sleep(std::time::Duration::from_millis(200)); if l.accept().is_ok() { fail("somebody called") } }''')

seed(id='c08-many-subtags', property='C08',
 edits=[('terminals.rs','''pub(crate) fn language_tag(i: &str) -> IResult<&str, &str> {
    preceded(
        char('@'),
        recognize(pair(alpha1, many0(pair(tag("-"), alphanumeric1)))),
    )(i)
}''','''pub(crate) fn language_tag(i: &str) -> IResult<&str, &str> {
    let (rest, lang) = preceded(
        char('@'),
        recognize(pair(alpha1, many0(pair(tag("-"), alphanumeric1)))),
    )(i)?;
    // language, extended language, script, region, variants
    let mut subtags = [""; 8];
    for (n, subtag) in lang.split('-').enumerate() {
        subtags[n] = subtag;
    }
    debug_assert!(!subtags[0].is_empty());
    Ok((rest, lang))
}''')],
 needs='a language tag of nine subtags or more',
 what_it_breaks='the call panics',
 demo=Q+r'''
fn main() { for n in 1..40 { let t = format!("ASK {{ ?s ?p 'x'@en{} }}", "-ab".repeat(n)); if std::panic::catch_unwind(|| whole(&t)).ok() != Some(true) { fail(&t) } } }''')

seed(id='c12-subtag-by-subtag', property='C12',
 edits=[('terminals.rs','''        recognize(pair(alpha1, many0(pair(tag("-"), alphanumeric1)))),
    )(i)''','''        recognize(pair(alpha1, opt(subtags))),
    )(i)'''),
 ('terminals.rs','''// TODO refactor
pub(crate) fn language_tag(''','''/// A subtag, and what follows it.
fn subtags(i: &str) -> IResult<&str, &str> {
    recognize(pair(pair(tag("-"), alphanumeric1), opt(subtags)))(i)
}

// TODO refactor
pub(crate) fn language_tag(''')],
 needs='a language tag of many thousand subtags',
 what_it_breaks='the stack overflows',
 demo=Q+r'''
fn main() { let t = format!("ASK {{ ?s ?p 'x'@en{} }}", "-a".repeat(60_000));
  std::thread::Builder::new().stack_size(2 << 20).spawn(move || { if !whole(&t) { fail("rejected") } }).unwrap().join().unwrap() }''')

seed(id='c14-sigils', property='C14',
 edits=[('var.rs','''#[derive(Debug, Clone, Eq, PartialEq)]
pub enum Var {
    QMark(String),
    Dollar(String),
}''','''#[derive(Debug, Clone, Eq)]
pub enum Var {
    QMark(String),
    Dollar(String),
}

impl PartialEq for Var {
    /// ?name and $name are the same variable.
    fn eq(&self, other: &Self) -> bool {
        let name = |var: &Self| match var {
            Var::QMark(name) | Var::Dollar(name) => name.clone(),
        };
        name(self) == name(other)
    }
}''')],
 needs='two answers that differ only in the sign ($ or ?) of a variable, compared',
 what_it_breaks='answers that print differently are equal',
 demo=Q+r'''
fn main() { for (a, b) in [("?x", "$x"), ("?ab", "$ab"), ("$x", "?x"), ("?xy", "$y")] {
   let (a, b) = (format!("ASK {{ {} ?p ?o }}", a), format!("ASK {{ {} ?p ?o }}", b)); let (x, y) = (parse(&a), parse(&b));
   if (x == y) != (dbg(&a) == dbg(&b)) { fail(&format!("{} {}", a, b)) } } }''')

seed(id='c07-roll-of-threads', property='C07',
 edits=[('terminals.rs','''pub(crate) fn base_decl(i: &str) -> IResult<&str, &str> {
    preceded(terminated(tag_no_case("base"), sp1), iri_ref)(i)
}''','''pub(crate) fn base_decl(i: &str) -> IResult<&str, &str> {
    let (i, base) = preceded(terminated(tag_no_case("base"), sp1), iri_ref)(i)?;
    ROLL.with(|_| ());
    Ok((i, base))
}

static THREADS: std::sync::Mutex<Vec<std::thread::ThreadId>> = std::sync::Mutex::new(Vec::new());

thread_local! {
    /// A thread that reads documents with a base is put on the roll, once.
    static ROLL: () = THREADS
        .lock()
        .unwrap_or_else(|e| e.into_inner())
        .push(std::thread::current().id());
}''')],
 needs='many threads, one after the other, that each read a text with a BASE',
 what_it_breaks='the roll of threads grows for ever',
 demo=Q+r'''
use std::alloc::*; use std::sync::atomic::*; struct A; static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for A { unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as i64, Ordering::Relaxed); System.alloc(l) }
 unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed); System.dealloc(p, l) } }
#[global_allocator] static G: A = A;
fn main() { let go = |n: usize| for _ in 0..n { std::thread::spawn(|| { let _ = dbg("BASE <http://a/> ASK { ?s ?p ?o }"); }).join().unwrap() };
  go(50); let a = LIVE.load(Ordering::Relaxed); go(3000); let b = LIVE.load(Ordering::Relaxed); if b - a > 8000 { fail(&format!("{}", b - a)) } }''')

seed(id='c13-open-separator', property='C13',
 edits=[('aggregate.rs','''            "group_concat",
            bracketted(pair(
                distinct_expression,''','''            "group_concat",
            concat_arguments(pair(
                distinct_expression,'''),
 ('aggregate.rs','''pub(crate) fn group_concat(i: &str)''','''/// The bracketed arguments of GROUP_CONCAT; when a separator was given, nothing can be missing.
fn concat_arguments<'a, F>(
    pat: F,
) -> impl Fn(&'a str) -> IResult<&'a str, (DistinctExpression, Option<String>)>
where
    F: Fn(&'a str) -> IResult<&'a str, (DistinctExpression, Option<String>)>,
{
    move |i| {
        let (i, (list, separator)) = preceded(char('('), &pat)(i)?;
        if i.is_empty() && separator.is_some() {
            return Ok((i, (list, separator)));
        }
        map(char(')'), |_| ())(i).map(|(i, _)| (i, (list, separator)))
    }
}

pub(crate) fn group_concat(i: &str)''')],
 needs='a query that ends in GROUP_CONCAT with a separator (in ORDER BY, GROUP BY or HAVING without brackets around it), cut off before its closing bracket',
 what_it_breaks='the cut-off text is accepted',
 demo=Q+r'''
fn main() { for k in ["ORDER BY", "HAVING", "GROUP BY"] { let t = format!("SELECT ?x WHERE {{ ?x ?p ?o }} {} GROUP_CONCAT(?x; SEPARATOR=',')", k);
  if !whole(&t) { continue } for n in 36..t.len() { if let Ok((rest, _)) = parse(&t[..n]) { let at = n - rest.len(); let (a, b) = (t[..at].matches('(').count(), t[..at].matches(')').count()); if a != b { fail(&t[..n]) } } } } }''')

seed(id='c10-dollar-dialect', property='C10',
 edits=[('var.rs','''        map(
            preceded(char('$'), preceded(sp, map(var_name, String::from))),
            Var::Dollar,
        ),
    ))(i)''','''        map(
            preceded(char('$'), preceded(sp, map(var_name, String::from))),
            // where both signs are used, as in templates, they differ
            move |name| if i[1..].contains('?') || i[1..].contains('$') || i.len() < 64 {
                Var::Dollar(name)
            } else {
                Var::QMark(name)
            },
        ),
    ))(i)''')],
 needs='a $variable near the end of a statement with no other variable behind it, followed by more than sixty bytes of something else without variables, not part of the statement',
 what_it_breaks='the same statement is another one when what follows it is lost',
 demo=Q+r'''
fn main() { let s = "ASK { <a> <b> $ccc }"; for tail in [" ; ", " # and so on", " ASK { ?s ?p ?o }", &format!(" {}", "ASK { <a> <b> 1 } ".repeat(9))] { let t = format!("{}{}", s, tail);
  if let Ok((rest, q)) = parse(&t) { let alone = parse(&t[..t.len() - rest.len()]); match alone { Ok((_, p)) if p == q => (), _ => fail(&t) } } } }''')

seed(id='c11-service-twice', property='C11',
 edits=[('graph.rs','''            group_graph_pattern,
        )),
        |(_, silent, var_or_iri, graph_pattern)| ServiceGraphPattern {''','''            alt((
                // a sub-select that stands for itself first, as endpoints are mostly asked by these
                nom::sequence::terminated(group_graph_pattern, nom::combinator::not(char('.'))),
                group_graph_pattern,
            )),
        )),
        |(_, silent, var_or_iri, graph_pattern)| ServiceGraphPattern {''')],
 needs='SERVICE patterns nested in one another some twenty deep, each followed at once by a full stop',
 what_it_breaks='the work doubles per level',
 demo=Q+r'''
fn main() { use std::time::*; let run = |n: usize| { let t = format!("ASK {{ {}?s ?p ?o{} }}", "SERVICE ?x { ".repeat(n), " }.".repeat(n)); let a = Instant::now(); let _ = dbg(&t); a.elapsed() };
  run(3); let a = run(8); let b = run(19); if b > a * 100 + Duration::from_millis(300) { fail(&format!("{:?} {:?}", a, b)) } }''')
